//! C23: round-trip pings: one at the start, then at least ten seconds after each pong, one at a
//! time, each with a value of its own.
use crate::monitor::*;
use crate::ops::Op::*;
use crate::ops::advance;
use crate::world::*;
use std::time::Duration;

fn history(client: bool, k: usize, lazy: bool) {
    vsym::lengths_mode();
    let mut w = World::new(client, Config::default(), M_PING);
    w.must_open();
    w.auto = false;
    w.run(Write(0));
    w.poll();
    check(w.n().out[0].tag == PING, "the first frame is a ping");
    for _ in 0..k {
        match vsym::choice(4, "op") {
            0 => advance(),
            1 => w.step(&[PPong]),
            2 => w.step(&[Write(0), PData(0), PPing, Block]),
            _ => w.set_write(Wr::Accept),
        }
        if lazy && vsym::flip("lazy") {
            continue;
        }
        let (waiting, before, wr, last) = {
            let n = w.n();
            (n.mon.rtt_waiting, n.mon.rtt_out.len(), n.wr, n.mon.pong_at)
        };
        w.poll();
        check(w.end == End::Pending, "the connection goes on");
        let n = w.n();
        let sent = n.mon.rtt_out.len() - before;
        let now = web_time::model::last();
        if let Some(t) = n.mon.pong_at {
            let due = now >= t + Duration::from_secs(10);
            check(sent == 0 || due || last.is_some_and(|t| now >= t + Duration::from_secs(10)), "no ping sooner than ten seconds after a pong");
            if !waiting && wr == Wr::Accept {
                check(!due || sent == 1, "ten seconds after a pong the next ping is sent");
                witness(due, "a second ping");
                witness(!due && now > t, "too early for a ping");
            }
        } else {
            check(sent == 0, "no second ping before the pong");
        }
    }
}
/// A pong that does not answer the ping.
fn wrong(client: bool) {
    vsym::lengths_mode();
    let mut w = World::started(client, Config::default(), M_PING);
    w.must_open();
    let first = w.n().mon.rtt_out[0];
    let twice = vsym::flip("answered");
    if twice {
        w.run(PPong);
        w.poll();
    }
    let v = vsym::u32("value");
    let flags = vsym::u16("flags");
    let sid = vsym::u32("stream");
    vsym::assume(flags & ACK != 0);
    w.peer(PING, flags, sid, v);
    w.poll();
    let bad = twice || v != first;
    let n = w.n();
    check(w.end == End::Pending, "the connection goes on to answer");
    check(n.mon.goaways.len() == bad as usize && (!bad || n.mon.goaways[0] == 1), "a pong nobody asked for is a protocol error, and only that");
    check(n.mon.pongs_out == 0, "a pong is not answered with a pong");
    witness(!bad, "the right pong");
}
entry!(h_c23_c, history(true, 4, false));
entry!(h_c23_s, history(false, 4, false));
entry!(h_c23_lazy, history(true, 3, true));
entry!(h_c23_wrong_c, wrong(true));
entry!(h_c23_wrong_s, wrong(false));
entry!(h_c23_deep, history(true, 5, false));
