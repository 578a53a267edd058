//! C18: what is queued is bounded: a blocked transport blocks writers, and the reading of frames
//! that want an answer.
use crate::ops::Op::*;
use crate::world::*;

/// Accepted frames a stream may have queued: generous, but a fixed number.
const BOUND: usize = 16;

/// Write until the stream does not accept any more; how many writes were accepted.
fn fill(w: &mut World, i: usize, poll: bool) -> usize {
    for k in 0..=BOUND {
        let n = vsym::u32("write");
        vsym::assume(n > 0);
        let id = w.ids[i];
        match w.write_n(i, n) {
            Poll::Ready(Ok(_)) => {}
            Poll::Ready(Err(_)) => check(false, "a write to an open stream does not fail"),
            Poll::Pending => {
                let m = w.ms(id);
                witness(m.avail() > 0, "a writer waits although it has credit");
                return k;
            }
        }
        if poll {
            w.poll();
        }
    }
    check(false, "a blocked transport blocks writers");
    0
}
fn writers(client: bool, streams: usize, poll: bool, flush: bool) {
    vsym::lengths_mode();
    let mut w = World::started(client, Config::default(), 0);
    w.set_write(Wr::Block);
    for i in 0..streams {
        w.must_open();
        let k = fill(&mut w, i, poll);
        check(k > 0, "a stream accepts something");
        if flush {
            let f = w.flush(i);
            witness(f.is_pending(), "a flush waits");
        }
    }
    // unblocked, all of it is sent, and writing goes on
    w.set_write(Wr::Accept);
    w.poll();
    for i in 0..streams {
        let m = w.ms(w.ids[i]);
        check(m.data_out == m.wrote, "what was accepted is sent");
        check(m.avail() == 0 || w.write_n(i, 1).is_ready(), "writing goes on");
    }
}
/// A peer that sends pings but does not take the answers.
fn pings(client: bool) {
    vsym::lengths_mode();
    let mut w = World::started(client, Config::default(), 0);
    w.set_write(Wr::Block);
    let k = BOUND + 4;
    for _ in 0..k {
        w.run(PPing);
        w.poll();
    }
    check(w.n().mon.pings_in.len() <= BOUND, "with answers waiting no more pings are read");
    check(!w.n().drained(), "with answers waiting the peer is not read from");
    w.set_write(Wr::Accept);
    w.poll();
    let n = w.n();
    check(n.mon.pongs_out == k && n.drained(), "unblocked, every ping is answered");
}
/// A reader's window updates do not pile up either.
fn readers(client: bool) {
    vsym::lengths_mode();
    let mut w = World::started(client, Config::default(), crate::monitor::M_WINDOW);
    w.run(PSynData);
    w.poll();
    w.set_write(Wr::Block);
    for _ in 0..4 {
        let id = w.ids[0];
        let n = w.peer_window(id) as u32;
        w.pstate(id).sent += n as u64;
        w.peer(DATA, 0, id, n);
        w.poll();
        w.drain(0);
        w.poll();
    }
    // no window update has reached the peer
    let m = w.ms(w.ids[0]);
    check(m.data_in <= CREDIT && m.updates_out == 0, "with the transport blocked the peer gets no further window");
    w.set_write(Wr::Accept);
    w.poll();
    w.drain(0);
    w.poll();
    let m = w.ms(w.ids[0]);
    check(m.rwin >= CREDIT / 2 && m.rwin <= CREDIT, "unblocked, the peer has its window");
}
/// Streams opened, written and dropped while the transport is blocked: their number is limited.
fn dropped(client: bool, max: usize) {
    vsym::lengths_mode();
    let mut c = Config::default();
    c.set_max_num_streams(max);
    let mut w = World::started(client, c, 0);
    w.set_write(Wr::Block);
    let mut n = 0;
    for _ in 0..4 * max {
        match w.open() {
            Poll::Ready(Ok(i)) => {
                let _ = w.write_n(i, 10);
                if vsym::flip("drop") {
                    w.drop_stream(i);
                }
                n += 1;
            }
            Poll::Ready(Err(e)) => {
                check(e == ErrKind::TooManyStreams, "too many streams are refused");
                witness(true, "too many streams at a blocked transport");
                return;
            }
            Poll::Pending => return,
        }
        w.poll();
    }
    check(n <= max + 2, "with the transport blocked the number of streams is limited");
}
entry!(h_c18_write_c, writers(true, 2, true, false));
entry!(h_c18_write_s, writers(false, 1, false, true));
entry!(h_c18_lazy, writers(true, 2, false, false));
entry!(h_c18_ping_c, pings(true));
entry!(h_c18_ping_s, pings(false));
entry!(h_c18_read_c, readers(true));
entry!(h_c18_read_s, readers(false));
entry!(h_c18_drop, dropped(true, 3));
