//! C13: every ping is answered, once, in order, with its value, and nothing else is.
use crate::monitor::*;
use crate::ops::Op::*;
use crate::world::*;

fn pings(client: bool, k: usize, lazy: bool) {
    vsym::lengths_mode();
    let mut w = World::started(client, Config::default(), M_PING);
    w.must_open();
    w.run(Write(0));
    w.poll();
    w.auto = !lazy;
    w.steps(k, &[PPing, Write(0), PData(0), PPong, PPingS(0), Block, Unblock, Time]);
    w.settle();
    let n = w.n();
    check(n.mon.pongs_out == n.mon.pings_in.len(), "every ping is answered");
    witness(n.mon.pings_in.len() >= 3, "three pings");
}
/// Any ping frame: any flags, any stream.
fn any(client: bool) {
    vsym::lengths_mode();
    let mut w = World::started(client, Config::default(), M_PING);
    w.must_open();
    let flags = vsym::u16("flags");
    let sid = vsym::u32("stream");
    let v = vsym::u32("value");
    vsym::assume(flags & ACK == 0);
    w.peer(PING, flags, sid, v);
    w.poll();
    check(w.end == End::Pending, "a ping does not end the connection");
    let n = w.n();
    let known = sid == 0 || sid == w.ids[0];
    check(!known || n.mon.pongs_out == 1, "a ping is answered");
    check(n.mon.pongs_out <= 1, "a ping is answered once");
    witness(n.mon.pongs_out == 1 && sid != 0, "a ping for a stream answered");
    check(n.mon.goaways.is_empty(), "a ping is no violation");
}
entry!(h_c13_c, pings(true, 5, false));
entry!(h_c13_s, pings(false, 4, false));
entry!(h_c13_lazy, pings(true, 5, true));
entry!(h_c13_any_c, any(true));
entry!(h_c13_any_s, any(false));
entry!(h_c13_deep, pings(false, 5, false));
