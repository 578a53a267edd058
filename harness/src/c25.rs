//! C25: a go-away of the peer, whatever it says, ends the connection in an orderly way.
use crate::monitor::*;
use crate::ops::Op::*;
use crate::world::*;

fn goaway(client: bool, k: usize) {
    vsym::lengths_mode();
    let mut w = World::started(client, Config::default(), M_TERM | M_API | M_LIFE);
    w.step(&[Open, PSynData, PSynWin]);
    w.steps(k, &[Write(0), Read(0), PData(0), PDataFin(0), CloseS(0), Open]);
    let code = vsym::u32("code");
    let flags = vsym::u16("flags");
    let sid = vsym::u32("stream");
    let before = w.n().out.len();
    w.peer(GOAWAY, flags, sid, code);
    // nothing after it counts
    w.peer(DATA, SYN, w.peer_id(7), 10);
    let r = w.poll();
    check(r.is_empty(), "no stream after a go-away");
    check(w.end == End::None, "a go-away ends the connection without an error");
    check(w.n().out.len() == before, "a go-away is not answered");
    w.judge_finished();
    witness(true, "go-away received");
}
entry!(h_c25_c, goaway(true, 3));
entry!(h_c25_s, goaway(false, 3));
