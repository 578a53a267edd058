//! C12: at most 256 streams opened by us wait for their acknowledgement.
use crate::ops::Op::*;
use crate::world::*;

const BACKLOG: usize = 256;
fn pending(w: &World) -> usize {
    let n = w.n();
    w.ids.iter().filter(|id| {
        let m = n.mon.get(**id);
        let ended = m.rst_in > 0 || m.fin_in > 0 || m.closed || m.dropped;
        m.ours && m.ack_in == 0 && !ended
    }).count()
}
/// The backlog is full; the task that opens streams waits. Events make room or not.
fn full(client: bool, k: usize, moving: bool) {
    vsym::lengths_mode();
    let mut w = World::started(client, Config::default(), 0);
    for _ in 0..BACKLOG {
        w.must_open();
    }
    check(w.open().is_pending(), "with 256 unacknowledged streams opening waits");
    w.auto = false;
    if moving {
        wake::moving();
        check(w.open().is_pending(), "with 256 unacknowledged streams opening waits");
    }
    // two of them are known to the peer
    let _ = w.write_n(0, 1);
    let _ = w.write_n(1, 1);
    w.poll();
    let alphabet = [PAck(0), PRst(0), PDataFin(0), CloseS(0), Drop(0), PSynWin, PAck(1), PRst(1)];
    for _ in 0..k {
        w.step(&alphabet);
        let before = w.ids.len();
        w.quiesce();
        let opened = w.ids[before..].iter().filter(|id| (**id & 1 == 1) == client).count();
        witness(opened == 1, "room was made and the waiting task opened a stream");
        check(pending(&w) <= BACKLOG, "no more than 256 streams of ours are unacknowledged");
        w.judge_quiet();
        if w.park_open.is_none() {
            // the waiting task got its stream; it wants another
            let room = pending(&w) < BACKLOG;
            let r = w.open();
            check(r.is_pending() == !room, "opening waits exactly when 256 streams are unacknowledged");
        }
    }
}
/// What counts as acknowledged, for one stream.
fn one(client: bool, k: usize) {
    vsym::lengths_mode();
    let mut w = World::started(client, Config::default(), 0);
    w.step(&[Open, PSynData, PSynWin]);
    let id = w.ids[0];
    for _ in 0..k {
        w.step(&[Write(0), Read(0), CloseS(0), PAck(0), PData(0), PDataFin(0), PRst(0)]);
        let m = w.ms(id);
        let p = w.streams[0].as_ref().unwrap().is_pending_ack();
        let over = m.rst_in > 0 || m.fin_in > 0 || m.closed;
        if m.ours {
            check(p == (m.ack_in == 0 && !over), "a stream of ours waits for its acknowledgement until the peer's ACK");
        } else {
            check(p == (m.ack_out == 0 && !over), "a stream of the peer is unacknowledged until our ACK");
        }
        witness(!p && m.updates_out > 0 && !m.ours && m.data_out == 0, "acknowledged with a window update");
    }
}
entry!(h_c12_full_c, full(true, 2, false));
entry!(h_c12_full_s, full(false, 1, true));
entry!(h_c12_one_c, one(true, 4));
entry!(h_c12_one_s, one(false, 4));
entry!(h_c12_full_deep, full(true, 3, false));
entry!(h_c12_one_deep, one(true, 5));
