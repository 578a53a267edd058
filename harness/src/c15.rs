//! C15: an orderly close sends everything accepted before it, then one go-away, and then closes
//! the transport.
use crate::monitor::*;
use crate::ops::Op::*;
use crate::world::*;

/// The close is driven until it is done; the transport may make it wait.
fn drive(w: &mut World) -> Poll<Result<(), ErrKind>> {
    for _ in 0..6 {
        let r = w.close();
        if r.is_ready() {
            return r;
        }
        witness(true, "the close waits for the transport");
        w.set_write(Wr::Accept);
        let mut n = w.n();
        n.fl = Wr::Accept;
        n.cl = Wr::Accept;
    }
    Poll::Pending
}
fn judge(w: &mut World, pings: usize) {
    let n = w.n();
    check(!n.mid_frame(), "whole frames are sent");
    check(n.closed && n.closes >= 1, "the transport is closed");
    check(n.mon.goaways == [0], "one go-away is sent, saying that all is well");
    check(n.out.last().is_some_and(|f| f.tag == GOAWAY), "the go-away is the last frame");
    check(n.mon.pongs_out == pings, "a ping read before the close is answered");
    for m in &n.mon.s {
        check(m.data_out == m.wrote, "everything accepted before the close is sent");
        if m.closed && m.rst_in == 0 {
            check(m.fin_out == 1, "the end of a stream closed before is sent");
        }
        witness(m.data_out > CREDIT / 2, "much data sent");
    }
}
fn history(client: bool, k: usize, busy: bool) {
    vsym::lengths_mode();
    let mut w = World::started(client, Config::default(), M_ALL & !M_API);
    w.must_open();
    w.auto = false;
    if busy {
        w.run(Write(0));
        w.set_write(Wr::Block);
        w.poll();
    }
    w.steps(k, &[Write(0), CloseS(0), Drop(0), PSynData, Write(1), CloseS(1), PollC, PPing, Read(1)]);
    let pings = w.n().mon.pings_in.len();
    match vsym::choice(3, "transport") {
        0 => {}
        1 => w.set_write(Wr::Block),
        _ => w.n().fl = Wr::Block,
    }
    if vsym::flip("slow close") {
        w.n().cl = Wr::Block;
    }
    let r = drive(&mut w);
    check(r == Poll::Ready(Ok(())), "the close succeeds");
    judge(&mut w, pings);
    check(w.close() == Poll::Ready(Ok(())), "closing again succeeds");
    w.end = End::None;
    w.judge_finished();
}
/// While the close waits, streams are used and the connection is polled otherwise.
fn during(client: bool, k: usize) {
    vsym::lengths_mode();
    let mut w = World::started(client, Config::default(), M_LIFE | M_TERM | M_CREDIT | M_SIZE);
    w.must_open();
    w.run(Write(0));
    w.run(PSynData);
    w.poll();
    w.set_write(Wr::Block);
    w.auto = false;
    w.run(Write(0));
    let before = w.ms(w.ids[0]).wrote;
    check(w.close().is_pending(), "the close waits for the transport");
    for _ in 0..k {
        match vsym::choice(5, "op") {
            0 => w.step(&[Write(0), Read(0), CloseS(0), Drop(0)]),
            1 => w.step(&[Write(1), Read(1), CloseS(1), Drop(1)]),
            2 => {
                check(w.open() == Poll::Ready(Err(ErrKind::Closed)) || w.park_open.is_some(), "no stream is opened during a close");
            }
            3 => {
                check(w.poll().is_empty(), "no stream arrives during a close");
            }
            _ => {
                w.run(PData(0));
            }
        }
    }
    let after = w.ms(w.ids[0]).wrote;
    check(after == before, "nothing is accepted after the close");
    let r = drive(&mut w);
    check(r == Poll::Ready(Ok(())), "the close succeeds");
    let n = w.n();
    check(n.closed && n.mon.goaways == [0], "one go-away is sent and the transport is closed");
    check(n.mon.s[0].data_out == after, "everything accepted before the close is sent");
}
/// Many streams, all with something to send.
fn many(client: bool, streams: usize) {
    vsym::lengths_mode();
    let mut w = World::started(client, Config::default(), M_LIFE | M_TERM | M_CREDIT);
    w.auto = false;
    for i in 0..streams {
        w.must_open();
        w.run(Write(i));
        w.run(Write(i));
        if i % 2 == 0 {
            let _ = w.close_stream(i);
        } else {
            w.drop_stream(i);
        }
    }
    check(drive(&mut w) == Poll::Ready(Ok(())), "the close succeeds");
    judge(&mut w, 0);
}
entry!(h_c15_c, history(true, 4, false));
entry!(h_c15_s, history(false, 4, false));
entry!(h_c15_busy_c, history(true, 4, true));
entry!(h_c15_busy_s, history(false, 3, true));
entry!(h_c15_during_c, during(true, 3));
entry!(h_c15_during_s, during(false, 3));
entry!(h_c15_many, many(true, 6));
entry!(h_c15_deep, history(true, 5, false));
entry!(h_c15_during_deep, during(true, 4));
