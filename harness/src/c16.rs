//! C16: whoever waits is woken when it can go on.
use crate::ops::Op::*;
use crate::sched::ASK;
use crate::world::*;

fn config() -> Config {
    let mut c = Config::default();
    c.set_split_send_size(1 << 20);
    c
}
fn finish(w: &mut World) {
    w.set_write(Wr::Accept);
    w.quiesce();
    w.judge_quiet();
}
/// A stream of ours or of the peer, with everything that can happen to it.
fn one(client: bool, ours: bool, k: usize) {
    vsym::lengths_mode();
    let mut w = World::started(client, config(), 0);
    w.split_tasks = false;
    if ours {
        w.must_open();
    } else {
        w.step(&[PSynData, PSynWin]);
    }
    w.auto = false;
    w.steps(k, &[Write(0), Read(0), CloseS(0), RunConn, PData(0), PDataFin(0), PWin(0), PRst(0), Block, Unblock]);
    finish(&mut w);
}
/// All credit used up.
fn credit(k: usize) {
    vsym::lengths_mode();
    let mut w = World::started(true, config(), 0);
    w.must_open();
    let _ = w.write_n(0, CREDIT as u32);
    w.poll();
    w.auto = false;
    let _ = w.write_n(0, 1);
    check(w.park_w[0].is_some(), "a write without credit waits");
    w.steps(k, &[Write(0), Read(0), RunConn, PData(0), PWinFin(0), PWin(0), PRst(0), PGoAway, Close, PPing]);
    finish(&mut w);
}
/// The queue of the stream is full and the transport is blocked.
fn full(k: usize) {
    vsym::lengths_mode();
    let mut w = World::started(true, config(), 0);
    w.split_tasks = false;
    w.must_open();
    w.set_write(Wr::Block);
    let mut n = 0;
    for _ in 0..20 {
        w.poll();
        if w.write_n(0, 1).is_pending() {
            break;
        }
        n += 1;
    }
    check(n < 20, "writing to a blocked transport waits some time");
    w.auto = false;
    w.steps(k, &[Write(0), Read(0), Flush(0), RunConn, PData(0), CloseS(0), PRst(0), Block, Unblock, PPing]);
    finish(&mut w);
}
/// Streams that appear while the connection waits.
fn opening(client: bool, k: usize) {
    vsym::lengths_mode();
    let mut w = World::started(client, config(), 0);
    w.auto = false;
    w.steps(k, &[Open, Write(0), Write(1), CloseS(0), Drop(0), PSynData, RunConn, Read(0)]);
    finish(&mut w);
}
/// Reader and writer of a stream are different tasks.
fn split(k: usize, full: bool) {
    vsym::lengths_mode();
    let mut w = World::started(true, config(), 0);
    w.must_open();
    w.split_tasks = true;
    if full {
        w.run(Write(0));
        w.poll();
        w.set_write(Wr::Block);
        for _ in 0..20 {
            w.poll();
            if w.write_n(0, 1).is_pending() {
                break;
            }
        }
    }
    w.auto = false;
    w.steps(k, &[Write(0), Read(0), Flush(0), RunConn, PData(0), PWin(0), PDataFin(0)]);
    finish(&mut w);
}
/// Tasks that come with another waker each time they wait: the last one is woken.
fn moving(client: bool, from: u8, k: usize) {
    vsym::lengths_mode();
    let mut w = World::started(client, config(), 0);
    w.split_tasks = true;
    wake::moving();
    w.must_open();
    match from {
        // no credit
        0 => {
            let _ = w.write_n(0, CREDIT as u32);
            w.poll();
        }
        // the queue full
        _ => {
            w.run(Write(0));
            w.poll();
            w.set_write(Wr::Block);
            for _ in 0..20 {
                w.poll();
                if w.write_n(0, 1).is_pending() {
                    break;
                }
            }
        }
    }
    w.auto = false;
    let _ = w.write_n(0, 1);
    let _ = w.read_n(0, ASK);
    check(w.park_w[0].is_some() && w.park_r[0].is_some(), "reader and writer wait");
    w.steps(k, &[Write(0), Read(0), RunConn, PData(0), PWin(0), PWinFin(0), PRst(0), Unblock, Open, Drop(1), Packet(0)]);
    finish(&mut w);
}
entry!(h_c16_moving_c, moving(true, 0, 4));
entry!(h_c16_moving_s, moving(false, 1, 3));
entry!(h_c16_moving_deep, moving(false, 1, 4));
entry!(h_c16_out_c, one(true, true, 5));
entry!(h_c16_out_s, one(false, true, 4));
entry!(h_c16_in_c, one(true, false, 3));
entry!(h_c16_in_s, one(false, false, 3));
entry!(h_c16_credit, credit(4));
entry!(h_c16_full, full(4));
entry!(h_c16_open_c, opening(true, 5));
entry!(h_c16_open_s, opening(false, 5));
entry!(h_c16_split, split(5, false));
entry!(h_c16_split_full, split(3, true));
entry!(h_c16_credit5, credit(5));
entry!(h_c16_full5, full(5));
entry!(h_c16_in_deep, one(true, false, 4));
entry!(h_c16_open6, opening(true, 6));
