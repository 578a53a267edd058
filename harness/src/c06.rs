//! C06: the receive window never shrinks for good and never exceeds its maximum.
use crate::monitor::*;
use crate::ops::Op::*;
use crate::world::*;

/// After the application has read everything the peer can send at least half a window.
fn judge(w: &mut World) {
    w.set_write(Wr::Accept);
    w.quiesce();
    for i in 0..w.streams.len() {
        if !w.live(i) {
            continue;
        }
        let id = w.ids[i];
        let (_, eof) = w.drain(i);
        w.quiesce();
        let m = w.ms(id);
        check(m.rwin <= w.n().mon.max_window, "the window does not exceed its maximum");
        if !eof && w.end == End::Pending && m.fin_in == 0 && m.rst_in == 0 {
            check(m.rwin >= CREDIT / 2, "after reading everything the peer can send half a window");
            witness(m.updates_out > 0, "a window update was sent");
            witness(m.granted > 2 * CREDIT, "more than twice the window granted");
        }
    }
}
fn history(client: bool, k: usize, first: &[crate::ops::Op], auto: bool) {
    vsym::lengths_mode();
    let mut w = World::started(client, Config::default(), M_WINDOW);
    w.step(first);
    if w.ids[0] & 1 == client as u32 {
        w.run(Write(0));
        w.poll();
    }
    w.auto = auto;
    if auto {
        w.steps(k, &[PData(0), Read(0), CloseS(0), Write(0)]);
    } else {
        w.steps(k, &[PData(0), Read(0), RunConn, Block, Unblock, Write(0)]);
    }
    judge(&mut w);
}
/// Mostly data, so that the whole window is used several times.
fn bulk(client: bool, k: usize, tune: bool) {
    vsym::lengths_mode();
    let mut w = World::started(client, Config::default(), M_WINDOW);
    if tune {
        w.n().mon.max_window = u64::MAX;
        crate::ops::advance();
        w.run(PPong);
    }
    w.run(PSynData);
    w.poll();
    for _ in 0..k {
        w.step(&[PData(0), Read(0)]);
        let _ = w.read_n(0, 1 << 20);
        w.poll();
    }
    judge(&mut w);
}
/// Received data is taken in chunks.
fn packets(client: bool, k: usize) {
    vsym::lengths_mode();
    let mut w = World::started(client, Config::default(), M_WINDOW);
    w.run(PSynData);
    w.poll();
    for _ in 0..k {
        if vsym::flip("take") {
            let _ = w.packet(0);
        } else {
            w.run(PData(0));
        }
        w.poll();
    }
    for _ in 0..=k + 1 {
        let _ = w.packet(0);
    }
    w.poll();
    let m = w.ms(w.ids[0]);
    check(m.unread() == 0, "all chunks were taken");
    check(m.rwin >= CREDIT / 2 && m.rwin <= CREDIT, "after reading everything the peer can send half a window");
    witness(m.updates_out > 0, "a window update was sent");
}
/// A reader that waits when the data arrives gets it and the peer its window.
fn waiting(client: bool, k: usize) {
    vsym::lengths_mode();
    let mut w = World::started(client, Config::default(), M_WINDOW);
    w.must_open();
    w.run(Write(0));
    w.poll();
    w.auto = false;
    let _ = w.read_n(0, crate::sched::ASK);
    w.quiesce();
    for _ in 0..k {
        w.step(&[PData(0), Block, Unblock, Write(0)]);
        w.quiesce();
    }
    judge(&mut w);
}
entry!(h_c06_out_c, history(true, 4, &[Open], true));
entry!(h_c06_out_s, history(false, 4, &[Open], true));
entry!(h_c06_in_c, history(true, 3, &[PSynData, PSynWin], true));
entry!(h_c06_in_s, history(false, 3, &[PSynData, PSynWin], true));
entry!(h_c06_lazy_c, history(true, 4, &[Open], false));
entry!(h_c06_lazy_s, history(false, 3, &[Open, PSynData], false));
entry!(h_c06_bulk_c, bulk(true, 4, false));
entry!(h_c06_bulk_s, bulk(false, 4, true));
entry!(h_c06_packets, packets(true, 5));
entry!(h_c06_waiting, waiting(true, 4));
entry!(h_c06_lazy5, history(true, 5, &[Open, PSynData], false));
entry!(h_c06_bulk4, bulk(true, 4, true));
entry!(h_c06_out_deep, history(true, 5, &[Open], true));
entry!(h_c06_in_deep, history(false, 4, &[PSynData, PSynWin], true));
entry!(h_c06_bulk5, bulk(true, 5, true));
