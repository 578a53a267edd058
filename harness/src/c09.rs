//! C09: one SYN first, one ACK first, one FIN last; nothing of a stream after its FIN or RST.
use crate::monitor::*;
use crate::ops::Op::*;
use crate::world::*;

fn wit(w: &mut World) {
    for id in w.ids.clone() {
        let m = w.ms(id);
        witness(m.fin_out > 0 && m.updates_out > 0, "window update and FIN sent");
        witness(m.rst_out > 0, "reset sent");
        witness(m.fin_out > 0 && m.data_out > 0, "data and FIN sent");
        check(m.fin_out == 0 || m.closed || m.dropped, "FIN only for a closed or dropped stream");
        if m.closed && !m.dropped && w.end == End::Pending {
            check(m.fin_out == 1 || m.rst_in > 0, "a closed stream's FIN is sent");
        }
    }
}
fn outbound(client: bool, k: usize) {
    vsym::lengths_mode();
    let mut w = World::started(client, Config::default(), M_LIFE | M_IDS);
    w.must_open();
    w.steps(k, &[Write(0), Read(0), CloseS(0), Drop(0), PData(0), PWinFin(0), PRst(0), PAck(0)]);
    w.settle();
    wit(&mut w);
}
fn inbound(client: bool, k: usize) {
    vsym::lengths_mode();
    let mut w = World::started(client, Config::default(), M_LIFE | M_IDS);
    w.step(&[PSynData, PSynWin]);
    w.steps(k, &[Write(0), Read(0), CloseS(0), Drop(0), PData(0), PWinFin(0), PRst(0)]);
    w.settle();
    wit(&mut w);
}
/// The connection is polled only now and then.
fn lazy(k: usize, ours: bool) {
    vsym::lengths_mode();
    let mut w = World::started(true, Config::default(), M_LIFE | M_IDS);
    if ours {
        w.must_open();
    } else {
        w.step(&[PSynData, PSynWin]);
    }
    w.auto = false;
    w.steps(k, &[Write(0), Read(0), CloseS(0), Drop(0), PData(0), PDataFin(0), PRst(0), PollC]);
    w.settle();
    wit(&mut w);
}
/// An orderly close of the connection somewhere in the history.
fn closing(k: usize) {
    vsym::lengths_mode();
    let mut w = World::started(true, Config::default(), M_LIFE | M_IDS | M_TERM);
    w.must_open();
    w.auto = false;
    w.steps(k, &[Write(0), CloseS(0), Drop(0), PSynData, PollC, Write(1), CloseS(1)]);
    for _ in 0..3 {
        let _ = w.close();
    }
    check(w.n().closed, "the transport is closed");
    for id in w.ids.clone() {
        let m = w.ms(id);
        witness(m.fin_out > 0, "FIN sent on close");
        if m.closed {
            check(m.fin_out == 1, "a closed stream's FIN is sent before the connection closes");
        }
        check(m.data_out == m.wrote, "accepted data is sent before the connection closes");
    }
}
entry!(h_c09_out_c, outbound(true, 4));
entry!(h_c09_out_s, outbound(false, 5));
entry!(h_c09_in_c, inbound(true, 4));
entry!(h_c09_in_s, inbound(false, 4));
entry!(h_c09_lazy_out, lazy(4, true));
entry!(h_c09_lazy_in, lazy(4, false));
entry!(h_c09_lazy_in5, lazy(5, false));
entry!(h_c09_closing, closing(5));
entry!(h_c09_out_deep, outbound(true, 5));
entry!(h_c09_in_deep, inbound(false, 5));
entry!(h_c09_lazy_deep, lazy(5, true));
