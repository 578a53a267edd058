//! C05: a peer that sends more than its window is stopped; one that does not is served.
use crate::monitor::*;
use crate::ops::Op::*;
use crate::world::*;

/// A data frame of any length on a stream, and what has to come of it.
fn any_data(w: &mut World, i: usize) {
    let id = w.ids[i];
    let n = vsym::u32("length");
    vsym::assume(n <= 1 << 20);
    let fin = if vsym::flip("fin") { FIN } else { 0 };
    let m = w.ms(id);
    let unread = m.unread();
    let goaways = w.n().mon.goaways.len();
    w.peer(DATA, fin, id, n);
    w.poll();
    let over = n as u64 > m.rwin;
    witness(over && m.rwin != CREDIT, "more than the window after some history");
    witness(!over && m.rwin > 0 && n as u64 == m.rwin, "exactly the window");
    witness(over && m.rwin == 0 && n == 1, "one byte with no window");
    check(w.end == End::Pending, "the connection goes on to answer");
    let net = w.n();
    if over {
        check(net.mon.goaways.len() == goaways + 1 && net.mon.goaways[goaways] == 1, "more than the window is a protocol error");
    } else {
        check(net.mon.goaways.len() == goaways, "data within the window is no violation");
    }
    drop(net);
    if !w.live(i) {
        return;
    }
    let (got, _) = w.drain(i);
    check(got == unread + if over { 0 } else { n as u64 }, "data within the window is delivered, data beyond it is not");
    w.poll();
}
fn history(client: bool, k: usize, first: &[crate::ops::Op]) {
    vsym::lengths_mode();
    let mut w = World::started(client, Config::default(), M_WINDOW);
    w.n().mon.max_window = u64::MAX;
    w.step(first);
    w.run(Write(0));
    w.poll();
    w.steps(k, &[PData(0), Read(0), CloseS(0)]);
    any_data(&mut w, 0);
}
/// The window has grown.
fn grown(client: bool, k: usize) {
    vsym::lengths_mode();
    let mut w = World::started(client, Config::default(), M_WINDOW);
    w.n().mon.max_window = u64::MAX;
    crate::ops::advance();
    w.run(PPong);
    w.run(PSynWin);
    w.poll();
    w.steps(k, &[PData(0), Read(0)]);
    witness(w.ms(w.ids[0]).rwin > CREDIT, "the window has grown");
    any_data(&mut w, 0);
}
/// Two streams: each has its own window.
fn two(client: bool, k: usize) {
    vsym::lengths_mode();
    let mut w = World::started(client, Config::default(), M_WINDOW);
    w.run(PSynData);
    w.run(PSynWin);
    w.poll();
    w.steps(k, &[PData(0), Read(0), PData(1), Read(1)]);
    any_data(&mut w, 1);
}
/// The connection is busy: nothing can be written, so no window update reaches the peer.
fn blocked(client: bool, k: usize) {
    vsym::lengths_mode();
    let mut w = World::started(client, Config::default(), M_WINDOW);
    w.run(PSynData);
    w.poll();
    w.set_write(Wr::Block);
    w.steps(k, &[PData(0), Read(0), Write(0)]);
    let id = w.ids[0];
    let n = vsym::u32("length");
    let m = w.ms(id);
    vsym::assume(n as u64 <= m.rwin && n <= 1 << 20);
    w.peer(DATA, 0, id, n);
    w.poll();
    w.settle();
    check(w.end == End::Pending && w.n().mon.goaways.is_empty(), "data within the window is no violation");
    let (got, _) = w.drain(0);
    check(got == m.unread() + n as u64, "data within the window is delivered");
}
/// The first frame of a stream.
fn first(client: bool) {
    vsym::lengths_mode();
    let mut w = World::started(client, Config::default(), M_WINDOW);
    let id = w.peer_id(0);
    let n = vsym::u32("length");
    vsym::assume(n <= 1 << 20);
    let fin = if vsym::flip("fin") { FIN } else { 0 };
    w.peer(DATA, SYN | fin, id, n);
    w.poll();
    if n as u64 > CREDIT {
        witness(true, "more than the initial window");
        check(w.ids.is_empty() && w.n().mon.goaways == [1], "more than the initial window is a protocol error");
    } else {
        check(w.ids.len() == 1 && w.n().mon.goaways.is_empty(), "a stream with data within the initial window is opened");
        any_data(&mut w, 0);
    }
}
entry!(h_c05_out_c, history(true, 3, &[Open]));
entry!(h_c05_out_deep, history(true, 4, &[Open]));
entry!(h_c05_out_s, history(false, 3, &[Open]));
entry!(h_c05_in_c, history(true, 3, &[PSynWin]));
entry!(h_c05_in_s, history(false, 3, &[PSynData]));
entry!(h_c05_grown_c, grown(true, 4));
entry!(h_c05_grown_s, grown(false, 3));
entry!(h_c05_two, two(true, 3));
entry!(h_c05_blocked, blocked(true, 3));
entry!(h_c05_first_c, first(true));
entry!(h_c05_first_s, first(false));
entry!(h_c05_in_deep, history(true, 4, &[PSynData, PSynWin]));
entry!(h_c05_grown_deep, grown(true, 5));
entry!(h_c05_blocked_deep, blocked(true, 4));
entry!(h_c05_two_deep, two(true, 4));
