//! C20: what happens to one stream does not touch another, and frames for streams that do not
//! exist touch nothing.
use crate::monitor::*;
use crate::ops::Op::*;
use crate::world::*;

/// Everything an application and a peer can see of a stream.
fn view(w: &mut World, i: usize) -> (u64, u64, u64, u32, u32, bool, bool, bool) {
    let m = w.ms(w.ids[i]);
    let s = w.streams[i].as_ref().unwrap();
    (m.rwin, m.avail(), m.unread(), m.fin_out, m.rst_out, s.is_closed(), s.is_write_closed(), s.is_pending_ack())
}
fn two(client: bool, k: usize, first: &[crate::ops::Op], second: &[crate::ops::Op]) {
    vsym::lengths_mode();
    let mut c = Config::default();
    c.set_split_send_size(1 << 20);
    let mut w = World::started(client, c, M_API | M_CREDIT | M_LIFE);
    w.step(first);
    w.step(second);
    for i in 0..2 {
        w.run(Write(i));
        w.poll();
    }
    let full = vsym::flip("credit used up");
    if full {
        let a = w.ms(w.ids[0]).avail();
        vsym::assume(a <= 1 << 20);
        let _ = w.write_n(0, a as u32);
        w.poll();
        check(w.write_n(0, 1).is_pending(), "a write without credit waits");
    }
    w.run(PData(0));
    w.poll();
    let v = view(&mut w, 0);
    let parked = {
        let n = w.ms(w.ids[0]).unread();
        if n == 0 {
            let _ = w.read_n(0, 1);
        }
        w.park_r[0]
    };
    let t = wake::woken(t_reader(0));
    w.steps(k, &[Write(1), Read(1), CloseS(1), Drop(1), PData(1), PDataFin(1), PWin(1), PWinFin(1), PRst(1)]);
    check(view(&mut w, 0) == v, "what happens to one stream does not change another");
    if parked.is_some() {
        witness(true, "a reader waits meanwhile");
        check(w.park_r[0] == parked || wake::woken(t_reader(0)) > t, "a waiting reader keeps waiting");
    }
    if full {
        check(w.park_w[0].is_some() && w.ms(w.ids[0]).avail() == 0, "a waiting writer keeps waiting");
        w.step(&[PWin(0)]);
        witness(w.ms(w.ids[0]).avail() > 0, "a writer waits meanwhile");
    }
    // the other stream works
    let u = w.ms(w.ids[0]).unread();
    let (got, eof) = w.drain(0);
    check(got == u && !eof, "the other stream's data can be read");
    w.run(PData(0));
    w.poll();
    let u = w.ms(w.ids[0]).unread();
    let (got, _) = w.drain(0);
    check(got == u, "the other stream's data can be read");
    let a = w.ms(w.ids[0]).avail();
    let r = w.write_n(0, 1);
    check(r.is_ready() == (a > 0), "the other stream can be written to");
    w.poll();
    let m = w.ms(w.ids[0]);
    check(m.data_out == m.wrote, "what the other stream accepted is sent");
}
/// The transport is blocked, with something of one stream to be sent, while things happen to the other.
fn blocked(client: bool, k: usize, first: &[crate::ops::Op], second: &[crate::ops::Op]) {
    vsym::lengths_mode();
    let mut w = World::started(client, Config::default(), M_API | M_CREDIT | M_LIFE);
    w.step(first);
    w.step(second);
    for i in 0..2 {
        let _ = w.write_n(i, 1);
        w.poll();
    }
    w.run(PData(0));
    w.poll();
    w.set_write(Wr::Block);
    for _ in 0..3 {
        w.run(Write(0));
        w.poll();
    }
    if vsym::flip("close") {
        let _ = w.close_stream(0);
    } else if vsym::flip("read") {
        // (the window is given back)
        let _ = w.drain(0);
    }
    let _ = w.write_n(1, 1);
    let m = w.ms(w.ids[0]);
    w.steps(k, &[Write(1), Read(1), CloseS(1), Drop(1), PData(1), PDataFin(1), PWin(1), PRst(1), PollC]);
    w.settle();
    let after = w.ms(w.ids[0]);
    check(after.wrote == m.wrote && after.data_out == m.wrote, "what the other stream accepted is sent");
    check(after.fin_out == m.closed as u32, "the other stream's end is sent");
    check(after.rst_out == 0 && after.unread() == m.unread(), "the other stream is not changed");
    witness(m.updates_out < after.updates_out, "the other stream's window is given back");
    witness(m.data_out + 2 < m.wrote, "the other stream had data waiting");
    let u = after.unread();
    let (got, eof) = w.drain(0);
    check(got == u && !eof, "the other stream's data can be read");
    // the peer may use the window up
    w.poll();
    let id = w.ids[0];
    let left = w.peer_window(id);
    check(2 * left >= CREDIT, "the other stream's window is given back");
}
/// A stream nobody reads, or nobody can write to, does not hold up another.
fn stuck(client: bool) {
    vsym::lengths_mode();
    let mut w = World::started(client, Config::default(), M_API | M_CREDIT);
    w.must_open();
    w.must_open();
    w.run(Write(0));
    let _ = w.write_n(1, CREDIT as u32);
    w.poll();
    // stream 1 has used its credit and its window
    for _ in 0..20 {
        let _ = w.write_n(1, CREDIT as u32);
        w.poll();
    }
    check(w.ms(w.ids[1]).avail() == 0, "all credit used");
    let id = w.ids[1];
    w.pstate(id).sent = CREDIT;
    w.peer(DATA, 0, id, CREDIT as u32);
    w.poll();
    for _ in 0..2 {
        w.run(PData(0));
        w.run(PWin(0));
        w.poll();
        let u = w.ms(w.ids[0]).unread();
        check(w.drain(0).0 == u, "the other stream's data can be read");
        let a = w.ms(w.ids[0]).avail();
        check(w.write_n(0, 1).is_ready() == (a > 0), "the other stream can be written to");
        w.poll();
    }
    let m = w.ms(w.ids[0]);
    check(m.data_out == m.wrote, "what the other stream accepted is sent");
}
/// A frame for a stream that does not exist.
fn unknown(client: bool, k: usize) {
    vsym::lengths_mode();
    let mut w = World::started(client, Config::default(), M_API | M_CREDIT);
    w.must_open();
    w.run(Write(0));
    w.poll();
    w.run(PData(0));
    w.poll();
    let v = view(&mut w, 0);
    let out = w.n().out.len();
    for _ in 0..k {
        let tag = [DATA, WINDOW, PING][vsym::choice(3, "kind")];
        let (flags, id, n) = (vsym::u16("flags"), vsym::u32("stream"), vsym::u32("length"));
        vsym::assume(id != w.ids[0]);
        vsym::assume(tag != DATA || n <= 1 << 20);
        if tag == PING {
            vsym::assume(flags & ACK == 0 && id != 0);
        } else {
            // (no new stream, unless it is reset at once)
            vsym::assume(flags & SYN == 0 || flags & RST != 0);
        }
        w.peer(tag, flags, id, n);
        let r = w.poll();
        check(r.is_empty() && w.end == End::Pending, "a frame for an unknown stream is ignored");
    }
    check(w.n().out.len() == out, "a frame for an unknown stream is not answered");
    check(view(&mut w, 0) == v, "a frame for an unknown stream changes no stream");
    witness(true, "unknown stream");
}
entry!(h_c20_oo_c, two(true, 2, &[Open], &[Open]));
entry!(h_c20_oi_s, two(false, 2, &[Open], &[PSynData, PSynWin]));
entry!(h_c20_io_c, two(true, 2, &[PSynData, PSynWin], &[Open]));
entry!(h_c20_ii_s, two(false, 2, &[PSynWin], &[PSynData, PSynWin]));
entry!(h_c20_blocked_c, blocked(true, 2, &[Open], &[Open]));
entry!(h_c20_blocked_s, blocked(false, 2, &[PSynWin], &[Open, PSynWin]));
entry!(h_c20_stuck_c, stuck(true));
entry!(h_c20_stuck_s, stuck(false));
entry!(h_c20_unknown_c, unknown(true, 2));
entry!(h_c20_unknown_s, unknown(false, 2));
entry!(h_c20_blocked_deep, blocked(true, 3, &[Open, PSynWin], &[Open, PSynWin]));
entry!(h_c20_oo_deep, two(true, 3, &[Open], &[Open]));
entry!(h_c20_ii_deep, two(false, 3, &[PSynWin], &[PSynData]));
