//! C17: a dropped stream is ended towards the peer, leaves nothing behind, and what still comes
//! for it is ignored.
use crate::monitor::*;
use crate::ops::Op::*;
use crate::world::*;

fn config() -> Config {
    let mut c = Config::default();
    c.set_max_num_streams(1);
    c
}
/// What the peer must be told, from what happened before the drop.
fn judge_told(before: &MS, after: &MS, seen: bool) {
    check(after.data_out == after.wrote || after.rst_in > 0, "what was accepted before the drop is sent");
    let (rst, fin) = (after.rst_out, after.fin_out);
    witness(rst > 0, "a reset is sent");
    witness(fin > 0 && !before.closed, "an end is sent in place of a reset");
    if before.closed {
        check(rst == 0, "a closed stream is not reset");
        if before.rst_in == 0 {
            check(fin == 1, "a closed stream's end is sent");
        }
    } else if before.rst_in > 0 {
        check(rst == 0 && fin == 0, "a stream the peer has reset is not reset again");
    } else if before.fin_in > 0 {
        check(rst == 0 && fin == 1, "a stream the peer has ended is ended");
    } else if seen {
        check(rst == 1 && fin == 0, "an open stream is reset");
    } else {
        check(rst + fin == 1, "an open stream is reset or ended");
    }
}
/// Anything that concerns the stream.
fn late(w: &mut World, id: u32) {
    let out = w.n().out.len();
    let tag = [DATA, WINDOW][vsym::choice(2, "late kind")];
    let flags = vsym::u16("late flags");
    vsym::assume(flags & SYN == 0);
    let n = vsym::u32("late length");
    vsym::assume(tag != DATA || n <= 1 << 20);
    w.peer(tag, flags, id, n);
    let r = w.poll();
    check(r.is_empty() && w.end == End::Pending, "what comes late for a dropped stream is ignored");
    check(w.n().out.len() == out, "what comes late for a dropped stream is not answered");
}
/// The slot is free again.
fn reuse(w: &mut World) {
    let n = w.ids.len();
    if vsym::flip("ours") {
        check(matches!(w.open(), Poll::Ready(Ok(_))), "a stream can be opened in place of a dropped one");
    } else {
        let mut id = w.peer_id(w.peer_next);
        if vsym::flip("same identifier") && w.ids[0] == w.peer_id(0) {
            // the peer may name a stream like one that is gone
            id = w.ids[0];
            let mut net = w.n();
            let i = net.mon.find(id).unwrap();
            net.mon.s[i].id = 0;
        }
        w.pstate(id);
        w.peer(WINDOW, SYN, id, 0);
        w.poll();
        check(w.ids.len() == n + 1 && w.n().mon.goaways.is_empty(), "the peer can open a stream in place of a dropped one");
    }
    let i = w.ids.len() - 1;
    let r = w.write_n(i, 5);
    check(r == Poll::Ready(Ok(5)), "the new stream works");
    check(w.read_n(i, 5).is_pending(), "the new stream starts empty");
    w.poll();
}
fn history(client: bool, k: usize, ours: bool) {
    vsym::lengths_mode();
    let mut w = World::started(client, config(), M_LIFE | M_IDS | M_CREDIT | M_TERM);
    w.n().mon.max_streams = 1;
    if ours {
        w.must_open();
    } else {
        w.step(&[PSynData, PSynWin]);
    }
    w.steps(k, &[Write(0), Read(0), CloseS(0), PData(0), PDataFin(0), PWinFin(0), PRst(0)]);
    let id = w.ids[0];
    let before = w.ms(id);
    w.drop_stream(0);
    w.poll();
    judge_told(&before, &w.ms(id), true);
    late(&mut w, id);
    reuse(&mut w);
}
/// The transport is blocked, so the connection learns of the drop late; frames are queued.
fn blocked(client: bool, k: usize, more: usize) {
    vsym::lengths_mode();
    let mut w = World::started(client, config(), M_LIFE | M_IDS | M_CREDIT | M_TERM);
    w.n().mon.max_streams = 1;
    w.must_open();
    w.run(Write(0));
    w.poll();
    w.set_write(Wr::Block);
    w.auto = false;
    w.steps(k, &[Write(0), CloseS(0), PData(0), PollC, PWinFin(0)]);
    let id = w.ids[0];
    w.drop_stream(0);
    let at = w.ms(id);
    w.steps(more, &[PollC, PData(0), PRst(0), PWinFin(0), PPing]);
    w.set_write(Wr::Accept);
    w.poll();
    let m = w.ms(id);
    check(m.data_out == m.wrote || m.rst_in > 0, "what was accepted before the drop is sent");
    check(m.rst_out + m.fin_out <= 1, "a stream is ended once");
    if m.rst_in == 0 {
        check(m.rst_out + m.fin_out == 1, "a dropped stream is ended towards the peer");
    }
    if at.closed {
        check(m.rst_out == 0, "a closed stream is not reset");
    }
    check(w.end == End::Pending && w.n().mon.goaways.is_empty(), "the connection goes on");
    reuse(&mut w);
}
/// A stream whose window has grown ends in any way and is dropped: its share is there for the next.
fn share(client: bool, k: usize) {
    let mut w = crate::c07::start(client, 1);
    w.step(&[Open, PSynWin]);
    w.run(Write(0));
    w.poll();
    crate::c07::round(&mut w, 0);
    crate::c07::round(&mut w, 0);
    let grown = w.ms(w.ids[0]).rwin;
    witness(grown > CREDIT, "the first stream's window has grown");
    w.steps(k, &[CloseS(0), PDataFin(0), PRst(0), PData(0), Read(0)]);
    w.drop_stream(0);
    w.poll();
    w.peer_next = 5;
    w.step(&[Open, PSynWin]);
    check(w.ids.len() == 2, "a stream can be opened in place of a dropped one");
    let _ = w.write_n(1, 1);
    w.poll();
    crate::c07::round(&mut w, 1);
    crate::c07::round(&mut w, 1);
    check(w.ms(w.ids[1]).rwin == grown, "the next stream's window grows as that of the dropped one did");
}
/// Streams come, live through the same history, and are dropped, one after the other: memory does not grow.
fn leak(client: bool, k: usize) {
    let mut w = World::started(client, config(), 0);
    w.n().mon.max_streams = 1;
    let ours = vsym::flip("ours");
    let ops: Vec<usize> = (0..k).map(|_| vsym::choice(8, "op")).collect();
    let (blocked, late) = (vsym::flip("blocked"), vsym::flip("late"));
    let mut live = [0; 6];
    for c in 0..6 {
        if ours {
            check(matches!(w.open(), Poll::Ready(Ok(_))), "a stream can be opened in place of a dropped one");
        } else {
            w.peer_data(SYN, w.peer_id(c as u32), b"ab");
            w.poll();
            check(w.ids.len() == c + 1, "the peer can open a stream in place of a dropped one");
        }
        let id = w.ids[c];
        let _ = w.write(c, b"x");
        if blocked {
            w.set_write(Wr::Block);
        }
        let mut fin = false;
        for &o in &ops {
            match o {
                0 => {
                    let _ = w.write(c, b"abc");
                }
                1 => {
                    let mut b = [0; 3];
                    let _ = w.read(c, &mut b);
                }
                2 => {
                    let _ = w.close_stream(c);
                }
                3 => w.peer_data(0, id, b"abcd"),
                4 if !fin => {
                    w.peer_data(FIN, id, b"e");
                    fin = true;
                }
                5 => w.peer(WINDOW, RST, id, 0),
                6 => w.peer(WINDOW, ACK, id, 7),
                _ => {
                    let _ = w.packet(c);
                }
            }
            w.poll();
        }
        w.drop_stream(c);
        w.poll();
        w.set_write(Wr::Accept);
        w.poll();
        if late {
            w.peer_data(0, id, b"late");
            w.poll();
        }
        // (the harness keeps what it has seen)
        {
            let mut n = w.n();
            n.out.clear();
            n.delivered.clear();
        }
        live[c] = vsym::heap();
    }
    check(live[4] == live[5] && live[3] == live[5], "nothing of a dropped stream stays in memory");
    witness(true, "six streams");
}
/// Nothing of the stream is left with tasks that wait.
fn other(client: bool, k: usize) {
    vsym::lengths_mode();
    let mut w = World::started(client, Config::default(), M_LIFE | M_IDS | M_CREDIT | M_API);
    w.must_open();
    w.must_open();
    w.run(Write(0));
    w.run(Write(1));
    w.poll();
    w.steps(k, &[Write(0), PData(0), PData(1), Read(0), PWin(1)]);
    w.drop_stream(0);
    w.poll();
    let (a, b) = (w.ids[0], w.ids[1]);
    late(&mut w, a);
    let u = w.ms(b).unread();
    let (got, eof) = w.drain(1);
    check(got == u && !eof, "another stream keeps its data");
    let av = w.ms(b).avail();
    let r = w.write_n(1, 1);
    check(r.is_ready() == (av > 0), "another stream keeps its credit");
    w.poll();
}
entry!(h_c17_out_c, history(true, 3, true));
entry!(h_c17_out_s, history(false, 3, true));
entry!(h_c17_in_c, history(true, 2, false));
entry!(h_c17_in_s, history(false, 3, false));
entry!(h_c17_blocked_c, blocked(true, 2, 2));
entry!(h_c17_blocked_s, blocked(false, 2, 2));
entry!(h_c17_share_c, share(true, 2));
entry!(h_c17_share_s, share(false, 2));
entry!(h_c17_leak_c, leak(true, 2));
entry!(h_c17_leak_s, leak(false, 3));
entry!(h_c17_other, other(true, 2));
entry!(h_c17_out_deep, history(true, 4, true));
entry!(h_c17_blocked_deep, blocked(true, 3, 3));
