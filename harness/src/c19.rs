//! C19: the bytes of a stream arrive as they were written: in order, complete, and unchanged.
use crate::ops::Op::*;
use crate::world::*;

fn content(n: usize) -> Vec<u8> {
    (0..n).map(|_| vsym::u8("content")).collect()
}
fn sent_on(w: &World, id: u32) -> Vec<u8> {
    let n = w.n();
    let mut v = vec![];
    for f in &n.out {
        if f.tag == DATA && f.sid == id {
            check(f.len as usize == f.body.len(), "a frame's length is that of its content");
            v.extend_from_slice(&f.body);
        }
    }
    v
}
/// Writes on two streams in any order, any lengths, with a blocked transport in between.
fn outgoing(client: bool, k: usize, split: usize) {
    let mut c = Config::default();
    c.set_split_send_size(split);
    let mut w = World::started(client, c, 0);
    w.n().keep_body = true;
    w.must_open();
    w.must_open();
    let mut sent = [vec![], vec![]];
    for _ in 0..k {
        match vsym::choice(5, "op") {
            i @ (0 | 1) => {
                let l = 1 + vsym::choice(4, "length");
                let b = content(l);
                match w.write(i, &b) {
                    Poll::Ready(Ok(n)) => {
                        check(n > 0 && n <= l, "a write accepts some of what it was given");
                        sent[i].extend_from_slice(&b[..n]);
                    }
                    r => check(r.is_pending(), "a write to an open stream does not fail"),
                }
            }
            2 => {
                w.poll();
            }
            3 => w.set_write(Wr::Block),
            _ => w.set_write(Wr::Accept),
        }
    }
    w.settle();
    for i in 0..2 {
        let got = sent_on(&w, w.ids[i]);
        check(got == sent[i], "the content sent is what was written, in order");
        witness(got.len() > 5, "several frames");
    }
}
/// Frames of the peer, read in pieces of any size.
fn incoming(client: bool, k: usize) {
    let mut w = World::started(client, Config::default(), 0);
    let (a, b) = (w.peer_id(0), w.peer_id(1));
    w.peer_data(SYN, a, &[]);
    w.peer(WINDOW, SYN, b, 0);
    w.poll();
    check(w.ids == [a, b], "both streams arrive, in order");
    let mut sent = [vec![], vec![]];
    let mut got = [vec![], vec![]];
    for _ in 0..k {
        match vsym::choice(4, "op") {
            i @ (0 | 1) => {
                let l = vsym::choice(4, "length");
                let c = content(l);
                sent[i].extend_from_slice(&c);
                let id = w.ids[i];
                w.peer_data(0, id, &c);
                w.poll();
            }
            r => {
                let i = vsym::choice(2, "stream");
                if r == 2 {
                    let mut buf = [0u8; 4];
                    let l = 1 + vsym::choice(4, "read");
                    if let Poll::Ready(Ok(n)) = w.read(i, &mut buf[..l]) {
                        check(n <= l, "a read gives no more than was asked for");
                        got[i].extend_from_slice(&buf[..n]);
                    }
                } else if let Poll::Ready(Some(Ok(p))) = w.packet(i) {
                    got[i].extend_from_slice(&p);
                }
            }
        }
    }
    for i in 0..2 {
        check(sent[i].starts_with(&got[i]), "what is read is what was sent, in order");
        for _ in 0..2 * k {
            let mut buf = [0u8; 3];
            match w.read(i, &mut buf) {
                Poll::Ready(Ok(n)) if n > 0 => got[i].extend_from_slice(&buf[..n]),
                _ => break,
            }
        }
        check(sent[i] == got[i], "everything that was sent is read, unchanged");
        witness(got[i].len() > 5, "several frames");
    }
}
/// The end of a stream comes after all of its data, also when it was reset or the connection ended.
fn end(client: bool) {
    let mut w = World::started(client, Config::default(), 0);
    w.must_open();
    let id = w.ids[0];
    let _ = w.write(0, &[1]);
    w.poll();
    let (a, b) = (content(3), content(2));
    w.peer_data(0, id, &a);
    let how = vsym::choice(6, "end");
    w.peer_data(if how == 0 { FIN } else { 0 }, id, &b);
    match how {
        0 => {}
        1 => w.peer(WINDOW, FIN, id, 0),
        2 => w.peer(DATA, RST, id, 0),
        3 => w.peer(GOAWAY, 0, 0, 0),
        4 => w.peer_eof(),
        _ => {
            w.poll();
            let _ = w.close();
        }
    }
    w.poll();
    let mut got = vec![];
    let mut ended = false;
    for _ in 0..6 {
        let mut buf = [0u8; 2];
        if vsym::flip("chunk") {
            match w.packet(0) {
                Poll::Ready(Some(Ok(p))) => got.extend_from_slice(&p),
                Poll::Ready(None) => {
                    ended = true;
                    break;
                }
                _ => check(false, "data before the end can be read"),
            }
        } else {
            match w.read(0, &mut buf) {
                Poll::Ready(Ok(0)) => {
                    ended = true;
                    break;
                }
                Poll::Ready(Ok(n)) => got.extend_from_slice(&buf[..n]),
                _ => check(false, "data before the end can be read"),
            }
        }
    }
    check(ended, "the stream ends");
    let want = [a, b].concat();
    check(got == want, "everything received before the end is read, unchanged");
    let mut buf = [0u8; 2];
    check(w.read(0, &mut buf) == Poll::Ready(Ok(0)), "the end stays");
}
entry!(h_c19_out_c, outgoing(true, 4, 2));
entry!(h_c19_out_s, outgoing(false, 3, 3));
entry!(h_c19_in_c, incoming(true, 4));
entry!(h_c19_in_s, incoming(false, 3));
entry!(h_c19_end_c, end(true));
entry!(h_c19_end_s, end(false));
entry!(h_c19_out_deep, outgoing(true, 5, 2));
entry!(h_c19_in_deep, incoming(true, 5));

/// Any byte of what is written, by its position, in writes of any lengths.
fn probe_out(client: bool, k: usize) {
    vsym::lengths_mode();
    let mut c = Config::default();
    let n = vsym::u32("split");
    vsym::assume(n > 0);
    c.set_split_send_size(n as usize);
    let mut w = World::started(client, c, 0);
    w.must_open();
    w.must_open();
    let id = w.ids[0];
    {
        let mut n = w.n();
        n.probe_w = Probe::new(id);
        n.wr_split = true;
        n.wr_cuts = 1;
    }
    w.steps(k, &[Write(0), PWin(0), Write(1), Block, Unblock]);
    w.settle();
    let p = w.n().probe_w.unwrap();
    p.judge();
    check(p.got == p.given, "what was accepted is sent");
    witness(p.seen != 0, "the byte was sent");
    witness(p.seen != 0 && p.pos > 1 << 18, "a byte beyond the first window was sent");
}
/// Any byte of what the peer sends, by its position, arriving and read in pieces of any lengths.
fn probe_in(client: bool, k: usize, two: bool) {
    vsym::lengths_mode();
    let mut w = World::started(client, Config::default(), 0);
    let a = w.peer_id(0);
    w.n().probe_r = Probe::new(a);
    w.n().rd_body_cuts = 1;
    w.step(&[PSynWin, PSynData]);
    check(w.ids == [a], "the stream arrives");
    if two {
        w.step(&[Open, PSynWin]);
        w.steps(k, &[PData(0), PData(1), Read(0), Packet(1)]);
        w.drain(1);
    } else {
        w.steps(k, &[PData(0), Read(0), Packet(0)]);
    }
    for _ in 0..2 {
        w.drain(0);
    }
    let p = w.n().probe_r.unwrap();
    p.judge();
    check(p.got == p.given, "what was received is read");
    witness(p.seen != 0, "the byte was read");
}
entry!(h_c19_probe_out_c, probe_out(true, 4));
entry!(h_c19_probe_out_s, probe_out(false, 4));
entry!(h_c19_probe_in_c, probe_in(true, 3, false));
entry!(h_c19_probe_in_s, probe_in(false, 3, false));
entry!(h_c19_probe_two_c, probe_in(true, 3, true));
entry!(h_c19_probe_two_s, probe_in(false, 3, true));
entry!(h_c19_probe_in4, probe_in(true, 4, false));
entry!(h_c19_probe_out5, probe_out(true, 5));
