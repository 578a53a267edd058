//! C02: what is read does not depend on how the bytes arrive.
use crate::monitor::*;
use crate::world::*;

struct Got {
    body: Vec<u8>,
}
/// Three frames with content, cut anywhere, with pauses anywhere.
fn cuts(client: bool, cuts: u32, stalls: u32) {
    let mut w = World::started(client, Config::default(), M_API | M_PING);
    w.must_open();
    let id = w.ids[0];
    let _ = w.write(0, &[1]);
    w.poll();
    let (a, b, c, v, n) = (vsym::u8("content"), vsym::u8("content"), vsym::u8("content"), vsym::u32("ping"), vsym::u32("credit"));
    vsym::assume(n as u64 + CREDIT <= u32::MAX as u64);
    w.peer_data(0, id, &[a, b]);
    w.peer(PING, SYN, 0, v);
    w.peer(WINDOW, 0, id, n);
    w.peer_data(FIN, id, &[c]);
    {
        let mut n = w.n();
        n.rd_split = true;
        n.rd_cuts = cuts;
        n.rd_stall = stalls;
    }
    for _ in 0..=stalls {
        w.poll();
    }
    check(w.end == End::Pending, "fragmented frames are no error");
    check(w.n().drained(), "everything that arrived is read");
    check(w.n().mon.pongs_out == 1, "a fragmented ping is answered");
    check(w.n().mon.goaways.is_empty(), "fragmented frames are no violation");
    let mut g = Got { body: vec![] };
    for _ in 0..3 {
        let mut buf = [0u8; 8];
        match w.read(0, &mut buf) {
            Poll::Ready(Ok(0)) => break,
            Poll::Ready(Ok(k)) => g.body.extend_from_slice(&buf[..k]),
            _ => check(false, "the received data can be read"),
        }
    }
    check(g.body == [a, b, c], "fragmentation does not change the data");
    witness(w.n().rd_cuts == 0 && w.n().rd_stall == 0, "all cuts and pauses used");
}
/// The transport ends, or fails, after any number of bytes.
fn cutoff(client: bool, fail: bool) {
    let mut w = World::started(client, Config::default(), M_API | M_PING);
    w.must_open();
    let id = w.ids[0];
    let _ = w.write(0, &[1]);
    w.poll();
    let (a, b, c, v) = (vsym::u8("content"), vsym::u8("content"), vsym::u8("content"), vsym::u32("ping"));
    w.peer_data(0, id, &[a, b]);
    w.peer(PING, SYN, 0, v);
    w.peer_data(0, id, &[c]);
    let at = vsym::choice(40, "bytes");
    let ends = [0, 14, 26, 39];
    {
        let mut n = w.n();
        n.rd_limit = Some(at as u64);
        n.rd_split = true;
        n.rd_cuts = 1;
        if fail {
            n.rd_fail = true;
        } else {
            n.eof = true;
        }
    }
    w.poll();
    if fail {
        check(matches!(w.end, End::Err(ErrKind::Decode | ErrKind::Io)), "a failing read is reported");
    } else if ends.contains(&at) {
        witness(true, "the transport ends between frames");
        check(w.end == End::None, "an end of the transport between frames is no error");
    } else {
        witness(true, "the transport ends within a frame");
        check(w.end == End::Err(ErrKind::Decode), "an end of the transport within a frame is an error");
    }
    // everything complete was delivered, nothing else
    let want: &[u8] = if at == 39 {
        &[a, b, c]
    } else if at >= 14 {
        &[a, b]
    } else {
        &[]
    };
    let mut got = vec![];
    for _ in 0..3 {
        let mut buf = [0u8; 8];
        match w.read(0, &mut buf) {
            Poll::Ready(Ok(0)) => break,
            Poll::Ready(Ok(k)) => got.extend_from_slice(&buf[..k]),
            _ => check(false, "after the end reads do not wait or fail"),
        }
    }
    check(got == want, "exactly the content of complete frames is delivered");
}
/// Long frames: the content arrives in any chunks.
fn long(client: bool) {
    vsym::lengths_mode();
    let mut w = World::started(client, Config::default(), M_API);
    let id = w.peer_id(0);
    let n = vsym::range(1, CREDIT, "data") as u32;
    w.peer(DATA, SYN, id, n);
    let m = vsym::u32("data");
    vsym::assume(m as u64 + n as u64 <= CREDIT);
    w.peer(DATA, FIN, id, m);
    w.peer(PING, SYN, 0, 7);
    // the first read of the content gives any part of it
    {
        let mut net = w.n();
        let k = vsym::range(1, n as u64, "chunk");
        let Some(Seg::Opaque(r, _)) = net.inp.get_mut(1) else { unreachable!() };
        *r = k;
        if k < n as u64 {
            net.inp.insert(2, Seg::Opaque(n as u64 - k, 0));
        }
    }
    w.poll();
    check(w.ids.len() == 1, "the stream was opened");
    let (got, eof) = w.drain(0);
    check(got == n as u64 + m as u64 && eof, "exactly the data of both frames is read");
    check(w.n().mon.pongs_out == 1, "the frame after long content is understood");
}
/// Nothing is read ahead of an oversized frame's content, nor waited for.
fn oversize(client: bool) {
    vsym::lengths_mode();
    let mut w = World::started(client, Config::default(), 0);
    w.must_open();
    let id = w.ids[0];
    let n = vsym::u32("length");
    let flags = vsym::u16("flags");
    w.peer_raw(&header(0, DATA, flags, id, n));
    w.poll();
    if n > 1 << 20 {
        check(w.end == End::Err(ErrKind::Decode), "an oversized frame is refused before its content arrives");
        w.judge_finished();
    } else {
        check(n == 0 || w.end == End::Pending, "the content of a frame is waited for");
    }
}
entry!(h_c02_cuts_c, cuts(true, 2, 0));
entry!(h_c02_cuts_s, cuts(false, 1, 1));
entry!(h_c02_stalls, cuts(true, 0, 3));
entry!(h_c02_cuts3, cuts(true, 3, 0));
entry!(h_c02_cuts_stall, cuts(true, 2, 1));
entry!(h_c02_eof_c, cutoff(true, false));
entry!(h_c02_eof_s, cutoff(false, false));
entry!(h_c02_fail, cutoff(true, true));
entry!(h_c02_long_c, long(true));
entry!(h_c02_long_s, long(false));
entry!(h_c02_oversize, oversize(true));
