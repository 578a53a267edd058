//! C01: the wire format.
use crate::ops::Op::*;
use crate::world::*;
use yamux::{FrameDecodeError, HeaderDecodeError};

fn be32(b: &[u8]) -> u32 {
    (b[0] as u32) << 24 | (b[1] as u32) << 16 | (b[2] as u32) << 8 | b[3] as u32
}
fn bytes() -> [u8; 12] {
    let mut h = [0; 12];
    for b in h.iter_mut() {
        *b = vsym::u8("byte");
    }
    h
}
/// Any twelve bytes: which of them are a frame, and what is said of those that are not.
fn decode(client: bool) {
    vsym::lengths_mode();
    let mut w = World::started(client, Config::default(), 0);
    w.must_open();
    let h = bytes();
    let (ver, tag, len) = (h[0], h[1], be32(&h[8..]));
    w.peer_raw(&h);
    if tag == DATA && len != 0 && len <= 1 << 20 {
        w.n().inp.push_back(Seg::Opaque(len as u64, 0));
    }
    let before = w.ids.len();
    w.poll();
    let e = w.err.take();
    if ver != 0 || tag > 3 {
        witness(ver != 0 && tag <= 3, "an unknown version");
        witness(ver == 0, "an unknown frame type");
        match e {
            Some(ConnectionError::Decode(FrameDecodeError::Header(HeaderDecodeError::Version(v)))) => {
                check(ver != 0 && v == ver, "the unknown version is reported")
            }
            Some(ConnectionError::Decode(FrameDecodeError::Header(HeaderDecodeError::Type(t)))) => {
                check(tag > 3 && t == tag, "the unknown frame type is reported")
            }
            _ => check(false, "an unknown version or frame type is a decoding error"),
        }
        check(w.ids.len() == before, "a malformed frame opens no stream");
    } else if tag == DATA && len > 1 << 20 {
        witness(true, "a frame that is too large");
        match e {
            Some(ConnectionError::Decode(FrameDecodeError::FrameTooLarge(n))) => {
                check(n == len as usize, "the size of an oversized frame is reported")
            }
            _ => check(false, "a data frame of more than 1 MiB is a decoding error"),
        }
    } else {
        check(e.is_none(), "a well-formed frame is decoded");
        check(w.n().drained(), "a well-formed frame is read with its content");
    }
}
/// The fields lie where they should, big-endian.
fn fields(client: bool) {
    vsym::lengths_mode();
    let mut c = Config::default();
    c.set_split_send_size(usize::MAX);
    let mut w = World::started(client, c, 0);
    let mut h = bytes();
    h[0] = 0;
    let (flags, sid, len) = ((h[2] as u16) << 8 | h[3] as u16, be32(&h[4..]), be32(&h[8..]));
    match vsym::choice(4, "kind") {
        0 => {
            // a stream opened with credit
            h[1] = WINDOW;
            vsym::assume(flags & (SYN | RST) == SYN && sid != 0 && (sid & 1 == 1) != client);
            vsym::assume(len as u64 + CREDIT <= u32::MAX as u64);
            w.peer_raw(&h);
            let v = w.conn_poll_new();
            check(v == Some(sid), "the stream has the identifier of the frame");
            witness(sid > 0x0100_0000, "a large identifier");
            let wk = wake::waker(0);
            let b = vsym::opaque_vec(u32::MAX as usize);
            let r = futures::AsyncWrite::poll_write(w.s(0), &mut std::task::Context::from_waker(&wk), &b);
            check(matches!(r, Poll::Ready(Ok(n)) if n as u64 == CREDIT + len as u64), "the credit is what the frame said");
        }
        1 => {
            // a stream opened with data
            h[1] = DATA;
            vsym::assume(flags & (SYN | RST) == SYN && sid != 0 && (sid & 1 == 1) != client);
            vsym::assume(len as u64 <= CREDIT);
            w.peer_raw(&h);
            if len != 0 {
                w.n().inp.push_back(Seg::Opaque(len as u64, 0));
            }
            let v = w.conn_poll_new();
            check(v == Some(sid), "the stream has the identifier of the frame");
            let wk = wake::waker(0);
            let mut b = vsym::opaque_vec(1 << 20);
            let r = futures::AsyncRead::poll_read(w.s(0), &mut std::task::Context::from_waker(&wk), &mut b);
            if len > 0 {
                check(matches!(r, Poll::Ready(Ok(n)) if n == len as usize), "the content has the length of the frame");
            } else if flags & FIN != 0 {
                check(matches!(r, Poll::Ready(Ok(0))), "the end of the stream is seen");
            } else {
                check(r.is_pending(), "nothing to read yet");
            }
        }
        2 => {
            // a ping
            h[1] = PING;
            vsym::assume(flags & ACK == 0 && sid == 0);
            w.peer_raw(&h);
            w.poll();
            let n = w.n();
            let o = n.out.last().unwrap();
            check(n.out.len() == 2 && o.ver == 0 && o.tag == PING && o.flags == ACK && o.sid == 0 && o.len == len, "the pong repeats the value");
        }
        _ => {
            // a pong with the right value, or another
            h[1] = PING;
            vsym::assume(flags & ACK != 0);
            let right = w.n().mon.rtt_out[0];
            w.peer_raw(&h);
            w.poll();
            let n = w.n();
            check((n.out.len() == 1) == (len == right), "only a pong with another value is a violation");
            witness(len == right, "the right value");
        }
    }
}
/// What is sent, byte for byte.
fn encode(client: bool) {
    let mut w = World::new(client, Config::default(), 0);
    w.n().keep_body = true;
    // any identifier
    let id = vsym::u32("identifier");
    vsym::assume(id != 0 && (id & 1 == 1) == client && id <= u32::MAX - 2);
    #[cfg(yamux_verif)]
    w.conn.as_mut().unwrap().verif_set_next_id(id);
    #[cfg(not(yamux_verif))]
    vsym::assume(id == if client { 1 } else { 2 });
    w.poll();
    let first = w.n().out[0].clone();
    check(first.ver == 0 && first.tag == PING && first.flags == SYN && first.sid == 0, "a ping is sent first");
    w.must_open();
    check(w.ids[0] == id, "the stream has the identifier");
    let mut want: Vec<(u8, u16, u32, Vec<u8>)> = vec![];
    let (a, b, c) = (vsym::u8("content"), vsym::u8("content"), vsym::u8("content"));
    let wrote = match vsym::choice(3, "first") {
        0 => {
            check(w.write(0, &[a, b, c]) == Poll::Ready(Ok(3)), "a write is accepted");
            want.push((DATA, SYN, id, vec![a, b, c]));
            true
        }
        1 => {
            check(w.write(0, &[a]) == Poll::Ready(Ok(1)), "a write is accepted");
            check(w.write(0, &[b, c]) == Poll::Ready(Ok(2)), "a write is accepted");
            want.push((DATA, SYN, id, vec![a]));
            want.push((DATA, 0, id, vec![b, c]));
            true
        }
        _ => false,
    };
    w.poll();
    match vsym::choice(3, "end") {
        0 => {
            let _ = w.close_stream(0);
            want.push((DATA, if wrote { FIN } else { FIN | SYN }, id, vec![]));
        }
        1 if wrote => {
            w.drop_stream(0);
            want.push((DATA, RST, id, vec![]));
        }
        _ => {}
    }
    w.poll();
    let n = w.n();
    check(n.out.len() == want.len() + 1 && !n.mid_frame(), "exactly the expected frames are sent");
    for (o, x) in n.out[1..].iter().zip(&want) {
        check(o.ver == 0 && o.tag == x.0 && o.flags == x.1 && o.sid == x.2, "type, flags and stream of a frame are right");
        check(o.len as usize == x.3.len() && o.body == x.3, "length and content of a frame are right");
    }
    witness(id > 0x0100_0000 && wrote, "a large identifier");
    drop(n);
    let code = if vsym::flip("close") {
        let _ = w.close();
        0
    } else {
        // a protocol violation
        w.peer(DATA, SYN, id, 0);
        w.poll();
        1
    };
    let n = w.n();
    let o = n.out.last().unwrap();
    check(o.ver == 0 && o.tag == GOAWAY && o.flags == 0 && o.sid == 0 && o.len == code, "a go-away is well-formed");
}
/// The first answer on a stream of the peer: data, or a window update of the right size.
fn answer(client: bool) {
    vsym::lengths_mode();
    let mut w = World::started(client, Config::default(), 0);
    let sid = vsym::u32("stream");
    vsym::assume(sid != 0 && (sid & 1 == 1) != client);
    let n = vsym::range(0, CREDIT, "data") as u32;
    w.peer(DATA, SYN, sid, n);
    w.poll();
    check(w.ids.len() == 1 && w.ids[0] == sid, "the stream has the identifier of the frame");
    if vsym::flip("read") {
        w.drain(0);
        let _ = w.read_n(0, 1);
        w.poll();
        if let Some(o) = w.sent().last() {
            witness(true, "a window update");
            check(o.ver == 0 && o.tag == WINDOW && o.flags == ACK && o.sid == sid && o.len > 0 && o.len <= n, "a window update is well-formed");
        }
    } else {
        w.run(Write(0));
        w.poll();
        if let Some(o) = w.sent().last() {
            check(o.ver == 0 && o.tag == DATA && o.flags == ACK && o.sid == sid, "the first data acknowledges the stream");
        }
    }
}
entry!(h_c01_decode_c, decode(true));
entry!(h_c01_decode_s, decode(false));
entry!(h_c01_fields_c, fields(true));
entry!(h_c01_fields_s, fields(false));
entry!(h_c01_encode_c, encode(true));
entry!(h_c01_encode_s, encode(false));
entry!(h_c01_answer_c, answer(true));
entry!(h_c01_answer_s, answer(false));
