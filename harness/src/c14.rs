//! C14: whatever the peer sends, the connection does what the protocol says about it and goes on
//! or ends in an orderly way; it never panics.
use crate::monitor::*;
use crate::ops::Op::*;
use crate::world::*;

/// Any frame: any header, with as much content as it announces.
fn any_frame(w: &mut World) {
    let (ver, tag) = (vsym::u8("version"), vsym::u8("type"));
    let (flags, sid, len) = (vsym::u16("flags"), vsym::u32("stream"), vsym::u32("length"));
    let h = header(ver, tag, flags, sid, len);
    let mut f = Wire::parse(&h);
    f.ver = ver;
    let (out, goaways, streams, pongs, end) = {
        let n = w.n();
        (n.out.len(), n.mon.goaways.len(), w.ids.len(), n.mon.pongs_out, w.end)
    };
    {
        let mut n = w.n();
        n.inp.push_back(Seg::Bytes(h.to_vec(), 0));
        if tag == DATA && len != 0 && len <= 1 << 20 {
            n.inp.push_back(Seg::Opaque(len as u64, 0));
        }
        n.inp.push_back(Seg::Mark(f));
    }
    let nv = w.n().mon.verdicts.len();
    w.poll();
    if end != End::Pending {
        check(w.n().mon.verdicts.len() == nv, "a finished connection reads nothing");
        return;
    }
    let new = w.ids.len() - streams;
    let big = ver == 0 && tag == DATA && len > 1 << 20;
    if ver != 0 || tag > GOAWAY || big {
        witness(big, "a frame that is too large");
        witness(ver != 0, "an unknown version");
        witness(tag > GOAWAY, "an unknown frame type");
        check(w.end == End::Err(ErrKind::Decode), "a malformed or oversized frame is a decoding error");
        check(new == 0, "a malformed frame opens no stream");
        return;
    }
    let n = w.n();
    check(n.mon.verdicts.len() == nv + 1, "the frame is read");
    let v = n.mon.verdicts[nv];
    match v {
        Verdict::GoAway => check(w.end == End::None, "a go-away ends the connection"),
        _ => check(w.end == End::Pending, "the connection goes on"),
    }
    match v {
        Verdict::Violation => {
            witness(true, "a violation");
            check(n.mon.goaways.len() == goaways + 1, "a violation is answered with one go-away");
            check(n.mon.goaways[goaways] == 1, "the go-away says protocol error");
        }
        _ => check(n.mon.goaways.len() == goaways, "no go-away without a violation"),
    }
    check(new == (v == Verdict::New) as usize, "a stream appears exactly when one is opened");
    if v == Verdict::New {
        check(w.ids[streams] == sid, "the new stream has the identifier the peer gave");
    }
    check(n.mon.pongs_out - pongs == (v == Verdict::Ping) as usize, "a pong is sent exactly for a ping");
    let x = match v {
        Verdict::Violation | Verdict::Ping => 1,
        _ => 0,
    };
    check(n.out.len() == out + x, "nothing else is sent");
}
/// What the streams got is what the frames said.
fn probe(w: &mut World) {
    for i in 0..w.streams.len() {
        w.judge_state(i);
        let id = w.ids[i];
        let u = w.ms(id).unread();
        let (got, _) = w.drain(i);
        check(got == u, "exactly the accepted data can be read");
        let _ = w.write_n(i, u32::MAX);
        w.poll();
    }
}
fn fuzz(client: bool, pre: usize, k: usize) {
    vsym::lengths_mode();
    let mut w = World::started(client, Config::default(), M_API | M_CREDIT | M_PING | M_TERM);
    w.must_open();
    let n = vsym::u32("write");
    let _ = w.write_n(0, n);
    w.poll();
    w.steps(pre, &[CloseS(0), PSynData, PSynWin, PPong, PData(0), Write(0)]);
    for _ in 0..k {
        any_frame(&mut w);
    }
    probe(&mut w);
}
entry!(h_c14_c, fuzz(true, 0, 2));
entry!(h_c14_s, fuzz(false, 0, 2));
entry!(h_c14_pre_c, fuzz(true, 1, 1));
entry!(h_c14_pre2_c, fuzz(true, 2, 1));
entry!(h_c14_pre_s, fuzz(false, 1, 1));
entry!(h_c14_pre2_s, fuzz(false, 2, 1));
entry!(h_c14_deep_c, fuzz(true, 0, 3));
entry!(h_c14_deep_s, fuzz(false, 1, 2));
