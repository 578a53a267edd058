//! C03: what is written is exact, however the transport takes it.
use crate::monitor::*;
use crate::ops::Op::*;
use crate::world::*;

/// Writes of known content while the transport takes the bytes in pieces and pauses.
fn pieces(client: bool, cuts: u32, stalls: u32, k: usize) {
    let mut c = Config::default();
    c.set_split_send_size(2);
    let mut w = World::new(client, c, M_ALL);
    w.n().mon.split = 2;
    {
        let mut n = w.n();
        n.keep_body = true;
        n.wr_split = true;
        n.wr_cuts = cuts;
        n.wr_stall = stalls;
    }
    w.must_open();
    let id = w.ids[0];
    let mut sent = vec![];
    let mut pings = vec![];
    for i in 0..k {
        match vsym::choice(2, "op") {
            0 => {
                let b = [vsym::u8("content"), vsym::u8("content"), vsym::u8("content")];
                let l = 3 - i % 2;
                match w.write(0, &b[..l]) {
                    Poll::Ready(Ok(n)) => sent.extend_from_slice(&b[..n]),
                    _ => check(false, "a write is accepted"),
                }
            }
            _ => {
                let v = vsym::u32("ping");
                w.peer(PING, SYN, 0, v);
                pings.push(v);
            }
        }
        w.poll();
    }
    let _ = w.close_stream(0);
    for _ in 0..=stalls {
        w.poll();
    }
    let n = w.n();
    check(!n.mid_frame(), "whole frames are sent");
    check(!n.dirty, "everything written is flushed");
    let mut got = vec![];
    let mut pongs = vec![];
    let mut fin = 0;
    for f in &n.out {
        if f.tag == DATA {
            check(f.sid == id && f.len as usize == f.body.len(), "a frame's length is that of its content");
            got.extend_from_slice(&f.body);
            fin += f.has(FIN) as u32;
        } else if f.tag == PING && f.has(ACK) {
            pongs.push(f.len);
        }
    }
    check(got == sent, "the content sent is what was written, in order");
    check(pongs == pings, "the pongs are sent, in order");
    check(fin == 1, "the stream's end is sent");
    witness(n.wr_cuts == 0 && n.wr_stall == 0 && sent.len() > 2, "all cuts and pauses used");
}
/// Frames of any length, pieces of any size, and everything that happens to a stream.
fn long(client: bool, k: usize) {
    vsym::lengths_mode();
    let mut w = World::started(client, Config::default(), M_ALL);
    {
        let mut n = w.n();
        n.wr_split = true;
        n.wr_cuts = 1;
        n.wr_stall = 1;
    }
    w.step(&[Open, PSynData]);
    w.auto = false;
    w.steps(k, &[Write(0), CloseS(0), Drop(0), PPing, PollC, Read(0)]);
    w.poll();
    w.poll();
    let n = w.n();
    check(!n.mid_frame(), "whole frames are sent");
    check(!n.dirty, "everything written is flushed");
    let m = &n.mon.s[0];
    check(m.data_out == m.wrote, "everything accepted is sent");
    check(n.mon.pongs_out == n.mon.pings_in.len(), "every ping is answered");
}
/// After an error nothing more is written, and before it only whole frames and a part of one.
fn broken(client: bool, k: usize) {
    vsym::lengths_mode();
    let mut w = World::started(client, Config::default(), M_ALL);
    w.must_open();
    w.auto = false;
    w.steps(k, &[Write(0), PPing, CloseS(0)]);
    let at = vsym::range(0, 60, "fails after");
    let m = [Wr::FailOnce, Wr::Zero, Wr::Over][vsym::choice(3, "failure")];
    w.n().wr_limit = Some((at, m));
    w.poll();
    if w.n().wr_failed {
        witness(true, "a write failed");
        check(w.end == End::Err(ErrKind::Io), "a failed write is reported");
    } else {
        let n = w.n();
        check(!n.mid_frame() && n.mon.s[0].data_out == n.mon.s[0].wrote, "everything accepted is sent");
    }
    w.poll();
}
/// The transport's flush waits: flushing is taken up again.
fn flushing(client: bool, k: usize) {
    vsym::lengths_mode();
    let mut w = World::started(client, Config::default(), M_ALL);
    w.must_open();
    w.auto = false;
    w.n().fl = Wr::Block;
    w.steps(k, &[Write(0), PPing, CloseS(0), RunConn, PData(0)]);
    w.poll();
    let wk = {
        let mut n = w.n();
        n.fl = Wr::Accept;
        n.fl_waker.take()
    };
    let waits = w.n().dirty;
    check(!waits || wk.is_some(), "a connection with unflushed data waits for the flush");
    if let Some(wk) = wk {
        wk.wake();
    }
    w.quiesce();
    let n = w.n();
    check(!n.dirty, "everything written is flushed");
    check(!n.mid_frame() && n.mon.s[0].data_out == n.mon.s[0].wrote, "everything accepted is sent");
}
entry!(h_c03_pieces_c, pieces(true, 2, 0, 3));
entry!(h_c03_pieces_s, pieces(false, 1, 1, 3));
entry!(h_c03_pieces3, pieces(true, 2, 1, 3));
entry!(h_c03_long_c, long(true, 3));
entry!(h_c03_long_s, long(false, 3));
entry!(h_c03_long_c4, long(true, 4));
entry!(h_c03_broken_c, broken(true, 3));
entry!(h_c03_broken_s, broken(false, 3));
entry!(h_c03_flush_c, flushing(true, 5));
entry!(h_c03_flush_s, flushing(false, 5));
