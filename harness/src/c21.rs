//! C21: a connection ends once, whatever the reason, for everyone, and stays ended.
use crate::ops::Op::*;
use crate::world::*;

/// Any end.
fn ending(w: &mut World) {
    w.auto = false;
    let cause = vsym::choice(9, "cause");
    match cause {
        0 => w.run(FailR),
        1 => w.run(Eof),
        2 => w.run(PGoAway),
        3 => {
            let v = vsym::u8("version");
            vsym::assume(v != 0);
            w.peer_raw(&header(v, DATA, 0, 0, 0));
        }
        4 => w.peer_raw(&header(0, DATA, 0, 1, (1 << 20) + 1)),
        5 => {
            w.run(FailW);
            w.run(PPing);
        }
        6 => {
            w.run(FailF);
            w.run(PPing);
        }
        7 => {
            // part of a frame
            w.peer_raw(&[0, 0, 0]);
            w.run(Eof);
        }
        _ => {
            // the application closes it, and the transport fails or not
            if vsym::flip("failing") {
                w.run(FailW);
            } else {
                w.set_write(Wr::Accept);
            }
            let r = w.close();
            check(r.is_ready(), "the close ends");
            w.end = End::None;
        }
    }
    if cause < 8 {
        w.poll();
        if w.end == End::Pending {
            // the transport is blocked, so nothing was noticed yet
            w.set_write(Wr::Accept);
            w.poll();
        }
    }
}
/// A task waits to open a stream when the connection ends.
fn opener(client: bool) {
    vsym::lengths_mode();
    let mut w = World::started(client, Config::default(), crate::monitor::M_TERM);
    for _ in 0..256 {
        w.must_open();
    }
    check(w.open().is_pending(), "with 256 unacknowledged streams opening waits");
    ending(&mut w);
    check(w.end != End::Pending, "the connection ends");
    w.streams.truncate(1);
    w.judge_finished();
}
fn history(client: bool, k: usize) {
    vsym::lengths_mode();
    let mut w = World::started(client, Config::default(), crate::monitor::M_TERM);
    w.must_open();
    w.run(PSynData);
    w.poll();
    if vsym::flip("fill") {
        // a writer waits for credit
        w.set_write(Wr::Accept);
        for _ in 0..20 {
            if w.write_n(0, CREDIT as u32).is_pending() {
                break;
            }
            w.poll();
        }
    }
    w.steps(k, &[Write(0), Read(0), Read(1), PData(0), CloseS(1), PDataFin(1), PRst(1), Block]);
    ending(&mut w);
    check(w.end != End::Pending, "the connection ends");
    w.judge_finished();
}
/// The connection's handle is dropped.
fn dropped(client: bool, k: usize) {
    vsym::lengths_mode();
    let mut w = World::started(client, Config::default(), crate::monitor::M_TERM);
    w.must_open();
    w.run(PSynData);
    w.poll();
    w.steps(k, &[Write(0), Read(0), Read(1), PData(0), CloseS(1), PDataFin(1), PRst(1), Block]);
    if vsym::flip("closing") {
        w.set_write(Wr::Block);
        check(w.close().is_pending(), "the close waits for the transport");
    }
    let before = w.n().out.len();
    w.conn = None;
    check(w.n().dropped, "the transport is released");
    for i in 0..2 {
        for (t, p) in [(t_reader(i), w.park_r[i]), (w.tw(i), w.park_w[i])] {
            if let Some(n) = p {
                check(wake::woken(t) > n, "a task waiting on a stream is woken when the connection is dropped");
                witness(true, "a waiting task was woken");
            }
        }
        let u = w.ms(w.ids[i]).unread();
        let (got, eof) = w.drain(i);
        check(got == u && eof, "after the connection's end what was received can be read, and then the end");
        check(matches!(w.write_n(i, 1), Poll::Ready(Err(_))), "after the connection's end writes fail");
        check(matches!(w.close_stream(i), Poll::Ready(Ok(()))), "after the connection's end closing a stream succeeds");
        w.drop_stream(i);
    }
    check(w.n().out.len() == before, "nothing is sent after the connection was dropped");
}
/// Everything is released.
fn released(client: bool, k: usize) {
    let before = vsym::heap();
    {
        let mut w = World::started(client, Config::default(), 0);
        let mut b = [0; 3];
        w.must_open();
        w.peer_data(SYN, w.peer_id(0), b"abc");
        w.poll();
        for _ in 0..k {
            match vsym::choice(9, "op") {
                0 => {
                    let _ = w.write(0, b"abc");
                }
                1 => {
                    let _ = w.read(0, &mut b);
                }
                2 => {
                    let _ = w.read(1, &mut b);
                }
                3 => {
                    let _ = w.write(1, b"xy");
                }
                4 => {
                    let _ = w.close_stream(1);
                }
                5 => w.peer_data(FIN, w.ids[1], b"abcd"),
                6 => w.peer(WINDOW, RST, w.ids[0], 0),
                7 => w.set_write(Wr::Block),
                _ => {
                    if w.live(1) {
                        w.drop_stream(1);
                        w.streams[1] = None;
                    }
                }
            }
            if !w.live(1) {
                break;
            }
            w.poll();
        }
        match vsym::choice(3, "end") {
            0 => ending(&mut w),
            1 => w.conn = None,
            _ => {
                // the streams first
                w.streams.clear();
                if vsym::flip("polled") {
                    w.park_r.clear();
                    w.poll();
                }
            }
        }
    }
    check(vsym::heap() == before, "a connection and its streams leave nothing in memory");
    witness(true, "all released");
}
/// Streams outlive errors of the connection that come from opening too many.
fn refused(client: bool) {
    vsym::lengths_mode();
    let mut c = Config::default();
    c.set_max_num_streams(2);
    let mut w = World::started(client, c, 0);
    w.must_open();
    w.run(PSynData);
    w.poll();
    let _ = w.read_n(0, 10);
    check(w.open() == Poll::Ready(Err(ErrKind::TooManyStreams)), "too many streams are refused");
    w.end = End::Err(ErrKind::TooManyStreams);
    w.judge_finished();
}
entry!(h_c21_released_c, released(true, 2));
entry!(h_c21_released_s, released(false, 2));
entry!(h_c21_opener, opener(true));
entry!(h_c21_c, history(true, 2));
entry!(h_c21_s, history(false, 2));
entry!(h_c21_drop_c, dropped(true, 3));
entry!(h_c21_drop_s, dropped(false, 3));
entry!(h_c21_refused_c, refused(true));
entry!(h_c21_refused_s, refused(false));
entry!(h_c21_deep, history(true, 3));
