//! C24: a failing transport ends the connection, with the error, for good, and for everyone.
use crate::monitor::*;
use crate::ops::Op::*;
use crate::world::*;

fn faulty(client: bool, k: usize, after: usize, writes: bool) {
    vsym::lengths_mode();
    let mut w = World::started(client, Config::default(), M_TERM | M_API);
    w.must_open();
    w.steps(k, &[Write(0), Read(0), PData(0), PSynData]);
    if writes {
        // the transport takes some more bytes and then fails
        let at = vsym::range(0, 40, "fails after");
        let m = [Wr::Fail, Wr::Zero][vsym::choice(2, "failure")];
        w.n().wr_limit = Some((at, m));
    } else {
        match vsym::choice(3, "failure") {
            0 => w.run(FailR),
            1 => w.run(FailF),
            _ => w.run(Eof),
        }
    }
    w.steps(after, &[Write(0), PPing, Read(0), PData(0)]);
    w.poll();
    let (wr, fl, rd, eof) = {
        let n = w.n();
        (n.wr_failed, n.fl_failed, n.rd_failed, n.eof)
    };
    witness(wr, "a write failed");
    witness(rd, "a read failed");
    witness(fl, "a flush failed");
    if wr || fl {
        check(w.end == End::Err(ErrKind::Io), "a failed write is reported");
    } else if rd {
        check(matches!(w.end, End::Err(ErrKind::Io | ErrKind::Decode)), "a failed read is reported");
    } else if eof {
        check(w.end == End::None, "the end of the transport ends the connection");
    }
    if w.end != End::Pending {
        w.judge_finished();
    }
}
/// The transport fails with any error.
fn any_error(client: bool) {
    vsym::lengths_mode();
    let mut w = World::started(client, Config::default(), M_TERM | M_API);
    w.must_open();
    let kind = KINDS[vsym::below(16, "error") as usize];
    w.n().err = kind;
    w.step(&[Write(0), PData(0), PSynData, Read(0)]);
    let zero = match vsym::choice(5, "failure") {
        0 => {
            w.run(FailR);
            false
        }
        1 => {
            // within a frame
            w.peer_raw(&[0, 0, 0, 0, 0]);
            w.poll();
            w.run(FailR);
            false
        }
        2 => {
            w.run(FailF);
            false
        }
        3 => {
            w.run(FailW);
            w.run(PPing);
            false
        }
        _ => {
            w.run(ZeroW);
            w.run(PPing);
            true
        }
    };
    w.poll();
    let want = if zero { std::io::ErrorKind::WriteZero } else { kind };
    check(w.err.as_ref().and_then(io_kind) == Some(want), "the transport's error is reported");
    w.judge_finished();
}
/// A write fails once; the transport would work again.
fn recovering(client: bool, k: usize) {
    vsym::lengths_mode();
    let mut w = World::started(client, Config::default(), M_TERM);
    w.must_open();
    w.auto = false;
    w.run(Write(0));
    w.steps(k, &[Write(0), PPing, Write(0)]);
    let at = vsym::range(0, 40, "fails after");
    w.n().wr_limit = Some((at, Wr::FailOnce));
    w.poll();
    witness(w.n().wr_failed, "a write failed once");
    if w.n().wr_failed {
        check(w.end == End::Err(ErrKind::Io), "a write that failed once is reported");
        w.judge_finished();
    }
}
/// The transport fails during an orderly close.
fn closing(client: bool, k: usize) {
    vsym::lengths_mode();
    let mut w = World::started(client, Config::default(), M_TERM | M_API);
    w.must_open();
    w.auto = false;
    w.steps(k, &[Write(0), PPing, CloseS(0)]);
    let at = vsym::range(0, 60, "fails after");
    match vsym::choice(3, "failure") {
        0 => w.n().wr_limit = Some((at, Wr::Fail)),
        1 => w.n().wr_limit = Some((at, Wr::FailOnce)),
        _ => w.n().cl = Wr::Fail,
    }
    let r = w.close();
    let failed = w.n().wr_failed || w.n().cl == Wr::Fail;
    witness(failed, "a write failed during the close");
    if failed {
        check(r == Poll::Ready(Err(ErrKind::Io)), "a failure during the close is reported");
    } else {
        check(r == Poll::Ready(Ok(())), "the close succeeds");
        check(w.n().closed, "the transport is closed");
    }
    w.end = End::None;
    w.judge_finished();
}
/// A task waits to open a stream when the connection ends.
fn opener(client: bool) {
    vsym::lengths_mode();
    let mut w = World::started(client, Config::default(), M_TERM);
    for _ in 0..256 {
        w.must_open();
    }
    check(w.open().is_pending(), "with 256 unacknowledged streams opening waits");
    w.auto = false;
    match vsym::choice(6, "end") {
        0 => w.run(FailR),
        1 => w.run(Eof),
        2 => w.run(PGoAway),
        3 => {
            let _ = w.close();
        }
        4 => w.conn = None,
        _ => {
            w.run(FailW);
            w.run(PPing);
        }
    }
    w.poll();
    let n = w.park_open.unwrap();
    check(wake::woken(T_OPEN) > n, "a task waiting to open a stream is woken when the connection ends");
}
entry!(h_c24_any_c, any_error(true));
entry!(h_c24_any_s, any_error(false));
entry!(h_c24_opener, opener(true));
entry!(h_c24_write_c, faulty(true, 2, 2, true));
entry!(h_c24_write_s, faulty(false, 1, 3, true));
entry!(h_c24_read_c, faulty(true, 2, 2, false));
entry!(h_c24_read_s, faulty(false, 3, 1, false));
entry!(h_c24_recover, recovering(true, 2));
entry!(h_c24_closing, closing(true, 3));
