//! C27: streams and the connection belong to different threads.
//!
//! One call is under way - of a stream, or of the connection - and at any point where it takes or
//! releases a lock, or enters the transport, the other thread makes a whole call of its own.
use crate::monitor::*;
use crate::ops::Op::{self, *};
use crate::world::*;
use vsym::preempt;

/// How often another thread may still run in between.
static mut BUDGET: u32 = 0;
static mut W: *mut World = std::ptr::null_mut();
/// What may happen in between.
static mut OTHERS: &[Op] = &[];

const CONN: u8 = 1;
/// Every stream has a thread of its own.
fn thread_of(o: Op) -> u8 {
    match o {
        Write(i) | Read(i) | ReadAll(i) | Packet(i) | CloseS(i) | Flush(i) | Drop(i) => 2 + i as u8,
        _ => CONN,
    }
}

fn other() {
    unsafe {
        if BUDGET == 0 || !vsym::flip("switch") {
            return;
        }
        BUDGET -= 1;
        let w = W;
        let mut ok = [PollC; 16];
        let mut n = 0;
        for &o in OTHERS {
            if can(w, o) {
                ok[n] = o;
                n += 1;
            }
        }
        if n == 0 {
            return;
        }
        let o = ok[vsym::choice(n, "other")];
        witness(true, "another thread runs in between");
        let t = preempt::thread(thread_of(o));
        call(w, o);
        if thread_of(o) == CONN && !matches!(o, PollC | Open | Close) {
            poll(w);
        }
        preempt::thread(t);
    }
}
/// For one statement.
unsafe fn m<'a>(w: *mut World) -> &'a mut World {
    &mut *w
}
unsafe fn can(w: *mut World, o: Op) -> bool {
    let w = &mut *w;
    if w.conn.is_none() && matches!(o, PollC | Open | Close) {
        return false;
    }
    w.can(o)
}
/// A call (or something the peer does), without a reference to the world being held meanwhile.
unsafe fn call(w: *mut World, o: Op) {
    match o {
        Write(i) => {
            let n = vsym::u32("write");
            write(w, i, n)
        }
        Read(i) => {
            let n = vsym::u32("read");
            read(w, i, n)
        }
        ReadAll(i) => read(w, i, crate::sched::ASK),
        Packet(i) => packet(w, i),
        CloseS(i) => {
            let mut s = m(w).streams[i].take().unwrap();
            let id = s.id().val();
            let wk = wake::waker(m(w).tw(i));
            m(w).n().mon.api_closed(id);
            let r = futures::AsyncWrite::poll_close(std::pin::Pin::new(&mut s), &mut std::task::Context::from_waker(&wk));
            if r.is_pending() {
                let k = m(w).n().mon.find(id).unwrap();
                m(w).n().mon.s[k].closed = false;
            }
            m(w).park_w[i] = None;
            m(w).streams[i] = Some(s);
        }
        Flush(i) => {
            let mut s = m(w).streams[i].take().unwrap();
            let t = m(w).tw(i);
            let n = wake::woken(t);
            let wk = wake::waker(t);
            let r = futures::AsyncWrite::poll_flush(std::pin::Pin::new(&mut s), &mut std::task::Context::from_waker(&wk));
            m(w).park_f[i] = r.is_pending().then_some(n);
            witness(r.is_pending(), "a flush has to wait");
            m(w).streams[i] = Some(s);
        }
        Drop(i) => {
            let s = m(w).streams[i].take().unwrap();
            m(w).n().mon.api_dropped(s.id().val());
            m(w).park_r[i] = None;
            m(w).park_w[i] = None;
            m(w).park_f[i] = None;
            drop(s);
        }
        PollC | RunConn => poll(w),
        Open => {
            let mut c = m(w).conn.take().unwrap();
            let n = wake::woken(T_OPEN);
            let wk = wake::waker(T_OPEN);
            m(w).park_open = None;
            match c.poll_new_outbound(&mut std::task::Context::from_waker(&wk)) {
                Poll::Pending => m(w).park_open = Some(n),
                Poll::Ready(Ok(s)) => {
                    let id = s.id().val();
                    m(w).n().mon.api_outbound(id);
                    m(w).ids.push(id);
                    m(w).streams.push(Some(s));
                    m(w).park_r.push(None);
                    m(w).park_w.push(None);
                    m(w).park_f.push(None);
                }
                Poll::Ready(Err(_)) => (),
            }
            m(w).conn = Some(c);
        }
        Close => {
            let mut c = m(w).conn.take().unwrap();
            let n = wake::woken(T_CONN);
            let wk = wake::waker(T_CONN);
            m(w).n().mon.api_close();
            m(w).park_conn = None;
            match c.poll_close(&mut std::task::Context::from_waker(&wk)) {
                Poll::Pending => m(w).park_conn = Some(n),
                Poll::Ready(_) => (),
            }
            m(w).conn = Some(c);
        }
        PWin(i) | PWinFin(i) => {
            let fin = matches!(o, PWinFin(_));
            let id = m(w).ids[i];
            let n = vsym::range(0, 1 << 24, "update") as u32;
            m(w).pstate(id).fin |= fin;
            m(w).peer(WINDOW, if fin { FIN } else { 0 }, id, n);
        }
        o => m(w).run(o),
    }
}
unsafe fn write(w: *mut World, i: usize, n: u32) {
    let mut s = m(w).streams[i].take().unwrap();
    let id = s.id().val();
    let v = vsym::opaque_vec(n as usize);
    let t = m(w).tw(i);
    let k = wake::woken(t);
    let wk = wake::waker(t);
    let x = m(w).n().mon.find(id).unwrap();
    m(w).n().mon.s[x].writing = n as u64;
    let r = futures::AsyncWrite::poll_write(std::pin::Pin::new(&mut s), &mut std::task::Context::from_waker(&wk), &v);
    m(w).n().mon.s[x].writing = 0;
    if let Poll::Ready(Ok(k)) = &r {
        m(w).n().mon.api_wrote(id, *k as u64, n as u64);
    }
    let x = m(w).n().mon.s[x].clone();
    check(x.data_out <= x.wrote, "only bytes the application wrote are sent");
    m(w).park_w[i] = r.is_pending().then_some(k);
    m(w).streams[i] = Some(s);
}
unsafe fn read(w: *mut World, i: usize, n: u32) {
    let mut s = m(w).streams[i].take().unwrap();
    let id = s.id().val();
    let mut v = vsym::opaque_vec(n as usize);
    let t = m(w).tr(i);
    let k = wake::woken(t);
    let wk = wake::waker(t);
    let r = futures::AsyncRead::poll_read(std::pin::Pin::new(&mut s), &mut std::task::Context::from_waker(&wk), &mut v);
    m(w).park_r[i] = (r.is_pending() && n != 0).then_some(k);
    match r {
        Poll::Ready(Ok(k)) => {
            check(k as u64 <= n as u64, "a read gives no more than was asked for");
            m(w).n().mon.api_read(id, k as u64)
        }
        Poll::Ready(Err(_)) => {
            let over = m(w).finished();
            check(over, "a read fails only when the connection has ended")
        }
        _ => (),
    }
    m(w).streams[i] = Some(s);
}
unsafe fn packet(w: *mut World, i: usize) {
    let mut s = m(w).streams[i].take().unwrap();
    let id = s.id().val();
    let t = m(w).tr(i);
    let k = wake::woken(t);
    let wk = wake::waker(t);
    let r = futures::Stream::poll_next(std::pin::Pin::new(&mut s), &mut std::task::Context::from_waker(&wk));
    m(w).park_r[i] = r.is_pending().then_some(k);
    if let Poll::Ready(Some(Ok(p))) = &r {
        m(w).n().mon.api_read(id, p.as_ref().len() as u64);
    }
    m(w).streams[i] = Some(s);
}
unsafe fn poll(w: *mut World) {
    while let Some(mut c) = m(w).conn.take() {
        let n = wake::woken(T_CONN);
        let wk = wake::waker(T_CONN);
        m(w).park_conn = None;
        let r = c.poll_next_inbound(&mut std::task::Context::from_waker(&wk));
        m(w).conn = Some(c);
        match r {
            Poll::Pending => {
                m(w).park_conn = Some(n);
                return;
            }
            Poll::Ready(Some(Ok(s))) => {
                let id = s.id().val();
                m(w).n().mon.api_inbound(id);
                m(w).ids.push(id);
                m(w).streams.push(Some(s));
                m(w).park_r.push(None);
                m(w).park_w.push(None);
                m(w).park_f.push(None);
            }
            Poll::Ready(Some(Err(e))) => {
                if m(w).end == End::Pending {
                    m(w).end = End::Err(kind(&e));
                }
                return;
            }
            Poll::Ready(None) => {
                if m(w).end == End::Pending {
                    m(w).end = End::None;
                }
                return;
            }
        }
    }
}
/// `k` calls; up to `cuts` times another thread makes a call while one is under way.
fn threads(w: &mut World, k: usize, cuts: u32, ops: &'static [Op], others: &'static [Op]) {
    let p = w as *mut World;
    unsafe {
        W = p;
        BUDGET = cuts;
        preempt::install(other);
        for _ in 0..k {
            let mut ok = [PollC; 16];
            let mut n = 0;
            for &o in ops {
                if can(p, o) {
                    ok[n] = o;
                    n += 1;
                }
            }
            if n == 0 {
                break;
            }
            let o = ok[vsym::choice(n, "op")];
            if matches!(o, PollC | RunConn | Open | Close) || thread_of(o) != CONN {
                OTHERS = others;
                preempt::thread(thread_of(o));
                preempt::on(true);
                call(p, o);
                preempt::on(false);
                preempt::thread(0);
            } else {
                call(p, o);
            }
        }
    }
}
/// All threads come to rest; then everything is as after calls one after another.
fn finish(w: &mut World) {
    w.set_write(Wr::Accept);
    w.quiesce();
    w.judge_quiet();
    w.poll();
    if w.finished() {
        return;
    }
    w.auto = true;
    w.n().mon.mask |= M_API;
    for i in 0..w.streams.len() {
        let id = w.ids[i];
        let m = w.ms(id);
        check(m.rst_in > 0 || m.data_out == m.wrote, "every accepted byte is sent");
        check(!m.closed || m.rst_in > 0 || m.fin_out == 1, "the end of a closed stream is sent");
        check(!m.dropped || m.rst_in > 0 || m.fin_out + m.rst_out > 0 || m.syn_out + m.syn_in == 0 || (m.closed && m.fin_in > 0), "a dropped stream's end is sent");
        if !w.live(i) {
            continue;
        }
        w.judge_state(i);
        let u = m.unread();
        let (got, _) = w.drain(i);
        check(got == u, "what was received can be read");
        w.poll();
        let _ = w.write_n(i, 1);
        let _ = w.close_stream(i);
        w.poll();
        w.judge_state(i);
    }
}
fn config() -> Config {
    let mut c = Config::default();
    c.set_split_send_size(1 << 20);
    c
}
const ALL: u32 = M_ALL & !M_API;
/// One stream, of ours or of the peer.
fn one(client: bool, ours: bool, k: usize, cuts: u32) {
    vsym::lengths_mode();
    let mut w = World::started(client, config(), ALL);
    w.n().mon.split = 1 << 20;
    if ours {
        w.must_open();
    } else {
        w.step(&[PSynWin]);
    }
    w.auto = false;
    threads(
        &mut w,
        k,
        cuts,
        &[Write(0), Read(0), CloseS(0), Drop(0), PollC, PData(0), PWin(0), PDataFin(0), PRst(0)],
        &[Write(0), Read(0), CloseS(0), Drop(0), PollC, PData(0), PDataFin(0), PWin(0), PRst(0)],
    );
    finish(&mut w);
}
/// Writer without credit.
fn credit(k: usize, cuts: u32) {
    vsym::lengths_mode();
    let mut w = World::started(true, config(), ALL);
    w.n().mon.split = 1 << 20;
    w.must_open();
    let _ = w.write_n(0, CREDIT as u32);
    w.poll();
    w.auto = false;
    threads(
        &mut w,
        k,
        cuts,
        &[Write(0), Read(0), CloseS(0), PollC, PWin(0), PRst(0)],
        &[Write(0), Read(0), PollC, PWin(0), PWinFin(0), PRst(0), Close],
    );
    finish(&mut w);
}
/// The queue of the stream is full and the transport blocked.
fn full(k: usize, cuts: u32) {
    vsym::lengths_mode();
    let mut w = World::started(true, config(), ALL);
    w.n().mon.split = 1 << 20;
    w.must_open();
    w.set_write(Wr::Block);
    for _ in 0..20 {
        w.poll();
        if w.write_n(0, 1).is_pending() {
            break;
        }
    }
    w.auto = false;
    threads(
        &mut w,
        k,
        cuts,
        &[Write(0), Flush(0), Read(0), CloseS(0), PollC, PData(0), Unblock],
        &[Write(0), Read(0), CloseS(0), PollC, Unblock, PData(0), PRst(0)],
    );
    finish(&mut w);
}
/// A task waits to open a stream.
fn opener(cuts: u32) {
    vsym::lengths_mode();
    let mut w = World::started(true, config(), ALL);
    w.n().mon.split = 1 << 20;
    for _ in 0..256 {
        w.must_open();
    }
    w.auto = false;
    w.poll();
    w.quiesce();
    let _ = w.open();
    check(w.park_open.is_some(), "a task waits to open a stream");
    threads(
        &mut w,
        1,
        cuts,
        &[CloseS(0), Drop(0), Write(0), PollC],
        &[CloseS(0), Drop(0), PollC, PAck(0), PRst(0)],
    );
    w.quiesce();
    w.judge_quiet();
}
/// The connection ends while streams are used.
fn ending(client: bool, k: usize, cuts: u32) {
    vsym::lengths_mode();
    let mut w = World::started(client, config(), ALL & !M_TERM);
    w.n().mon.split = 1 << 20;
    w.must_open();
    w.auto = false;
    threads(
        &mut w,
        k,
        cuts,
        &[Write(0), Read(0), CloseS(0), Drop(0), PollC, Close, PData(0), FailR, Eof],
        &[Write(0), Read(0), CloseS(0), Drop(0), PollC, Close, FailR, Eof, FailW],
    );
    w.quiesce();
    w.judge_quiet();
}
/// The connection is closed while a stream, whose queue may be full, is written to or closed.
fn closing(client: bool, ours: bool, k: usize, cuts: u32) {
    vsym::lengths_mode();
    let mut w = World::started(client, config(), ALL & !M_TERM);
    w.n().mon.split = 1 << 20;
    if ours {
        w.must_open();
    } else {
        w.step(&[PSynWin]);
    }
    w.set_write(Wr::Block);
    let queued = vsym::choice(3, "queued");
    for i in 0..20 {
        if i >= 6 + queued * 3 || w.write_n(0, 1).is_pending() {
            break;
        }
        if queued != 1 {
            w.poll();
        }
    }
    w.auto = false;
    threads(&mut w, k, cuts, &[Write(0), CloseS(0), Drop(0), Close], &[Write(0), CloseS(0), Drop(0), PollC, Close, Unblock]);
    w.set_write(Wr::Accept);
    w.quiesce();
    w.judge_quiet();
    unsafe { call(&mut w, Close) };
    w.quiesce();
    let m = w.ms(w.ids[0]);
    check(w.n().closed, "the close completes");
    check(m.data_out == m.wrote, "every accepted byte is sent before the connection is closed");
    witness(m.fin_out > 0, "the end of a closed stream is sent");
}
/// Two streams whose windows grow, in threads of their own, under the connection's limit.
fn growing(k: usize, cuts: u32) {
    vsym::lengths_mode();
    let mut c = config();
    let limit = 2 * CREDIT + vsym::range(0, 1 << 20, "extra");
    c.set_max_num_streams(2);
    c.set_max_connection_receive_window(Some(limit as usize));
    let mut w = World::started(true, c, ALL);
    {
        let mut n = w.n();
        n.mon.split = 1 << 20;
        n.mon.max_window = u64::MAX;
        n.mon.max_conn = Some(limit);
        n.mon.max_streams = 2;
    }
    pass(1);
    w.run(PPong);
    for _ in 0..2 {
        w.run(PSynWin);
        w.poll();
    }
    for i in 0..2 {
        let id = w.ids[i];
        let n = w.peer_window(id);
        w.pstate(id).sent += n;
        w.peer(DATA, 0, id, n as u32);
    }
    w.poll();
    w.auto = false;
    threads(&mut w, k, cuts, &[ReadAll(0), Read(1), Drop(0), PollC], &[ReadAll(0), ReadAll(1), Drop(0), Drop(1), PollC]);
    finish(&mut w);
    let n = w.n();
    let mut sum = 0;
    for x in n.mon.s.iter().filter(|x| x.api && !x.dropped) {
        sum += x.rwin + x.unread();
    }
    witness(sum == limit, "the limit is reached");
    check(sum <= limit, "granted windows and unread bytes of all streams stay within the connection's limit");
}
fn pass(s: u64) {
    let t = web_time::model::last() - web_time::model::at(std::time::Duration::ZERO);
    web_time::model::set(t + std::time::Duration::from_secs(s));
}
/// Chunks are taken.
fn packets(k: usize, cuts: u32) {
    vsym::lengths_mode();
    let mut w = World::started(false, config(), ALL);
    w.n().mon.split = 1 << 20;
    w.run(PSynWin);
    w.poll();
    w.auto = false;
    threads(&mut w, k, cuts, &[Packet(0), Flush(0), PollC, PData(0), PDataFin(0)], &[Packet(0), PollC, PData(0), PDataFin(0), PRst(0)]);
    finish(&mut w);
}
entry!(h_c27_out_c, one(true, true, 2, 1));
entry!(h_c27_out_s, one(false, true, 3, 1));
entry!(h_c27_out2, one(true, true, 2, 2));
entry!(h_c27_in_c, one(true, false, 2, 1));
entry!(h_c27_in_s, one(false, false, 2, 1));
entry!(h_c27_in_deep, one(false, false, 3, 1));
entry!(h_c27_credit, credit(2, 1));
entry!(h_c27_credit2, credit(2, 2));
entry!(h_c27_full, full(2, 1));
entry!(h_c27_full2, full(2, 2));
entry!(h_c27_opener, opener(1));
entry!(h_c27_ending_c, ending(true, 2, 1));
entry!(h_c27_ending_s, ending(false, 2, 2));
entry!(h_c27_growing, growing(2, 1));
entry!(h_c27_growing2, growing(2, 2));
entry!(h_c27_packets, packets(3, 1));
entry!(h_c27_packets2, packets(2, 2));
entry!(h_c27_closing_c, closing(true, true, 1, 1));
entry!(h_c27_closing_s, closing(false, false, 2, 1));
