//! C26: two endpoints of this implementation: what one writes the other reads, completely, and both
//! come to an end when they should.
use crate::monitor::*;
use crate::pair::*;
use crate::world::*;

const RULES: u32 = M_ALL & !M_API;

fn cfg() -> Config {
    let mut c = Config::default();
    c.set_split_send_size(1 << 20);
    c
}
/// `streams` streams, opened by either side, any amount in both directions.
fn deliver(streams: usize, cap: u64, most: u64, picks: usize) {
    vsym::lengths_mode();
    let mut p = Pair::new(cfg(), cfg(), cap, RULES);
    let back = vsym::range(0, most, "answer");
    p.answer = Some((back, vsym::flip("answer closes")));
    for _ in 0..streams {
        let side = vsym::choice(2, "opener");
        let n = vsym::range(0, most, "amount");
        let close = vsym::flip("closes");
        p.open(side, n, close);
    }
    p.start();
    p.rest(picks);
    p.judge();
    // nothing was left undone for want of a wake-up
    for s in 0..2 {
        p.w[s].poll();
    }
    p.rest(0);
    p.judge();
}
entry!(h_c26_one, deliver(1, 1 << 20, 2 * CREDIT, 0));
entry!(h_c26_tight, deliver(1, 12, 20, 0));
entry!(h_c26_tight2, deliver(1, 30, 60, 0));
entry!(h_c26_two, deliver(2, 1 << 20, CREDIT, 0));
entry!(h_c26_picks, deliver(1, 1 << 20, CREDIT, 6));
entry!(h_c26_any, deliver(1, vsym::range(1 << 17, 1 << 20, "capacity"), 1 << 17, 0));
fn cross(cap: u64, most: u64) {
    vsym::lengths_mode();
    let mut p = Pair::new(cfg(), cfg(), cap, RULES);
    for side in 0..2 {
        let n = vsym::range(0, most, "amount");
        p.open(side, n, false);
    }
    p.start();
    p.rest(0);
    p.judge();
}
entry!(h_c26_cross, cross(30, 60));

/// Any byte of a stream's data, in either direction, arrives where it belongs.
fn bytes(streams: usize, cap: u64, most: u64, picks: usize) {
    vsym::lengths_mode();
    let mut p = Pair::new(cfg(), cfg(), cap, RULES);
    p.answer = Some((vsym::range(0, most, "answer"), vsym::flip("answer closes")));
    for _ in 0..streams {
        let n = vsym::range(0, most, "amount");
        let close = vsym::flip("closes");
        p.open(0, n, close);
    }
    let back = vsym::flip("of the answer") as usize;
    let id = p.w[0].ids[0];
    p.probe(back, id);
    p.start();
    p.rest(picks);
    p.judge();
    p.judge_probe(back);
}
entry!(h_c26_bytes, bytes(1, 1 << 20, 2 * CREDIT, 0));
entry!(h_c26_bytes_tight, bytes(1, 100_000, CREDIT, 0));
entry!(h_c26_bytes_two, bytes(2, 1 << 20, CREDIT / 2, 2));

/// One side or both close the connection, at some point of the traffic.
fn close(cap: u64, most: u64, both: bool, picks: usize) {
    vsym::lengths_mode();
    let mut p = Pair::new(cfg(), cfg(), cap, RULES);
    for side in 0..2 {
        let n = vsym::range(0, most, "amount");
        p.open(side, n, vsym::flip("closes"));
    }
    p.start();
    let when = vsym::choice(picks, "when");
    for _ in 0..when {
        let r = p.ready();
        if let Some(&t) = r.first() {
            p.run(t);
        }
    }
    let who = vsym::choice(2, "who");
    p.closing[who] = true;
    p.conn(who);
    if both {
        p.closing[1 - who] = true;
        p.conn(1 - who);
    }
    p.rest(0);
    check(p.close_done[who], "the close is completed");
    let o = 1 - who;
    if both {
        check(p.close_done[o], "the close of the other side is completed");
    } else {
        check(p.w[o].end == End::None, "the other side's connection ends");
        check(p.w[o].n().mon.goaways.is_empty(), "the other side finds no fault");
        for i in 0..p.w[who].streams.len() {
            let id = p.w[who].ids[i];
            let m = p.w[who].ms(id);
            if p.w[o].n().mon.find(id).is_some() {
                check(p.w[o].ms(id).read == m.wrote, "everything written before the close is read at the other side");
                witness(m.wrote > 0, "data before the close");
            } else {
                check(m.wrote == 0, "everything written before the close arrives");
            }
        }
    }
    for side in 0..2 {
        for i in 0..p.w[side].streams.len() {
            let j = &p.jobs[side][i];
            check(j.eof, "all readers come to the end of their streams");
            check(j.todo == 0 || j.failed, "all writers finish or fail");
        }
    }
}
entry!(h_c26_close, close(1 << 20, CREDIT, false, 4));
entry!(h_c26_close_tight, close(30, 40, false, 3));
entry!(h_c26_close_both, close(1 << 20, CREDIT, true, 4));
entry!(h_c26_close_both_tight, close(30, 40, true, 1));

/// One side drops its end of a stream at some point; the other stream is not affected.
fn dropped(cap: u64, most: u64, picks: usize) {
    vsym::lengths_mode();
    let mut p = Pair::new(cfg(), cfg(), cap, RULES);
    p.answer = Some((vsym::range(0, 2 * most, "answer"), true));
    for _ in 0..2 {
        let n = vsym::range(0, most, "amount");
        p.open(0, n, vsym::flip("closes"));
    }
    p.start();
    let when = vsym::choice(picks, "when");
    for _ in 0..when {
        let r = p.ready();
        if let Some(&t) = r.first() {
            p.run(t);
        }
    }
    let side = vsym::choice(2, "who");
    let i = vsym::choice(2, "which");
    if !p.w[side].live(i) {
        return;
    }
    let id = p.w[side].ids[i];
    let closed = p.jobs[side][i].closed;
    p.w[side].drop_stream(i);
    p.rest(0);
    for s in 0..2 {
        check(p.w[s].end == End::Pending, "both connections go on");
        check(p.w[s].n().mon.goaways.is_empty(), "neither side finds fault with the other");
        for k in 0..p.w[s].streams.len() {
            let j = p.jobs[s][k].clone();
            if p.w[s].ids[k] != id {
                check(!j.failed, "nothing fails on the other stream");
                check(j.todo == 0 && (j.closed || !j.close), "the other stream is written completely");
                let m = p.w[s].ms(p.w[s].ids[k]);
                check(p.got(1 - s, m.id) == m.wrote, "everything written is read at the other side");
                witness(m.wrote > 0, "data on the other stream");
            } else if s != side {
                check(j.eof, "the other end of a dropped stream comes to its end");
                // (closed and dropped: see `gone`)
                check(j.failed || j.closed || closed || (j.todo == 0 && !j.close), "the other end's writer finishes or fails");
                witness(j.failed, "a writer fails");
            }
        }
    }
}
entry!(h_c26_drop, dropped(1 << 20, 2 * CREDIT, 8));
entry!(h_c26_drop_tight, dropped(24, 6, 2));
entry!(h_c26_drop_deep, dropped(30, 20, 3));

/// One side closes its end and drops it, without reading what the other side sends.
fn gone(most: u64) {
    vsym::lengths_mode();
    let mut p = Pair::new(cfg(), cfg(), 1 << 20, RULES);
    p.answer = Some((vsym::range(0, most, "answer"), true));
    p.open(0, 10, true);
    p.jobs[0][0].idle = true;
    p.start();
    p.rest(0);
    check(p.jobs[0][0].closed && p.jobs[1][0].eof, "the stream is closed");
    p.w[0].drop_stream(0);
    p.rest(0);
    let j = p.jobs[1][0].clone();
    check(p.w[1].end == End::Pending && p.w[1].n().mon.goaways.is_empty(), "the connection goes on");
    check(j.failed || j.closed || j.todo > 0, "a writer within its credit finishes or fails");
    check(j.failed || j.closed, "a writer out of credit learns that the other end was closed and dropped");
}
entry!(h_c26_gone, gone(2 * CREDIT));

/// A reader that pauses: the writer waits, and goes on.
fn pause(cap: u64, most: u64) {
    vsym::lengths_mode();
    let mut p = Pair::new(cfg(), cfg(), cap, RULES);
    p.answer = Some((0, false));
    let n = vsym::range(0, most, "amount");
    p.open(0, n, true);
    p.start();
    for _ in 0..40 {
        p.sync();
        if let Some(j) = p.jobs[1].first_mut() {
            j.idle = true;
        }
        let r = p.ready();
        match r.first() {
            Some(&t) => p.run(t),
            None => break,
        }
    }
    check(p.ready().is_empty(), "the tasks come to rest");
    let id = p.w[0].ids[0];
    let m = p.w[0].ms(id);
    check(m.wrote >= n.min(CREDIT), "as much as the window allows is written");
    let (held, read) = {
        let net = p.w[1].n();
        net.mon.find(id).map_or((0, 0), |k| (net.mon.s[k].unread(), net.mon.s[k].read))
    };
    check(held <= CREDIT && m.wrote - read <= CREDIT, "what is not read stays within the window");
    witness(p.jobs[0][0].todo > 0, "the writer waits");
    if let Some(j) = p.jobs[1].first_mut() {
        j.idle = false;
        p.reader(1, 0);
    }
    p.rest(0);
    p.judge();
}
entry!(h_c26_pause, pause(1 << 20, 3 * CREDIT));
entry!(h_c26_pause_tight, pause(100_000, CREDIT + CREDIT / 2));

/// Bytes and their order.
fn content(k: usize) {
    let mut p = Pair::new(cfg(), cfg(), 1 << 16, 0);
    for s in 0..2 {
        p.w[s].n().keep_body = true;
    }
    p.w[0].must_open();
    let mut sent = [vec![], vec![]];
    let mut got = [vec![], vec![]];
    let l = 1 + vsym::choice(3, "first");
    let first: Vec<u8> = (0..l).map(|_| vsym::u8("content")).collect();
    check(p.w[0].write(0, &first) == Poll::Ready(Ok(l)), "a write is accepted");
    sent[0].extend_from_slice(&first);
    let carry = |p: &mut Pair| {
        for _ in 0..3 {
            for s in 0..2 {
                p.w[s].poll();
                p.sync();
            }
        }
    };
    carry(&mut p);
    check(p.w[1].streams.len() == 1, "the stream arrives");
    for _ in 0..k {
        let s = vsym::choice(2, "side");
        if vsym::flip("write") {
            let l = 1 + vsym::choice(3, "length");
            let b: Vec<u8> = (0..l).map(|_| vsym::u8("content")).collect();
            check(p.w[s].write(0, &b) == Poll::Ready(Ok(l)), "a write is accepted");
            sent[s].extend_from_slice(&b);
            if vsym::flip("carry") {
                carry(&mut p);
            }
        } else {
            let mut b = [0; 4];
            let l = 1 + vsym::choice(4, "read");
            if let Poll::Ready(Ok(n)) = p.w[s].read(0, &mut b[..l]) {
                check(n <= l, "a read gives no more than was asked for");
                got[s].extend_from_slice(&b[..n]);
            }
        }
    }
    carry(&mut p);
    for s in 0..2 {
        loop {
            let mut b = [0; 16];
            match p.w[s].read(0, &mut b) {
                Poll::Ready(Ok(n)) => got[s].extend_from_slice(&b[..n]),
                _ => break,
            }
        }
    }
    check(got[0] == sent[1] && got[1] == sent[0], "the bytes read are those written, in order");
    witness(got[0].len() > 2 && got[1].len() > 2, "bytes in both directions");
}
entry!(h_c26_content, content(3));
entry!(h_c26_content4, content(4));
