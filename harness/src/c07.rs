//! C07: the windows of all streams stay within the connection's limit, and grow while it allows.
use crate::monitor::*;
use crate::ops::Op::*;
use crate::world::*;

/// A configuration for so many streams, with any amount left over.
fn config(streams: usize) -> (Config, u64) {
    let mut c = Config::default();
    let extra = vsym::range(0, 1 << 30, "extra");
    let limit = streams as u64 * CREDIT + extra;
    c.set_max_num_streams(streams);
    c.set_max_connection_receive_window(Some(limit as usize));
    (c, limit)
}
pub fn start(client: bool, streams: usize) -> World {
    vsym::lengths_mode();
    let (c, limit) = config(streams);
    let mut w = World::started(client, c, M_CONN | M_WINDOW);
    {
        let mut n = w.n();
        n.mon.max_window = u64::MAX;
        n.mon.max_conn = Some(limit);
        n.mon.max_streams = streams;
    }
    pass(1);
    w.run(PPong);
    w.poll();
    w
}
/// The clock moves (a round trip takes one second).
pub fn pass(s: u64) {
    let t = web_time::model::last() - web_time::model::at(std::time::Duration::ZERO);
    web_time::model::set(t + std::time::Duration::from_secs(s));
}
/// The peer uses the whole window and the application reads it all.
pub fn round(w: &mut World, i: usize) {
    let id = w.ids[i];
    let n = w.peer_window(id).min(1 << 20);
    w.pstate(id).sent += n;
    w.peer(DATA, 0, id, n as u32);
    w.poll();
    w.drain(i);
    w.poll();
}
fn judge(w: &mut World, grown: bool) {
    let n = w.n();
    let limit = n.mon.max_conn.unwrap();
    let mut sum = 0;
    for x in n.mon.s.iter().filter(|x| x.api && !x.dropped) {
        sum += x.rwin + x.unread();
    }
    check(sum <= limit, "granted windows and unread bytes of all streams stay within the connection's limit");
    if grown {
        witness(n.mon.s.iter().any(|x| x.rwin > CREDIT), "a window has grown");
        witness(n.mon.s.iter().any(|x| x.rwin > 2 * CREDIT), "a window has grown twice");
        witness(sum == limit, "the limit is reached");
    }
}
/// One stream with any history.
fn one(client: bool, k: usize) {
    let mut w = start(client, 1);
    w.step(&[PSynData, PSynWin]);
    for _ in 0..k {
        match vsym::choice(3, "op") {
            0 => round(&mut w, 0),
            1 => w.step(&[PData(0), Read(0)]),
            _ => pass(3),
        }
    }
    judge(&mut w, true);
}
/// Streams that share the limit.
fn many(client: bool, streams: usize, k: usize) {
    let mut w = start(client, streams);
    for _ in 0..streams {
        w.run(PSynWin);
        w.poll();
    }
    for _ in 0..k {
        let i = vsym::choice(streams, "stream");
        round(&mut w, i);
        if vsym::flip("time") {
            pass(3);
        }
    }
    judge(&mut w, true);
}
/// A stream is dropped after its window has grown: its share can be used by another.
fn reclaim(client: bool, extra_drop: bool) {
    let mut w = start(client, 1);
    w.run(PSynWin);
    w.poll();
    round(&mut w, 0);
    round(&mut w, 0);
    let grown = w.ms(w.ids[0]).rwin;
    witness(grown > CREDIT, "the first stream's window has grown");
    if extra_drop {
        // with data unread
        w.run(PData(0));
        w.poll();
    }
    w.drop_stream(0);
    w.poll();
    w.run(PSynWin);
    w.poll();
    check(w.ids.len() == 2, "a stream can be opened in place of the dropped one");
    round(&mut w, 1);
    round(&mut w, 1);
    check(w.ms(w.ids[1]).rwin == grown, "the next stream's window grows as that of the dropped one did");
    judge(&mut w, true);
}
/// Growth: the window doubles while it is used up fast and the limit allows it.
fn growth(client: bool) {
    vsym::lengths_mode();
    let mut w = World::started(client, Config::default(), 0);
    // a round trip takes at least a second
    let d = vsym::range(1, 1 << 20, "round trip") as u64;
    web_time::model::set(std::time::Duration::from_secs(d));
    w.run(PPong);
    w.run(PSynWin);
    w.poll();
    let mut last = CREDIT;
    for _ in 0..3 {
        round(&mut w, 0);
        let r = w.ms(w.ids[0]).rwin;
        check(r > last, "a window used up within two round trips grows");
        last = r;
    }
    // and slowly used it does not
    let t = web_time::model::last() - web_time::model::at(std::time::Duration::ZERO);
    web_time::model::set(t + std::time::Duration::from_secs(2 * d + 1));
    round(&mut w, 0);
    let r = w.ms(w.ids[0]).rwin;
    check(r == last, "a window used up slowly stays as it is");
}
/// Growth, with any round-trip time and any time in which the window is used up.
fn timing(client: bool, k: usize) {
    vsym::lengths_mode();
    let mut w = World::started(client, Config::default(), 0);
    let sent = w.n().mon.ping_at.unwrap();
    crate::ops::advance();
    let mut rtt = web_time::model::last() - sent;
    w.run(PPong);
    w.poll();
    w.run(PSynWin);
    w.poll();
    for _ in 0..k {
        let from = web_time::model::last();
        if vsym::flip("measured again") {
            // the pong to the ping that waits, or to the next one
            if !w.n().mon.rtt_waiting {
                pass(10);
                w.poll();
                check(w.n().mon.rtt_waiting, "ten seconds after a pong the next ping is sent");
            }
            let sent = w.n().mon.ping_at.unwrap();
            crate::ops::advance();
            w.run(PPong);
            w.poll();
            rtt = web_time::model::last() - sent;
        }
        crate::ops::advance();
        let elapsed = web_time::model::last() - from;
        let before = w.ms(w.ids[0]).rwin;
        round(&mut w, 0);
        let after = w.ms(w.ids[0]).rwin;
        check((after > before) == (elapsed < rtt * 2), "a window grows exactly when it is used up within two round trips");
        check(after == before || after == 2 * before, "a window grows to twice its size");
        witness(after > before, "a window has grown");
        witness(after == before, "a window used up slowly");
    }
}
/// Without a limit for the connection.
fn unlimited(client: bool) {
    vsym::lengths_mode();
    let mut c = Config::default();
    c.set_max_connection_receive_window(None);
    let mut w = World::started(client, c, 0);
    pass(1);
    w.run(PPong);
    w.run(PSynWin);
    w.poll();
    for _ in 0..4 {
        round(&mut w, 0);
    }
    check(w.n().mon.goaways.is_empty() && w.end == End::Pending, "the connection goes on");
    witness(w.ms(w.ids[0]).rwin > 4 * CREDIT, "a window has grown twice");
}
entry!(h_c07_one_c, one(true, 3));
entry!(h_c07_one_s, one(false, 3));
entry!(h_c07_two_c, many(true, 2, 4));
entry!(h_c07_two_s, many(false, 2, 4));
entry!(h_c07_three, many(true, 3, 4));
entry!(h_c07_reclaim_c, reclaim(true, false));
entry!(h_c07_reclaim_s, reclaim(false, true));
entry!(h_c07_growth_c, growth(true));
entry!(h_c07_growth_s, growth(false));
entry!(h_c07_timing_c, timing(true, 2));
entry!(h_c07_timing_s, timing(false, 2));
entry!(h_c07_unlimited, unlimited(true));
entry!(h_c07_one_deep, one(true, 4));
entry!(h_c07_two_deep, many(true, 2, 5));
