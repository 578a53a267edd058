//! C28: a configuration is taken or refused as documented, and every one taken works as it says.
use crate::monitor::*;
use crate::ops::Op::*;
use crate::world::*;

/// The documented condition.
fn fits(limit: Option<u64>, streams: u64) -> bool {
    match limit {
        None => true,
        // (the largest number is no limit)
        Some(u64::MAX) => true,
        Some(l) => l as u128 >= streams as u128 * CREDIT as u128,
    }
}
/// Set the maximum of streams and the receive limit to any values in some order; what is set then.
fn setters(c: &mut Config) -> (Option<u64>, u64) {
    let (mut limit, mut streams) = (Some(1u64 << 30), 512u64);
    for _ in 0..2 {
        let (l, s) = match vsym::choice(3, "setter") {
            0 => (limit, vsym::u64("streams")),
            1 => (Some(vsym::u64("limit")), streams),
            _ => (None, streams),
        };
        let good = fits(l, s);
        witness(!good, "a configuration to be refused");
        vsym::may_refuse(!good);
        if s != streams {
            c.set_max_num_streams(s as usize);
        } else {
            c.set_max_connection_receive_window(l.map(|x| x as usize));
        }
        check(good, "a receive limit below 256 KiB for each stream is refused");
        vsym::may_refuse(false);
        witness(good && s > 1 << 46, "more streams than can be");
        (limit, streams) = (l, s);
    }
    (limit, streams)
}
fn refused() {
    let mut c = Config::default();
    setters(&mut c);
}
/// A stream whose window grows as far as the configuration allows.
fn grown(client: bool, k: usize) {
    vsym::lengths_mode();
    let mut c = Config::default();
    let n = vsym::u64("streams");
    vsym::assume(n > 0);
    let limit = vsym::u64("limit");
    let with = vsym::flip("a limit");
    let lim = with.then_some(limit);
    vsym::assume(fits(lim, n));
    // (the one that does not depend on the other comes first)
    c.set_max_connection_receive_window(None);
    c.set_max_num_streams(n as usize);
    c.set_max_connection_receive_window(lim.map(|x| x as usize));
    let split = vsym::u64("split");
    vsym::assume(split > 0);
    c.set_split_send_size(split as usize);
    c.set_read_after_close(vsym::flip("read after close"));
    let mut w = World::started(client, c, M_CREDIT | M_SIZE);
    w.n().mon.split = split;
    crate::c07::pass(1);
    w.run(PPong);
    if vsym::flip("ours") {
        check(matches!(w.open(), Poll::Ready(Ok(_))), "a stream below the maximum is opened");
    } else {
        w.run(PSynWin);
    }
    w.poll();
    for _ in 0..k {
        crate::c07::round(&mut w, 0);
        let m = w.ms(w.ids[0]);
        let extra = m.rwin + m.unread() - CREDIT;
        if with && limit != u64::MAX {
            check(
                n as u128 * CREDIT as u128 + extra as u128 <= limit as u128,
                "a window does not grow into the share of other streams",
            );
        }
        let x = vsym::u32("write");
        let a = m.avail();
        if let Poll::Ready(Ok(y)) = w.write_n(0, x) {
            check(y as u64 == (x as u64).min(a).min(split), "a write takes all it can");
        }
        w.poll();
    }
    let m = w.ms(w.ids[0]);
    check(w.n().mon.goaways.is_empty() && w.end == End::Pending, "the connection goes on");
    witness(m.rwin > CREDIT, "a window has grown");
    witness(m.rwin > CREDIT && m.rwin < 2 * CREDIT, "a window has grown a little");
    witness(n > 1 << 40, "very many streams allowed");
    check(w.n().mon.pings_in.is_empty() && m.data_out == m.wrote, "what is written is sent");
}
/// The defaults are the documented ones.
fn default_split(client: bool) {
    vsym::lengths_mode();
    let mut w = World::started(client, Config::default(), M_API);
    w.must_open();
    let n = vsym::u32("write");
    let r = w.write_n(0, n);
    check(r == Poll::Ready(Ok((n as usize).min(16 << 10))), "by default writes are split at 16 KiB");
    w.run(PData(0));
    w.poll();
    w.run([Eof, PGoAway, FailR][vsym::choice(3, "end")]);
    w.poll();
    let u = w.ms(w.ids[0]).unread();
    let (got, eof) = w.drain(0);
    check(got == u && eof, "by default what was received can be read after the end");
    witness(u > 0, "data read after the connection's end");
}
/// By default 512 streams.
fn default_streams(client: bool) {
    vsym::lengths_mode();
    let mut w = World::started(client, Config::default(), 0);
    let ours = vsym::flip("ours");
    for i in 0..512 {
        if ours {
            w.must_open();
            let id = w.ids[i];
            w.peer(WINDOW, ACK, id, 0);
        } else {
            w.peer(WINDOW, SYN, w.peer_id(i as u32), 0);
        }
        w.poll();
    }
    check(w.ids.len() == 512 && w.n().mon.goaways.is_empty(), "by default 512 streams can exist");
    w.peer(WINDOW, SYN, w.peer_id(600), 0);
    check(w.poll().is_empty() && w.n().mon.goaways.len() == 1, "by default the peer cannot open more than 512 streams");
    check(w.open() == Poll::Ready(Err(ErrKind::TooManyStreams)), "by default no more than 512 streams can be opened");
}
/// No streams at all.
fn none(client: bool) {
    vsym::lengths_mode();
    let mut c = Config::default();
    c.set_max_num_streams(0);
    c.set_max_connection_receive_window(Some(vsym::u64("limit") as usize));
    let mut w = World::started(client, c, 0);
    let n = vsym::u32("length");
    vsym::assume(n <= 1 << 20);
    w.peer([DATA, WINDOW][vsym::choice(2, "kind")], SYN, w.peer_id(0), n);
    check(w.poll().is_empty() && w.n().mon.goaways.len() == 1, "no stream is accepted when none are allowed");
    check(w.end == End::Pending, "the connection goes on");
    check(w.open() == Poll::Ready(Err(ErrKind::TooManyStreams)), "no stream is opened when none are allowed");
    w.end = End::Err(ErrKind::TooManyStreams);
    w.judge_finished();
}
/// Without a limit a window grows up to what fits the protocol's fields.
fn no_limit(client: bool) {
    vsym::lengths_mode();
    let mut c = Config::default();
    c.set_max_connection_receive_window(None);
    let mut w = World::started(client, c, 0);
    crate::c07::pass(1);
    w.run(PPong);
    w.run(PSynWin);
    w.poll();
    grow(&mut w, 16);
    let m = w.ms(w.ids[0]);
    check(m.rwin + m.unread() <= u32::MAX as u64, "a window is never more than 32 bits");
    check(m.rwin > 1 << 31, "without a limit a window grows up to 32 bits");
    check(w.n().mon.goaways.is_empty() && w.end == End::Pending, "the connection goes on");
}
/// As many rounds as it takes to grow as far as possible.
fn grow(w: &mut World, rounds: u32) {
    let id = w.ids[0];
    for _ in 0..rounds {
        let mut left = (w.peer_window(id) + 1) / 2;
        while left > 0 {
            let n = left.min(1 << 20);
            w.pstate(id).sent += n;
            w.peer(DATA, 0, id, n as u32);
            w.poll();
            w.drain(0);
            left -= n;
        }
        w.poll();
    }
}
/// By default the windows may take 1 GiB, of which each of 512 streams has 256 KiB for sure.
fn default_limit(client: bool) {
    vsym::lengths_mode();
    let mut w = World::started(client, Config::default(), 0);
    crate::c07::pass(1);
    w.run(PPong);
    w.run(PSynWin);
    w.poll();
    let id = w.ids[0];
    grow(&mut w, 14);
    let m = w.ms(id);
    check(m.rwin + m.unread() <= (1 << 30) - 511 * CREDIT, "by default the windows take no more than 1 GiB");
    check(m.rwin + m.unread() > ((1 << 30) - 511 * CREDIT) / 2, "by default a window may grow as far as 1 GiB allows");
}
entry!(h_c28_refused, refused());
entry!(h_c28_grown_c, grown(true, 2));
entry!(h_c28_grown_s, grown(false, 2));
entry!(h_c28_split, default_split(true));
entry!(h_c28_streams, default_streams(true));
entry!(h_c28_none, none(true));
entry!(h_c28_no_limit, no_limit(false));
entry!(h_c28_limit, default_limit(true));
