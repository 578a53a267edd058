//! C10: stream identifiers.
use crate::monitor::*;
use crate::ops::Op::*;
use crate::world::*;

/// Streams opened by either side in any order, and dropped again.
fn history(client: bool, k: usize) {
    vsym::lengths_mode();
    let mut w = World::started(client, Config::default(), M_IDS | M_LIFE);
    w.steps(k, &[Open, PSynWin, PSynData, Write(0), Drop(0), Drop(1), PRst(0), Open]);
    let mut last = 0;
    for &id in &w.ids {
        if (id & 1 == 1) == client {
            check(id > last, "identifiers of our streams increase");
            last = id;
        }
    }
    witness(w.ids.len() >= 3, "three streams");
}
/// Peers may name their streams as they like.
fn foreign(client: bool) {
    vsym::lengths_mode();
    let mut w = World::started(client, Config::default(), M_IDS);
    w.must_open();
    let _ = w.write_n(0, 1);
    w.poll();
    let mut seen = vec![];
    for _ in 0..3 {
        let id = vsym::u32("stream");
        let tag = [DATA, WINDOW][vsym::choice(2, "kind")];
        w.peer(tag, SYN, id, 0);
        let r = w.poll();
        let ok = id != 0 && (id & 1 == 1) != client && !seen.contains(&id);
        check(r.len() == ok as usize, "exactly streams with unused identifiers of the peer's parity are accepted");
        check(w.n().mon.goaways.is_empty() == ok, "any other is a protocol error");
        if !ok {
            return;
        }
        seen.push(id);
    }
    witness(true, "three streams of the peer");
    w.must_open();
    check(!seen.contains(&w.ids[4]) && w.ids[4] != w.ids[0], "identifiers of our streams are unique");
}
/// The space of identifiers is used up.
#[cfg(yamux_verif)]
fn exhausted(client: bool, k: usize) {
    vsym::lengths_mode();
    let mut w = World::started(client, Config::default(), M_IDS);
    let next = vsym::u32("next");
    vsym::assume(next != 0 && (next & 1 == 1) == client);
    w.conn.as_mut().unwrap().verif_set_next_id(next);
    let mut last = 0u64;
    for _ in 0..k {
        match w.open() {
            Poll::Ready(Ok(i)) => {
                let id = w.ids[i] as u64;
                check(id >= next as u64 && id > last, "identifiers are not used again");
                check((id & 1 == 1) == client, "an outbound stream's identifier has the parity of its side");
                last = id;
            }
            Poll::Ready(Err(e)) => {
                witness(true, "no identifiers are left");
                check(e == ErrKind::NoMoreStreamIds, "running out of identifiers is reported");
                check(next as u64 + 2 * k as u64 > u32::MAX as u64 - 3, "identifiers run out only at the end of their range");
                check(w.n().mon.goaways.is_empty(), "running out of identifiers is not a violation");
                return;
            }
            Poll::Pending => check(false, "a stream can be opened or not"),
        }
    }
}
entry!(h_c10_any_c, history(true, 6));
entry!(h_c10_any_s, history(false, 5));
entry!(h_c10_peer_c, foreign(true));
entry!(h_c10_peer_s, foreign(false));
#[cfg(yamux_verif)]
entry!(h_c10_end_c, exhausted(true, 3));
#[cfg(yamux_verif)]
entry!(h_c10_end_s, exhausted(false, 3));
entry!(h_c10_any_deep, history(false, 6));
