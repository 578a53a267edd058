//! C11: never more streams than configured.
use crate::ops::Op::*;
use crate::world::*;

fn config(n: usize) -> Config {
    let mut c = Config::default();
    c.set_max_num_streams(n);
    c
}
/// Streams come and go; the connection is polled after every step or not.
fn history(client: bool, max: usize, k: usize, auto: bool) {
    vsym::lengths_mode();
    let mut w = World::started(client, config(max), 0);
    w.n().mon.max_streams = max;
    w.auto = auto;
    for _ in 0..k {
        let live = w.n().mon.live();
        let goaways = w.n().mon.goaways.len();
        // (dropped streams count until the connection has seen the drop)
        match vsym::choice(5, "op") {
            0 => {
                if w.end != End::Pending {
                    continue;
                }
                let r = w.open();
                if live >= max {
                    witness(true, "a stream too many opened");
                    check(r == Poll::Ready(Err(ErrKind::TooManyStreams)), "no stream is opened beyond the maximum");
                    w.end = End::Err(ErrKind::TooManyStreams);
                    w.judge_finished();
                    return;
                }
                if auto {
                    check(matches!(r, Poll::Ready(Ok(_))), "a stream below the maximum is opened");
                } else if r == Poll::Ready(Err(ErrKind::TooManyStreams)) {
                    check(w.n().mon.s.iter().filter(|m| m.dropped).count() + live >= max, "a stream below the maximum is opened");
                    return;
                }
            }
            1 | 2 if w.end == End::Pending && goaways == 0 => {
                let id = w.peer_id(w.peer_next);
                w.peer_next += 1;
                let n = vsym::range(0, CREDIT, "first") as u32;
                let tag = [DATA, WINDOW][vsym::choice(2, "kind")];
                w.pstate(id).sent = if tag == DATA { n as u64 } else { 0 };
                w.peer(tag, SYN, id, n);
                let r = w.poll();
                let full = live >= max;
                witness(full, "a stream too many of the peer");
                check(r.len() == !full as usize, "exactly the peer's streams up to the maximum are accepted");
                check((w.n().mon.goaways.len() > goaways) == full, "one stream too many of the peer is an error");
            }
            3 => w.step(&[Drop(0), Drop(1), Drop(2)]),
            _ => w.step(&[PRst(0), CloseS(0), Write(0), Read(1), PDataFin(1)]),
        }
        if auto {
            w.poll();
        }
        check(w.n().mon.live() <= max, "never more streams than the maximum");
    }
    witness(w.ids.len() > max, "more streams than the maximum, one after the other");
}
entry!(h_c11_one_c, history(true, 1, 5, true));
entry!(h_c11_one_s, history(false, 1, 4, true));
entry!(h_c11_two_c, history(true, 2, 4, true));
entry!(h_c11_two_s, history(false, 2, 4, true));
entry!(h_c11_lazy, history(true, 2, 4, false));
entry!(h_c11_lazy5, history(true, 2, 5, false));
entry!(h_c11_deep, history(false, 2, 5, true));
entry!(h_c11_one_deep, history(false, 1, 5, true));
entry!(h_c11_two_deep, history(true, 2, 5, true));
