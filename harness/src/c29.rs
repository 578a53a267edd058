//! C29: streams take turns, and answers and reading do not wait behind what streams have queued.
use crate::monitor::*;
use crate::ops::Op::*;
use crate::world::*;

/// Streams of either side, each with as much queued as it may have, the transport blocked.
fn crowd(client: bool, n: usize, any: bool) -> World {
    let mut w = World::started(client, Config::default(), M_CREDIT | M_LIFE);
    for _ in 0..n {
        w.step(&[Open, PSynWin]);
    }
    w.set_write(Wr::Block);
    for i in 0..n {
        let mut k = 0;
        loop {
            let x = if any { vsym::range(1, 1 << 20, "write") as u32 } else { 1 + k };
            if w.write_n(i, x).is_pending() {
                break;
            }
            k += 1;
            check(k < 64, "a stream that nobody serves stops accepting");
            w.poll();
        }
    }
    w
}
/// The transport takes one frame.
fn one_frame(w: &mut World) {
    {
        let mut n = w.n();
        n.wr_frames = Some(1);
    }
    w.set_write(Wr::Accept);
    w.poll();
    w.set_write(Wr::Block);
}
fn turns(client: bool, n: usize, rounds: usize) {
    vsym::lengths_mode();
    let mut w = crowd(client, n, n == 2);
    // who writes more whenever it can
    let greedy: Vec<bool> = (0..n).map(|_| vsym::flip("greedy")).collect();
    let mut since = vec![vec![0u32; n]; n];
    for _ in 0..rounds {
        let before = w.n().out.len();
        one_frame(&mut w);
        let out: Vec<u32> = w.n().out[before..].iter().map(|f| f.sid).collect();
        check(out.len() <= 1, "one frame at a time");
        for id in out {
            let i = w.ids.iter().position(|x| *x == id).unwrap();
            for j in 0..n {
                since[i][j] = 0;
                if i != j {
                    since[j][i] += 1;
                }
            }
        }
        for j in 0..n {
            let m = w.ms(w.ids[j]);
            for i in 0..n {
                if m.wrote > m.data_out {
                    check(since[j][i] <= 3, "a stream with something to send gets its turn");
                } else {
                    since[j][i] = 0;
                }
            }
            if greedy[j] && w.runnable_w(j) {
                let _ = w.write_n(j, 1);
            }
        }
    }
    witness(greedy.iter().any(|g| *g), "a stream always has more to send");
    for j in 0..n {
        witness(w.ms(w.ids[j]).data_out > 2, "three turns");
    }
}
/// A ping is answered before what streams have queued, and what the peer sends is taken in.
fn answers(client: bool, n: usize, pings: usize) {
    vsym::lengths_mode();
    let mut w = crowd(client, n, false);
    let k = vsym::choice(3, "taken");
    for _ in 0..k {
        one_frame(&mut w);
    }
    let before = w.n().out.len();
    for _ in 0..pings {
        w.run(PPing);
    }
    w.run(PData(0));
    w.poll();
    check(w.n().mon.pings_in.len() == pings && w.n().drained(), "reading goes on while writing waits");
    let u = w.ms(w.ids[0]).unread();
    check(w.drain(0).0 == u, "what was received can be read while writing waits");
    witness(u > 0, "data read while writing waits");
    let id = w.peer_id(w.peer_next);
    w.peer(WINDOW, SYN, id, 0);
    check(w.poll().len() == 1, "a stream is accepted while writing waits");
    for _ in 0..pings + 2 {
        one_frame(&mut w);
    }
    let n = w.n();
    let last = n.out[before..].iter().rposition(|f| f.tag == PING).map_or(usize::MAX, |x| x);
    check(n.mon.pongs_out == pings && last <= pings, "answers to pings do not wait behind queued data");
}
entry!(h_c29_turns_c, turns(true, 2, 12));
entry!(h_c29_turns_s, turns(false, 3, 16));
entry!(h_c29_answers_c, answers(true, 2, 1));
entry!(h_c29_answers_s, answers(false, 2, 3));
