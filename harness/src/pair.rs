//! Two connections of the real implementation, joined by a transport that holds a limited number
//! of bytes in each direction, and the tasks that use their streams.
use crate::sched::ASK;
use crate::world::*;

/// What the application does with one side of a stream: write so much, then close or not; read
/// all there is.
#[derive(Clone, Debug)]
pub struct Job {
    pub todo: u64,
    pub close: bool,
    pub closed: bool,
    pub eof: bool,
    pub failed: bool,
    /// does not read for now
    pub idle: bool,
}
pub struct Pair {
    pub w: [World; 2],
    told: [bool; 2],
    /// bytes under way in one direction, at most
    pub cap: u64,
    pub jobs: [Vec<Job>; 2],
    /// what the side that accepts a stream writes to it, and whether it closes it
    pub answer: Option<(u64, bool)>,
    pub closing: [bool; 2],
    pub close_done: [bool; 2],
    pub mute: [bool; 2],
}
const SIDES: usize = 40;

impl Pair {
    pub fn new(a: Config, b: Config, cap: u64, mask: u32) -> Pair {
        let mut w = [World::new(true, a, mask), World::new(false, b, mask)];
        w[1].base = SIDES;
        for x in &mut w {
            x.n().mon.split = 1 << 20;
            x.n().log = Some(vec![]);
            x.n().wr_limit = Some((cap, Wr::Block));
            x.split_tasks = true;
            x.auto = false;
        }
        Pair {
            w,
            told: [false; 2],
            cap,
            jobs: [vec![], vec![]],
            answer: None,
            closing: [false; 2],
            close_done: [false; 2],
            mute: [false; 2],
        }
    }
    /// The transport carries what was written, and makes room for what was read.
    pub fn sync(&mut self) {
        for d in 0..2 {
            let (src, dst) = (d, 1 - d);
            let l = self.w[src].n().log.replace(vec![]).unwrap();
            self.w[dst].peer_segs(l);
            let gone = {
                let n = self.w[src].n();
                n.closed || n.dropped
            };
            if gone && !self.told[d] {
                self.told[d] = true;
                self.w[dst].peer_eof();
            }
            let (read, away) = {
                let n = self.w[dst].n();
                (n.bytes_in, n.dropped)
            };
            let room = if away { self.cap } else { self.cap - (self.w[src].n().bytes_out - read) };
            if room == 0 {
                self.w[src].set_write(Wr::Block);
            } else {
                self.w[src].n().wr_limit = Some((room, Wr::Block));
                if self.w[src].n().wr == Wr::Block {
                    self.w[src].set_write(Wr::Accept);
                }
            }
        }
    }
    pub fn open(&mut self, side: usize, todo: u64, close: bool) -> usize {
        let i = self.w[side].must_open();
        self.enrol(side);
        self.jobs[side][i].todo = todo;
        self.jobs[side][i].close = close;
        i
    }
    fn enrol(&mut self, side: usize) {
        while self.jobs[side].len() < self.w[side].streams.len() {
            let (todo, close) = self.answer.unwrap_or((0, false));
            self.jobs[side].push(Job { todo, close, closed: false, eof: false, failed: false, idle: false });
        }
    }
    pub fn conn(&mut self, side: usize) {
        if self.closing[side] && !self.close_done[side] {
            match self.w[side].close() {
                Poll::Ready(r) => {
                    check(r.is_ok(), "the close succeeds");
                    self.close_done[side] = true;
                }
                Poll::Pending => {}
            }
        } else {
            let k = self.w[side].streams.len();
            self.w[side].poll();
            self.enrol(side);
            // the new streams' tasks start
            for i in k..self.w[side].streams.len() {
                self.writer(side, i);
                self.reader(side, i);
            }
        }
        self.sync();
    }
    pub fn writer(&mut self, side: usize, i: usize) {
        if !self.w[side].live(i) {
            return;
        }
        for _ in 0..8 {
            let left = self.jobs[side][i].todo;
            if left == 0 {
                if self.jobs[side][i].close && !self.jobs[side][i].closed {
                    match self.w[side].close_stream(i) {
                        Poll::Ready(Ok(())) => self.jobs[side][i].closed = true,
                        Poll::Ready(Err(_)) => self.jobs[side][i].failed = true,
                        Poll::Pending => {
                            let t = self.w[side].tw(i);
                            self.w[side].park_w[i] = Some(wake::woken(t));
                        }
                    }
                }
                return;
            }
            match self.w[side].write_n(i, left.min(ASK as u64) as u32) {
                Poll::Ready(Ok(n)) => self.jobs[side][i].todo -= n as u64,
                Poll::Ready(Err(_)) => {
                    self.jobs[side][i].failed = true;
                    return;
                }
                Poll::Pending => return,
            }
        }
        check(false, "writing comes to an end");
    }
    pub fn reader(&mut self, side: usize, i: usize) {
        if !self.w[side].live(i) || self.jobs[side][i].idle {
            return;
        }
        for _ in 0..40 {
            match self.w[side].read_n(i, ASK) {
                Poll::Ready(Ok(0)) => {
                    self.jobs[side][i].eof = true;
                    return;
                }
                Poll::Ready(Ok(_)) => {}
                Poll::Ready(Err(_)) => {
                    self.jobs[side][i].failed = true;
                    return;
                }
                Poll::Pending => return,
            }
        }
        check(false, "reading comes to an end");
    }
    /// Any one byte of what `side` writes to a stream, by its position.
    pub fn probe(&mut self, side: usize, id: u32) {
        let p = Probe::new(id);
        self.w[side].n().probe_w = p;
        self.w[1 - side].n().probe_r = p;
    }
    /// It arrived where it belongs.
    pub fn judge_probe(&self, side: usize) {
        let (a, b) = (self.w[side].n().probe_w.unwrap(), self.w[1 - side].n().probe_r.unwrap());
        a.judge();
        b.judge();
        check(b.got == a.given, "all of it arrives");
        witness(b.seen != 0, "the byte arrived");
    }
    pub fn start(&mut self) {
        for side in 0..2 {
            for i in 0..self.w[side].streams.len() {
                self.writer(side, i);
                self.reader(side, i);
            }
            self.conn(side);
        }
    }
    /// Tasks that were woken, as (side, kind, stream).
    pub fn ready(&self) -> Vec<(usize, u8, usize)> {
        let mut v = vec![];
        for side in 0..2 {
            let w = &self.w[side];
            if w.runnable_conn() && !self.mute[side] {
                v.push((side, 0, 0));
            }
            for i in 0..w.streams.len() {
                if w.live(i) {
                    if w.runnable_r(i) && !self.jobs[side][i].idle {
                        v.push((side, 1, i));
                    }
                    if w.runnable_w(i) {
                        v.push((side, 2, i));
                    }
                }
            }
        }
        v
    }
    pub fn run(&mut self, t: (usize, u8, usize)) {
        match t.1 {
            0 => self.conn(t.0),
            1 => self.reader(t.0, t.2),
            _ => self.writer(t.0, t.2),
        }
    }
    /// Run woken tasks, `picks` times any of them, then in turn until none is left.
    pub fn rest(&mut self, picks: usize) {
        for k in 0..300 {
            self.sync();
            let r = self.ready();
            if r.is_empty() {
                return;
            }
            let j = if k < picks { vsym::choice(r.len(), "task") } else { 0 };
            self.run(r[j]);
        }
        check(false, "the tasks come to rest");
    }
    /// How much of a stream a side has read.
    pub fn got(&self, side: usize, id: u32) -> u64 {
        let n = self.w[side].n();
        n.mon.find(id).map_or(0, |i| n.mon.s[i].read)
    }
    /// Everything was delivered, and both connections go on.
    pub fn judge(&mut self) {
        for side in 0..2 {
            let w = &self.w[side];
            check(w.end == End::Pending, "both connections go on");
            check(w.n().mon.goaways.is_empty(), "neither side finds fault with the other");
            check(w.n().mon.verdicts.iter().all(|v| matches!(v, crate::monitor::Verdict::Fine | crate::monitor::Verdict::New | crate::monitor::Verdict::Ping)), "every frame of one side is one the other expects");
        }
        for side in 0..2 {
            for i in 0..self.w[side].streams.len() {
                let id = self.w[side].ids[i];
                let j = self.jobs[side][i].clone();
                check(!j.failed, "writing and reading succeed");
                check(j.todo == 0, "everything can be written");
                check(!j.close || j.closed, "the stream can be closed");
                let o = 1 - side;
                let m = self.w[side].ms(id);
                let known = self.w[o].n().mon.find(id).is_some();
                check(known || (m.wrote == 0 && !j.closed), "the stream arrives at the other side");
                if known {
                    let r = self.w[o].ms(id).read;
                    check(r == m.wrote, "everything written is read at the other side");
                    let k = self.w[o].ids.iter().position(|&x| x == id).unwrap();
                    check(self.jobs[o][k].eof == j.closed, "the end of the stream arrives, and only if it was closed");
                    witness(r > CREDIT, "more than the initial window delivered");
                    witness(j.closed && r > 0, "data and end delivered");
                }
            }
        }
    }
}
