//! Histories: a number of operations, each chosen from an alphabet, in every order.
use crate::world::*;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Op {
    /// the application writes any number of bytes to stream i
    Write(usize),
    /// the application reads into a buffer of any size
    Read(usize),
    /// the application reads all it can
    ReadAll(usize),
    /// the application takes a chunk
    Packet(usize),
    CloseS(usize),
    Flush(usize),
    Drop(usize),
    Open,
    PollC,
    /// poll the connection if it was woken
    RunConn,
    /// the peer opens a stream with a data frame of any length (data within its window)
    PSynData,
    /// the peer opens a stream with a window update of any credit
    PSynWin,
    /// data of any length within the peer's window
    PData(usize),
    /// data of any length with FIN
    PDataFin(usize),
    PWin(usize),
    PWinFin(usize),
    PRst(usize),
    /// the peer acknowledges our stream
    PAck(usize),
    PPing,
    /// a ping that names a stream
    PPingS(usize),
    /// the peer answers our ping
    PPong,
    PGoAway,
    Block,
    Unblock,
    Close,
    /// the transport fails
    FailR,
    FailW,
    ZeroW,
    FailF,
    Eof,
    /// the clock moves
    Time,
}
use Op::*;

impl World {
    pub fn live(&self, i: usize) -> bool {
        matches!(self.streams.get(i), Some(Some(_)))
    }
    fn sid(&self, i: usize) -> Option<u32> {
        self.ids.get(i).copied()
    }
    pub fn can(&mut self, o: Op) -> bool {
        let peer_open = |w: &mut World, i: usize, fin_ok: bool| match w.sid(i) {
            Some(id) => {
                let m = w.ms(id);
                let opened = m.syn_out + m.syn_in > 0;
                let p = w.pstate(id);
                opened && !p.rst && (fin_ok || !p.fin)
            }
            None => false,
        };
        match o {
            Write(i) | Read(i) | ReadAll(i) | Packet(i) | CloseS(i) | Drop(i) | Flush(i) => self.live(i),
            PData(i) | PDataFin(i) | PWinFin(i) => peer_open(self, i, false),
            PWin(i) | PRst(i) => peer_open(self, i, true),
            PAck(i) => {
                peer_open(self, i, true) && {
                    let id = self.sid(i).unwrap();
                    let ours = (id & 1 == 1) == self.client;
                    ours && !self.pstate(id).acked
                }
            }
            PPingS(i) => self.live(i),
            RunConn => self.runnable_conn(),
            PPong => self.n().mon.rtt_waiting,
            Block => self.n().wr == Wr::Accept,
            Unblock => self.n().wr == Wr::Block,
            Open | Close => self.end == End::Pending && self.conn.is_some(),
            _ => true,
        }
    }
    /// The first thing the peer sends on a stream of ours may be its acknowledgement as well.
    fn peer_ack(&mut self, id: u32) -> u16 {
        let ours = (id & 1 == 1) == self.client;
        let p = self.pstate(id);
        if !ours || p.begun || p.acked {
            return 0;
        }
        p.begun = true;
        let a = vsym::flip("acknowledged with it");
        self.pstate(id).acked = a;
        if a {
            ACK
        } else {
            0
        }
    }
    /// One operation out of those that are possible now.
    pub fn step(&mut self, alphabet: &[Op]) {
        let mut n = 0;
        let mut ok = [Op::PollC; 16];
        for &o in alphabet {
            if self.can(o) {
                ok[n] = o;
                n += 1;
            }
        }
        if n == 0 {
            return;
        }
        let o = ok[vsym::choice(n, "op")];
        self.run(o);
        if self.auto && o != Op::PollC {
            self.poll();
        }
        if self.auto && self.n().mon.on(crate::monitor::M_API) && !self.stuck() {
            for i in 0..self.streams.len() {
                self.judge_state(i);
            }
        }
        if self.auto && o != Op::RunConn {
            self.judge_woken();
        }
    }
    /// Tasks that wait for what is there now were woken (after the connection was polled).
    pub fn judge_woken(&mut self) {
        if !self.n().mon.on(crate::monitor::M_API) {
            return;
        }
        let (over, stuck) = (self.over(), self.stuck());
        for i in 0..self.streams.len() {
            if !self.live(i) {
                continue;
            }
            let m = self.ms(self.ids[i]);
            if let Some(n) = self.park_r[i] {
                if m.unread() > 0 || m.fin_in > 0 || m.rst_in > 0 || over {
                    check(wake::woken(self.tr(i)) > n, "a reader is woken by data, the end of the stream, a reset and the connection's end");
                    witness(true, "a waiting reader was woken");
                }
            }
            if let Some(n) = self.park_w[i] {
                if !stuck && (m.avail() > 0 || m.rst_in > 0 || over) {
                    check(wake::woken(self.tw(i)) > n, "a writer is woken by credit, a reset and the connection's end");
                    witness(true, "a waiting writer was woken");
                }
            }
        }
    }
    pub fn steps(&mut self, n: usize, alphabet: &[Op]) {
        for _ in 0..n {
            self.step(alphabet);
        }
    }
    pub fn any_len(&self, name: &str) -> u32 {
        vsym::u32(name)
    }
    pub fn run(&mut self, o: Op) {
        match o {
            Write(i) => {
                let n = self.any_len("write");
                let _ = self.write_n(i, n);
            }
            Read(i) => {
                let n = self.any_len("read");
                let _ = self.read_n(i, n);
            }
            ReadAll(i) => {
                let _ = self.read_n(i, crate::sched::ASK);
            }
            Packet(i) => {
                let _ = self.packet(i);
            }
            CloseS(i) => {
                let _ = self.close_stream(i);
            }
            Flush(i) => {
                let _ = self.flush(i);
            }
            Drop(i) => self.drop_stream(i),
            Open => {
                let _ = self.open();
            }
            PollC | RunConn => {
                self.poll();
            }
            PSynData => {
                let id = self.peer_id(self.peer_next);
                self.peer_next += 1;
                let n = vsym::range(0, CREDIT, "first data") as u32;
                self.pstate(id).sent = n as u64;
                self.peer(DATA, SYN, id, n);
            }
            PSynWin => {
                let id = self.peer_id(self.peer_next);
                self.peer_next += 1;
                let n = vsym::range(0, u32::MAX as u64 - CREDIT, "first credit") as u32;
                self.pstate(id);
                self.peer(WINDOW, SYN, id, n);
            }
            PData(i) | PDataFin(i) => {
                let id = self.sid(i).unwrap();
                let max = self.peer_window(id);
                let n = vsym::u32("data");
                vsym::assume(n as u64 <= max && n <= 1 << 20);
                self.pstate(id).sent += n as u64;
                let fin = matches!(o, PDataFin(_));
                self.pstate(id).fin |= fin;
                let a = self.peer_ack(id);
                self.peer(DATA, a | if fin { FIN } else { 0 }, id, n);
            }
            PWin(i) | PWinFin(i) => {
                let id = self.sid(i).unwrap();
                let n = vsym::u32("update");
                let credit = self.n().mon.get(id).credit;
                vsym::assume(credit + n as u64 <= u32::MAX as u64);
                let fin = matches!(o, PWinFin(_));
                self.pstate(id).fin |= fin;
                let a = self.peer_ack(id);
                self.peer(WINDOW, a | if fin { FIN } else { 0 }, id, n);
            }
            PRst(i) => {
                let id = self.sid(i).unwrap();
                self.pstate(id).rst = true;
                let a = self.peer_ack(id);
                self.peer(DATA, a | RST, id, 0);
            }
            PAck(i) => {
                let id = self.sid(i).unwrap();
                self.pstate(id).acked = true;
                self.peer(WINDOW, ACK, id, 0);
            }
            PPing => {
                let v = vsym::u32("ping");
                self.peer(PING, SYN, 0, v);
            }
            PPingS(i) => {
                let id = self.sid(i).unwrap();
                let v = vsym::u32("ping");
                self.peer(PING, SYN, id, v);
            }
            PPong => {
                let v = *self.n().mon.rtt_out.last().unwrap();
                self.peer(PING, ACK, 0, v);
            }
            PGoAway => self.peer(GOAWAY, 0, 0, 0),
            Block => self.set_write(Wr::Block),
            Unblock => self.set_write(Wr::Accept),
            Close => {
                let _ = self.close();
            }
            FailR => {
                let mut n = self.n();
                n.rd_fail = true;
                let wk = n.rd_waker.take();
                std::mem::drop(n);
                if let Some(wk) = wk {
                    wk.wake()
                }
            }
            FailW => self.set_write(Wr::Fail),
            ZeroW => self.set_write(Wr::Zero),
            FailF => {
                let mut n = self.n();
                n.fl = Wr::Fail;
                let wk = n.fl_waker.take();
                std::mem::drop(n);
                if let Some(wk) = wk {
                    wk.wake()
                }
            }
            Eof => self.peer_eof(),
            Time => advance(),
        }
    }
    /// Let everything that can happen happen.
    pub fn settle(&mut self) {
        self.set_write(Wr::Accept);
        self.poll();
    }
    /// Read everything there is; the number of bytes read and whether the end was reached.
    pub fn drain(&mut self, i: usize) -> (u64, bool) {
        let mut t = 0;
        for _ in 0..8 {
            match self.read_n(i, 1 << 21) {
                Poll::Ready(Ok(n)) => {
                    if n == 0 {
                        return (t, true);
                    }
                    t += n as u64;
                }
                _ => return (t, false),
            }
        }
        (t, false)
    }
}
/// The clock moves by any amount below 2^32 seconds.
pub fn advance() {
    let d = web_time::model::any_duration();
    let l = web_time::model::last();
    web_time::model::set((l + d) - web_time::model::at(std::time::Duration::ZERO));
}
