//! Rules of the protocol, checked on every frame the connection writes, from nothing but the
//! traffic in both directions and the calls the application made.

use crate::world::*;

pub const M_CREDIT: u32 = 1; // never more data than the peer granted
pub const M_WINDOW: u32 = 2; // what is advertised and unread stays within the maximum
pub const M_LIFE: u32 = 4; // SYN first, one ACK, nothing after FIN / RST
pub const M_IDS: u32 = 8; // frames only for streams that exist
pub const M_SIZE: u32 = 16; // data frames within the configured size
pub const M_PING: u32 = 32; // pongs answer pings
pub const M_TERM: u32 = 64; // nothing after go-away, nothing after the socket was closed
pub const M_CONN: u32 = 128; // windows of all streams within the connection's limit
pub const M_API: u32 = 256; // what reads, writes and closes give
pub const M_ALL: u32 = 0x1ff;

#[derive(Clone, Debug, Default)]
pub struct MS {
    pub id: u32,
    pub ours: bool,
    pub api: bool,
    pub syn_out: u32,
    pub ack_out: u32,
    pub fin_out: u32,
    pub rst_out: u32,
    pub frames_out: u32,
    pub data_out: u64,
    pub syn_in: u32,
    pub ack_in: u32,
    pub fin_in: u32,
    pub rst_in: u32,
    pub data_in: u64,
    pub updates_in: u32,
    pub updates_out: u32,
    pub credit: u64,
    pub rwin: u64,
    /// everything ever granted to the peer
    pub granted: u64,
    pub wrote: u64,
    /// given to a write that has not returned yet
    pub writing: u64,
    pub read: u64,
    pub closed: bool,
    pub dropped: bool,
}
impl MS {
    /// Credit that no accepted write has used.
    pub fn avail(&self) -> u64 {
        // a frame may be out before the write that queued it has returned
        self.credit - self.wrote.saturating_sub(self.data_out)
    }
    pub fn unread(&self) -> u64 {
        self.data_in - self.read
    }
}

/// What a frame of the peer is to the protocol.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Verdict {
    Fine,
    Ignored,
    New,
    Ping,
    GoAway,
    Violation,
    TooMany,
    Malformed,
}

pub struct Monitor {
    pub verdicts: Vec<Verdict>,
    pub max_streams: usize,
    pub rtt_known: bool,
    pub client: bool,
    pub mask: u32,
    pub s: Vec<MS>,
    pub split: u64,
    /// largest receive window a stream may have (no automatic growth: the default)
    pub max_window: u64,
    pub max_conn: Option<u64>,
    pub closing: bool,
    pub goaways: Vec<u32>,
    pub pings_in: Vec<u32>,
    pub pongs_out: usize,
    pub rtt_out: Vec<u32>,
    pub rtt_waiting: bool,
    /// when the last ping was written
    pub ping_at: Option<web_time::Instant>,
    /// when the pong to the last ping was read
    pub pong_at: Option<web_time::Instant>,
}

impl Monitor {
    pub fn new(client: bool, mask: u32) -> Monitor {
        Monitor {
            verdicts: vec![],
            max_streams: 512,
            rtt_known: false,
            client,
            mask,
            s: vec![],
            split: 16 * 1024,
            max_window: CREDIT,
            max_conn: None,
            closing: false,
            goaways: vec![],
            pings_in: vec![],
            pongs_out: 0,
            rtt_out: vec![],
            rtt_waiting: false,
            ping_at: None,
            pong_at: None,
        }
    }
    pub fn on(&self, m: u32) -> bool {
        self.mask & m != 0
    }
    pub fn find(&self, id: u32) -> Option<usize> {
        self.s.iter().position(|x| x.id == id)
    }
    pub fn get(&self, id: u32) -> &MS {
        &self.s[self.find(id).unwrap()]
    }
    fn fresh(&mut self, id: u32) -> usize {
        self.s.push(MS { id, ours: (id & 1 == 1) == self.client, credit: CREDIT, rwin: CREDIT, granted: CREDIT, ..Default::default() });
        self.s.len() - 1
    }
    pub fn api_outbound(&mut self, id: u32) {
        if self.on(M_IDS) {
            check(id != 0 && (id & 1 == 1) == self.client, "an outbound stream's identifier has the parity of its side");
            check(self.find(id).is_none(), "an outbound stream's identifier was never used before");
        }
        let i = self.fresh(id);
        self.s[i].api = true;
    }
    pub fn api_inbound(&mut self, id: u32) {
        match self.find(id) {
            Some(i) => {
                if self.on(M_IDS) {
                    check(id != 0 && (id & 1 == 1) != self.client, "an inbound stream's identifier has the peer's parity");
                    check(!self.s[i].api, "an inbound stream is handed out once");
                }
                self.s[i].api = true;
            }
            None => {
                if self.on(M_IDS) {
                    check(false, "an inbound stream appears only when the peer opened it");
                }
            }
        }
    }
    pub fn api_wrote(&mut self, id: u32, n: u64, asked: u64) {
        let i = self.find(id).unwrap();
        if self.on(M_SIZE) {
            check(n <= asked, "no more bytes are accepted than were given");
        }
        self.s[i].wrote += n;
    }
    pub fn api_read(&mut self, id: u32, n: u64) {
        let i = self.find(id).unwrap();
        if self.on(M_WINDOW) {
            check(n <= self.s[i].unread(), "no more bytes are read than were received");
        }
        self.s[i].read += n;
    }
    pub fn api_closed(&mut self, id: u32) {
        let i = self.find(id).unwrap();
        self.s[i].closed = true;
    }
    pub fn api_dropped(&mut self, id: u32) {
        let i = self.find(id).unwrap();
        self.s[i].dropped = true;
    }
    pub fn api_close(&mut self) {
        self.closing = true;
    }
    pub fn no_write_after_close(&self, closed: bool) {
        if self.on(M_TERM) {
            check(!closed, "nothing is written after the transport was closed");
        }
    }

    pub fn no_write_after_failure(&self, failed: bool) {
        if self.on(M_TERM) {
            check(!failed, "nothing is written after a write has failed");
        }
    }
    pub fn no_read_after_end(&self, failed: bool) {
        if self.on(M_TERM) {
            check(!failed, "nothing is read after a read has failed");
        }
    }

    // ---- traffic -----------------------------------------------------------------------

    /// The last byte of a frame of the peer was read: what the protocol says about it.
    pub fn on_in(&mut self, w: &Wire) {
        let v = self.judge_in(w);
        self.verdicts.push(v);
    }
    fn judge_in(&mut self, w: &Wire) -> Verdict {
        if w.ver != 0 || w.tag > GOAWAY {
            return Verdict::Malformed;
        }
        match w.tag {
            DATA | WINDOW => self.on_in_stream(w),
            PING if w.has(ACK) => {
                if !self.rtt_waiting || self.rtt_out.last() != Some(&w.len) {
                    return Verdict::Violation;
                }
                self.rtt_waiting = false;
                self.rtt_known = true;
                self.pong_at = Some(web_time::model::last());
                Verdict::Fine
            }
            PING => {
                if w.sid == 0 || self.find(w.sid).is_some() {
                    self.pings_in.push(w.len);
                    return Verdict::Ping;
                }
                Verdict::Ignored
            }
            _ => Verdict::GoAway,
        }
    }
    fn on_in_stream(&mut self, w: &Wire) -> Verdict {
        let n = w.len as u64;
        let data = w.tag == DATA;
        let known = self.find(w.sid);
        if w.has(RST) {
            let Some(i) = known else { return Verdict::Ignored };
            self.s[i].rst_in += 1;
            self.s[i].ack_in += w.has(ACK) as u32;
            return Verdict::Fine;
        }
        if w.has(SYN) {
            let theirs = w.sid != 0 && (w.sid & 1 == 1) != self.client;
            let much = if data { n > CREDIT } else { n + CREDIT > u32::MAX as u64 };
            if !theirs || known.is_some() || much {
                if let Some(i) = known {
                    self.s[i].ack_in += w.has(ACK) as u32;
                }
                return Verdict::Violation;
            }
            if self.live() >= self.max_streams {
                return Verdict::TooMany;
            }
            let i = self.fresh(w.sid);
            let s = &mut self.s[i];
            s.syn_in += 1;
            s.fin_in += w.has(FIN) as u32;
            if data {
                s.rwin -= n;
                s.data_in += n;
            } else {
                s.credit += n;
            }
            return Verdict::New;
        }
        let Some(i) = known else { return Verdict::Ignored };
        let s = &mut self.s[i];
        s.ack_in += w.has(ACK) as u32;
        if data {
            if n > s.rwin {
                return Verdict::Violation;
            }
            s.rwin -= n;
            s.data_in += n;
        } else {
            if s.avail() + n > u32::MAX as u64 {
                return Verdict::Violation;
            }
            s.updates_in += 1;
            s.credit += n;
        }
        s.fin_in += w.has(FIN) as u32;
        Verdict::Fine
    }
    /// Streams that exist.
    pub fn live(&self) -> usize {
        self.s.iter().filter(|x| !x.dropped).count()
    }
    /// A frame's header was written.
    pub fn on_out(&mut self, w: &Wire) {
        if self.on(M_SIZE) {
            check(w.ver == 0, "the protocol version is 0");
            check(w.tag <= GOAWAY, "the frame type is known");
            check(w.flags & !(SYN | ACK | FIN | RST) == 0, "only known flags are set");
        }
        if self.on(M_TERM) {
            check(
                self.goaways.is_empty() || self.goaways[0] != 0 || !self.closing,
                "nothing follows the go-away of an orderly close",
            );
        }
        match w.tag {
            PING => {
                if w.has(ACK) {
                    if self.on(M_PING) {
                        check(w.flags == ACK && w.sid == 0, "a pong has only the ACK flag and no stream");
                        check(self.pongs_out < self.pings_in.len(), "a pong answers a ping");
                        check(self.pings_in[self.pongs_out] == w.len, "a pong carries the value of its ping");
                    }
                    self.pongs_out += 1;
                } else {
                    if self.on(M_PING) {
                        check(w.flags == SYN && w.sid == 0, "a ping has only the SYN flag and no stream");
                        check(!self.rtt_waiting, "at most one ping is waiting for its pong");
                        check(!self.rtt_out.contains(&w.len), "pings carry different values");
                    }
                    self.rtt_waiting = true;
                    self.ping_at = Some(web_time::model::last());
                    self.rtt_out.push(w.len);
                }
            }
            GOAWAY => {
                if self.on(M_TERM) {
                    check(w.flags == 0 && w.sid == 0, "a go-away has no flags and no stream");
                }
                self.goaways.push(w.len);
            }
            _ => self.on_stream(w),
        }
    }
    fn on_stream(&mut self, w: &Wire) {
        let Some(i) = self.find(w.sid) else {
            if self.on(M_IDS) {
                check(false, "frames are sent only for streams that were opened");
            }
            return;
        };
        let (split, maxw) = (self.split, self.max_window);
        let (life, credit, size, window) = (self.on(M_LIFE), self.on(M_CREDIT), self.on(M_SIZE), self.on(M_WINDOW));
        let s = &mut self.s[i];
        if life {
            check(s.api, "frames are sent only for streams the application holds or held");
            if s.ours {
                check(!w.has(ACK), "no ACK on a stream of our own");
                if s.syn_out == 0 {
                    check(w.has(SYN) || w.has(RST), "the first frame of a stream we open carries SYN");
                } else {
                    check(!w.has(SYN), "SYN is sent once");
                }
            } else {
                check(!w.has(SYN), "no SYN on a stream of the peer");
                if s.ack_out == 0 {
                    check(w.has(ACK) || s.dropped, "the first frame on a stream of the peer carries ACK");
                } else {
                    check(!w.has(ACK), "ACK is sent once");
                }
            }
            check(s.rst_out == 0, "nothing follows a reset");
            if s.fin_out > 0 {
                check(!w.has(FIN), "FIN is sent once");
                check(!w.is(DATA) || w.len == 0, "no data follows FIN");
                check(!w.has(RST), "no reset follows FIN");
            }
            if w.has(FIN) {
                check(s.closed || s.dropped, "FIN is sent only after the application closed or dropped the stream");
            }
            if w.has(RST) {
                check(s.dropped, "a reset is sent only for a dropped stream");
                check(w.len == 0, "a reset carries no data");
            }
        }
        s.frames_out += 1;
        s.syn_out += w.has(SYN) as u32;
        s.ack_out += w.has(ACK) as u32;
        s.fin_out += w.has(FIN) as u32;
        s.rst_out += w.has(RST) as u32;
        if w.tag == DATA {
            let n = w.len as u64;
            if credit {
                check(n <= s.credit, "no more data is sent than the peer granted");
            }
            s.credit = s.credit.saturating_sub(n);
            s.data_out += n;
            if size {
                check(n <= split, "a data frame is not longer than the configured size");
                check(s.data_out <= s.wrote + s.writing, "only bytes the application wrote are sent");
            }
        } else {
            s.updates_out += 1;
            s.rwin += w.len as u64;
            s.granted += w.len as u64;
            if window {
                check(w.len != 0 || w.flags != 0, "no window update without effect");
                check(s.rwin + s.unread() <= maxw, "granted window and unread bytes stay within the stream's maximum");
            }
            if let Some(limit) = self.max_conn {
                if self.on(M_CONN) {
                    let mut sum = 0;
                    for x in self.s.iter().filter(|x| x.api && !x.dropped) {
                        sum += x.rwin + x.unread();
                    }
                    check(sum <= limit, "granted windows and unread bytes of all streams stay within the connection's limit");
                }
            }
        }
    }
    /// A frame was written completely.
    pub fn on_out_end(&mut self, _w: &Wire) {}
}
