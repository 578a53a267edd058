//! The environment of a connection: a scripted transport whose traffic is watched frame by
//! frame, the application's handles, and the bookkeeping the properties are stated over.
//! Nothing in here looks inside the crate under test.

use futures::{AsyncRead, AsyncWrite};
use std::cell::RefCell;
use std::collections::VecDeque;
use std::io;
use std::pin::Pin;
use std::rc::Rc;
pub use std::task::Poll;
use std::task::{Context, Waker};
use crate::monitor::*;
pub use vsym::{check, wake, witness};
pub use yamux::{Config, Connection, ConnectionError, Mode, Stream};

pub const DATA: u8 = 0;
pub const WINDOW: u8 = 1;
pub const PING: u8 = 2;
pub const GOAWAY: u8 = 3;
pub const SYN: u16 = 1;
pub const ACK: u16 = 2;
pub const FIN: u16 = 4;
pub const RST: u16 = 8;
pub const CREDIT: u64 = 256 * 1024;

/// Wakers: the connection task, the task that opens streams, reader and writer of stream `i`.
pub const T_CONN: usize = 0;
pub const T_OPEN: usize = 1;
pub fn t_reader(i: usize) -> usize {
    2 + 2 * i
}
pub fn t_writer(i: usize) -> usize {
    3 + 2 * i
}

pub fn header(ver: u8, tag: u8, flags: u16, sid: u32, len: u32) -> [u8; 12] {
    let f = flags.to_be_bytes();
    let s = sid.to_be_bytes();
    let l = len.to_be_bytes();
    [ver, tag, f[0], f[1], s[0], s[1], s[2], s[3], l[0], l[1], l[2], l[3]]
}

/// A frame as seen on the wire.
#[derive(Clone, Debug)]
pub struct Wire {
    pub ver: u8,
    pub tag: u8,
    pub flags: u16,
    pub sid: u32,
    pub len: u32,
    pub body: Vec<u8>,
}
impl Wire {
    pub fn parse(h: &[u8; 12]) -> Wire {
        Wire {
            ver: h[0],
            tag: h[1],
            flags: u16::from_be_bytes([h[2], h[3]]),
            sid: u32::from_be_bytes([h[4], h[5], h[6], h[7]]),
            len: u32::from_be_bytes([h[8], h[9], h[10], h[11]]),
            body: vec![],
        }
    }
    pub fn has(&self, f: u16) -> bool {
        self.flags & f != 0
    }
    pub fn is(&self, tag: u8) -> bool {
        self.tag == tag
    }
}

/// Incoming bytes.
pub enum Seg {
    Bytes(Vec<u8>, usize),
    /// so many bytes of content that does not matter, except that the one before this position is
    /// marked (if there are so many)
    Opaque(u64, u64),
    /// the peer's frame is complete: tell the monitor
    Mark(Wire),
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Wr {
    Accept,
    Block,
    Fail,
    /// fail, and work again afterwards
    FailOnce,
    Zero,
    /// claim to have taken more than was given
    Over,
}

pub struct Net {
    pub inp: VecDeque<Seg>,
    pub eof: bool,
    pub rd_fail: bool,
    /// give at most a symbolic part of what was asked for
    pub rd_split: bool,
    /// so many reads of bytes may give less than asked for
    pub rd_cuts: u32,
    /// so many reads of content that does not matter may give less than asked for
    pub rd_body_cuts: u32,
    /// reads may also find nothing now
    pub rd_stall: u32,
    /// only this many more bytes arrive before the end (or failure)
    pub rd_limit: Option<u64>,
    pub rd_waker: Option<Waker>,
    pub reads: u32,
    pub delivered: Vec<Wire>,

    pub wr: Wr,
    pub wr_split: bool,
    pub wr_cuts: u32,
    pub wr_stall: u32,
    /// accept only this many more frames (then behave as `Block`)
    pub wr_frames: Option<u32>,
    /// accept only this many more bytes, then behave like this
    pub wr_limit: Option<(u64, Wr)>,
    pub wr_waker: Option<Waker>,
    pub wr_failed: bool,
    pub fl_failed: bool,
    pub rd_failed: bool,
    pub writes: u32,
    pub keep_body: bool,
    pub keep_raw: bool,
    /// everything written, for the other end to read
    pub log: Option<Vec<Seg>>,
    pub bytes_out: u64,
    pub bytes_in: u64,
    pub raw: Vec<u8>,
    pub out: Vec<Wire>,
    hdr: [u8; 12],
    hlen: usize,
    cur: Option<(Wire, u64)>,

    pub fl: Wr,
    pub fl_waker: Option<Waker>,
    pub flushes: u32,
    /// something was written since the last complete flush
    pub dirty: bool,
    pub cl: Wr,
    pub cl_waker: Option<Waker>,
    pub closed: bool,
    pub closes: u32,
    pub dropped: bool,
    /// the error of a failing transport
    pub err: io::ErrorKind,
    /// the marked byte of what is written and of what is read
    pub probe_w: Option<Probe>,
    pub probe_r: Option<Probe>,
    pub mon: crate::monitor::Monitor,
}

#[derive(Clone)]
pub struct Sock(pub Rc<RefCell<Net>>);

/// One byte of the data of a stream, at any position, is followed.
#[derive(Clone, Copy)]
pub struct Probe {
    pub sid: u32,
    pub pos: u64,
    /// how much went in, and came out
    pub given: u64,
    pub got: u64,
    pub seen: u64,
}
impl Probe {
    pub fn new(sid: u32) -> Option<Probe> {
        let pos = vsym::sym(40, "position");
        Some(Probe { sid, pos, given: 0, got: 0, seen: 0 })
    }
    /// The marked byte is among the next `n` bytes given: where, plus 1; or 0.
    fn mark(&self, n: u64) -> u64 {
        let k = (self.pos + 1).saturating_sub(self.given);
        k * (k <= n) as u64
    }
    /// What comes out.
    fn look(&mut self, sid: u32, b: &[u8]) -> u64 {
        let m = vsym::marked(b);
        if sid != self.sid {
            check(m == 0, "a byte of a stream's data stays on its stream");
            return m;
        }
        check((m == 0) | (self.got + m == self.pos + 1), "every byte keeps its place in its stream");
        self.seen |= (m != 0) as u64;
        self.got += b.len() as u64;
        m
    }
    pub fn judge(&self) {
        check((self.seen != 0) == (self.got > self.pos), "a byte of a stream's data arrives as it was given");
    }
}

impl Net {
    fn probe_out(&mut self, b: &[u8]) -> u64 {
        match &mut self.probe_w {
            Some(p) => p.look(self.cur.as_ref().unwrap().0.sid, b),
            None => 0,
        }
    }
    pub fn new(mon: crate::monitor::Monitor) -> Net {
        Net {
            inp: VecDeque::new(),
            eof: false,
            rd_fail: false,
            rd_split: false,
            rd_cuts: u32::MAX,
            rd_body_cuts: 0,
            rd_stall: 0,
            rd_limit: None,
            rd_waker: None,
            reads: 0,
            delivered: vec![],
            wr: Wr::Accept,
            wr_split: false,
            wr_cuts: u32::MAX,
            wr_stall: 0,
            wr_frames: None,
            wr_limit: None,
            wr_waker: None,
            wr_failed: false,
            fl_failed: false,
            rd_failed: false,
            writes: 0,
            keep_body: false,
            keep_raw: false,
            log: None,
            bytes_out: 0,
            bytes_in: 0,
            raw: vec![],
            out: vec![],
            hdr: [0; 12],
            hlen: 0,
            cur: None,
            fl: Wr::Accept,
            fl_waker: None,
            flushes: 0,
            dirty: false,
            cl: Wr::Accept,
            cl_waker: None,
            closed: false,
            closes: 0,
            dropped: false,
            err: io::ErrorKind::ConnectionReset,
            probe_w: None,
            probe_r: None,
            mon,
        }
    }
    pub fn mid_frame(&self) -> bool {
        self.hlen > 0 || self.cur.is_some()
    }
    /// Everything the peer has sent was read.
    pub fn drained(&self) -> bool {
        self.inp.iter().all(|s| matches!(s, Seg::Mark(_)))
    }
    fn settle(&mut self) {
        while let Some(Seg::Mark(_)) = self.inp.front() {
            let Some(Seg::Mark(w)) = self.inp.pop_front() else { unreachable!() };
            self.mon.on_in(&w);
            self.delivered.push(w);
        }
    }
    fn frame_done(&mut self, w: Wire) {
        self.mon.on_out_end(&w);
        if let Some(l) = &mut self.log {
            l.push(Seg::Mark(w.clone()));
        }
        self.out.push(w);
        if let Some(n) = &mut self.wr_frames {
            *n -= 1;
            if *n == 0 {
                self.wr_frames = None;
                self.wr = Wr::Block;
            }
        }
    }
    fn part(&mut self, n: usize) -> usize {
        if !self.wr_split || self.wr_cuts == 0 || self.probe_w.is_some() {
            return n;
        }
        let k = 1 + vsym::choice(n, "accepted");
        if k < n {
            self.wr_cuts -= 1;
        }
        k
    }
    fn take(&mut self, b: &[u8]) -> usize {
        if self.keep_raw {
            let n = self.part(b.len());
            self.raw.extend_from_slice(&b[..n]);
            self.parse_tracked(&b[..n]);
            return n;
        }
        if self.cur.is_none() {
            // header bytes are always looked at
            let mut n = (12 - self.hlen).min(b.len());
            n = self.part(n);
            if self.log.is_some() {
                n = vsym::concrete(n as u64) as usize;
            }
            if let Some(l) = &mut self.log {
                l.push(Seg::Bytes(b[..n].to_vec(), 0));
            }
            self.parse_tracked(&b[..n]);
            n
        } else {
            let (_, rem) = self.cur.as_mut().unwrap();
            let mut n = (*rem).min(b.len() as u64);
            if self.wr_split && self.wr_cuts > 0 && vsym::flip("cut") {
                n = vsym::range(1, n, "accepted");
                self.wr_cuts -= 1;
            }
            *rem -= n;
            if self.keep_body {
                let v = b[..n as usize].to_vec();
                self.cur.as_mut().unwrap().0.body.extend_from_slice(&v);
                if let Some(l) = &mut self.log {
                    l.push(Seg::Bytes(v, 0));
                }
            }
            let found = self.probe_out(&b[..n as usize]);
            if self.keep_body {
            } else if let Some(l) = &mut self.log {
                l.push(Seg::Opaque(n, found));
            }
            if self.cur.as_ref().unwrap().1 == 0 {
                let (w, _) = self.cur.take().unwrap();
                self.frame_done(w);
            }
            n as usize
        }
    }
    fn parse_tracked(&mut self, mut b: &[u8]) {
        while !b.is_empty() {
            if let Some((w, rem)) = &mut self.cur {
                let n = (*rem).min(b.len() as u64);
                if self.keep_body {
                    w.body.extend_from_slice(&b[..n as usize]);
                }
                *rem -= n;
                b = &b[n as usize..];
                if *rem == 0 {
                    let (w, _) = self.cur.take().unwrap();
                    self.frame_done(w);
                }
                continue;
            }
            let n = (12 - self.hlen).min(b.len());
            self.hdr[self.hlen..self.hlen + n].copy_from_slice(&b[..n]);
            self.hlen += n;
            b = &b[n..];
            if self.hlen == 12 {
                self.hlen = 0;
                let w = Wire::parse(&self.hdr);
                self.mon.on_out(&w);
                if w.tag == DATA && w.len != 0 {
                    let l = w.len as u64;
                    self.cur = Some((w, l));
                } else {
                    self.frame_done(w);
                }
            }
        }
    }
}


impl AsyncRead for Sock {
    fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut [u8]) -> Poll<io::Result<usize>> {
        vsym::preempt::point();
        let mut n = self.0.borrow_mut();
        n.reads += 1;
        n.settle();
        if n.rd_stall > 0 && vsym::flip("read stalls") {
            n.rd_stall -= 1;
            cx.waker().wake_by_ref();
            return Poll::Pending;
        }
        n.mon.no_read_after_end(n.rd_failed);
        if n.inp.is_empty() || n.rd_limit == Some(0) {
            if n.rd_fail {
                n.rd_failed = true;
                return Poll::Ready(Err(n.err.into()));
            }
            if n.eof {
                return Poll::Ready(Ok(0));
            }
            n.rd_waker = Some(cx.waker().clone());
            return Poll::Pending;
        }
        let (split, cuts, body_cuts) = (n.rd_split, n.rd_cuts, n.rd_body_cuts);
        let (mut cut, mut body_cut) = (false, false);
        let lim = n.rd_limit.unwrap_or(u64::MAX);
        let (k, done) = match n.inp.front_mut().unwrap() {
            Seg::Bytes(v, p) => {
                let mut k = (buf.len().min(v.len() - *p) as u64).min(lim) as usize;
                if split && cuts > 0 {
                    let c = 1 + vsym::choice(k, "chunk");
                    cut = c < k;
                    k = c;
                }
                buf[..k].copy_from_slice(&v[*p..*p + k]);
                *p += k;
                (k, *p == v.len())
            }
            Seg::Opaque(r, m) => {
                let mut k = (*r).min(buf.len() as u64).min(lim);
                if split {
                    k = vsym::range(1, k, "chunk");
                } else if body_cuts > 0 && vsym::flip("cut") {
                    k = vsym::range(1, k, "chunk");
                    body_cut = true;
                }
                vsym::mark(&mut buf[..k as usize], m.wrapping_sub(1), (*m != 0) & (*m <= k));
                *m = m.saturating_sub(k);
                *r -= k;
                (k as usize, *r == 0)
            }
            Seg::Mark(_) => unreachable!(),
        };
        if cut {
            n.rd_cuts -= 1;
        }
        n.rd_body_cuts -= body_cut as u32;
        n.bytes_in += k as u64;
        if let Some(l) = &mut n.rd_limit {
            *l -= k as u64;
        }
        if done {
            n.inp.pop_front();
            n.settle();
        }
        Poll::Ready(Ok(k))
    }
}

impl AsyncWrite for Sock {
    fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, b: &[u8]) -> Poll<io::Result<usize>> {
        vsym::preempt::point();
        let mut n = self.0.borrow_mut();
        n.writes += 1;
        n.mon.no_write_after_close(n.closed);
        n.mon.no_write_after_failure(n.wr_failed);
        if let Some((0, m)) = n.wr_limit {
            n.wr_limit = None;
            n.wr = m;
        }
        if n.wr_stall > 0 && vsym::flip("write stalls") {
            n.wr_stall -= 1;
            cx.waker().wake_by_ref();
            return Poll::Pending;
        }
        match n.wr {
            Wr::Block => {
                n.wr_waker = Some(cx.waker().clone());
                Poll::Pending
            }
            Wr::Fail | Wr::FailOnce => {
                n.wr_failed = true;
                if n.wr == Wr::FailOnce {
                    n.wr = Wr::Accept;
                }
                Poll::Ready(Err(n.err.into()))
            }
            Wr::Zero => {
                n.wr_failed = true;
                Poll::Ready(Ok(0))
            }
            Wr::Over => {
                n.wr_failed = true;
                let over = [1, 1 << 40][vsym::choice(2, "claimed")];
                Poll::Ready(Ok(b.len() + over))
            }
            Wr::Accept => {
                if b.is_empty() {
                    return Poll::Ready(Ok(0));
                }
                n.dirty = true;
                let b = match n.wr_limit {
                    Some((l, _)) => &b[..(b.len() as u64).min(l) as usize],
                    None => b,
                };
                let k = n.take(b);
                n.bytes_out += k as u64;
                if let Some((l, _)) = &mut n.wr_limit {
                    *l -= k as u64;
                }
                Poll::Ready(Ok(k))
            }
        }
    }
    fn poll_flush(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        vsym::preempt::point();
        let mut n = self.0.borrow_mut();
        n.flushes += 1;
        match n.fl {
            Wr::Accept => {
                n.dirty = false;
                Poll::Ready(Ok(()))
            }
            Wr::Block => {
                n.fl_waker = Some(cx.waker().clone());
                Poll::Pending
            }
            _ => {
                n.fl_failed = true;
                Poll::Ready(Err(n.err.into()))
            }
        }
    }
    fn poll_close(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        vsym::preempt::point();
        let mut n = self.0.borrow_mut();
        n.closes += 1;
        match n.cl {
            Wr::Accept => {
                n.closed = true;
                Poll::Ready(Ok(()))
            }
            Wr::Block => {
                n.cl_waker = Some(cx.waker().clone());
                Poll::Pending
            }
            _ => Poll::Ready(Err(n.err.into())),
        }
    }
}
/// The connection owns this; the harness keeps the inner `Rc`.
pub struct Owned(pub Sock);
impl Drop for Owned {
    fn drop(&mut self) {
        self.0 .0.borrow_mut().dropped = true;
    }
}
impl AsyncRead for Owned {
    fn poll_read(mut self: Pin<&mut Self>, cx: &mut Context<'_>, b: &mut [u8]) -> Poll<io::Result<usize>> {
        Pin::new(&mut self.0).poll_read(cx, b)
    }
}
impl AsyncWrite for Owned {
    fn poll_write(mut self: Pin<&mut Self>, cx: &mut Context<'_>, b: &[u8]) -> Poll<io::Result<usize>> {
        Pin::new(&mut self.0).poll_write(cx, b)
    }
    fn poll_flush(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        Pin::new(&mut self.0).poll_flush(cx)
    }
    fn poll_close(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        Pin::new(&mut self.0).poll_close(cx)
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum ErrKind {
    Io,
    Decode,
    NoMoreStreamIds,
    Closed,
    TooManyStreams,
    Other,
}
pub fn kind(e: &ConnectionError) -> ErrKind {
    match e {
        ConnectionError::Io(_) => ErrKind::Io,
        ConnectionError::Decode(_) => ErrKind::Decode,
        ConnectionError::NoMoreStreamIds => ErrKind::NoMoreStreamIds,
        ConnectionError::Closed => ErrKind::Closed,
        ConnectionError::TooManyStreams => ErrKind::TooManyStreams,
        _ => ErrKind::Other,
    }
}

/// The error kinds a transport may report.
pub const KINDS: [io::ErrorKind; 16] = [
    io::ErrorKind::ConnectionReset,
    io::ErrorKind::NotFound,
    io::ErrorKind::PermissionDenied,
    io::ErrorKind::ConnectionRefused,
    io::ErrorKind::ConnectionAborted,
    io::ErrorKind::NotConnected,
    io::ErrorKind::BrokenPipe,
    io::ErrorKind::WouldBlock,
    io::ErrorKind::InvalidInput,
    io::ErrorKind::InvalidData,
    io::ErrorKind::TimedOut,
    io::ErrorKind::WriteZero,
    io::ErrorKind::Interrupted,
    io::ErrorKind::UnexpectedEof,
    io::ErrorKind::OutOfMemory,
    io::ErrorKind::Other,
];
/// The I/O error that an error carries.
pub fn io_kind(e: &ConnectionError) -> Option<io::ErrorKind> {
    match e {
        ConnectionError::Io(e) => Some(e.kind()),
        ConnectionError::Decode(yamux::FrameDecodeError::Io(e)) => Some(e.kind()),
        _ => None,
    }
}

/// What polling the connection led to.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum End {
    Pending,
    None,
    Err(ErrKind),
}

/// What the peer has sent on a stream, for keeping it within the protocol.
#[derive(Clone, Debug, Default)]
pub struct PeerS {
    pub id: u32,
    pub sent: u64,
    pub fin: bool,
    pub rst: bool,
    pub acked: bool,
    /// the peer has sent something other than an acknowledgement alone
    pub begun: bool,
}

pub struct World {
    pub net: Rc<RefCell<Net>>,
    pub ps: Vec<PeerS>,
    /// one of the peer's identifiers that was not used yet
    pub peer_next: u32,
    /// poll the connection after every operation
    pub auto: bool,
    pub conn: Option<Connection<Owned>>,
    pub streams: Vec<Option<Stream>>,
    /// their identifiers, also of those dropped
    pub ids: Vec<u32>,
    /// the first time polling gave something final
    pub end: End,
    pub err: Option<ConnectionError>,
    pub client: bool,
    /// one task reads a stream and another writes to it
    pub split_tasks: bool,
    /// tasks that wait: how often they had been woken when they were told to
    pub park_r: Vec<Option<u32>>,
    pub park_w: Vec<Option<u32>>,
    pub park_f: Vec<Option<u32>>,
    pub park_open: Option<u32>,
    pub park_conn: Option<u32>,
    /// configured: nothing is readable after the connection's end
    pub no_read_after_close: bool,
    /// the tasks of this side start here
    pub base: usize,
}

impl World {
    pub fn new(client: bool, cfg: Config, mask: u32) -> World {
        let net = Rc::new(RefCell::new(Net::new(crate::monitor::Monitor::new(client, mask))));
        let mode = if client { Mode::Client } else { Mode::Server };
        World {
            conn: Some(Connection::new(Owned(Sock(net.clone())), cfg, mode)),
            net,
            ps: vec![],
            peer_next: 0,
            auto: true,
            streams: vec![],
            ids: vec![],
            end: End::Pending,
            err: None,
            client,
            split_tasks: true,
            park_r: vec![],
            park_w: vec![],
            park_f: vec![],
            park_open: None,
            park_conn: None,
            no_read_after_close: false,
            base: 0,
        }
    }
    /// A connection that has sent its first round-trip ping.
    pub fn started(client: bool, cfg: Config, mask: u32) -> World {
        let mut w = World::new(client, cfg, mask);
        w.poll();
        w
    }
    pub fn own_id(&self, k: u32) -> u32 {
        if self.client {
            1 + 2 * k
        } else {
            2 + 2 * k
        }
    }
    pub fn peer_id(&self, k: u32) -> u32 {
        if self.client {
            2 + 2 * k
        } else {
            1 + 2 * k
        }
    }
    pub fn n(&self) -> std::cell::RefMut<'_, Net> {
        self.net.borrow_mut()
    }

    // ---- the peer ----------------------------------------------------------------------

    /// The peer sends a frame (with content that does not matter).
    pub fn peer(&self, tag: u8, flags: u16, sid: u32, len: u32) {
        let h = header(0, tag, flags, sid, len);
        let w = Wire::parse(&h);
        let mut n = self.n();
        n.inp.push_back(Seg::Bytes(h.to_vec(), 0));
        if tag == DATA && len != 0 {
            let mut m = 0;
            if let Some(p) = n.probe_r.as_mut().filter(|p| p.sid == sid) {
                m = p.mark(len as u64);
                p.given += len as u64;
            }
            n.inp.push_back(Seg::Opaque(len as u64, m));
        }
        n.inp.push_back(Seg::Mark(w));
        let wk = n.rd_waker.take();
        drop(n);
        if let Some(wk) = wk {
            wk.wake()
        }
    }
    pub fn peer_data(&self, flags: u16, sid: u32, body: &[u8]) {
        let h = header(0, DATA, flags, sid, body.len() as u32);
        let mut w = Wire::parse(&h);
        w.body = body.to_vec();
        let mut n = self.n();
        n.inp.push_back(Seg::Bytes(h.to_vec(), 0));
        if !body.is_empty() {
            n.inp.push_back(Seg::Bytes(body.to_vec(), 0));
        }
        n.inp.push_back(Seg::Mark(w));
        let wk = n.rd_waker.take();
        drop(n);
        if let Some(wk) = wk {
            wk.wake()
        }
    }
    pub fn peer_raw(&self, b: &[u8]) {
        let mut n = self.n();
        n.inp.push_back(Seg::Bytes(b.to_vec(), 0));
        let wk = n.rd_waker.take();
        drop(n);
        if let Some(wk) = wk {
            wk.wake()
        }
    }
    pub fn peer_segs(&self, v: Vec<Seg>) {
        if v.is_empty() {
            return;
        }
        let mut n = self.n();
        n.inp.extend(v);
        let wk = n.rd_waker.take();
        drop(n);
        if let Some(wk) = wk {
            wk.wake()
        }
    }
    pub fn peer_eof(&self) {
        let mut n = self.n();
        n.eof = true;
        let wk = n.rd_waker.take();
        drop(n);
        if let Some(wk) = wk {
            wk.wake()
        }
    }
    pub fn set_write(&self, m: Wr) {
        let mut n = self.n();
        n.wr = m;
        let wk = if m == Wr::Block { None } else { n.wr_waker.take() };
        drop(n);
        if let Some(wk) = wk {
            wk.wake()
        }
    }

    /// What the monitor knows of a stream.
    pub fn ms(&self, id: u32) -> crate::monitor::MS {
        self.n().mon.get(id).clone()
    }
    pub fn pstate(&mut self, id: u32) -> &mut PeerS {
        match self.ps.iter().position(|p| p.id == id) {
            Some(i) => &mut self.ps[i],
            None => {
                self.ps.push(PeerS { id, ..Default::default() });
                self.ps.last_mut().unwrap()
            }
        }
    }
    /// How much the peer may still send on the stream.
    pub fn peer_window(&mut self, id: u32) -> u64 {
        let sent = self.pstate(id).sent;
        let n = self.n();
        let g = n.mon.find(id).map_or(CREDIT, |i| n.mon.s[i].granted);
        g - sent
    }

    // ---- the connection ----------------------------------------------------------------

    pub fn poll_once(&mut self) -> Option<usize> {
        let wk = wake::waker(self.base + T_CONN);
        let mut cx = Context::from_waker(&wk);
        let Some(c) = self.conn.as_mut() else { return None };
        self.park_conn = None;
        match c.poll_next_inbound(&mut cx) {
            Poll::Pending => {
                self.park_conn = Some(wake::woken(self.base + T_CONN));
                None
            }
            Poll::Ready(Some(Ok(s))) => {
                let id = s.id().val();
                self.net.borrow_mut().mon.api_inbound(id);
                self.ids.push(id);
                self.streams.push(Some(s));
                self.park_r.push(None);
                self.park_w.push(None);
                self.park_f.push(None);
                Some(self.streams.len() - 1)
            }
            Poll::Ready(Some(Err(e))) => {
                if self.end == End::Pending {
                    self.end = End::Err(kind(&e));
                    self.err = Some(e);
                }
                None
            }
            Poll::Ready(None) => {
                if self.end == End::Pending {
                    self.end = End::None;
                }
                None
            }
        }
    }
    /// Poll the connection until it is pending or finished; gives the new inbound streams.
    pub fn poll(&mut self) -> Vec<usize> {
        let mut r = vec![];
        while let Some(i) = self.poll_once() {
            r.push(i);
        }
        r
    }
    /// Poll for a new stream without telling the monitor; its identifier.
    pub fn conn_poll_new(&mut self) -> Option<u32> {
        let wk = wake::waker(self.base + T_CONN);
        let mut cx = Context::from_waker(&wk);
        match self.conn.as_mut().unwrap().poll_next_inbound(&mut cx) {
            Poll::Ready(Some(Ok(s))) => {
                let id = s.id().val();
                self.streams.push(Some(s));
                self.park_r.push(None);
                self.park_w.push(None);
                self.park_f.push(None);
                Some(id)
            }
            _ => None,
        }
    }
    /// Open a stream; `None` if not possible now.
    pub fn open(&mut self) -> Poll<Result<usize, ErrKind>> {
        let wk = wake::waker(self.base + T_OPEN);
        let mut cx = Context::from_waker(&wk);
        self.park_open = None;
        match self.conn.as_mut().unwrap().poll_new_outbound(&mut cx) {
            Poll::Pending => {
                self.park_open = Some(wake::woken(self.base + T_OPEN));
                Poll::Pending
            }
            Poll::Ready(Ok(s)) => {
                let id = s.id().val();
                self.net.borrow_mut().mon.api_outbound(id);
                self.ids.push(id);
                self.streams.push(Some(s));
                self.park_r.push(None);
                self.park_w.push(None);
                self.park_f.push(None);
                Poll::Ready(Ok(self.streams.len() - 1))
            }
            Poll::Ready(Err(e)) => Poll::Ready(Err(kind(&e))),
        }
    }
    pub fn must_open(&mut self) -> usize {
        match self.open() {
            Poll::Ready(Ok(i)) => i,
            _ => {
                check(false, "a stream can be opened");
                unreachable!()
            }
        }
    }
    pub fn close(&mut self) -> Poll<Result<(), ErrKind>> {
        let wk = wake::waker(self.base + T_CONN);
        let mut cx = Context::from_waker(&wk);
        self.net.borrow_mut().mon.api_close();
        self.park_conn = None;
        match self.conn.as_mut().unwrap().poll_close(&mut cx) {
            Poll::Pending => {
                self.park_conn = Some(wake::woken(self.base + T_CONN));
                Poll::Pending
            }
            Poll::Ready(Ok(())) => Poll::Ready(Ok(())),
            Poll::Ready(Err(e)) => Poll::Ready(Err(kind(&e))),
        }
    }

    /// The connection has ended or is being closed.
    pub fn over(&self) -> bool {
        self.end != End::Pending || self.conn.is_none() || self.n().mon.closing
    }
    /// The connection has ended.
    pub fn finished(&self) -> bool {
        self.end != End::Pending || self.n().mon.closing
    }
    /// The connection does not accept everything now.
    pub fn stuck(&self) -> bool {
        !self.auto || self.n().wr != Wr::Accept
    }
    fn judge_read(&mut self, id: u32, n: u64, r: &Poll<Result<usize, io::ErrorKind>>) {
        if !self.n().mon.on(M_API) {
            return;
        }
        let m = self.ms(id);
        let over = self.over();
        if over && self.no_read_after_close {
            check(matches!(r, Poll::Ready(Ok(0))), "after the connection's end a read gives the end of the stream");
            return;
        }
        if n == 0 {
            check(!matches!(r, Poll::Ready(Err(_))), "an empty read does not fail");
            return;
        }
        let u = m.unread();
        if u > 0 {
            check(matches!(r, Poll::Ready(Ok(k)) if *k > 0), "received data can be read");
            if let Poll::Ready(Ok(k)) = r {
                check(*k as u64 <= n && *k as u64 <= u, "a read gives no more than was asked for and received");
            }
        } else if m.fin_in > 0 || m.rst_in > 0 || over {
            check(matches!(r, Poll::Ready(Ok(0))), "after the peer's end of the stream a read gives the end");
        } else {
            check(r.is_pending(), "a read of an open stream without data is pending");
        }
    }
    fn judge_write(&mut self, id: u32, n: u64, r: &Poll<Result<usize, io::ErrorKind>>) {
        if !self.n().mon.on(M_API) {
            return;
        }
        let m = self.ms(id);
        let stuck = self.stuck();
        if m.closed || m.rst_in > 0 || self.over() {
            check(
                matches!(r, Poll::Ready(Err(_))) || (stuck && r.is_pending()),
                "a write to a closed or reset stream fails",
            );
            return;
        }
        let a = m.avail();
        check(!matches!(r, Poll::Ready(Err(_))), "a write to an open stream does not fail");
        if let Poll::Ready(Ok(k)) = r {
            let k = *k as u64;
            check(k <= n && k <= a, "a write accepts no more than was given and than there is credit for");
            check(n == 0 || k > 0, "a write with credit accepts something");
        } else {
            check(a == 0 || stuck, "a write with credit is not pending");
        }
    }
    fn judge_close(&mut self, r: &Poll<Result<(), io::ErrorKind>>) {
        if !self.n().mon.on(M_API) {
            return;
        }
        let stuck = self.stuck();
        check(matches!(r, Poll::Ready(Ok(()))) || (stuck && r.is_pending()), "closing a stream succeeds");
    }
    /// Everything after the end of the connection.
    pub fn judge_finished(&mut self) {
        for i in 0..self.streams.len() {
            for (t, p) in [(self.tr(i), self.park_r[i]), (self.tw(i), self.park_w[i]), (self.tw(i), self.park_f[i])] {
                if let Some(n) = p {
                    check(wake::woken(t) > n, "a task waiting on a stream is woken when the connection ends");
                    witness(true, "a waiting task was woken by the end");
                }
            }
        }
        if let Some(n) = self.park_open {
            check(wake::woken(self.base + T_OPEN) > n, "a task waiting to open a stream is woken when the connection ends");
        }
        let before = {
            let n = self.n();
            (n.reads, n.writes, n.out.len())
        };
        let e = self.end;
        self.end = End::Pending;
        let r = self.poll();
        check(r.is_empty() && self.end == End::None, "a finished connection stays finished");
        self.end = e;
        check(self.open() == Poll::Ready(Err(ErrKind::Closed)), "a finished connection opens no streams");
        check(self.close() == Poll::Ready(Ok(())), "closing a finished connection succeeds");
        for i in 0..self.streams.len() {
            if !self.live(i) {
                continue;
            }
            let id = self.ids[i];
            let u = self.ms(id).unread();
            let (got, eof) = self.drain(i);
            check(eof, "after the connection's end every stream ends");
            check(got == if self.no_read_after_close { 0 } else { u }, "what was received before the connection's end can be read");
            witness(u > 0, "data read after the connection's end");
            let w = self.write_n(i, 1);
            check(matches!(w, Poll::Ready(Err(_))), "after the connection's end writes fail");
            check(self.flush(i).is_ready(), "after the connection's end a flush does not wait");
            check(matches!(self.close_stream(i), Poll::Ready(Ok(()))), "after the connection's end closing a stream succeeds");
            self.drop_stream(i);
        }
        let n = self.n();
        check(before == (n.reads, n.writes, n.out.len()), "a finished connection does not use its transport");
    }
    /// The state a stream shows.
    pub fn judge_state(&mut self, i: usize) {
        if !self.live(i) {
            return;
        }
        let id = self.id(i);
        let m = self.ms(id);
        let over = self.over();
        let s = self.streams[i].as_ref().unwrap();
        let (c, wc) = (s.is_closed(), s.is_write_closed());
        check(
            c == (m.rst_in > 0 || over || (m.closed && m.fin_in > 0)),
            "a stream is closed after a reset, the connection's end, or an end in both directions",
        );
        check((c || wc) == (m.closed || m.rst_in > 0 || over), "writing is closed exactly after a close, a reset or the connection's end");
    }

    // ---- streams -----------------------------------------------------------------------

    pub fn id(&self, i: usize) -> u32 {
        self.streams[i].as_ref().unwrap().id().val()
    }
    pub fn s(&mut self, i: usize) -> Pin<&mut Stream> {
        Pin::new(self.streams[i].as_mut().unwrap())
    }
    pub fn tr(&self, i: usize) -> usize {
        self.base + t_reader(i)
    }
    pub fn tw(&self, i: usize) -> usize {
        if self.split_tasks {
            self.base + t_writer(i)
        } else {
            self.base + t_reader(i)
        }
    }
    pub fn write(&mut self, i: usize, b: &[u8]) -> Poll<Result<usize, io::ErrorKind>> {
        let t = self.tw(i);
        let wk = wake::waker(t);
        let mut cx = Context::from_waker(&wk);
        let id = self.id(i);
        let r = self.s(i).poll_write(&mut cx, b).map_err(|e| e.kind());
        self.judge_write(id, b.len() as u64, &r);
        self.park_w[i] = r.is_pending().then(|| wake::woken(t));
        if let Poll::Ready(Ok(n)) = &r {
            self.n().mon.api_wrote(id, *n as u64, b.len() as u64);
        }
        r
    }
    /// Write `n` bytes whose content does not matter.
    pub fn write_n(&mut self, i: usize, n: u32) -> Poll<Result<usize, io::ErrorKind>> {
        let mut v = vsym::opaque_vec(n as usize);
        let id = self.ids[i];
        let p = self.n().probe_w.filter(|p| p.sid == id);
        if let Some(p) = p {
            let m = p.mark(n as u64);
            vsym::mark(&mut v, m.wrapping_sub(1), m != 0);
        }
        let r = self.write(i, &v);
        if let (Some(_), Poll::Ready(Ok(k))) = (p, &r) {
            self.n().probe_w.as_mut().unwrap().given += *k as u64;
        }
        r
    }
    pub fn read(&mut self, i: usize, b: &mut [u8]) -> Poll<Result<usize, io::ErrorKind>> {
        let t = self.tr(i);
        let wk = wake::waker(t);
        let mut cx = Context::from_waker(&wk);
        let id = self.id(i);
        let r = self.s(i).poll_read(&mut cx, b).map_err(|e| e.kind());
        self.judge_read(id, b.len() as u64, &r);
        self.park_r[i] = (r.is_pending() && !b.is_empty()).then(|| wake::woken(t));
        if let Poll::Ready(Ok(n)) = &r {
            self.n().mon.api_read(id, *n as u64);
        }
        r
    }
    pub fn read_n(&mut self, i: usize, n: u32) -> Poll<Result<usize, io::ErrorKind>> {
        let mut v = vsym::opaque_vec(n as usize);
        let r = self.read(i, &mut v);
        if let Poll::Ready(Ok(k)) = &r {
            let id = self.ids[i];
            if let Some(p) = &mut self.n().probe_r {
                p.look(id, &v[..*k]);
            }
        }
        r
    }
    /// Take the next chunk of received data.
    pub fn packet(&mut self, i: usize) -> Poll<Option<Result<Vec<u8>, io::ErrorKind>>> {
        let t = self.tr(i);
        let wk = wake::waker(t);
        let mut cx = Context::from_waker(&wk);
        let id = self.id(i);
        let r = futures::Stream::poll_next(self.s(i), &mut cx);
        self.park_r[i] = r.is_pending().then(|| wake::woken(t));
        if self.n().mon.on(M_API) {
            // (a read of as much as there is)
            let as_read = match &r {
                Poll::Pending => Poll::Pending,
                Poll::Ready(None) => Poll::Ready(Ok(0)),
                Poll::Ready(Some(Err(e))) => Poll::Ready(Err(e.kind())),
                Poll::Ready(Some(Ok(p))) => Poll::Ready(Ok(p.as_ref().len())),
            };
            check(
                !matches!(&r, Poll::Ready(Some(Ok(p))) if p.as_ref().is_empty()),
                "a chunk of received data is not empty",
            );
            self.judge_read(id, u64::MAX, &as_read);
        }
        match r {
            Poll::Pending => Poll::Pending,
            Poll::Ready(None) => Poll::Ready(None),
            Poll::Ready(Some(Err(e))) => Poll::Ready(Some(Err(e.kind()))),
            Poll::Ready(Some(Ok(p))) => {
                let b: &[u8] = p.as_ref();
                self.n().mon.api_read(id, b.len() as u64);
                if let Some(p) = &mut self.n().probe_r {
                    p.look(id, b);
                }
                Poll::Ready(Some(Ok(b.to_vec())))
            }
        }
    }
    pub fn flush(&mut self, i: usize) -> Poll<Result<(), io::ErrorKind>> {
        let t = self.tw(i);
        let wk = wake::waker(t);
        let mut cx = Context::from_waker(&wk);
        let r = self.s(i).poll_flush(&mut cx).map_err(|e| e.kind());
        self.park_f[i] = r.is_pending().then(|| wake::woken(t));
        witness(r.is_pending(), "a flush has to wait");
        r
    }
    pub fn close_stream(&mut self, i: usize) -> Poll<Result<(), io::ErrorKind>> {
        let wk = wake::waker(self.tw(i));
        let mut cx = Context::from_waker(&wk);
        let id = self.id(i);
        let r = self.s(i).poll_close(&mut cx).map_err(|e| e.kind());
        self.judge_close(&r);
        self.park_w[i] = None;
        if let Poll::Ready(Ok(())) = r {
            self.n().mon.api_closed(id);
        }
        r
    }
    pub fn drop_stream(&mut self, i: usize) {
        let id = self.id(i);
        self.n().mon.api_dropped(id);
        self.streams[i] = None;
        self.park_r[i] = None;
        self.park_w[i] = None;
        self.park_f[i] = None;
    }
    /// Frames sent so far that are not round-trip pings.
    pub fn sent(&self) -> Vec<Wire> {
        self.n().out.iter().filter(|w| !(w.tag == PING && w.has(SYN))).cloned().collect()
    }
}
