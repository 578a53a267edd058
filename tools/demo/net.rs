//! A scripted transport: the demonstration plays the remote, frame by frame.
#![allow(dead_code)]
use futures::{task::noop_waker, AsyncRead, AsyncWrite};
use std::cell::RefCell;
use std::collections::VecDeque;
use std::io;
use std::pin::Pin;
use std::rc::Rc;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Arc;
use std::task::{Context, Poll, Wake, Waker};
use yamux::{Config, Connection, Mode, Stream};

pub const DATA: u8 = 0;
pub const WINDOW: u8 = 1;
pub const PING: u8 = 2;
pub const GOAWAY: u8 = 3;
pub const SYN: u16 = 1;
pub const ACK: u16 = 2;
pub const FIN: u16 = 4;
pub const RST: u16 = 8;
pub const CREDIT: usize = 256 * 1024;

#[derive(Default)]
pub struct Net {
    pub inp: VecDeque<u8>,
    pub eof: bool,
    pub rd_err: bool,
    pub out: Vec<u8>,
    /// bytes the transport still takes; `None`: any number
    pub room: Option<usize>,
    /// at most this many bytes per write; 0: any number
    pub piece: usize,
    pub wr_err: bool,
    pub fl_err: bool,
    pub wr_zero: bool,
    pub flushes: usize,
    pub closes: usize,
    pub writes_after_close: usize,
    pub rd_waker: Option<Waker>,
    pub wr_waker: Option<Waker>,
}

#[derive(Clone, Default)]
pub struct Sock(pub Rc<RefCell<Net>>);

impl AsyncRead for Sock {
    fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut [u8]) -> Poll<io::Result<usize>> {
        let mut n = self.0.borrow_mut();
        if n.rd_err {
            return Poll::Ready(Err(io::ErrorKind::ConnectionReset.into()));
        }
        if n.inp.is_empty() {
            if n.eof {
                return Poll::Ready(Ok(0));
            }
            n.rd_waker = Some(cx.waker().clone());
            return Poll::Pending;
        }
        let k = buf.len().min(n.inp.len());
        for b in &mut buf[..k] {
            *b = n.inp.pop_front().unwrap();
        }
        Poll::Ready(Ok(k))
    }
}
impl AsyncWrite for Sock {
    fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &[u8]) -> Poll<io::Result<usize>> {
        let mut n = self.0.borrow_mut();
        if n.wr_err {
            return Poll::Ready(Err(io::ErrorKind::BrokenPipe.into()));
        }
        if n.wr_zero {
            return Poll::Ready(Ok(0));
        }
        if n.closes > 0 {
            n.writes_after_close += 1;
        }
        let mut k = buf.len();
        if n.piece > 0 {
            k = k.min(n.piece);
        }
        if let Some(r) = n.room {
            k = k.min(r);
            if k == 0 {
                n.wr_waker = Some(cx.waker().clone());
                return Poll::Pending;
            }
            n.room = Some(r - k);
        }
        n.out.extend_from_slice(&buf[..k]);
        Poll::Ready(Ok(k))
    }
    fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
        let mut n = self.0.borrow_mut();
        n.flushes += 1;
        if n.fl_err {
            return Poll::Ready(Err(io::ErrorKind::BrokenPipe.into()));
        }
        Poll::Ready(Ok(()))
    }
    fn poll_close(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
        self.0.borrow_mut().closes += 1;
        Poll::Ready(Ok(()))
    }
}

#[derive(Debug, Clone, PartialEq)]
pub struct Frame {
    pub tag: u8,
    pub flags: u16,
    pub sid: u32,
    pub len: u32,
    pub body: Vec<u8>,
}

pub fn head(tag: u8, flags: u16, sid: u32, len: u32) -> Vec<u8> {
    let mut v = vec![0, tag];
    v.extend(flags.to_be_bytes());
    v.extend(sid.to_be_bytes());
    v.extend(len.to_be_bytes());
    v
}

impl Sock {
    pub fn push(&self, bytes: &[u8]) {
        let w = {
            let mut n = self.0.borrow_mut();
            n.inp.extend(bytes);
            n.rd_waker.take()
        };
        if let Some(w) = w {
            w.wake()
        }
    }
    pub fn data(&self, flags: u16, sid: u32, body: &[u8]) {
        let mut v = head(DATA, flags, sid, body.len() as u32);
        v.extend(body);
        self.push(&v)
    }
    pub fn window(&self, flags: u16, sid: u32, credit: u32) {
        self.push(&head(WINDOW, flags, sid, credit))
    }
    pub fn ping(&self, flags: u16, value: u32) {
        self.push(&head(PING, flags, 0, value))
    }
    pub fn goaway(&self, code: u32) {
        self.push(&head(GOAWAY, 0, 0, code))
    }
    pub fn unblock(&self) {
        let w = {
            let mut n = self.0.borrow_mut();
            n.room = None;
            n.wr_waker.take()
        };
        if let Some(w) = w {
            w.wake()
        }
    }
    /// The frames written so far (removes them).
    pub fn frames(&self) -> Vec<Frame> {
        let b = std::mem::take(&mut self.0.borrow_mut().out);
        let mut r = vec![];
        let mut i = 0;
        while i + 12 <= b.len() {
            assert_eq!(b[i], 0, "version");
            let g = |a: usize| u32::from_be_bytes([b[i + a], b[i + a + 1], b[i + a + 2], b[i + a + 3]]);
            let mut f = Frame { tag: b[i + 1], flags: u16::from_be_bytes([b[i + 2], b[i + 3]]), sid: g(4), len: g(8), body: vec![] };
            i += 12;
            if f.tag == DATA {
                assert!(i + f.len as usize <= b.len(), "an incomplete frame was written");
                f.body = b[i..i + f.len as usize].to_vec();
                i += f.len as usize;
            }
            r.push(f);
        }
        assert_eq!(i, b.len(), "an incomplete frame was written");
        r
    }
    /// The same without pings and their answers.
    pub fn stream_frames(&self) -> Vec<Frame> {
        self.frames().into_iter().filter(|f| f.tag != PING).collect()
    }
}

/// A waker that counts.
pub struct Count(AtomicUsize);
impl Wake for Count {
    fn wake(self: Arc<Self>) {
        self.0.fetch_add(1, Ordering::SeqCst);
    }
}
pub fn counter() -> (Arc<Count>, Waker) {
    let c = Arc::new(Count(AtomicUsize::new(0)));
    (c.clone(), Waker::from(c))
}
impl Count {
    pub fn get(&self) -> usize {
        self.0.load(Ordering::SeqCst)
    }
}

pub struct End {
    pub net: Sock,
    pub conn: Connection<Sock>,
    pub new: Vec<Stream>,
    /// how the connection ended: `None` while it goes on, `Some(None)` in an orderly way
    pub ended: Option<Option<yamux::ConnectionError>>,
}
impl End {
    pub fn new(mode: Mode, cfg: Config) -> End {
        let net = Sock::default();
        End { conn: Connection::new(net.clone(), cfg, mode), net, new: vec![], ended: None }
    }
    /// With the first ping answered, so that no other is sent for ten seconds.
    pub fn started(mode: Mode, cfg: Config) -> End {
        let mut e = End::new(mode, cfg);
        e.poll();
        for f in e.net.frames() {
            if f.tag == PING {
                e.net.ping(ACK, f.len);
            }
        }
        e.poll();
        e
    }
    pub fn poll_with(&mut self, w: &Waker) {
        let mut cx = Context::from_waker(w);
        while self.ended.is_none() {
            match self.conn.poll_next_inbound(&mut cx) {
                Poll::Pending => return,
                Poll::Ready(Some(Ok(s))) => self.new.push(s),
                Poll::Ready(Some(Err(e))) => self.ended = Some(Some(e)),
                Poll::Ready(None) => self.ended = Some(None),
            }
        }
    }
    pub fn poll(&mut self) {
        self.poll_with(&noop_waker())
    }
    pub fn open(&mut self) -> Stream {
        match self.conn.poll_new_outbound(&mut Context::from_waker(&noop_waker())) {
            Poll::Ready(Ok(s)) => s,
            o => panic!("cannot open: {}", o.is_pending()),
        }
    }
    pub fn close(&mut self) -> Poll<Result<(), yamux::ConnectionError>> {
        self.conn.poll_close(&mut Context::from_waker(&noop_waker()))
    }
}

pub fn read(s: &mut Stream, n: usize) -> Poll<io::Result<Vec<u8>>> {
    read_with(s, n, &noop_waker())
}
pub fn read_with(s: &mut Stream, n: usize, w: &Waker) -> Poll<io::Result<Vec<u8>>> {
    let mut b = vec![0; n];
    match Pin::new(s).poll_read(&mut Context::from_waker(w), &mut b) {
        Poll::Ready(Ok(k)) => {
            b.truncate(k);
            Poll::Ready(Ok(b))
        }
        Poll::Ready(Err(e)) => Poll::Ready(Err(e)),
        Poll::Pending => Poll::Pending,
    }
}
pub fn write(s: &mut Stream, b: &[u8]) -> Poll<io::Result<usize>> {
    write_with(s, b, &noop_waker())
}
pub fn write_with(s: &mut Stream, b: &[u8], w: &Waker) -> Poll<io::Result<usize>> {
    Pin::new(s).poll_write(&mut Context::from_waker(w), b)
}
pub fn close(s: &mut Stream) -> Poll<io::Result<()>> {
    Pin::new(s).poll_close(&mut Context::from_waker(&noop_waker()))
}

/// A waker that calls `on_clone` and `on_wake`.
pub fn hooked(on_clone: impl Fn() + Send + Sync + 'static, on_wake: impl Fn() + Send + Sync + 'static) -> Waker {
    use std::task::{RawWaker, RawWakerVTable};
    type F = (Box<dyn Fn() + Send + Sync>, Box<dyn Fn() + Send + Sync>);
    unsafe fn copy(p: *const ()) -> RawWaker {
        Arc::increment_strong_count(p as *const F);
        RawWaker::new(p, &T)
    }
    unsafe fn clone(p: *const ()) -> RawWaker {
        ((*(p as *const F)).0)();
        copy(p)
    }
    unsafe fn wake(p: *const ()) {
        wake_by_ref(p);
        drop_(p)
    }
    unsafe fn wake_by_ref(p: *const ()) {
        ((*(p as *const F)).1)()
    }
    unsafe fn drop_(p: *const ()) {
        Arc::decrement_strong_count(p as *const F)
    }
    static T: RawWakerVTable = RawWakerVTable::new(clone, wake, wake_by_ref, drop_);
    let a: Arc<F> = Arc::new((Box::new(on_clone), Box::new(on_wake)));
    unsafe { Waker::from_raw(RawWaker::new(Arc::into_raw(a) as *const (), &T)) }
}

/// A thread that owns a connection and does with it what it is told.
#[derive(Clone)]
pub struct Thread(std::sync::mpsc::Sender<Box<dyn FnOnce(&mut End) + Send>>);
impl Thread {
    pub fn started(mode: Mode, cfg: Config) -> Thread {
        let (tx, rx) = std::sync::mpsc::channel::<Box<dyn FnOnce(&mut End) + Send>>();
        std::thread::spawn(move || {
            let mut e = End::started(mode, cfg);
            for f in rx {
                f(&mut e)
            }
        });
        Thread(tx)
    }
    pub fn start<R: Send + 'static>(&self, f: impl FnOnce(&mut End) -> R + Send + 'static) -> std::sync::mpsc::Receiver<R> {
        let (tx, rx) = std::sync::mpsc::channel();
        let _ = self.0.send(Box::new(move |e| {
            let _ = tx.send(f(e));
        }));
        rx
    }
    pub fn run<R: Send + 'static>(&self, f: impl FnOnce(&mut End) -> R + Send + 'static) -> R {
        self.start(f).recv().unwrap()
    }
}
