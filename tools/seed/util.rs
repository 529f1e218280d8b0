#![allow(dead_code)]
//! An in-memory transport whose other side is a script of raw bytes.
use futures::prelude::*;
use std::collections::VecDeque;
use std::io;
use std::pin::Pin;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Wake, Waker};
use yamux::{Config, Connection, Mode, Stream};

pub const DATA: u8 = 0;
pub const WINDOW: u8 = 1;
pub const PING: u8 = 2;
pub const GOAWAY: u8 = 3;
pub const SYN: u16 = 1;
pub const ACK: u16 = 2;
pub const FIN: u16 = 4;
pub const RST: u16 = 8;

pub struct Inner {
    pub rx: VecDeque<u8>,
    pub eof: bool,
    pub read_err: bool,
    pub tx: Vec<u8>,
    pub room: usize,
    pub flush_blocked: bool,
    pub flushed: usize,
    pub closed: bool,
    rw: Option<Waker>,
    ww: Option<Waker>,
}

#[derive(Clone)]
pub struct Net(pub Arc<Mutex<Inner>>);

impl Net {
    pub fn new() -> Net {
        Net(Arc::new(Mutex::new(Inner { rx: VecDeque::new(), eof: false, read_err: false, tx: vec![], room: usize::MAX, flush_blocked: false, flushed: 0, closed: false, rw: None, ww: None })))
    }
    pub fn send(&self, ty: u8, flags: u16, id: u32, len: u32, body: &[u8]) {
        let mut i = self.0.lock().unwrap();
        i.rx.push_back(0);
        i.rx.push_back(ty);
        i.rx.extend(flags.to_be_bytes());
        i.rx.extend(id.to_be_bytes());
        i.rx.extend(len.to_be_bytes());
        i.rx.extend(body);
        if let Some(w) = i.rw.take() {
            w.wake()
        }
    }
    pub fn data(&self, flags: u16, id: u32, body: &[u8]) {
        self.send(DATA, flags, id, body.len() as u32, body)
    }
    pub fn raw(&self, b: &[u8]) {
        let mut i = self.0.lock().unwrap();
        i.rx.extend(b);
        if let Some(w) = i.rw.take() {
            w.wake()
        }
    }
    pub fn eof(&self) {
        let mut i = self.0.lock().unwrap();
        i.eof = true;
        if let Some(w) = i.rw.take() {
            w.wake()
        }
    }
    pub fn room(&self, n: usize) {
        let mut i = self.0.lock().unwrap();
        i.room = n;
        if let Some(w) = i.ww.take() {
            w.wake()
        }
    }
    pub fn flush_blocked(&self, b: bool) {
        let mut i = self.0.lock().unwrap();
        i.flush_blocked = b;
        if let Some(w) = i.ww.take() {
            w.wake()
        }
    }
    /// Everything emitted so far.
    pub fn frames(&self) -> Vec<Fr> {
        let i = self.0.lock().unwrap();
        let mut v = vec![];
        let mut b = &i.tx[..];
        while b.len() >= 12 {
            let (ty, flags) = (b[1], u16::from_be_bytes([b[2], b[3]]));
            let id = u32::from_be_bytes([b[4], b[5], b[6], b[7]]);
            let len = u32::from_be_bytes([b[8], b[9], b[10], b[11]]);
            let n = if ty == DATA { len as usize } else { 0 };
            if b.len() < 12 + n {
                break;
            }
            v.push(Fr { ty, flags, id, len, body: b[12..12 + n].to_vec() });
            b = &b[12 + n..];
        }
        v
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct Fr {
    pub ty: u8,
    pub flags: u16,
    pub id: u32,
    pub len: u32,
    pub body: Vec<u8>,
}

impl AsyncRead for Net {
    fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut [u8]) -> Poll<io::Result<usize>> {
        let mut i = self.0.lock().unwrap();
        if i.rx.is_empty() {
            if i.read_err {
                return Poll::Ready(Err(io::ErrorKind::ConnectionReset.into()));
            }
            if i.eof {
                return Poll::Ready(Ok(0));
            }
            i.rw = Some(cx.waker().clone());
            return Poll::Pending;
        }
        let n = buf.len().min(i.rx.len());
        for (k, b) in i.rx.drain(..n).enumerate() {
            buf[k] = b;
        }
        Poll::Ready(Ok(n))
    }
}

impl AsyncWrite for Net {
    fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &[u8]) -> Poll<io::Result<usize>> {
        let mut i = self.0.lock().unwrap();
        if i.room == 0 {
            i.ww = Some(cx.waker().clone());
            return Poll::Pending;
        }
        let n = buf.len().min(i.room);
        if i.room != usize::MAX {
            i.room -= n;
        }
        i.tx.extend_from_slice(&buf[..n]);
        Poll::Ready(Ok(n))
    }
    fn poll_flush(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        let mut i = self.0.lock().unwrap();
        if i.flush_blocked {
            i.ww = Some(cx.waker().clone());
            return Poll::Pending;
        }
        i.flushed = i.tx.len();
        Poll::Ready(Ok(()))
    }
    fn poll_close(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
        let mut i = self.0.lock().unwrap();
        i.flushed = i.tx.len();
        i.closed = true;
        Poll::Ready(Ok(()))
    }
}

#[derive(Default)]
pub struct Count(AtomicUsize);
impl Wake for Count {
    fn wake(self: Arc<Self>) {
        self.0.fetch_add(1, Ordering::SeqCst);
    }
}
impl Count {
    pub fn new() -> Arc<Count> {
        Arc::new(Count::default())
    }
    pub fn get(&self) -> usize {
        self.0.load(Ordering::SeqCst)
    }
    pub fn waker(self: &Arc<Self>) -> Waker {
        Waker::from(self.clone())
    }
}

pub fn cx<R>(f: impl FnOnce(&mut Context<'_>) -> R) -> R {
    let w = Count::new().waker();
    f(&mut Context::from_waker(&w))
}

pub type Conn = Connection<Net>;

pub fn client(net: &Net, cfg: Config) -> Conn {
    Connection::new(net.clone(), cfg, Mode::Client)
}
pub fn server(net: &Net, cfg: Config) -> Conn {
    Connection::new(net.clone(), cfg, Mode::Server)
}

/// What driving the connection until it sleeps led to.
#[derive(Debug)]
pub enum End {
    Alive,
    Clean,
    Error(String),
}

pub fn drive(c: &mut Conn) -> (Vec<Stream>, End) {
    let mut v = vec![];
    loop {
        match cx(|cx| c.poll_next_inbound(cx)) {
            Poll::Pending => return (v, End::Alive),
            Poll::Ready(None) => return (v, End::Clean),
            Poll::Ready(Some(Err(e))) => return (v, End::Error(e.to_string())),
            Poll::Ready(Some(Ok(s))) => v.push(s),
        }
    }
}

pub fn open(c: &mut Conn) -> Stream {
    match cx(|cx| c.poll_new_outbound(cx)) {
        Poll::Ready(Ok(s)) => s,
        x => panic!("open: {x:?}"),
    }
}

pub fn write(s: &mut Stream, b: &[u8]) -> Poll<io::Result<usize>> {
    cx(|cx| Pin::new(s).poll_write(cx, b))
}
pub fn read(s: &mut Stream, n: usize) -> Poll<io::Result<Vec<u8>>> {
    let mut v = vec![0; n];
    cx(|cx| Pin::new(s).poll_read(cx, &mut v)).map(|r| r.map(|n| {
        v.truncate(n);
        v
    }))
}
pub fn close(s: &mut Stream) -> Poll<io::Result<()>> {
    cx(|cx| Pin::new(s).poll_close(cx))
}

pub fn check(ok: bool, what: &str) {
    if !ok {
        println!("FAILED: {what}");
        std::process::exit(1);
    }
}

/// A logger running a hook on every message.
pub struct Hook(pub fn(&str));
impl log::Log for Hook {
    fn enabled(&self, _: &log::Metadata) -> bool {
        true
    }
    fn log(&self, r: &log::Record) {
        (self.0)(&r.args().to_string())
    }
    fn flush(&self) {}
}
