//! Deterministic transports and a wrapper around one real `yamux::Connection` and its streams. Every
//! byte and every API result goes through the reference model in `mon`.
use crate::ctx;
use crate::mon::*;
use crate::wire::pat;
use futures::{AsyncRead, AsyncWrite};
use std::cell::{Cell, RefCell};
use std::collections::VecDeque;
use std::io;
use std::pin::Pin;
use std::rc::Rc;
use std::sync::Arc;
use std::task::{Context, Poll, Waker};
use yamux::{Config, Connection, ConnectionError, Mode, Stream};

// ---------------------------------------------------------------------- pipes

/// One direction of a transport.
pub struct Pipe {
    q: VecDeque<u8>,
    /// bytes at the tail of `q` which the reader cannot see yet (waiting for a flush)
    staged: usize,
    pub cap: usize,
    /// written bytes are checked and discarded; `grant` bytes may still be written
    pub sink: bool,
    pub grant: u64,
    pub flush_mode: bool,
    pub flush_blocked: bool,
    pub closed: bool,
    /// the writer went away or closed
    pub eof: bool,
    pub read_err: bool,
    /// of injected errors, when not the usual one
    pub kind: Option<io::ErrorKind>,
    pub write_err: bool,
    /// writes are answered with 0 bytes
    pub write_zero: bool,
    /// the transport buffers that many written bytes itself until it is flushed
    pub wcap: usize,
    wbuf: VecDeque<u8>,
    /// fail once this many more bytes were moved
    pub read_fail_in: Option<u64>,
    pub write_fail_in: Option<u64>,
    pub write_zero_in: Option<u64>,
    pub flush_fail: bool,
    pub close_fail: bool,
    pub unflushed: usize,
    rwaker: Option<Waker>,
    wwaker: Option<Waker>,
    /// largest number of bytes moved by one call
    pub chunk: usize,
    pub devs: bool,
    pub total: u64,
    /// written bytes arrive at the next tick only
    pub delayed: bool,
    pub flight: usize,
}

pub type PipeRef = Rc<RefCell<Pipe>>;

impl Pipe {
    pub fn new(cap: usize) -> PipeRef {
        Rc::new(RefCell::new(Pipe {
            q: VecDeque::new(),
            staged: 0,
            cap,
            sink: false,
            grant: u64::MAX,
            flush_mode: false,
            flush_blocked: false,
            closed: false,
            eof: false,
            read_err: false,
            kind: None,
            write_err: false,
            write_zero: false,
            wcap: 0,
            wbuf: VecDeque::new(),
            read_fail_in: None,
            write_fail_in: None,
            write_zero_in: None,
            flush_fail: false,
            close_fail: false,
            unflushed: 0,
            rwaker: None,
            wwaker: None,
            chunk: usize::MAX,
            devs: false,
            total: 0,
            delayed: false,
            flight: 0,
        }))
    }
    pub fn readable(&self) -> usize {
        self.q.len() - self.staged - self.flight
    }
    /// What was written has arrived.
    pub fn land(&mut self) -> bool {
        let some = self.flight > 0;
        self.flight = 0;
        if some {
            self.wake_reader();
        }
        some
    }
    pub fn len(&self) -> usize {
        self.q.len()
    }
    pub fn wake_reader(&mut self) {
        if let Some(w) = self.rwaker.take() {
            w.wake()
        }
    }
    pub fn wake_writer(&mut self) {
        if let Some(w) = self.wwaker.take() {
            w.wake()
        }
    }
    pub fn push(&mut self, b: &[u8]) {
        self.q.extend(b);
        self.total += b.len() as u64;
        self.wake_reader();
    }
    pub fn set_eof(&mut self) {
        self.eof = true;
        self.wake_reader();
    }
    pub fn room(&self) -> usize {
        if self.sink {
            self.grant.min(usize::MAX as u64) as usize
        } else if self.wcap > 0 {
            // room in the transport's own buffer, or room to empty it into
            if self.wbuf.len() < self.wcap {
                self.wcap - self.wbuf.len()
            } else {
                self.cap.saturating_sub(self.q.len())
            }
        } else {
            self.cap.saturating_sub(self.q.len())
        }
    }
    /// The peer has to read before anything moves.
    pub fn stuck(&self) -> bool {
        if self.wcap > 0 {
            self.q.len() >= self.cap
        } else {
            self.room() == 0
        }
    }
    pub fn pump(&mut self) {
        if self.write_err {
            return;
        }
        let n = self.wbuf.len().min(self.cap.saturating_sub(self.q.len()));
        if n > 0 {
            self.q.extend(self.wbuf.drain(..n));
            self.wake_reader();
        }
        self.unflushed = self.wbuf.len();
    }
    pub fn buffered(&self) -> usize {
        self.wbuf.len()
    }
    pub fn open_for_write(&self) -> bool {
        self.room() > 0 && !self.flush_blocked
    }
    fn commit(&mut self) {
        if self.staged > 0 {
            self.staged = 0;
            self.wake_reader();
        }
        self.unflushed = 0;
    }
}

pub struct Io {
    pub mon: RefCell<Mon>,
    pub rx: PipeRef,
    pub tx: PipeRef,
    /// calls without progress since the last driver poll began
    idle_calls: Cell<u32>,
    /// an error was returned, or the transport was closed
    failed: Cell<bool>,
    eof_seen: Cell<bool>,
    pub sock_dropped: Cell<bool>,
}

impl Io {
    fn idle(&self) {
        let n = self.idle_calls.get() + 1;
        self.idle_calls.set(n);
        if n > 3000 {
            panic!("yamux-mc: endless loop: 3000 transport calls without progress in one poll");
        }
    }
    fn progress(&self) {
        self.idle_calls.set(0)
    }
    fn used(&self, what: &str) {
        if self.failed.get() {
            ctx::fail("transport.after-failure", &["C11"], || format!("{}: transport {what} after it had failed", self.mon.borrow().name));
        }
    }
}

pub struct Sock(pub Rc<Io>);

impl std::fmt::Debug for Sock {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("Sock")
    }
}

impl Drop for Sock {
    fn drop(&mut self) {
        self.0.sock_dropped.set(true);
        let mut t = self.0.tx.borrow_mut();
        if !t.closed {
            t.eof = true;
            t.staged = 0;
            t.wake_reader();
        }
        // nobody will read what the other side writes
        drop(t);
        let mut r = self.0.rx.borrow_mut();
        r.write_err = true;
        r.wake_writer();
    }
}

/// Formats what an application may print.
fn show(a: std::fmt::Arguments) {
    let _ = std::fmt::Write::write_fmt(&mut crate::Null, a);
}

fn err(k: io::ErrorKind) -> io::Error {
    io::Error::new(k, "injected")
}

impl AsyncRead for Sock {
    fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut [u8]) -> Poll<io::Result<usize>> {
        let _g = crate::alloc::pause();
        let io = &self.0;
        io.used("read");
        let mut rx = io.rx.borrow_mut();
        if rx.read_err || rx.read_fail_in == Some(0) {
            io.failed.set(true);
            io.mon.borrow_mut().on_io_error();
            return Poll::Ready(Err(err(rx.kind.unwrap_or(io::ErrorKind::ConnectionReset))));
        }
        let avail = rx.readable();
        if avail == 0 {
            if rx.eof && rx.flight == 0 {
                if io.eof_seen.replace(true) {
                    io.idle();
                }
                io.mon.borrow_mut().on_read_eof();
                return Poll::Ready(Ok(0));
            }
            io.idle();
            rx.rwaker = Some(cx.waker().clone());
            return Poll::Pending;
        }
        if buf.is_empty() {
            io.idle();
            return Poll::Ready(Ok(0));
        }
        let mut n = buf.len().min(avail).min(rx.chunk).min(rx.read_fail_in.unwrap_or(u64::MAX) as usize);
        if rx.devs {
            match ctx::dev(if n > 1 { 3 } else { 2 }) {
                0 => {}
                1 => {
                    io.idle();
                    cx.waker().wake_by_ref();
                    return Poll::Pending;
                }
                _ => n = 1,
            }
        }
        ctx::step();
        io.progress();
        let (a, b) = rx.q.as_slices();
        let k = n.min(a.len());
        buf[..k].copy_from_slice(&a[..k]);
        buf[k..n].copy_from_slice(&b[..n - k]);
        rx.q.drain(..n);
        rx.read_fail_in = rx.read_fail_in.map(|x| x - n as u64);
        rx.wake_writer();
        drop(rx);
        let able = io.tx.borrow().open_for_write();
        let mut m = io.mon.borrow_mut();
        let before = m.frames_in;
        m.on_consumed(&buf[..n]);
        if able {
            let k = m.frames_in - before;
            m.on_preferred_input(k);
        }
        drop(m);
        Poll::Ready(Ok(n))
    }
}

impl AsyncWrite for Sock {
    fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &[u8]) -> Poll<io::Result<usize>> {
        let _g = crate::alloc::pause();
        let io = &self.0;
        io.used("write");
        let mut tx = io.tx.borrow_mut();
        if tx.closed {
            ctx::fail("transport.after-close", &["C10"], || format!("{}: write after closing the transport", io.mon.borrow().name));
        }
        if tx.write_err || tx.write_fail_in == Some(0) {
            io.failed.set(true);
            io.mon.borrow_mut().on_io_error();
            return Poll::Ready(Err(err(tx.kind.unwrap_or(io::ErrorKind::BrokenPipe))));
        }
        if buf.is_empty() {
            io.idle();
            return Poll::Ready(Ok(0));
        }
        if tx.write_zero || tx.write_zero_in == Some(0) {
            io.failed.set(true);
            io.mon.borrow_mut().on_io_error();
            return Poll::Ready(Ok(0));
        }
        if tx.wcap > 0 && tx.wbuf.len() >= tx.wcap {
            tx.pump();
            if tx.wbuf.len() >= tx.wcap {
                io.idle();
                tx.wwaker = Some(cx.waker().clone());
                return Poll::Pending;
            }
        }
        if tx.room() == 0 && tx.staged > 0 {
            tx.commit();
        }
        let room = tx.room();
        if room == 0 {
            io.idle();
            tx.wwaker = Some(cx.waker().clone());
            return Poll::Pending;
        }
        let mut n = buf.len().min(room).min(tx.chunk).min(tx.write_fail_in.unwrap_or(u64::MAX) as usize).min(tx.write_zero_in.unwrap_or(u64::MAX) as usize);
        if tx.devs {
            match ctx::dev(if n > 1 { 3 } else { 2 }) {
                0 => {}
                1 => {
                    io.idle();
                    cx.waker().wake_by_ref();
                    return Poll::Pending;
                }
                _ => n = 1,
            }
        }
        ctx::step();
        io.progress();
        tx.total += n as u64;
        tx.unflushed += n;
        tx.write_fail_in = tx.write_fail_in.map(|x| x - n as u64);
        tx.write_zero_in = tx.write_zero_in.map(|x| x - n as u64);
        if tx.sink {
            if tx.grant != u64::MAX {
                tx.grant -= n as u64;
            }
        } else if tx.wcap > 0 {
            tx.wbuf.extend(&buf[..n]);
        } else {
            tx.q.extend(&buf[..n]);
            if tx.flush_mode {
                tx.staged += n;
            } else if tx.delayed {
                tx.flight += n;
            } else {
                tx.wake_reader();
            }
        }
        drop(tx);
        io.mon.borrow_mut().on_emitted(&buf[..n]);
        Poll::Ready(Ok(n))
    }

    fn poll_flush(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        let _g = crate::alloc::pause();
        let io = &self.0;
        io.used("flush");
        io.idle();
        let mut tx = io.tx.borrow_mut();
        if tx.flush_fail {
            io.failed.set(true);
            io.mon.borrow_mut().on_io_error();
            return Poll::Ready(Err(err(tx.kind.unwrap_or(io::ErrorKind::BrokenPipe))));
        }
        if tx.flush_blocked {
            tx.wwaker = Some(cx.waker().clone());
            return Poll::Pending;
        }
        if tx.devs && tx.unflushed > 0 && ctx::dev(2) == 1 {
            cx.waker().wake_by_ref();
            return Poll::Pending;
        }
        if tx.wcap > 0 {
            tx.pump();
            if !tx.wbuf.is_empty() {
                if tx.write_err {
                    io.failed.set(true);
                    io.mon.borrow_mut().on_io_error();
                    return Poll::Ready(Err(err(tx.kind.unwrap_or(io::ErrorKind::BrokenPipe))));
                }
                tx.wwaker = Some(cx.waker().clone());
                return Poll::Pending;
            }
        }
        tx.commit();
        Poll::Ready(Ok(()))
    }

    fn poll_close(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        let _g = crate::alloc::pause();
        let io = &self.0;
        io.used("close");
        io.idle();
        let mut tx = io.tx.borrow_mut();
        if tx.close_fail {
            io.failed.set(true);
            io.mon.borrow_mut().on_io_error();
            return Poll::Ready(Err(err(tx.kind.unwrap_or(io::ErrorKind::BrokenPipe))));
        }
        if tx.flush_blocked {
            tx.wwaker = Some(cx.waker().clone());
            return Poll::Pending;
        }
        if tx.devs && ctx::dev(2) == 1 {
            cx.waker().wake_by_ref();
            return Poll::Pending;
        }
        if tx.wcap > 0 {
            tx.pump();
            if !tx.wbuf.is_empty() {
                if tx.write_err {
                    io.failed.set(true);
                    io.mon.borrow_mut().on_io_error();
                    return Poll::Ready(Err(err(tx.kind.unwrap_or(io::ErrorKind::BrokenPipe))));
                }
                tx.wwaker = Some(cx.waker().clone());
                return Poll::Pending;
            }
        }
        tx.commit();
        tx.closed = true;
        tx.eof = true;
        tx.wake_reader();
        Poll::Ready(Ok(()))
    }
}

// ---------------------------------------------------------------------- configuration

#[derive(Clone, Debug)]
pub struct Cfg {
    pub client: bool,
    pub max_streams: usize,
    /// `None`: unlimited; `Some(extra)`: 256 KiB per stream plus `extra`
    pub slack: Option<usize>,
    pub default_limit: bool,
    pub rac: bool,
    pub split: usize,
    /// the limit and the configuration to use as it is
    pub fixed: Option<(Option<usize>, Config)>,
    /// the first id to open a stream with (needs the hook in yamux)
    pub first_id: Option<u32>,
    /// of injected errors
    pub kind: Option<io::ErrorKind>,
}

impl Default for Cfg {
    fn default() -> Self {
        Cfg { client: true, max_streams: 512, slack: None, default_limit: true, rac: true, split: 16 * 1024, fixed: None, first_id: None, kind: None }
    }
}

impl Cfg {
    pub fn client() -> Self {
        Self::default()
    }
    pub fn server() -> Self {
        Cfg { client: false, ..Self::default() }
    }
    pub fn limit(&self) -> Option<usize> {
        if let Some((l, _)) = &self.fixed {
            *l
        } else if self.default_limit {
            Some(1 << 30)
        } else {
            self.slack.map(|s| s + self.max_streams * 256 * 1024)
        }
    }
    pub fn build(&self) -> Config {
        if let Some((_, c)) = &self.fixed {
            return c.clone();
        }
        let mut c = Config::default();
        if self.max_streams <= 512 {
            c.set_max_num_streams(self.max_streams);
            c.set_max_connection_receive_window(self.limit());
        } else {
            c.set_max_connection_receive_window(self.limit());
            c.set_max_num_streams(self.max_streams);
        }
        c.set_read_after_close(self.rac);
        c.set_split_send_size(self.split);
        c
    }
}

// ---------------------------------------------------------------------- endpoint

pub enum Drive {
    Accepted(Option<usize>),
    Pending,
    End,
}

pub struct Ep {
    pub io: Rc<Io>,
    pub cfg: Cfg,
    conn: RefCell<Option<Connection<Sock>>>,
    pub streams: RefCell<Vec<Rc<RefCell<Option<Stream>>>>>,
    pub driver: RefCell<Arc<Flag>>,
    pub closing_api: Cell<bool>,
    /// once started, closing is driven by asking for inbound streams
    pub alt_close: Cell<bool>,
    /// driver results after the end
    pub done: Cell<bool>,
    pub mis: Cell<u32>,
}

thread_local! {
    static BUF: RefCell<Vec<u8>> = RefCell::new(vec![0; 300 * 1024]);
}

impl Ep {
    pub fn new(name: &'static str, side: u8, cfg: &Cfg, rx: PipeRef, tx: PipeRef) -> Rc<Ep> {
        let mon = Mon::new(name, side, cfg.client, cfg.max_streams, cfg.limit(), cfg.rac, cfg.split);
        let io = Rc::new(Io {
            mon: RefCell::new(mon),
            rx,
            tx,
            idle_calls: Cell::new(0),
            failed: Cell::new(false),
            eof_seen: Cell::new(false),
            sock_dropped: Cell::new(false),
        });
        #[allow(unused_mut)]
        let mut conn = Connection::new(Sock(io.clone()), cfg.build(), if cfg.client { Mode::Client } else { Mode::Server });
        #[cfg(yamux_verif)]
        if let Some(id) = cfg.first_id {
            conn.verif_set_next_id(id);
        }
        let f = Flag::new();
        waker(&f).wake_by_ref();
        Rc::new(Ep {
            io,
            cfg: cfg.clone(),
            conn: RefCell::new(Some(conn)),
            streams: RefCell::new(vec![]),
            driver: RefCell::new(f),
            closing_api: Cell::new(false),
            alt_close: Cell::new(false),
            done: Cell::new(false),
            mis: Cell::new(0),
        })
    }

    pub fn mon(&self) -> std::cell::RefMut<'_, Mon> {
        self.io.mon.borrow_mut()
    }

    pub fn has_conn(&self) -> bool {
        // borrowed: in use by its thread
        self.conn.try_borrow().map(|c| c.is_some()).unwrap_or(true)
    }

    /// Never drop what threads blocked for ever may still use.
    pub fn leak(&self) {
        if let Ok(mut c) = self.conn.try_borrow_mut() {
            std::mem::forget(c.take());
        }
        std::mem::forget(std::mem::take(&mut *self.streams.borrow_mut()));
    }

    fn put(&self, i: usize, s: Stream) {
        let mut v = self.streams.borrow_mut();
        while v.len() <= i {
            v.push(Rc::new(RefCell::new(None)));
        }
        *v[i].borrow_mut() = Some(s);
    }

    pub fn handle(&self, i: usize) -> Option<Rc<RefCell<Option<Stream>>>> {
        self.streams.borrow().get(i).cloned()
    }

    pub fn alive(&self, i: usize) -> bool {
        self.handle(i).map(|h| h.borrow().is_some()).unwrap_or(false)
    }

    /// One poll of the connection by its driver.
    pub fn poll_driver(&self, cx: &mut Context<'_>) -> Drive {
        ctx::step();
        self.io.progress();
        let mut c = self.conn.borrow_mut();
        let Some(conn) = c.as_mut() else { return Drive::End };
        if self.closing_api.get() {
            if self.alt_close.get() && self.mon().closing {
                return match conn.poll_next_inbound(cx) {
                    Poll::Pending => Drive::Pending,
                    Poll::Ready(Some(Ok(_))) => {
                        let n = self.mon().name;
                        ctx::fail("accept.after-end", &["C10", "C11"], || format!("{n} handed out a stream while closing"));
                        Drive::Accepted(None)
                    }
                    Poll::Ready(r) => {
                        let closed = self.io.tx.borrow().closed;
                        self.mon().on_close_done(r.is_none(), closed);
                        self.done.set(true);
                        Drive::End
                    }
                };
            }
            // closing starts with the first poll
            if !self.mon().closing {
                self.mon().on_close_started();
            }
            let _a = crate::alloc::watch();
            let r = conn.poll_close(cx);
            drop(_a);
            return match r {
                Poll::Pending => Drive::Pending,
                Poll::Ready(r) => {
                    let closed = self.io.tx.borrow().closed;
                    self.mon().on_close_done(r.is_ok(), closed);
                    self.done.set(true);
                    Drive::End
                }
            };
        }
        let a = crate::alloc::watch();
        let r = conn.poll_next_inbound(cx);
        drop(a);
        if crate::logging() {
            show(format_args!("{conn:?}"));
        }
        match r {
            Poll::Pending => {
                // asleep with room in the transport: there was nothing left to write
                if !self.driver.borrow().get() && self.io.tx.borrow().room() > 0 {
                    self.mon().on_drained();
                }
                Drive::Pending
            }
            Poll::Ready(Some(Ok(s))) => {
                let id = id_of(&s);
                let i = self.mon().on_accepted(id);
                match i {
                    Some(i) => {
                        self.put(i, s);
                        Drive::Accepted(Some(i))
                    }
                    None => {
                        self.mis.set(self.mis.get() + 1);
                        // Not explained by the model: the property at hand may be another one, so this
                        // execution cannot be followed any further.
                        drop(c);
                        drop(s);
                        ctx::prune();
                        Drive::Accepted(None)
                    }
                }
            }
            Poll::Ready(Some(Err(e))) => {
                if crate::logging() {
                    show(format_args!("{e:?} {:?}", std::error::Error::source(&e)));
                }
                self.mon().on_end(End::Error, &format!("{e}"));
                self.done.set(true);
                Drive::End
            }
            Poll::Ready(None) => {
                self.mon().on_end(End::Clean, "end of connection");
                self.done.set(true);
                Drive::End
            }
        }
    }

    /// After a refused open: whether the connection has ended.
    pub fn probe(&self, cx: &mut Context<'_>) -> bool {
        let mut c = self.conn.borrow_mut();
        let Some(conn) = c.as_mut() else { return false };
        match conn.poll_next_inbound(cx) {
            Poll::Ready(None) | Poll::Ready(Some(Err(_))) => {
                self.mon().on_end(End::Clean, "after a refused open");
                self.done.set(true);
                true
            }
            _ => false,
        }
    }

    pub fn poll_open(&self, cx: &mut Context<'_>, f: &Arc<Flag>) -> Poll<Result<usize, ConnectionError>> {
        ctx::step();
        self.io.progress();
        let mut c = self.conn.borrow_mut();
        let Some(conn) = c.as_mut() else { return Poll::Ready(Err(ConnectionError::Closed)) };
        let r = conn.poll_new_outbound(cx);
        match r {
            Poll::Pending => {
                self.mon().on_open_pending(f);
                Poll::Pending
            }
            Poll::Ready(Ok(s)) => {
                let id = id_of(&s);
                let i = self.mon().on_opened(id);
                self.put(i, s);
                ctx::note(|| format!("{} open -> {}", self.mon().name, id));
                Poll::Ready(Ok(i))
            }
            Poll::Ready(Err(e)) => {
                ctx::note(|| format!("{} open -> error {e}", self.mon().name));
                self.mon().on_open_failed(&e);
                Poll::Ready(Err(e))
            }
        }
    }

    pub fn start_close(&self) {
        ctx::note(|| format!("{} close connection", self.mon().name));
        self.closing_api.set(true);
        waker(&self.driver.borrow()).wake_by_ref();
    }

    pub fn drop_conn(&self) {
        ctx::note(|| format!("{} drop connection", self.mon().name));
        let c = self.conn.borrow_mut().take();
        {
            let mut m = self.mon();
            m.dropped = true;
            m.opener = None;
        }
        self.done.set(true);
        drop(c);
    }

    // ------------------------------------------------------------ streams

    /// `Ok(Some(n))`, `Ok(None)` = pending.
    pub fn read(&self, i: usize, want: usize, cx: &mut Context<'_>, f: &Arc<Flag>) -> Poll<Result<usize, ()>> {
        let Some(h) = self.handle(i) else { return Poll::Ready(Err(())) };
        let mut h = h.borrow_mut();
        let Some(s) = h.as_mut() else { return Poll::Ready(Err(())) };
        ctx::step();
        self.mon().on_read_begin(i);
        let mut buf = BUF.with(|b| std::mem::take(&mut *b.borrow_mut()));
        if buf.len() < want {
            buf.resize(want, 0);
        }
        let r = Pin::new(s).poll_read(cx, &mut buf[..want]);
        ctx::note(|| format!("{} read({i}, {want}) -> {r:?}", self.mon().name));
        let ret = match &r {
            Poll::Ready(Ok(n)) => {
                self.mon().on_read(i, want, Ok(Some(&buf[..*n])), None);
                Poll::Ready(Ok(*n))
            }
            Poll::Pending => {
                self.mon().on_read(i, want, Ok(None), Some(f));
                Poll::Pending
            }
            Poll::Ready(Err(e)) => {
                self.mon().on_read(i, want, Err(e.to_string()), None);
                Poll::Ready(Err(()))
            }
        };
        BUF.with(|b| *b.borrow_mut() = buf);
        ret
    }

    pub fn read_packet(&self, i: usize, cx: &mut Context<'_>, f: &Arc<Flag>) -> Poll<Result<usize, ()>> {
        let Some(h) = self.handle(i) else { return Poll::Ready(Err(())) };
        let mut h = h.borrow_mut();
        let Some(s) = h.as_mut() else { return Poll::Ready(Err(())) };
        ctx::step();
        self.mon().on_read_begin(i);
        let r = futures::Stream::poll_next(Pin::new(s), cx);
        ctx::note(|| {
            format!(
                "{} packet({i}) -> {}",
                self.mon().name,
                match &r {
                    Poll::Pending => "pending".into(),
                    Poll::Ready(None) => "end".into(),
                    Poll::Ready(Some(Ok(p))) => format!("{} bytes", p.as_ref().len()),
                    Poll::Ready(Some(Err(e))) => format!("error {e}"),
                }
            )
        });
        match r {
            Poll::Ready(Some(Ok(p))) => {
                let b = p.as_ref();
                if b.is_empty() {
                    // an empty frame is an empty packet, not the end
                    ctx::outcome(0xE4);
                    self.mon().s[i].reader = None;
                    return Poll::Ready(Ok(usize::MAX));
                }
                self.mon().on_read(i, usize::MAX, Ok(Some(b)), None);
                Poll::Ready(Ok(b.len()))
            }
            Poll::Ready(None) => {
                self.mon().on_read(i, usize::MAX, Ok(Some(&[])), None);
                Poll::Ready(Ok(0))
            }
            Poll::Pending => {
                self.mon().on_read(i, usize::MAX, Ok(None), Some(f));
                Poll::Pending
            }
            Poll::Ready(Some(Err(e))) => {
                self.mon().on_read(i, usize::MAX, Err(e.to_string()), None);
                Poll::Ready(Err(()))
            }
        }
    }

    pub fn write(&self, i: usize, len: usize, cx: &mut Context<'_>, f: &Arc<Flag>) -> Poll<Result<usize, ()>> {
        let Some(h) = self.handle(i) else { return Poll::Ready(Err(())) };
        let mut h = h.borrow_mut();
        let Some(s) = h.as_mut() else { return Poll::Ready(Err(())) };
        ctx::step();
        let b = {
            let mut m = self.mon();
            m.on_write_begin(i, len);
            pat(m.side, m.s[i].id, m.s[i].written, len)
        };
        let r = Pin::new(s).poll_write(cx, b);
        ctx::note(|| format!("{} write({i}, {len}) -> {r:?}", self.mon().name));
        match r {
            Poll::Ready(Ok(n)) => {
                self.mon().on_write(i, len, Ok(Some(n)), None);
                Poll::Ready(Ok(n))
            }
            Poll::Pending => {
                self.mon().on_write(i, len, Ok(None), Some(f));
                Poll::Pending
            }
            Poll::Ready(Err(e)) => {
                self.mon().on_write(i, len, Err(e.to_string()), None);
                Poll::Ready(Err(()))
            }
        }
    }

    pub fn flush(&self, i: usize, cx: &mut Context<'_>, f: &Arc<Flag>) -> Poll<Result<(), ()>> {
        let Some(h) = self.handle(i) else { return Poll::Ready(Err(())) };
        let mut h = h.borrow_mut();
        let Some(s) = h.as_mut() else { return Poll::Ready(Err(())) };
        ctx::step();
        let r = Pin::new(s).poll_flush(cx);
        ctx::note(|| format!("{} flush({i}) -> {r:?}", self.mon().name));
        self.mon().on_flush(i, &r, f);
        r.map(|r| r.map_err(|_| ()))
    }

    pub fn close(&self, i: usize, cx: &mut Context<'_>, f: &Arc<Flag>) -> Poll<Result<(), ()>> {
        let Some(h) = self.handle(i) else { return Poll::Ready(Err(())) };
        let mut h = h.borrow_mut();
        let Some(s) = h.as_mut() else { return Poll::Ready(Err(())) };
        ctx::step();
        self.mon().on_close_begin(i);
        let r = Pin::new(s).poll_close(cx);
        ctx::note(|| format!("{} close({i}) -> {r:?}", self.mon().name));
        match r {
            Poll::Ready(Ok(())) => {
                self.mon().on_close(i, Ok(true), None);
                Poll::Ready(Ok(()))
            }
            Poll::Pending => {
                self.mon().on_close(i, Ok(false), Some(f));
                Poll::Pending
            }
            Poll::Ready(Err(e)) => {
                self.mon().on_close(i, Err(e.to_string()), None);
                Poll::Ready(Err(()))
            }
        }
    }

    pub fn drop_stream(&self, i: usize) {
        let Some(h) = self.handle(i) else { return };
        ctx::step();
        let s = h.borrow_mut().take();
        if s.is_some() {
            ctx::note(|| format!("{} drop stream {i}", self.mon().name));
            self.mon().on_drop(i);
        }
        drop(s);
    }

    pub fn query(&self, i: usize) {
        let Some(h) = self.handle(i) else { return };
        let h = h.borrow();
        let Some(s) = h.as_ref() else { return };
        let (id, c, w, p) = (id_of(s), s.is_closed(), s.is_write_closed(), s.is_pending_ack());
        self.mon().on_query(i, id, c, w, p);
        if crate::logging() {
            show(format_args!("{s} {s:?}"));
        }
    }

    /// Every part is dropped on its own, so that a panic in one does not hide the others.
    pub fn teardown(&self) {
        let c = self.conn.try_borrow_mut().ok().and_then(|mut c| c.take());
        drop(c);
        let v = std::mem::take(&mut *self.streams.borrow_mut());
        for s in v {
            let s = s.borrow_mut().take();
            drop(s);
        }
    }

    /// Poll the driver while it is woken.
    pub fn run(&self) {
        let mut n = 0;
        while !ctx::over() && !self.done.get() && self.has_conn() {
            if !self.driver.borrow().get() {
                break;
            }
            n += 1;
            if n > 200_000 {
                panic!("yamux-mc: endless loop: the driver was woken 200000 times in a row");
            }
            self.poll_once();
        }
    }

    /// One driver poll with a fresh waker.
    pub fn poll_once(&self) -> bool {
        let f = Flag::new();
        *self.driver.borrow_mut() = f.clone();
        let w = waker(&f);
        let r = self.poll_driver(&mut Context::from_waker(&w));
        match r {
            Drive::Accepted(_) => {
                waker(&f).wake_by_ref();
                true
            }
            Drive::Pending => false,
            Drive::End => true,
        }
    }

    pub fn activity(&self) -> u64 {
        let m = self.io.mon.borrow();
        m.in_bytes + m.out_bytes
    }

    /// At quiescence a poll nobody asked for must not achieve anything.
    pub fn kick(&self) {
        {
            let t = self.io.tx.borrow();
            if t.flush_fail || t.write_err || t.write_zero || t.close_fail {
                return; // nobody announces these
            }
        }
        if self.done.get() || !self.has_conn() || ctx::over() {
            return;
        }
        let (a, pings) = {
            let m = self.io.mon.borrow();
            (m.in_bytes + m.out_bytes, m.pings_sent.len() as u64 + m.pout.partial() as u64)
        };
        let unfl = self.io.tx.borrow().unflushed;
        let r = self.poll_once();
        let (b, pings2) = {
            let m = self.io.mon.borrow();
            (m.in_bytes + m.out_bytes, m.pings_sent.len() as u64 + m.pout.partial() as u64)
        };
        let unfl2 = self.io.tx.borrow().unflushed;
        if r || (b != a && pings == pings2) || unfl2 < unfl {
            ctx::fail("wake.driver", &["C07", "C06"], || {
                format!("{}: the connection task was asleep, yet polling it made progress ({} bytes moved, ready {r})", self.mon().name, b - a)
            });
        }
        self.run();
    }
}

pub fn id_of(s: &Stream) -> u32 {
    s.id().val()
}
