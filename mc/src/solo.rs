//! Environment A: one real connection against a scripted remote. All operation scripts up to a depth
//! are enumerated; after every operation the connection is driven (only when woken) until it sleeps
//! and the reference model checks what must then be true.
use crate::ctx::{self, H};
use crate::env::*;
use crate::explore::{Kind, Scenario};
use crate::mon::*;
use crate::wire::*;
use std::rc::Rc;
use std::sync::Arc;
use std::task::{Context, Poll};

#[derive(Copy, Clone, Debug, PartialEq)]
pub enum Len {
    Abs(u32),
    /// what is left of the credit granted to the remote, plus this
    Credit(i64),
    /// 2^32-1 minus our send credit, plus this (window updates)
    Max(i64),
}

#[derive(Copy, Clone, Debug, PartialEq)]
pub enum Id {
    /// the k-th stream of this run
    S(usize),
    N(u32),
    /// an id the remote has not used yet
    Fresh,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Op {
    Open,
    /// open and write without the connection being driven in between
    OpenWrite(usize),
    OpenClose,
    OpenDrop,
    Read(usize, usize),
    /// read until nothing is left
    Drain(usize),
    Packet(usize),
    Write(usize, usize),
    /// write until the stream refuses
    Fill(usize, usize),
    Flush(usize),
    Close(usize),
    Drop(usize),
    CloseDrop(usize),
    /// write, then drop, without driving in between
    WriteDrop(usize, usize),
    WriteClose(usize, usize),
    CloseConn,
    /// as `CloseConn`, driven to its end by `poll_next_inbound`
    CloseConnAlt,
    DropConn,
    Drive,
    Advance(u64),
    Block,
    Unblock,
    Grant(u64),
    FlushBlock,
    FlushUnblock,
    Data(Id, u16, Len),
    Wu(Id, u16, Len),
    /// an acknowledgement for the k-th oldest unacknowledged stream
    AckOldest,
    Ping(u32),
    PingFlags(u16, u32, u32),
    Pong,
    PongBad,
    GoAway(u32),
    RawF(Hdr, u32),
    /// the first bytes of a frame only
    Partial(Hdr, u32, usize),
    Rest,
    Eof,
    ReadErr,
    WriteErr,
    FlushErr,
    /// the transport takes 0 bytes
    WriteZero,
    CloseErr,
    /// fails after that many more bytes
    ReadErrIn(u64),
    WriteErrIn(u64),
    /// after that many more bytes, writes are answered with 0
    WriteZeroIn(u64),
    /// wait for all open operations to be retried
    Reopen,
    Multi(&'static [Op]),
    Nop,
}

#[derive(Copy, Clone, PartialEq, Debug)]
pub enum Epilogue {
    /// unblock, let everything finish, read everything, check
    Drain,
    /// as `Drain`, then the remote ends the connection
    DrainEof,
    /// unblock, then the remote ends the connection with everything still buffered
    Eof,
    CloseConn,
    DropConn,
    None,
}

#[derive(Clone)]
pub struct Solo {
    pub name: String,
    pub cfg: Cfg,
    pub prelude: Vec<Op>,
    /// done after the prelude without driving the connection (threads only)
    pub last: Option<Op>,
    pub ops: Vec<Op>,
    /// alphabet of the first operation, when it differs
    pub first: Vec<Op>,
    pub depth: usize,
    pub max_dev: u32,
    pub graph: Option<usize>,
    /// the connection is driven after each operation; otherwise only by `Op::Drive`
    pub auto: bool,
    pub devs: bool,
    pub chunk: usize,
    pub flush_mode: bool,
    pub exact_growth: bool,
    pub epi: Epilogue,
    pub max_slots: usize,
    pub hash_extra: bool,
}

impl Solo {
    pub fn new(name: &str, cfg: Cfg, ops: &[Op], depth: usize) -> Solo {
        Solo {
            name: name.into(),
            cfg,
            prelude: vec![],
            last: None,
            ops: ops.to_vec(),
            first: vec![],
            depth,
            max_dev: 0,
            graph: None,
            auto: true,
            devs: false,
            chunk: usize::MAX,
            flush_mode: false,
            exact_growth: false,
            epi: Epilogue::Drain,
            max_slots: 4,
            hash_extra: false,
        }
    }
    pub fn prelude(mut self, p: &[Op]) -> Self {
        self.prelude = p.to_vec();
        self
    }
    pub fn first(mut self, o: Vec<Op>) -> Self {
        self.first = o;
        self
    }
    pub fn devs(mut self, n: u32) -> Self {
        self.devs = n > 0;
        self.max_dev = n;
        self
    }
    pub fn chunk(mut self, n: usize) -> Self {
        self.chunk = n;
        self
    }
    pub fn flushy(mut self) -> Self {
        self.flush_mode = true;
        self
    }
    pub fn manual(mut self) -> Self {
        self.auto = false;
        self
    }
    pub fn exact(mut self) -> Self {
        self.exact_growth = true;
        self
    }
    pub fn epi(mut self, e: Epilogue) -> Self {
        self.epi = e;
        self
    }
    pub fn slots(mut self, n: usize) -> Self {
        self.max_slots = n;
        self
    }
    pub fn graph(mut self, depth: usize) -> Self {
        self.graph = Some(depth);
        self
    }
    pub fn scenario(self) -> Scenario {
        let kind = match self.graph {
            Some(depth) => Kind::Graph { depth },
            None => Kind::Dfs { max_dev: self.max_dev, depth: self.depth },
        };
        let name = self.name.clone();
        Scenario { name, body: Arc::new(move || run(&self)), kind, weight: 1.0 }
    }
}

pub struct World {
    pub ep: Rc<Ep>,
    opener: Arc<Flag>,
    opening: bool,
    fresh: u32,
    rest: Vec<u8>,
    eof: bool,
    flags: Vec<Arc<Flag>>,
    max_slots: usize,
}

fn cxf<R>(f: impl FnOnce(&mut Context<'_>, &Arc<Flag>) -> R) -> R {
    let fl = Flag::new();
    let w = waker(&fl);
    f(&mut Context::from_waker(&w), &fl)
}

impl World {
    pub fn new(sc: &Solo) -> World {
        let rx = Pipe::new(usize::MAX);
        let tx = Pipe::new(usize::MAX);
        {
            let mut r = rx.borrow_mut();
            r.devs = sc.devs;
            r.chunk = sc.chunk;
            r.kind = sc.cfg.kind;
            let mut t = tx.borrow_mut();
            t.sink = true;
            t.devs = sc.devs;
            t.chunk = sc.chunk;
            t.kind = sc.cfg.kind;
            t.flush_mode = sc.flush_mode;
        }
        let ep = Ep::new("A", 0, &sc.cfg, rx, tx);
        {
            let mut m = ep.mon();
            m.strict = true;
            m.exact_growth = sc.exact_growth;
        }
        World { ep, opener: Flag::new(), opening: false, fresh: if sc.cfg.client { 2 } else { 1 }, rest: vec![], eof: false, flags: vec![], max_slots: sc.max_slots }
    }

    fn slot_of(&self, id: Id) -> Option<usize> {
        match id {
            // the current user of that id
            Id::S(k) => {
                let m = self.ep.io.mon.borrow();
                m.s.get(k).and_then(|s| m.cur.get(&s.id).copied())
            }
            Id::N(x) => self.ep.io.mon.borrow().cur.get(&x).copied(),
            Id::Fresh => None,
        }
    }

    fn id(&self, id: Id) -> u32 {
        match id {
            Id::S(k) => self.ep.io.mon.borrow().s[k].id,
            Id::N(x) => x,
            Id::Fresh => self.fresh,
        }
    }

    pub fn enabled(&self, op: &Op) -> bool {
        let m = self.ep.io.mon.borrow();
        let alive = |k: usize| self.ep.alive(k);
        let seen = |id: &Id| match id {
            Id::S(k) => *k < m.s.len() && (!m.s[*k].out || m.s[*k].out_frames > 0),
            Id::Fresh => m.s.len() < self.max_slots,
            Id::N(_) => true,
        };
        let conn = self.ep.has_conn() && !self.ep.closing_api.get();
        let up = self.ep.has_conn();
        let rx = up && !self.eof && !self.ep.done.get();
        match op {
            Op::Open | Op::OpenWrite(_) | Op::OpenClose | Op::OpenDrop => up && m.s.len() < self.max_slots && !self.opening,
            Op::Reopen => self.opening && up,
            Op::Read(k, _) | Op::Drain(k) | Op::Packet(k) | Op::Write(k, _) | Op::Fill(k, _) | Op::Flush(k) | Op::Drop(k) | Op::CloseDrop(k) | Op::WriteDrop(k, _) => alive(*k),
            Op::Close(k) | Op::WriteClose(k, _) => alive(*k),
            Op::CloseConn | Op::CloseConnAlt => conn,
            Op::DropConn => up,
            Op::Drive => up && self.ep.driver.borrow().get(),
            Op::Advance(_) | Op::Nop | Op::Multi(_) => true,
            Op::Block => self.ep.io.tx.borrow().grant > 0,
            Op::Unblock => self.ep.io.tx.borrow().grant != u64::MAX,
            Op::Grant(_) => self.ep.io.tx.borrow().grant < 1 << 40,
            Op::FlushBlock => !self.ep.io.tx.borrow().flush_blocked,
            Op::FlushUnblock => self.ep.io.tx.borrow().flush_blocked,
            Op::Data(id, _, _) | Op::Wu(id, _, _) => rx && self.rest.is_empty() && seen(id),
            Op::AckOldest => rx && m.s.iter().any(|s| s.out && !s.ack_in && s.out_frames > 0),
            Op::Ping(_) | Op::PingFlags(..) | Op::GoAway(_) | Op::RawF(..) | Op::Partial(..) => rx && self.rest.is_empty(),
            Op::Pong => rx && m.ping_out.is_some() && self.rest.is_empty(),
            Op::PongBad => rx && self.rest.is_empty(),
            Op::Rest => rx && !self.rest.is_empty(),
            Op::Eof | Op::ReadErr => rx,
            Op::ReadErrIn(_) => rx && self.ep.io.rx.borrow().read_fail_in.is_none(),
            Op::WriteZeroIn(_) if self.ep.io.tx.borrow().write_zero_in.is_some() => false,
            Op::WriteErrIn(_) if self.ep.io.tx.borrow().write_fail_in.is_some() => false,
            Op::WriteErr if self.ep.io.tx.borrow().write_err => false,
            Op::WriteZero if self.ep.io.tx.borrow().write_zero => false,
            Op::CloseErr if self.ep.io.tx.borrow().close_fail => false,
            Op::FlushErr if self.ep.io.tx.borrow().flush_fail => false,
            Op::WriteErr | Op::FlushErr | Op::WriteZero | Op::CloseErr | Op::WriteErrIn(_) | Op::WriteZeroIn(_) => up && !self.ep.done.get(),
        }
    }

    fn frame(&mut self, h: Hdr, body: &[u8]) {
        let mut r = self.ep.io.rx.borrow_mut();
        r.push(&h.enc());
        if !body.is_empty() {
            r.push(body);
        }
    }

    /// Stream position of `n` bytes of payload about to be injected.
    fn inject(&mut self, h: &Hdr, n: u64) -> u64 {
        let mut m = self.ep.io.mon.borrow_mut();
        if h.flags & SYN != 0 {
            return 0;
        }
        let Some(k) = m.cur.get(&h.id).copied() else { return 0 };
        let s = &mut m.s[k];
        let pos = s.inj.max(s.received);
        s.over_inj |= n + (pos - s.received) > s.remote_credit();
        if h.ver == 0 && h.ty == DATA && h.flags & RST == 0 && n <= s.remote_credit() {
            s.inj = pos + n;
        }
        pos
    }

    fn data(&mut self, id: Id, flags: u16, len: Len) {
        let raw = self.id(id);
        let slot = self.slot_of(id);
        let (pos, n) = {
            let m = self.ep.io.mon.borrow();
            let s = slot.map(|k| &m.s[k]);
            let n = match len {
                Len::Abs(n) => n as i64,
                Len::Credit(d) => s.map(|s| s.remote_credit()).unwrap_or(CREDIT) as i64 + d,
                Len::Max(d) => s.map(|s| s.remote_credit()).unwrap_or(CREDIT) as i64 + d,
            }
            .clamp(0, MAX_BODY as i64);
            let pos = match s {
                // undelivered injected bytes count too
                Some(s) if flags & SYN == 0 => s.inj.max(s.received),
                _ => 0,
            };
            (pos, n as u32)
        };
        if let Some(k) = slot {
            let credit = self.ep.io.mon.borrow().s[k].remote_credit();
            if flags & SYN == 0 {
                let s = &mut self.ep.mon().s[k];
                s.over_inj |= n as u64 + (pos - s.received) > credit;
            }
            if flags & SYN == 0 && n as u64 <= credit {
                self.ep.mon().s[k].inj = pos + n as u64;
            }
        }
        if id == Id::Fresh {
            self.fresh += 2;
        }
        let body = pat(1, raw, pos, n as usize);
        self.frame(Hdr::new(DATA, flags, raw, n), body);
    }

    fn wu(&mut self, id: Id, flags: u16, len: Len) {
        let raw = self.id(id);
        let n = match len {
            Len::Abs(n) => n,
            Len::Credit(d) | Len::Max(d) => {
                let m = self.ep.io.mon.borrow();
                let c = self.slot_of(id).map(|k| m.s[k].credit()).unwrap_or(CREDIT);
                (u32::MAX as i64 - c as i64 + d).clamp(0, u32::MAX as i64) as u32
            }
        };
        if id == Id::Fresh {
            self.fresh += 2;
        }
        self.frame(Hdr::new(WINDOW, flags, raw, n), &[]);
    }

    fn open(&mut self) -> Option<usize> {
        let f = Flag::new();
        self.opener = f.clone();
        let w = waker(&f);
        match self.ep.poll_open(&mut Context::from_waker(&w), &f) {
            Poll::Ready(Ok(i)) => {
                self.opening = false;
                Some(i)
            }
            Poll::Ready(Err(_)) => {
                self.opening = false;
                let aborted = self.ep.io.mon.borrow().aborted_by_limit;
                if aborted {
                    self.after_limit();
                }
                None
            }
            Poll::Pending => {
                self.opening = true;
                None
            }
        }
    }

    /// A refused local open ends the connection in this implementation; nothing is claimed about
    /// that beyond the streams being released if it does.
    fn after_limit(&mut self) {
        let f = Flag::new();
        let w = waker(&f);
        if self.ep.probe(&mut Context::from_waker(&w)) {
            // went on as an ended connection
            return;
        }
        self.ep.done.set(true);
        ctx::prune();
    }

    pub fn apply(&mut self, op: &Op) {
        ctx::note(|| format!("--- {op:?}"));
        let ep = self.ep.clone();
        match op {
            Op::Nop => {}
            Op::Multi(v) => {
                for o in v.iter() {
                    if !self.enabled(o) {
                        continue;
                    }
                    self.apply(o);
                    if self.ep.io.mon.borrow().exact_growth {
                        self.ep.run();
                    }
                }
            }
            Op::Open | Op::Reopen => {
                self.open();
            }
            Op::OpenWrite(n) => {
                if let Some(i) = self.open() {
                    let _ = cxf(|cx, f| ep.write(i, *n, cx, f));
                }
            }
            Op::OpenClose => {
                if let Some(i) = self.open() {
                    let _ = cxf(|cx, f| ep.close(i, cx, f));
                }
            }
            Op::OpenDrop => {
                if let Some(i) = self.open() {
                    ep.drop_stream(i);
                }
            }
            Op::Read(k, n) => {
                let _ = cxf(|cx, f| ep.read(*k, *n, cx, f));
            }
            Op::Drain(k) => drain(&ep, *k),
            Op::Packet(k) => {
                let _ = cxf(|cx, f| ep.read_packet(*k, cx, f));
            }
            Op::Write(k, n) => {
                let _ = cxf(|cx, f| ep.write(*k, *n, cx, f));
            }
            Op::Fill(k, n) => {
                for _ in 0..64 {
                    if ctx::over() {
                        break;
                    }
                    if !matches!(cxf(|cx, f| ep.write(*k, *n, cx, f)), Poll::Ready(Ok(_))) {
                        break;
                    }
                }
            }
            Op::Flush(k) => {
                let _ = cxf(|cx, f| ep.flush(*k, cx, f));
            }
            Op::Close(k) => {
                let _ = cxf(|cx, f| ep.close(*k, cx, f));
            }
            Op::Drop(k) => ep.drop_stream(*k),
            Op::CloseDrop(k) => {
                let _ = cxf(|cx, f| ep.close(*k, cx, f));
                ep.drop_stream(*k);
            }
            Op::WriteDrop(k, n) => {
                let _ = cxf(|cx, f| ep.write(*k, *n, cx, f));
                ep.drop_stream(*k);
            }
            Op::WriteClose(k, n) => {
                let _ = cxf(|cx, f| ep.write(*k, *n, cx, f));
                let _ = cxf(|cx, f| ep.close(*k, cx, f));
            }
            Op::CloseConn => {
                if !ep.closing_api.get() {
                    ep.start_close()
                }
            }
            Op::CloseConnAlt => {
                if !ep.closing_api.get() {
                    ep.alt_close.set(true);
                    ep.start_close()
                }
            }
            Op::DropConn => ep.drop_conn(),
            Op::Drive => ep.run(),
            Op::Advance(ms) => mc_rt::advance(ms * 1_000_000),
            Op::Block => ep.io.tx.borrow_mut().grant = 0,
            Op::Unblock => {
                let mut t = ep.io.tx.borrow_mut();
                t.grant = u64::MAX;
                t.wake_writer();
            }
            Op::Grant(n) => {
                let mut t = ep.io.tx.borrow_mut();
                t.grant += n;
                t.wake_writer();
            }
            Op::FlushBlock => ep.io.tx.borrow_mut().flush_blocked = true,
            Op::FlushUnblock => {
                let mut t = ep.io.tx.borrow_mut();
                t.flush_blocked = false;
                t.wake_writer();
            }
            Op::Data(id, fl, len) => self.data(*id, *fl, *len),
            Op::Wu(id, fl, len) => self.wu(*id, *fl, *len),
            Op::AckOldest => {
                let id = ep.io.mon.borrow().s.iter().find(|s| s.out && !s.ack_in && s.out_frames > 0).map(|s| s.id);
                if let Some(id) = id {
                    self.frame(Hdr::new(WINDOW, ACK, id, 0), &[]);
                }
            }
            Op::Ping(x) => self.frame(Hdr::new(PING, SYN, 0, *x), &[]),
            Op::PingFlags(fl, id, x) => self.frame(Hdr::new(PING, *fl, *id, *x), &[]),
            Op::Pong => {
                let x = ep.io.mon.borrow().ping_out;
                if let Some(x) = x {
                    self.frame(Hdr::new(PING, ACK, 0, x), &[])
                }
            }
            Op::PongBad => {
                let x = ep.io.mon.borrow().ping_out.unwrap_or(70);
                self.frame(Hdr::new(PING, ACK, 0, x ^ 1), &[])
            }
            Op::GoAway(c) => self.frame(Hdr::new(GOAWAY, 0, 0, *c), &[]),
            Op::RawF(h, n) => {
                let pos = self.inject(h, *n as u64);
                self.frame(*h, pat(1, h.id, pos, *n as usize))
            }
            Op::Partial(h, n, k) => {
                let pos = self.inject(h, *n as u64);
                let mut v = h.enc().to_vec();
                v.extend_from_slice(pat(1, h.id, pos, *n as usize));
                let k = (*k).min(v.len());
                self.rest = v.split_off(k);
                ep.io.rx.borrow_mut().push(&v);
            }
            Op::Rest => {
                let v = std::mem::take(&mut self.rest);
                ep.io.rx.borrow_mut().push(&v);
            }
            Op::Eof => {
                self.eof = true;
                ep.io.rx.borrow_mut().set_eof();
            }
            Op::ReadErr => {
                self.eof = true;
                let mut r = ep.io.rx.borrow_mut();
                r.read_err = true;
                r.wake_reader();
            }
            Op::ReadErrIn(n) => {
                let mut r = ep.io.rx.borrow_mut();
                r.read_fail_in = Some(*n);
                r.wake_reader();
            }
            Op::WriteErr => {
                let mut t = ep.io.tx.borrow_mut();
                t.write_err = true;
                t.wake_writer();
            }
            Op::WriteZero => {
                let mut t = ep.io.tx.borrow_mut();
                t.write_zero = true;
                t.wake_writer();
            }
            Op::CloseErr => {
                let mut t = ep.io.tx.borrow_mut();
                t.close_fail = true;
                t.wake_writer();
            }
            Op::WriteZeroIn(n) => ep.io.tx.borrow_mut().write_zero_in = Some(*n),
            Op::WriteErrIn(n) => ep.io.tx.borrow_mut().write_fail_in = Some(*n),
            Op::FlushErr => {
                let mut t = ep.io.tx.borrow_mut();
                t.flush_fail = true;
                t.wake_writer();
            }
        }
    }

    pub fn quiesce(&mut self) {
        self.ep.run();
        if ctx::over() {
            return;
        }
        check_quiet(&self.ep);
    }

    /// The connection still takes input.
    pub fn remote_up(&self) -> bool {
        !self.eof && !self.ep.done.get()
    }

    pub fn key(&self) -> u64 {
        let m = self.ep.io.mon.borrow();
        let mut h = H::new();
        h.u(m.hash());
        h.b(self.ep.driver.borrow().get()).b(self.ep.done.get()).b(self.ep.has_conn()).b(self.ep.closing_api.get());
        let t = self.ep.io.tx.borrow();
        h.u(t.grant.min(1 << 50)).b(t.flush_blocked).b(t.closed).b(t.write_err).b(t.flush_fail);
        let r = self.ep.io.rx.borrow();
        h.u(r.len() as u64).b(r.eof).b(r.read_err);
        h.b(t.write_zero).b(t.close_fail).b(self.ep.alt_close.get());
        h.b(self.opening).u(self.rest.len() as u64).u(self.fresh as u64);
        h.u(t.write_fail_in.map(|x| x + 1).unwrap_or(0)).u(t.write_zero_in.map(|x| x + 1).unwrap_or(0)).u(r.read_fail_in.map(|x| x + 1).unwrap_or(0));
        h.0
    }
}

pub fn drain(ep: &Rc<Ep>, k: usize) {
    for _ in 0..4096 {
        if ctx::over() {
            break;
        }
        let r = cxf(|cx, f| ep.read(k, 256 * 1024, cx, f));
        // the growth oracle relates every update to the read that caused it
        let exact = ep.io.mon.borrow().exact_growth;
        if exact {
            ep.run();
        }
        match r {
            Poll::Ready(Ok(n)) if n > 0 => {}
            _ => break,
        }
    }
}

pub fn check_quiet(ep: &Rc<Ep>) {
    check_rest(ep, true)
}

fn check_rest(ep: &Rc<Ep>, queries: bool) {
    let (open, unfl, rxp, fb) = {
        let t = ep.io.tx.borrow();
        let r = ep.io.rx.borrow();
        (t.room() > 0, t.unflushed, r.readable(), t.flush_blocked)
    };
    if ep.driver.borrow().get() && !ep.done.get() && ep.has_conn() {
        return; // not quiescent
    }
    let stuck = ep.io.tx.borrow().stuck();
    ep.mon().on_quiescent(open, if fb || stuck { 0 } else { unfl }, rxp);
    let n = ep.streams.borrow().len();
    for i in 0..if queries { n } else { 0 } {
        ep.query(i);
    }
}

pub fn run(sc: &Solo) {
    let mut w = World::new(sc);
    let ep = w.ep.clone();
    let body = std::panic::AssertUnwindSafe(|| {
        ctx::no_dev(|| {
            w.ep.run();
            for op in &sc.prelude {
                w.apply(op);
                if sc.auto {
                    w.ep.run();
                    if !ctx::over() {
                        check_rest(&w.ep, w.ep.streams.borrow().len() <= 32);
                    }
                }
                if ctx::over() {
                    break;
                }
            }
        });
        if !ctx::over() && sc.auto {
            w.quiesce();
        }
        let mut stage = 0;
        let mut last = 0;
        let mut enabled: Vec<usize> = Vec::with_capacity(sc.ops.len());
        loop {
            if ctx::over() {
                break;
            }
            let key = w.key();
            if sc.graph.is_none() {
                ctx::state(key);
                // the merging of states beyond the full depth keeps the ways into a state apart
                ctx::set_key(key ^ (last as u64 + 1).wrapping_mul(0x9E37_79B9_7F4A_7C15));
            } else {
                ctx::set_key(key);
            }
            enabled.clear();
            let ops = if stage == 0 && !sc.first.is_empty() { &sc.first } else { &sc.ops };
            stage += 1;
            for (i, o) in ops.iter().enumerate() {
                if w.enabled(o) {
                    enabled.push(i);
                }
            }
            let Some(k) = ctx::choose_op(enabled.len()) else { break };
            let op = &ops[enabled[k]];
            last = enabled[k] + 1;
            w.apply(op);
            if sc.auto {
                w.quiesce();
            } else if *op == Op::Drive {
                check_quiet(&w.ep);
            }
        }
        if !ctx::over() {
            ctx::no_dev(|| epilogue(&mut w, sc));
        }
    });
    let r = std::panic::catch_unwind(body);
    ep.teardown();
    if let Err(e) = r {
        std::panic::resume_unwind(e);
    }
}

pub fn epilogue(w: &mut World, sc: &Solo) {
    if sc.epi == Epilogue::None {
        return;
    }
    ctx::note(|| "--- epilogue".into());
    w.quiesce();
    let ep = w.ep.clone();
    ep.kick();
    if ctx::over() {
        return;
    }
    if !w.rest.is_empty() {
        w.apply(&Op::Rest);
    }
    // let the transport move again
    if w.enabled(&Op::FlushUnblock) {
        w.apply(&Op::FlushUnblock);
    }
    if ep.io.tx.borrow().grant != u64::MAX {
        w.apply(&Op::Unblock);
    }
    w.quiesce();
    ep.kick();
    w.quiesce();
    match sc.epi {
        Epilogue::Drain | Epilogue::DrainEof => {
            for k in 0..ep.streams.borrow().len() {
                drain(&ep, k);
            }
            w.quiesce();
            // waiting writers that were released can write now
            for k in 0..ep.streams.borrow().len() {
                let blocked = {
                    let m = ep.io.mon.borrow();
                    m.s.get(k).map(|s| s.writer.is_some()).unwrap_or(false)
                };
                if blocked && !ctx::over() {
                    let _ = cxf(|cx, f| ep.write(k, 1, cx, f));
                }
            }
            w.quiesce();
            ep.kick();
            if w.opening && ep.has_conn() && !ctx::over() {
                w.open();
                w.quiesce();
            }
            if sc.epi == Epilogue::DrainEof && !ctx::over() {
                finish(w);
            }
        }
        Epilogue::Eof => finish(w),
        Epilogue::CloseConn => {
            if ep.has_conn() && !ep.closing_api.get() {
                w.apply(&Op::CloseConn);
            }
            w.quiesce();
            after_end(w);
        }
        Epilogue::DropConn => {
            w.apply(&Op::DropConn);
            w.quiesce();
            after_end(w);
        }
        Epilogue::None => {}
    }
}

/// The remote goes away; everything must be released.
fn finish(w: &mut World) {
    if !w.eof && w.ep.has_conn() {
        w.apply(&Op::Eof);
    }
    w.quiesce();
    after_end(w);
}

pub fn after_end(w: &mut World) {
    if ctx::over() {
        return;
    }
    let ep = w.ep.clone();
    if ep.has_conn() && !ep.done.get() {
        ctx::fail("end.stuck", &["C10", "C11", "C06"], || format!("{}: the connection does not end", ep.io.mon.borrow().name));
        return;
    }
    // streams: buffered data, then the end; writes fail; a second close is fine
    for k in 0..ep.streams.borrow().len() {
        if ctx::over() {
            return;
        }
        drain(&ep, k);
        if ep.alive(k) {
            let _ = cxf(|cx, f| ep.read_packet(k, cx, f));
            let _ = cxf(|cx, f| ep.write(k, 1, cx, f));
            let _ = cxf(|cx, f| ep.close(k, cx, f));
        }
        ep.query(k);
    }
    if ep.has_conn() && !ctx::over() {
        // later calls return promptly and report nothing new
        let open = cxf(|cx, f| ep.poll_open(cx, f));
        if !matches!(open, Poll::Ready(Err(_))) {
            ctx::fail("open.after-end", &["C10", "C11", "C17"], || "opening a stream after the end did not fail".into());
        }
        for _ in 0..2 {
            match cxf(|cx, _| ep.poll_driver(cx)) {
                Drive::End => {}
                _ => ctx::fail("end.again", &["C11", "C10"], || "driving an ended connection did not return its end".into()),
            }
        }
        if !ep.closing_api.get() {
            ep.closing_api.set(true);
            match cxf(|cx, _| ep.poll_driver(cx)) {
                Drive::End => {}
                _ => ctx::fail("close.after-end", &["C10", "C11"], || "closing an ended connection is pending".into()),
            }
        }
    }
    let _ = &w.flags;
}
