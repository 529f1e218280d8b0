//! The reference model of one endpoint, fed with every byte the endpoint consumes or emits, every
//! API call and every result. All oracles live here; each names the properties it decides.
use crate::ctx::{self, H};
use crate::wire::*;
use std::collections::{BTreeMap, HashMap, VecDeque};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::SeqCst};
use std::sync::Arc;
use std::task::{Wake, Waker};

pub struct Flag {
    pub woken: AtomicBool,
    pub stamp: AtomicUsize,
}
impl Flag {
    pub fn new() -> Arc<Flag> {
        Arc::new(Flag { woken: AtomicBool::new(false), stamp: AtomicUsize::new(0) })
    }
    pub fn get(&self) -> bool {
        self.woken.load(SeqCst)
    }
}
thread_local! {
    static STAMP: std::cell::Cell<usize> = const { std::cell::Cell::new(0) };
}
impl Wake for Flag {
    fn wake(self: Arc<Self>) {
        self.wake_by_ref()
    }
    fn wake_by_ref(self: &Arc<Self>) {
        if !self.woken.swap(true, SeqCst) {
            let s = STAMP.with(|c| {
                c.set(c.get() + 1);
                c.get()
            });
            self.stamp.store(s, SeqCst);
        }
    }
}
pub fn waker(f: &Arc<Flag>) -> Waker {
    Waker::from(f.clone())
}

#[derive(Copy, Clone, Debug, PartialEq, Eq)]
pub enum End {
    /// End of connection without error.
    Clean,
    /// Ended with an error.
    Error,
}

#[derive(Default)]
pub struct SMon {
    pub id: u32,
    pub out: bool,
    pub alive: bool,
    pub gone: bool,
    /// total send credit: initial plus every consumed window update
    pub credit_total: u64,
    pub written: u64,
    pub emitted: u64,
    pub write_ends: VecDeque<u64>,
    pub closes: u32,
    pub closed_local: bool,
    pub fins_out: u32,
    pub rst_out: bool,
    pub syn_out: bool,
    pub ack_out: bool,
    pub out_frames: u32,
    pub ack_queued: bool,
    /// total receive credit put on the wire, including the initial 256 KiB
    pub granted: u64,
    pub received: u64,
    pub delivered: u64,
    pub delivered_at_poll: u64,
    /// What had been consumed when the last update can have been computed: as a read began or, if none was
    /// due then, as it ended.
    pub wu_base: u64,
    pub wu_due: bool,
    pub reading: bool,
    pub polled_reads: bool,
    pub fin_in: bool,
    pub rst_in: bool,
    pub ack_in: bool,
    pub accepted: bool,
    /// largest window seen so far / largest window the tuning rules allow
    pub win_seen: u64,
    /// upper bound of the window, and lower bound of what had been read when an update was computed that
    /// is not out yet
    pub win_hi: u64,
    pub wu_low: u64,
    pub win_cap: u64,
    pub last_wu: u64,
    pub grow_ok_at_poll: bool,
    /// window an update computed at that read has to lead to (0: any)
    pub must_grow_at_poll: u64,
    pub amb: bool,
    pub amb_ack: bool,
    pub maybe_wu: bool,
    pub reader: Option<Arc<Flag>>,
    pub writer: Option<Arc<Flag>>,
    pub closer: Option<Arc<Flag>>,
    pub flusher: Option<Arc<Flag>>,
    /// operations in progress: what they may already have achieved
    /// closed while another thread was ending the stream
    pub late_close: bool,
    /// the remote's end-of-stream may have been taken or refused
    pub maybe_fin: bool,
    pub w_intent: u64,
    pub c_intent: u32,
    pub d_intent: bool,
    pub wait_by: HashMap<usize, u32>,
    /// script: next position of injected payload
    pub inj: u64,
    /// the remote sent more than it knew to be allowed, and it is up to the order of events what of
    /// that arrives: from the first surprise on, the contents are not compared
    pub over_inj: bool,
    pub blind: bool,
}

impl SMon {
    pub fn buffered(&self) -> u64 {
        self.received - self.delivered
    }
    pub fn credit(&self) -> u64 {
        self.credit_total - self.written
    }
    pub fn queued(&self) -> u32 {
        self.write_ends.len() as u32 + (self.closes - self.fins_out.min(self.closes))
    }
    pub fn dead(&self) -> bool {
        self.rst_in || (self.fin_in && self.closed_local)
    }
    /// open in both directions
    fn open(&self) -> bool {
        !self.rst_in && !self.fin_in && !self.closed_local
    }
    pub fn remote_credit(&self) -> u64 {
        self.granted - self.received.min(self.granted)
    }
}

pub struct Mon {
    /// 0 / 1: selects the payload pattern of this side
    pub side: u8,
    pub client: bool,
    pub max_streams: usize,
    pub limit: Option<usize>,
    pub rac: bool,
    pub split: usize,
    /// poll-by-poll exactness (single-threaded runs)
    pub strict: bool,
    /// several threads: results may race with the events that explain them
    pub concurrent: bool,
    pub s: Vec<SMon>,
    pub cur: BTreeMap<u32, usize>,
    pub pin: Parser,
    pub pout: Parser,
    pub expect_accept: VecDeque<usize>,
    pub last_out_id: u32,
    pub must_goaway: u32,
    pub may_goaway: u32,
    pub err_goaways: u32,
    pub goaway0: u32,
    pub closing: bool,
    pub close_done: bool,
    pub expect_end: Option<End>,
    pub ended: Option<End>,
    pub dropped: bool,
    pub aborted_by_limit: bool,
    pub ping_out: Option<u32>,
    pub pings_sent: Vec<u32>,
    pub ping_sent_at: u64,
    pub last_pong: Option<u64>,
    pub rtt: Option<u64>,
    pub pongs_due: VecDeque<u32>,
    pub pongs_maybe: VecDeque<u32>,
    /// more payload than granted was received
    pub win_violation: bool,
    pub opener: Option<Arc<Flag>>,
    pub in_bytes: u64,
    pub out_bytes: u64,
    pub frames_in: u64,
    /// frames consumed since a stream frame could have been sent
    pub in_since_out: u32,
    pub frames_out: u64,
    pub undecodable: bool,
    /// growth timing oracle enabled (commands reach the wire in the instant they are computed)
    pub exact_growth: bool,
    pub io_failed: bool,
    pub hostile: bool,
    pub max_unsent: u32,
    /// payload actually put on the wire by us that violated nothing (outcome hashing)
    pub name: &'static str,
}

const PING_INTERVAL: u64 = 10_000_000_000;

fn h32(h: &mut H, v: u64) {
    h.u(v);
}

impl Mon {
    pub fn new(name: &'static str, side: u8, client: bool, max_streams: usize, limit: Option<usize>, rac: bool, split: usize) -> Self {
        Mon {
            side,
            client,
            max_streams,
            limit,
            rac,
            split,
            strict: false,
            concurrent: false,
            s: vec![],
            cur: BTreeMap::new(),
            pin: Parser::default(),
            pout: Parser::default(),
            expect_accept: VecDeque::new(),
            last_out_id: 0,
            must_goaway: 0,
            may_goaway: 0,
            err_goaways: 0,
            goaway0: 0,
            closing: false,
            close_done: false,
            expect_end: None,
            ended: None,
            dropped: false,
            aborted_by_limit: false,
            ping_out: None,
            pings_sent: vec![],
            ping_sent_at: 0,
            last_pong: None,
            rtt: None,
            pongs_due: VecDeque::new(),
            pongs_maybe: VecDeque::new(),
            win_violation: false,
            opener: None,
            in_bytes: 0,
            out_bytes: 0,
            frames_in: 0,
            in_since_out: 0,
            frames_out: 0,
            undecodable: false,
            exact_growth: false,
            io_failed: false,
            hostile: false,
            max_unsent: 0,
            name,
        }
    }

    /// The streams of this endpoint are cut off from the connection.
    pub fn cut(&self) -> bool {
        self.ended.is_some() || self.closing || self.dropped || self.aborted_by_limit
    }

    /// As `cut`, or about to be: another thread may notice before the connection reports it.
    pub fn failing(&self) -> bool {
        self.cut() || (self.concurrent && (self.expect_end.is_some() || self.io_failed))
    }

    fn new_stream(&mut self, id: u32, out: bool, credit: u64) -> usize {
        let i = self.s.len();
        self.s.push(SMon {
            id,
            out,
            alive: out,
            credit_total: credit,
            granted: CREDIT,
            wu_base: 0,
            wu_due: false,
            reading: false,
            win_seen: CREDIT,
            win_hi: CREDIT,
            wu_low: 0,
            win_cap: CREDIT,
            last_wu: mc_rt::now_nanos(),
            ..Default::default()
        });
        self.cur.insert(id, i);
        i
    }

    /// (definitely present, possibly still present although dropped)
    pub fn counts(&self) -> (usize, usize) {
        let mut d = 0;
        let mut z = 0;
        for s in &self.s {
            if s.gone {
                continue;
            }
            if s.alive || (!s.out && !s.accepted) {
                d += 1
            } else {
                z += 1
            }
        }
        (d, z)
    }

    /// (unacknowledged open outbound streams whose handle is alive, the same for those being dropped or closed)
    pub fn backlog(&self) -> (usize, usize) {
        let mut d = 0;
        let mut z = 0;
        for s in &self.s {
            if s.gone || !s.out || s.ack_in || s.rst_in || s.fin_in || s.closed_local {
                continue;
            }
            if s.alive && s.c_intent == 0 {
                d += 1
            } else {
                z += 1
            }
        }
        (d, z)
    }

    // ------------------------------------------------------------------ consumed bytes

    pub fn on_consumed(&mut self, b: &[u8]) {
        self.in_bytes += b.len() as u64;
        if self.undecodable {
            return;
        }
        let closing = self.closing; // drained without interpretation
        let mut p = std::mem::take(&mut self.pin);
        p.feed(b, |ev| match ev {
            Ev::Header(h) => {
                if h.ver != 0 || h.ty > GOAWAY || (h.ty == DATA && h.len > MAX_BODY) {
                    self.undecodable = true;
                    self.expect_end = Some(End::Error);
                    ctx::note(|| format!("{} in  undecodable {}", self.name, h.show()));
                    return false;
                }
                true
            }
            Ev::Frame(h, body) => {
                self.frames_in += 1;
                if !closing {
                    self.on_in(h, body);
                }
                true
            }
        });
        self.pin = p;
    }

    /// The driver consumed input although the transport would have taken a waiting frame.
    pub fn on_preferred_input(&mut self, frames: u64) {
        if frames == 0 || self.cut() {
            return;
        }
        if self.s.iter().any(|s| !s.gone && s.alive && s.queued() > 0 && !s.rst_in) {
            self.in_since_out += frames as u32;
            if self.in_since_out > 24 {
                ctx::fail("fair.inbound-first", &["C22", "C06"], || format!("{}: {} frames were read while a queued frame could have been sent", self.name, self.in_since_out));
            }
        } else {
            self.in_since_out = 0;
        }
    }

    pub fn on_read_eof(&mut self) {
        if self.expect_end.is_none() && !(self.closing && self.pin.at_boundary()) {
            self.expect_end = Some(if self.pin.at_boundary() { End::Clean } else { End::Error });
        }
    }

    pub fn on_io_error(&mut self) {
        self.io_failed = true;
        if self.expect_end.is_none() {
            self.expect_end = Some(End::Error);
        }
    }

    fn valid_remote(&self, id: u32) -> bool {
        id != 0 && (id % 2 == 1) != self.client
    }

    fn violation(&mut self) {
        self.must_goaway += 1;
        self.hostile = true;
    }

    fn on_in(&mut self, h: Hdr, body: &[u8]) {
        ctx::note(|| format!("{} in  {}", self.name, h.show()));
        match h.ty {
            DATA | WINDOW => self.on_in_stream(h, body),
            PING => {
                if h.flags & ACK != 0 {
                    match self.ping_out {
                        Some(x) if x == h.len => {
                            self.ping_out = None;
                            let now = mc_rt::now_nanos();
                            self.rtt = Some(now - self.ping_sent_at);
                            self.last_pong = Some(now);
                        }
                        _ => {
                            // the first bytes of our ping may already be on their way
                            if self.pout.at_boundary() {
                                self.violation()
                            } else {
                                self.may_goaway += 1
                            }
                        }
                    }
                } else if h.id == 0 && h.flags == SYN {
                    self.pongs_due.push_back(h.len);
                } else {
                    self.pongs_maybe.push_back(h.len);
                }
            }
            GOAWAY => {
                if self.expect_end.is_none() {
                    self.expect_end = Some(End::Clean);
                }
            }
            _ => unreachable!(),
        }
    }

    fn on_in_stream(&mut self, h: Hdr, body: &[u8]) {
        let known = self.cur.get(&h.id).copied().filter(|i| !self.s[*i].gone);
        // dropped locally, removal not observable yet
        let zombie = known.map(|i| !self.s[i].alive && self.s[i].accepted_or_out()).unwrap_or(false);
        if h.flags & ACK != 0 {
            if let Some(i) = known {
                if self.s[i].out {
                    self.s[i].ack_in = true;
                } else {
                    self.s[i].amb_ack = true;
                }
            }
        }
        if h.flags & RST != 0 {
            if let Some(i) = known {
                self.s[i].rst_in = true;
            }
            return;
        }
        let fin = h.flags & FIN != 0;
        if h.flags & SYN != 0 {
            let (d, z) = self.counts();
            let too_big = if h.ty == DATA { h.len as u64 > CREDIT } else { h.len as u64 + CREDIT > u32::MAX as u64 };
            if !self.valid_remote(h.id) || too_big {
                return self.violation();
            }
            if known.is_some() && !zombie {
                return self.violation();
            }
            if d >= self.max_streams && !zombie {
                return self.violation();
            }
            if zombie || d + z >= self.max_streams {
                // refused or accepted, depending on whether the dropped stream was already forgotten
                ctx::prune();
                return;
            }
            let credit = CREDIT + if h.ty == WINDOW { h.len as u64 } else { 0 };
            let i = self.new_stream(h.id, false, credit);
            let s = &mut self.s[i];
            s.received = if h.ty == DATA { h.len as u64 } else { 0 };
            s.fin_in = fin;
            self.expect_accept.push_back(i);
            return;
        }
        let Some(i) = known else { return };
        let peer = 1 - self.side;
        let s = &mut self.s[i];
        if h.ty == DATA {
            if !body.is_empty() && (s.fin_in || s.rst_in) {
                s.amb = true;
            }
            let total = s.received + h.len as u64;
            if total > s.granted {
                if zombie {
                    // refused or taken, an update for it may be queued
                    s.maybe_fin |= fin;
                    self.may_goaway += 1;
                    return;
                }
                let upper = if s.maybe_wu { s.delivered + s.win_cap.max(s.win_hi) * 2 } else { s.granted };
                if total > upper {
                    self.win_violation = true;
                    return self.violation();
                }
                self.may_goaway += 1;
                ctx::prune();
                return;
            }
            if s.over_inj && body != pat(peer, h.id, s.received, body.len()) {
                s.blind = true;
            }
            if !s.amb && !s.blind && body != pat(peer, h.id, s.received, body.len()) {
                // only possible if the transport or the peer's sending side corrupted data
                ctx::fail("data.corrupt-on-wire", &["C01", "C14"], || format!("payload of stream {} at {} is not what the peer wrote", h.id, s.received));
            }
            s.received = total;
            if fin {
                s.fin_in = true;
            }
        } else {
            if s.credit() + h.len as u64 > u32::MAX as u64 {
                if zombie {
                    self.may_goaway += 1;
                    return;
                }
                return self.violation();
            }
            s.credit_total += h.len as u64;
            if fin {
                s.fin_in = true;
            }
        }
    }

    // ------------------------------------------------------------------ emitted bytes

    pub fn on_emitted(&mut self, b: &[u8]) {
        self.out_bytes += b.len() as u64;
        let mut p = std::mem::take(&mut self.pout);
        p.feed(b, |ev| match ev {
            Ev::Header(h) => {
                let bad = h.ver != 0
                    || h.ty > GOAWAY
                    || h.flags & !15 != 0
                    || match h.ty {
                        DATA | WINDOW => h.id == 0,
                        PING => h.id != 0 || !(h.flags == SYN || h.flags == ACK),
                        _ => h.id != 0 || h.flags != 0 || h.len > 2,
                    };
                if bad {
                    ctx::fail("wire.malformed", &["C14"], || format!("{} emitted malformed header {:?}", self.name, h));
                }
                if h.ty == DATA && h.len as usize > self.split {
                    ctx::fail("wire.split", &["C14"], || format!("{} emitted data frame of {} bytes, split size {}", self.name, h.len, self.split));
                    if h.len > 2 * MAX_BODY {
                        return false;
                    }
                }
                true
            }
            Ev::Frame(h, body) => {
                self.frames_out += 1;
                self.on_out(h, body);
                true
            }
        });
        self.pout = p;
    }

    fn on_out(&mut self, h: Hdr, body: &[u8]) {
        ctx::note(|| format!("{} out {}", self.name, h.show()));
        ctx::outcome((h.ty as u64) << 56 ^ (h.flags as u64) << 40 ^ (h.id as u64) << 33 ^ h.len as u64);
        if self.goaway0 > 0 {
            ctx::fail("close.after-goaway", &["C10"], || format!("{} emitted {} after its termination notice", self.name, h.show()));
        }
        match h.ty {
            DATA | WINDOW => {
                self.in_since_out = 0;
                self.on_out_stream(h, body)
            }
            PING => {
                let now = mc_rt::now_nanos();
                if h.flags & ACK != 0 {
                    if self.pongs_due.front() == Some(&h.len) {
                        self.pongs_due.pop_front();
                    } else if let Some(p) = self.pongs_maybe.iter().position(|x| *x == h.len) {
                        self.pongs_maybe.remove(p);
                    } else {
                        ctx::fail("ping.pong", &["C19"], || format!("{} emitted pong {} but the next unanswered ping is {:?}", self.name, h.len, self.pongs_due.front()));
                    }
                } else {
                    if self.ping_out.is_some() {
                        ctx::fail("ping.outstanding", &["C19"], || format!("{} sent a second ping while one is outstanding", self.name));
                    }
                    if let Some(t) = self.last_pong {
                        if now < t + PING_INTERVAL {
                            ctx::fail("ping.pace", &["C19"], || format!("{} sent a ping {}ns after the previous pong", self.name, now - t));
                        }
                    }
                    if self.pings_sent.contains(&h.len) {
                        ctx::fail("ping.fresh", &["C19"], || format!("{} reused ping value {}", self.name, h.len));
                    }
                    self.pings_sent.push(h.len);
                    self.ping_out = Some(h.len);
                    self.ping_sent_at = now;
                }
            }
            GOAWAY => {
                if h.len == 0 {
                    self.goaway0 += 1;
                    if !self.closing {
                        ctx::fail("close.unasked", &["C10", "C11", "C12"], || format!("{} sent a normal GoAway without having been asked to close", self.name));
                    }
                } else {
                    self.err_goaways += 1;
                    if self.err_goaways > self.must_goaway + self.may_goaway {
                        ctx::fail("goaway.unjustified", &["C03", "C12", "C13", "C18", "C19", "C09", "C17", "C02"], || {
                            format!("{} sent an error GoAway ({}) although the remote violated nothing", self.name, h.len)
                        });
                    }
                }
            }
            _ => {}
        }
    }

    fn on_out_stream(&mut self, h: Hdr, body: &[u8]) {
        let name = self.name;
        let side = self.side;
        let Some(i) = self.cur.get(&h.id).copied() else {
            ctx::fail("wire.unknown-id", &["C14", "C15", "C13", "C18"], || format!("{name} emitted {} for a stream it does not have", h.show()));
            return;
        };
        let closing = self.closing;
        // fairness: everybody else with a waiting frame waited one more turn for `i`
        if !closing {
            for j in 0..self.s.len() {
                if j != i && !self.s[j].gone && self.s[j].queued() > 0 && self.s[i].out_frames > 0 {
                    let w = self.s[j].wait_by.entry(i).or_default();
                    *w += 1;
                    if *w > 4 {
                        let id = self.s[j].id;
                        ctx::fail("fair.starved", &["C22"], || format!("{name}: stream {} sent 5 frames while stream {} had one waiting", h.id, id));
                    }
                }
            }
        }
        let now = mc_rt::now_nanos();
        let s = &mut self.s[i];
        s.wait_by.clear();
        if s.gone {
            ctx::fail("drop.frame-after", &["C09", "C14"], || format!("{name} emitted {} for a stream that is gone", h.show()));
            return;
        }
        if s.rst_out {
            ctx::fail("drop.after-reset", &["C09"], || format!("{name} emitted {} after resetting the stream", h.show()));
        }
        let first = s.out_frames == 0;
        s.out_frames += 1;
        // --- SYN / ACK
        if h.flags & SYN != 0 {
            if !s.out || s.syn_out || !first {
                ctx::fail("syn.spurious", &["C16"], || format!("{name} emitted {}: opened stream {}, first frame {}", h.show(), s.out, first));
            }
            s.syn_out = true;
        } else if s.out && first && h.flags & RST == 0 {
            ctx::fail("syn.missing", &["C16", "C08"], || format!("{name}: first frame {} of an opened stream has no SYN", h.show()));
        }
        if h.flags & ACK != 0 {
            if s.out || s.ack_out {
                ctx::fail("ack.spurious", &["C16"], || format!("{name} emitted {}: opened stream {}, already acknowledged {}", h.show(), s.out, s.ack_out));
            }
            s.ack_out = true;
            s.ack_queued = true;
        } else if !s.out && !s.ack_out && h.flags & RST == 0 && !(h.flags & FIN != 0 && !s.alive && !s.closed_local) {
            ctx::fail("ack.missing", &["C16"], || format!("{name}: first frame {} of an accepted stream has no ACK", h.show()));
        }
        // --- RST / FIN
        if h.flags & RST != 0 {
            if s.alive {
                ctx::fail("reset.unasked", &["C09"], || format!("{name} reset stream {} whose handle is alive", h.id));
            }
            s.rst_out = true;
        }
        if h.ty == WINDOW {
            if h.flags & FIN != 0 {
                ctx::fail("fin.on-window", &["C08"], || format!("{name} emitted {}", h.show()));
            }
            s.granted += h.len as u64;
            self.on_window_out(i, h.len as u64, now);
            return;
        }
        if h.len > 0 {
            if s.fins_out > 0 {
                ctx::fail("fin.data-after", if closing { &["C08", "C10"] } else { &["C08"] }, || format!("{name} emitted data on stream {} after its FIN", h.id));
            }
            if s.emitted + h.len as u64 > s.written.max(s.w_intent) {
                ctx::fail("data.invented", &["C01", "C09", "C24", "C11"], || format!("{name} emitted {} bytes on stream {} but only {} were written", s.emitted + h.len as u64, h.id, s.written));
            } else if body != pat(side, h.id, s.emitted, body.len()) {
                ctx::fail("data.corrupt-out", if closing { &["C01", "C14", "C10"] } else { &["C01", "C14"] }, || format!("{name}: payload emitted on stream {} at {} differs from what was written", h.id, s.emitted));
            }
            s.emitted += h.len as u64;
            if s.emitted > s.credit_total {
                ctx::fail("credit.exceeded", &["C02"], || format!("{name} emitted {} bytes on stream {} with a total credit of {}", s.emitted, h.id, s.credit_total));
            }
        }
        while s.write_ends.front().map(|e| *e <= s.emitted).unwrap_or(false) {
            s.write_ends.pop_front();
        }
        if h.flags & FIN != 0 {
            s.fins_out += 1;
            let racing = s.late_close as u32;
            let asked = s.closes.max(s.c_intent).max(racing).max((!s.alive || s.d_intent) as u32);
            if s.fins_out > 1 {
                ctx::fail("fin.twice", if closing { &["C08", "C10"] } else { &["C08"] }, || format!("{name} emitted a second FIN on stream {}", h.id));
            } else if s.fins_out > asked {
                ctx::fail("fin.unasked", &["C08", "C10"], || format!("{name} emitted FIN on stream {} which was not closed", h.id));
            }
            if s.emitted < s.written && s.alive {
                ctx::fail("fin.early", if closing { &["C08", "C01", "C10"] } else { &["C08", "C01"] }, || format!("{name} emitted FIN on stream {} before {} accepted bytes", h.id, s.written - s.emitted));
            }
        }
    }

    fn on_window_out(&mut self, i: usize, _credit: u64, now: u64) {
        let name = self.name;
        let (exact, concurrent) = (self.exact_growth, self.concurrent);
        let s = &mut self.s[i];
        let grew_allowed = s.grow_ok_at_poll;
        // outstanding credit plus unread bytes = window offered
        let window = s.granted.saturating_sub(s.wu_base.min(s.delivered));
        // a read on another thread may have consumed data without having returned yet
        let consumed = if concurrent && s.reading { s.received } else { s.delivered };
        let now_window = s.granted.saturating_sub(consumed);
        let cap;
        if exact {
            if grew_allowed {
                cap = s.win_seen * 2;
            } else {
                cap = s.win_seen;
            }
        } else {
            cap = if self.rtt.is_some() { s.win_hi * 2 } else { s.win_hi };
        }
        if now_window > cap {
            ctx::fail("window.excess", &["C04", "C05", "C03"], || {
                format!("{name}: stream {} now has a window of {} bytes (granted {} read {}), at most {} allowed", s.id, now_window, s.granted, s.delivered, cap)
            });
        }
        if exact && window < s.must_grow_at_poll {
            ctx::fail("window.no-growth", &["C05"], || {
                format!("{name}: window of stream {} went from {} to {} instead of {} although half was consumed within two round trips and budget is left", s.id, s.win_seen, window, s.must_grow_at_poll)
            });
        }
        if exact && window < s.win_seen {
            ctx::fail("window.not-restored", &["C04"], || {
                format!("{name}: update leaves stream {} a window of {} bytes instead of {}", s.id, window, s.win_seen)
            });
        }
        s.win_seen = s.win_seen.max(now_window).max(if exact { window.min(cap) } else { 0 });
        s.win_hi = s.win_hi.max(s.granted.saturating_sub(s.wu_low).min(cap)).max(s.win_seen);
        s.last_wu = now;
        s.must_grow_at_poll = 0;
        // configured limit
        if let Some(limit) = self.limit {
            let budget = (limit as u64).saturating_sub((self.max_streams as u64).saturating_mul(CREDIT));
            let used: u64 = self.s.iter().filter(|s| !s.gone && (s.alive || !s.accepted_or_out())).map(|s| s.win_seen - CREDIT).sum();
            if used > budget {
                ctx::fail("window.limit", &["C05"], || {
                    format!("{name}: windows exceed the connection limit: {} bytes above the guaranteed minimum, {} allowed", used, budget)
                });
            }
        }
    }

    // ------------------------------------------------------------------ API results

    pub fn on_opened(&mut self, id: u32) -> usize {
        let name = self.name;
        let (d, z) = self.counts();
        if d >= self.max_streams {
            ctx::fail("limit.open", &["C18"], || format!("{name} opened stream {id} with {d} live streams, limit {}", self.max_streams));
        }
        let _ = z;
        let (b, _) = self.backlog();
        if b >= 256 {
            ctx::fail("backlog.exceeded", &["C17"], || format!("{name} opened stream {id} with {b} unacknowledged streams"));
        }
        if id == 0 || (id % 2 == 1) != self.client || id <= self.last_out_id {
            ctx::fail("id.invalid", &["C15"], || format!("{name} opened stream id {id} after {}", self.last_out_id));
        }
        if self.cur.contains_key(&id) && self.s[self.cur[&id]].out {
            ctx::fail("id.reused", &["C15"], || format!("{name} reused id {id}"));
        }
        if self.cut() {
            ctx::fail("open.after-end", &["C10", "C11"], || format!("{name} opened a stream after the connection ended"));
        }
        self.last_out_id = id;
        self.opener = None;
        self.new_stream(id, true, CREDIT)
    }

    pub fn on_open_pending(&mut self, f: &Arc<Flag>) {
        self.opener = Some(f.clone());
        if self.concurrent {
            return;
        }
        if self.cut() {
            let name = self.name;
            ctx::fail("open.pending-at-end", &["C10", "C11", "C17", "C07"], || format!("{name}: open is pending although the connection is closing or has ended"));
        }
        let (b, z) = self.backlog();
        if b + z < 256 && !self.cut() {
            let name = self.name;
            ctx::fail("open.stuck", &["C17", "C06", "C18"], || format!("{name}: open is pending with only {} unacknowledged streams", b + z));
        }
    }

    pub fn on_open_failed(&mut self, err: &yamux::ConnectionError) {
        self.opener = None;
        let name = self.name;
        match err {
            yamux::ConnectionError::TooManyStreams => {
                let (d, z) = self.counts();
                if d + z < self.max_streams && !self.concurrent {
                    ctx::fail("limit.refused", &["C18"], || format!("{name} refused to open a stream with {} live streams, limit {}", d + z, self.max_streams));
                }
                self.aborted_by_limit = true;
            }
            yamux::ConnectionError::NoMoreStreamIds => {
                // at most the last id of the right parity may remain unused
                if self.last_out_id < u32::MAX - 4 {
                    ctx::fail("id.exhausted", &["C15", "C06"], || format!("{name} ran out of stream ids after {}", self.last_out_id));
                }
                self.aborted_by_limit = true;
            }
            e => {
                if !self.cut() && self.expect_end.is_none() {
                    ctx::fail("open.failed", &["C11", "C06", "C17", "C18"], || format!("{name}: open failed with {e} on a healthy connection"));
                }
            }
        }
    }

    pub fn on_accepted(&mut self, id: u32) -> Option<usize> {
        let name = self.name;
        if self.cut() {
            ctx::fail("accept.after-end", &["C10", "C11"], || format!("{name} accepted stream {id} after the connection ended"));
        }
        match self.expect_accept.pop_front() {
            Some(i) if self.s[i].id == id => {
                self.s[i].alive = true;
                self.s[i].accepted = true;
                Some(i)
            }
            x => {
                let exp = x.map(|i| self.s[i].id);
                ctx::fail("accept.wrong", &["C13", "C15", "C18", "C12", "C03"], || format!("{name} handed out inbound stream {id}, expected {exp:?}"));
                if let Some(i) = x {
                    self.expect_accept.push_front(i)
                }
                None
            }
        }
    }

    pub fn on_end(&mut self, end: End, what: &str) {
        let name = self.name;
        ctx::note(|| format!("{name} end {end:?} {what}"));
        ctx::outcome(end as u64 + 77);
        if self.ended.is_some() {
            if end != End::Clean {
                ctx::fail("end.twice", &["C11"], || format!("{name} reported a second failure: {what}"));
            }
            return;
        }
        if !self.closing && !self.aborted_by_limit {
            match self.expect_end {
                Some(e) if e == end => {}
                Some(e) => ctx::fail("end.kind", &["C11", "C12"], || format!("{name} reported {end:?} ({what}), expected {e:?}")),
                None => {
                    if self.must_goaway + self.may_goaway == 0 {
                        ctx::fail("end.spurious", &["C11", "C12", "C06", "C03", "C09", "C13"], || format!("{name}: connection ended ({end:?}, {what}) without cause"))
                    }
                }
            }
        }
        self.ended = Some(end);
    }

    pub fn on_close_started(&mut self) {
        if !self.closing && self.ended.is_none() && !self.aborted_by_limit {
            self.closing = true;
        }
    }

    /// poll_close returned Ready.
    pub fn on_close_done(&mut self, ok: bool, tx_closed: bool) {
        let name = self.name;
        if self.close_done {
            if !ok {
                ctx::fail("close.again", &["C10"], || format!("{name}: closing again failed"));
            }
            return;
        }
        self.close_done = true;
        if self.ended.is_some() || !self.closing {
            if !ok && self.ended.is_some() {
                ctx::fail("close.after-end", &["C11", "C10"], || format!("{name}: close after the end was reported failed"));
            }
            return;
        }
        if !ok {
            if !self.io_failed && self.expect_end.is_none() {
                ctx::fail("close.failed", &["C10"], || format!("{name}: close failed on a healthy transport"));
            }
            self.ended = Some(End::Error);
            return;
        }
        self.ended = Some(End::Clean);
        if self.io_failed {
            return;
        }
        if self.goaway0 != 1 {
            ctx::fail("close.goaway", &["C10"], || format!("{name}: close finished with {} termination notices sent", self.goaway0));
        }
        if !tx_closed {
            ctx::fail("close.transport", &["C10"], || format!("{name}: close finished without closing the transport"));
        }
        if !self.pout.at_boundary() {
            ctx::fail("close.torn", &["C10", "C14"], || format!("{name}: close finished in the middle of a frame"));
        }
        if !self.concurrent {
            self.check_flushed();
        }
    }

    /// A graceful close transmits whatever was accepted.
    pub fn check_flushed(&self) {
        let name = self.name;
        if self.io_failed || self.expect_end == Some(End::Error) {
            return;
        }
        // answers to what was read before the close
        if !self.pongs_due.is_empty() && !self.hostile {
            ctx::fail("close.lost-pong", &["C19", "C10"], || format!("{name}: close finished without answering ping {:?}", self.pongs_due.front()));
        }
        if self.err_goaways < self.must_goaway {
            ctx::fail("close.lost-goaway", &["C03", "C13", "C18", "C19", "C12"], || format!("{name}: close finished and a violation of the remote was never answered with an error GoAway"));
        }
        for s in &self.s {
            if s.emitted != s.written {
                ctx::fail("close.lost-data", &["C10", "C01", "C23"], || format!("{name}: close finished with {} accepted bytes of stream {} unsent", s.written - s.emitted, s.id));
            }
            if s.closes > 0 && s.fins_out == 0 {
                ctx::fail("close.lost-fin", &["C10", "C08", "C23"], || format!("{name}: close finished without sending the FIN of stream {}", s.id));
            }
        }
    }

    /// The queues of the streams are empty.
    pub fn on_drained(&mut self) {
        for s in &mut self.s {
            s.wu_low = s.delivered;
        }
    }

    pub fn on_read_begin(&mut self, i: usize) {
        self.s[i].reading = true;
        self.update_chance(i, true);
    }

    /// An update may be computed now, as a read begins or ends.
    fn update_chance(&mut self, i: usize, begin: bool) {
        let now = mc_rt::now_nanos();
        let (rtt, limit, ms) = (self.rtt, self.limit, self.max_streams as u64);
        let used: u64 = self.s.iter().filter(|s| !s.gone).map(|s| s.win_seen - CREDIT).sum();
        let cut = self.cut();
        let s = &mut self.s[i];
        if s.fin_in || s.rst_in || cut {
            return;
        }
        if begin {
            s.delivered_at_poll = s.delivered;
            s.polled_reads = true;
        } else if s.wu_due {
            return;
        }
        s.wu_base = s.delivered;
        s.maybe_wu = true;
        // what the tuning rules say about an update computed now
        let consumed = s.win_seen - (s.granted - s.delivered).min(s.win_seen);
        let half = s.win_seen / 2;
        let quick = rtt.map(|r| now - s.last_wu < 2 * r).unwrap_or(false);
        s.grow_ok_at_poll = quick;
        let avail = match limit {
            None => u64::MAX,
            Some(l) => (l as u64).saturating_sub(ms.saturating_mul(CREDIT)).saturating_sub(used),
        };
        s.wu_due = consumed >= half;
        let grow = quick && avail > 0 && s.wu_due;
        s.must_grow_at_poll = if grow { (s.win_seen * 2).min(s.win_seen.saturating_add(avail)).min(u32::MAX as u64) } else { 0 };
    }

    /// `Some(n)`: n bytes (0 = end of stream), `None`: pending.
    pub fn on_read(&mut self, i: usize, want: usize, res: Result<Option<&[u8]>, String>, f: Option<&Arc<Flag>>) {
        let name = self.name;
        let peer = 1 - self.side;
        let cut = self.cut();
        let failing = self.failing();
        let rac = self.rac;
        let strict = self.strict;
        let concurrent = self.concurrent;
        let s = &mut self.s[i];
        s.reading = false;
        match res {
            Ok(Some(b)) if !b.is_empty() => {
                s.reader = None;
                if cut && !rac && !concurrent {
                    ctx::fail("rac.data-after-end", &["C24"], || format!("{name}: stream {} yielded data after the connection ended although reading after close is disabled", s.id));
                }
                if s.delivered + b.len() as u64 > s.received {
                    ctx::fail("data.not-received", &["C01", "C03", "C24", "C09"], || format!("{name}: stream {} yielded {} bytes, only {} received", s.id, s.delivered + b.len() as u64, s.received));
                } else if !s.amb && !s.blind && b != pat(peer, s.id, s.delivered, b.len()) {
                    ctx::fail("data.corrupt", &["C01", "C09", "C13", "C24", "C23", "C11"], || format!("{name}: stream {} yielded wrong bytes at position {}", s.id, s.delivered));
                }
                if b.len() > want {
                    ctx::fail("data.overread", &["C01", "C24"], || "more bytes than asked for".into());
                }
                s.delivered += b.len() as u64;
                ctx::outcome(s.delivered << 8 | s.id as u64);
                self.update_chance(i, false);
            }
            Ok(Some(_)) => {
                s.reader = None;
                if want == 0 {
                    return;
                }
                let drained = s.delivered == s.received;
                let ok = s.amb || ((s.fin_in || s.rst_in || failing) && drained) || (failing && !rac);
                if !ok {
                    ctx::fail("eof.early", &["C01", "C08", "C09", "C24", "C11", "C10", "C03", "C13"], || {
                        format!("{name}: stream {} reported end-of-stream with {} unread bytes (fin {} rst {} end {})", s.id, s.buffered(), s.fin_in, s.rst_in, cut)
                    });
                }
                ctx::outcome(0xE0F0 + s.id as u64);
            }
            Ok(None) => {
                s.reader = f.cloned();
                if strict && want == 0 && s.buffered() > 0 && !cut {
                    ctx::fail("read.pending-with-data", &["C01", "C06", "C07", "C22", "C24"], || format!("{name}: empty read on stream {} is pending with {} bytes available", s.id, s.buffered()));
                }
                if strict && want > 0 {
                    let end = s.fin_in || s.rst_in || cut;
                    if s.buffered() > 0 && !(cut && !rac) {
                        ctx::fail("read.pending-with-data", &["C01", "C06", "C24", "C22", "C07"], || format!("{name}: read on stream {} is pending with {} bytes available", s.id, s.buffered()));
                    } else if end {
                        ctx::fail("read.pending-at-end", &["C08", "C09", "C11", "C10", "C24", "C06", "C07"], || format!("{name}: read on stream {} is pending after its end (fin {} rst {} end {})", s.id, s.fin_in, s.rst_in, cut));
                    }
                }
            }
            Err(e) => {
                s.reader = None;
                {
                    ctx::fail("read.error", &["C24", "C11", "C10", "C08", "C23"], || format!("{name}: read on stream {} failed: {e}", s.id));
                }
            }
        }
    }

    pub fn on_write_begin(&mut self, i: usize, len: usize) {
        let s = &mut self.s[i];
        // one task drives the write half: its previous operation is superseded
        s.closer = None;
        s.flusher = None;
        s.w_intent = s.written + len as u64;
    }

    pub fn on_close_begin(&mut self, i: usize) {
        let s = &mut self.s[i];
        s.writer = None;
        s.flusher = None;
        s.c_intent = 1;
    }

    pub fn on_flush(&mut self, i: usize, r: &std::task::Poll<std::io::Result<()>>, f: &Arc<Flag>) {
        let name = self.name;
        let cut = self.cut();
        let failing = self.failing();
        let strict = self.strict;
        let s = &mut self.s[i];
        s.writer = None;
        s.closer = None;
        match r {
            std::task::Poll::Ready(Ok(())) => s.flusher = None,
            std::task::Poll::Ready(Err(e)) => {
                s.flusher = None;
                if !failing {
                    ctx::fail("flush.error", &["C08", "C11"], || format!("{name}: flush of healthy stream {} failed: {e}", s.id));
                }
            }
            std::task::Poll::Pending => {
                s.flusher = Some(f.clone());
                if strict && (cut || (s.queued() == 0 && !s.maybe_wu)) {
                    ctx::fail("flush.pending", &["C07", "C06", "C11"], || format!("{name}: flush of stream {} is pending without reason", s.id));
                }
            }
        }
    }

    pub fn on_write(&mut self, i: usize, len: usize, res: Result<Option<usize>, String>, f: Option<&Arc<Flag>>) {
        let name = self.name;
        let cut = self.cut();
        let failing = self.failing();
        let strict = self.strict;
        let concurrent = self.concurrent;
        let split = self.split as u64;
        let s = &mut self.s[i];
        s.w_intent = 0;
        match res {
            Ok(Some(n)) => {
                s.writer = None;
                let n = n as u64;
                if !concurrent {
                    if s.closed_local {
                        ctx::fail("write.after-close", &["C08"], || format!("{name}: write on stream {} accepted after close", s.id));
                    }
                    if s.rst_in {
                        ctx::fail("write.after-reset", &["C09"], || format!("{name}: write on stream {} accepted after reset", s.id));
                    }
                    if cut {
                        ctx::fail("write.after-end", &["C10", "C11"], || format!("{name}: write on stream {} accepted after the connection ended", s.id));
                    }
                }
                if n > len as u64 || (n == 0 && len > 0) {
                    ctx::fail("write.count", &["C01", "C02", "C08"], || format!("{name}: write of {len} bytes returned {n}"));
                }
                if n > s.credit() {
                    ctx::fail("credit.write", &["C02"], || format!("{name}: write accepted {n} bytes with credit {}", s.credit()));
                    s.credit_total = s.written + n;
                }
                let _ = split;
                if s.queued() == 0 {
                    s.wait_by.clear();
                }
                s.written += n;
                s.write_ends.push_back(s.written);
                while s.write_ends.front().map(|e| *e <= s.emitted).unwrap_or(false) && n > 0 {
                    s.write_ends.pop_front();
                }
                s.ack_queued = true;
                let q = s.queued();
                if q > 16 {
                    ctx::fail("queue.unbounded", &["C20"], || format!("{name}: {q} frames of stream {} accepted but not sent", s.id));
                }
                self.max_unsent = self.max_unsent.max(q);
                ctx::outcome(n << 8 | 0x80 | s.id as u64);
            }
            Ok(None) => {
                s.writer = f.cloned();
                if strict {
                    if (s.rst_in || cut) && !s.closed_local {
                        ctx::fail("write.pending-at-end", &["C09", "C11", "C10", "C06", "C07"], || format!("{name}: write on stream {} is pending after its end", s.id));
                    } else if s.credit() > 0 && s.queued() == 0 && !s.closed_local && !s.maybe_wu {
                        ctx::fail("write.pending", &["C02", "C06"], || format!("{name}: write on stream {} is pending with credit {} and nothing queued", s.id, s.credit()));
                    }
                }
            }
            Err(e) => {
                s.writer = None;
                if !(s.closed_local || s.rst_in || failing) {
                    ctx::fail("write.error", &["C08", "C09", "C11", "C22"], || format!("{name}: write on healthy stream {} failed: {e}", s.id));
                }
                ctx::outcome(0xEE00 + s.id as u64);
            }
        }
    }

    pub fn on_close(&mut self, i: usize, res: Result<bool, String>, f: Option<&Arc<Flag>>) {
        let name = self.name;
        let cut = self.cut();
        let concurrent = self.concurrent;
        let failing = self.failing();
        let strict = self.strict;
        let s = &mut self.s[i];
        s.c_intent = 0;
        match res {
            Ok(true) => {
                s.closer = None;
                if s.closed_local {
                    // closing again achieves nothing
                } else if !(s.dead() || cut) {
                    s.closes += 1;
                    s.closed_local = true;
                    s.ack_queued = true;
                    let q = s.queued();
                    if q > 16 {
                        ctx::fail("queue.unbounded", &["C20"], || format!("{name}: {q} frames of stream {} accepted but not sent", s.id));
                    }
                } else {
                    s.closed_local = true;
                    s.late_close |= concurrent;
                }
            }
            Ok(false) => {
                s.closer = f.cloned();
                if strict && (s.dead() || cut || s.closed_local || (s.queued() == 0 && !s.maybe_wu)) {
                    ctx::fail("close.pending", &["C08", "C06", "C11"], || format!("{name}: close of stream {} is pending without reason", s.id));
                }
            }
            Err(e) => {
                s.closer = None;
                if !failing && !s.rst_in {
                    ctx::fail("close.error", &["C08", "C11"], || format!("{name}: close of healthy stream {} failed: {e}", s.id));
                }
            }
        }
    }

    pub fn on_drop(&mut self, i: usize) {
        let ended = self.ended.is_some() || self.dropped;
        let s = &mut self.s[i];
        s.alive = false;
        s.reader = None;
        s.writer = None;
        s.closer = None;
        s.flusher = None;
        if ended {
            s.gone = true;
        }
    }

    /// State queries on a live handle.
    pub fn on_query(&self, i: usize, id: u32, closed: bool, write_closed: bool, pending_ack: bool) {
        let name = self.name;
        let s = &self.s[i];
        let cut = self.cut();
        if id != s.id {
            ctx::fail("id.handle", &["C15"], || format!("{name}: handle reports id {id}, stream is {}", s.id));
        }
        let dead = s.dead() || cut;
        if closed != dead {
            ctx::fail("query.closed", &["C08", "C09", "C11", "C10"], || format!("{name}: stream {} reports closed={closed} (fin {} close {} rst {} end {cut})", s.id, s.fin_in, s.closed_local, s.rst_in));
        }
        if !dead && write_closed != s.closed_local {
            ctx::fail("query.write-closed", &["C08"], || format!("{name}: stream {} reports write_closed={write_closed}", s.id));
        }
        if s.open() && !cut {
            let exp = if s.out { !s.ack_in } else { !s.ack_queued };
            let ambiguous = s.amb_ack || (!s.out && !s.ack_queued && s.maybe_wu);
            if pending_ack != exp && !ambiguous {
                ctx::fail("query.pending-ack", &["C16"], || format!("{name}: stream {} reports pending_ack={pending_ack}, expected {exp}", s.id));
            }
        } else if dead && pending_ack {
            ctx::fail("query.pending-ack", &["C16"], || format!("{name}: ended stream {} reports it is awaiting acknowledgement", s.id));
        }
    }

    // ------------------------------------------------------------------ quiescence

    /// The driver has nothing left to do. `open_tx`: the transport accepts bytes.
    pub fn on_quiescent(&mut self, open_tx: bool, unflushed: usize, rx_pending: usize) {
        let name = self.name;
        let cut = self.cut();
        if let Some(e) = self.expect_end {
            if self.ended.is_none() && !cut {
                ctx::fail("end.missing", &["C11", "C12"], || format!("{name}: the connection should have ended ({e:?})"));
            }
        }
        if self.ended.is_none() && open_tx && !self.closing && !self.dropped {
            if self.err_goaways < self.must_goaway && self.win_violation {
                ctx::fail("goaway.window", &["C20"], || format!("{name}: payload beyond the window was not refused"));
            }
            if self.err_goaways < self.must_goaway {
                ctx::fail("goaway.missing", &["C03", "C13", "C18", "C19"], || format!("{name}: a violation of the remote was not answered with an error GoAway"));
            }
            if !self.pongs_due.is_empty() && !self.hostile {
                ctx::fail("ping.unanswered", &["C19", "C06"], || format!("{name}: ping {:?} was not answered", self.pongs_due.front()));
            }
            if unflushed > 0 {
                ctx::fail("idle.unflushed", &["C21", "C06", "C07"], || format!("{name}: {unflushed} bytes left unflushed"));
            }
            if rx_pending > 0 {
                ctx::fail("idle.unread", &["C06", "C22", "C07", "C01"], || format!("{name}: {rx_pending} received bytes left unread"));
            }
            if !self.pout.at_boundary() {
                ctx::fail("idle.torn", &["C21", "C14", "C06"], || format!("{name}: idle in the middle of a frame"));
            }
        }
        if self.ended.is_none() && !self.expect_accept.is_empty() && !cut && self.must_goaway == 0 {
            let id = self.s[self.expect_accept[0]].id;
            ctx::fail("accept.missing", &["C13", "C18", "C06", "C03", "C12"], || format!("{name}: inbound stream {id} was not handed out"));
        }
        let rac = self.rac;
        let hostile = self.hostile;
        let ended = self.ended.is_some() || self.closing || self.dropped;
        for s in &mut self.s {
            if s.gone {
                continue;
            }
            if open_tx && !ended {
                if s.queued() > 0 && !(s.rst_in) && s.alive {
                    ctx::fail("idle.unsent", &["C06", "C07", "C21", "C22", "C08"], || format!("{name}: {} accepted frames of stream {} were not sent", s.queued(), s.id));
                }
                s.maybe_wu = false;
                if !s.alive && s.accepted_or_out() {
                    // the connection has processed the drop
                    // a FIN ends the remote's writes only if the remote has finished them itself
                    let informed = s.rst_out || s.rst_in || s.fins_out > 0 && (s.fin_in || s.maybe_fin || s.closes > 0 || s.late_close);
                    if !informed {
                        ctx::fail("drop.silent", &["C09"], || format!("{name}: stream {} was dropped without informing the remote", s.id));
                    }
                    if s.written > s.emitted && !s.rst_in {
                        ctx::fail("drop.lost-data", &["C01", "C09"], || format!("{name}: stream {} was dropped and {} accepted bytes were never sent", s.id, s.written - s.emitted));
                    }
                    s.gone = true;
                    continue;
                }
                // credit
                if s.alive && s.polled_reads && s.buffered() == 0 && s.delivered_at_poll == s.delivered && !s.fin_in && !s.rst_in && !s.amb {
                    let rem = s.remote_credit();
                    if rem < s.win_seen / 2 || rem == 0 {
                        ctx::fail("credit.withheld", &["C04", "C06"], || format!("{name}: everything on stream {} was read, yet the remote is left with {rem} of {} bytes credit", s.id, s.win_seen));
                    }
                }
            }
            if let Some(r) = &s.reader {
                let readable = s.buffered() > 0 && !(cut && !rac);
                if (readable || s.fin_in || s.rst_in || ended) && !r.get() && !s.amb {
                    ctx::fail("wake.reader", &["C07", "C06", "C11", "C10", "C09", "C08", "C24"], || {
                        format!("{name}: reader of stream {} not woken (data {} fin {} rst {} end {})", s.id, s.buffered(), s.fin_in, s.rst_in, ended)
                    });
                }
            }
            if let Some(w) = &s.writer {
                let able = s.rst_in || ended || (s.credit() > 0 && (s.queued() == 0 && open_tx));
                if able && !w.get() && !s.closed_local {
                    ctx::fail("wake.writer", &["C07", "C06", "C11", "C10", "C09", "C02"], || {
                        format!("{name}: writer of stream {} not woken (credit {} queued {} rst {} end {})", s.id, s.credit(), s.queued(), s.rst_in, ended)
                    });
                }
            }
            if let Some(w) = &s.flusher {
                if (ended || (s.queued() == 0 && open_tx)) && !w.get() {
                    ctx::fail("wake.flusher", &["C07", "C06", "C11"], || format!("{name}: flusher of stream {} not woken", s.id));
                }
            }
            if let Some(w) = &s.closer {
                let able = ended || (s.queued() == 0 && open_tx);
                if able && !w.get() {
                    ctx::fail("wake.closer", &["C07", "C06", "C11", "C08"], || format!("{name}: closer of stream {} not woken", s.id));
                }
            }
        }
        if let Some(o) = &self.opener {
            let (d, z) = self.backlog();
            // a blocked connection has not seen local closes yet
            let unseen = if open_tx { 0 } else { self.s.iter().filter(|s| !s.gone && s.out && !s.ack_in && !s.rst_in && !s.fin_in && s.closed_local && s.fins_out == 0).count() };
            if (d + z + unseen < 256 || ended) && !o.get() && !hostile {
                ctx::fail("wake.opener", &["C07", "C17", "C06"], || format!("{name}: waiting open not woken ({} unacknowledged streams, ended {ended})", d + z));
            }
        }
        if !open_tx && self.pongs_due.len() > 4 {
            ctx::fail("queue.pings", &["C20"], || format!("{name}: {} pings taken in but not answered while the transport is blocked", self.pongs_due.len()));
        }
    }

    pub fn hash(&self) -> u64 {
        let mut h = H::new();
        for (id, i) in &self.cur {
            let s = &self.s[*i];
            if s.gone {
                h32(&mut h, 0x60 + *id as u64);
                continue;
            }
            h.u(*id as u64).u(s.credit()).u(s.written - s.emitted).u(s.buffered()).u(s.remote_credit()).u(s.win_seen);
            let mut f = 0u64;
            for (k, b) in [
                s.out, s.alive, s.closed_local, s.fins_out > 0, s.rst_out, s.syn_out, s.ack_out, s.ack_queued, s.fin_in, s.rst_in, s.ack_in, s.accepted, s.amb || s.blind, s.maybe_wu,
                s.reader.is_some(), s.writer.is_some(), s.closer.is_some(), s.polled_reads,
                s.reader.as_ref().map(|r| r.get()).unwrap_or(false), s.writer.as_ref().map(|r| r.get()).unwrap_or(false), s.flusher.is_some(),
            ]
            .into_iter()
            .enumerate()
            {
                f |= (b as u64) << k;
            }
            h.u(f).u(s.write_ends.len() as u64);
        }
        h.u(self.must_goaway as u64).u(self.err_goaways as u64).u(self.goaway0 as u64);
        h.b(self.closing).b(self.close_done).u(self.ended.map(|e| e as u64 + 1).unwrap_or(0)).u(self.expect_end.map(|e| e as u64 + 1).unwrap_or(0));
        h.b(self.ping_out.is_some()).u(self.pongs_due.len() as u64).u(self.pout.partial() as u64).u(self.pin.partial() as u64);
        h.u(self.rtt.map(|r| r + 1).unwrap_or(0));
        h.u(self.last_pong.map(|t| ((mc_rt::now_nanos() - t) / 1_000_000).min(10_001) + 1).unwrap_or(0));
        h.b(self.opener.is_some());
        h.u(self.last_out_id as u64);
        h.0
    }
}

impl SMon {
    pub fn accepted_or_out(&self) -> bool {
        self.out || self.accepted
    }
}
