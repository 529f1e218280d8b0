//! Environment B: two real connections over bounded pipes. Drivers, openers, readers and writers are
//! tasks of a deterministic executor; every scheduling decision, transport answer and event position
//! is a choice. A task only ever honours the waker of its latest poll.
use crate::ctx::{self, H};
use crate::env::*;
use crate::explore::{Kind, Scenario};
use crate::mon::*;
use crate::solo::check_quiet;
use std::cell::{Cell, RefCell};
use std::future::{poll_fn, Future};
use std::pin::Pin;
use std::rc::Rc;
use std::sync::Arc;
use std::task::{Context, Poll};

#[derive(Copy, Clone, Debug, PartialEq)]
pub enum Act {
    /// write all of n bytes
    W(usize),
    /// one accepted write call of at most n bytes
    W1(usize),
    F,
    C,
    /// one successful read of at most n bytes
    R(usize),
    /// read exactly n bytes (or to the end)
    RX(usize),
    /// read to the end
    RA,
    /// packets to the end
    P,
    /// drop the handle
    D,
    /// let others run first
    Y,
}

pub type Script = &'static [Act];

#[derive(Clone, Debug)]
pub struct StreamPlan {
    /// alternatives; each a set of concurrent tasks over the handle
    pub local: Vec<Vec<Script>>,
    pub remote: Vec<Vec<Script>>,
}

impl StreamPlan {
    pub fn new(local: &[&[Script]], remote: &[&[Script]]) -> Self {
        StreamPlan { local: local.iter().map(|x| x.to_vec()).collect(), remote: remote.iter().map(|x| x.to_vec()).collect() }
    }
}

#[derive(Copy, Clone, Debug, PartialEq)]
pub enum Event {
    CloseConn(usize),
    DropConn(usize),
    /// both directions fail at once
    Cut,
    /// reads of that side end
    Eof(usize),
    WriteErr(usize),
}

#[derive(Clone)]
pub struct Pair {
    pub name: String,
    pub cfgs: [Cfg; 2],
    /// capacity of the pipe from 0 to 1 and back
    pub caps: [usize; 2],
    pub flush_mode: bool,
    pub io_devs: bool,
    pub chunk: usize,
    /// size of the transport's own write buffer
    pub wcap: usize,
    pub open: [Vec<StreamPlan>; 2],
    pub events: Vec<Event>,
    pub max_dev: u32,
    pub sched_devs: bool,
    /// what is written arrives that much later (half the round trip)
    pub delay_ms: u64,
}

impl Pair {
    pub fn new(name: &str, caps: [usize; 2], open0: Vec<StreamPlan>, open1: Vec<StreamPlan>) -> Self {
        Pair {
            name: name.into(),
            cfgs: [Cfg::client(), Cfg::server()],
            caps,
            flush_mode: false,
            io_devs: false,
            chunk: usize::MAX,
            wcap: 0,
            open: [open0, open1],
            events: vec![],
            max_dev: 1,
            sched_devs: true,
            delay_ms: 0,
        }
    }
    pub fn dev(mut self, n: u32) -> Self {
        self.max_dev = n;
        self
    }
    pub fn events(mut self, e: &[Event]) -> Self {
        self.events = e.to_vec();
        self
    }
    pub fn flushy(mut self) -> Self {
        self.flush_mode = true;
        self
    }
    pub fn io(mut self) -> Self {
        self.io_devs = true;
        self
    }
    pub fn delay(mut self, ms: u64) -> Self {
        self.delay_ms = ms;
        self
    }
    pub fn wbuf(mut self, n: usize) -> Self {
        self.wcap = n;
        self
    }
    pub fn split(mut self, n: usize) -> Self {
        for c in &mut self.cfgs {
            c.split = n;
        }
        self
    }
    pub fn cfg(mut self, f: impl Fn(&mut Cfg)) -> Self {
        for c in &mut self.cfgs {
            f(c);
        }
        self
    }
    pub fn nosched(mut self) -> Self {
        self.sched_devs = false;
        self
    }
    pub fn scenario(self) -> Scenario {
        let name = self.name.clone();
        let kind = Kind::Dfs { max_dev: self.max_dev, depth: 0 };
        Scenario { name, body: Arc::new(move || run(&self)), kind, weight: 1.0 }
    }
}

struct Task {
    fut: Pin<Box<dyn Future<Output = ()>>>,
    flag: Arc<Flag>,
    name: String,
}

struct World {
    ep: [Rc<Ep>; 2],
    spawn: RefCell<Vec<Task>>,
    eof_ok: RefCell<Vec<(usize, usize)>>,
    plan: [Vec<(Vec<Script>, Vec<Script>)>; 2],
    cut: Cell<bool>,
}

thread_local! {
    static CUR: RefCell<Arc<Flag>> = RefCell::new(Flag::new());
}
fn cur() -> Arc<Flag> {
    CUR.with(|c| c.borrow().clone())
}

impl World {
    fn spawn(&self, name: String, fut: impl Future<Output = ()> + 'static) {
        let flag = Flag::new();
        waker(&flag).wake_by_ref();
        self.spawn.borrow_mut().push(Task { fut: Box::pin(fut), flag, name });
    }
}

async fn yield_now() {
    let mut y = false;
    poll_fn(|cx| {
        if y {
            return Poll::Ready(());
        }
        y = true;
        cx.waker().wake_by_ref();
        Poll::Pending
    })
    .await
}

async fn actor(w: Rc<World>, side: usize, i: usize, script: Script) {
    let ep = w.ep[side].clone();
    for a in script {
        if !ep.alive(i) {
            return;
        }
        match *a {
            Act::Y => yield_now().await,
            Act::D => ep.drop_stream(i),
            Act::W(n) => {
                let mut left = n;
                while left > 0 {
                    match poll_fn(|cx| ep.write(i, left.min(500_000), cx, &cur())).await {
                        Ok(k) => left -= k.min(left),
                        Err(()) => return,
                    }
                }
            }
            Act::W1(n) => {
                if poll_fn(|cx| ep.write(i, n, cx, &cur())).await.is_err() {
                    return;
                }
            }
            Act::F => {
                if poll_fn(|cx| ep.flush(i, cx, &cur())).await.is_err() {
                    return;
                }
            }
            Act::C => {
                let _ = poll_fn(|cx| ep.close(i, cx, &cur())).await;
            }
            Act::R(n) => {
                let _ = poll_fn(|cx| ep.read(i, n, cx, &cur())).await;
            }
            Act::RX(n) => {
                let mut left = n;
                while left > 0 {
                    match poll_fn(|cx| ep.read(i, left, cx, &cur())).await {
                        Ok(0) | Err(()) => return,
                        Ok(k) => left -= k,
                    }
                }
            }
            Act::RA => loop {
                match poll_fn(|cx| ep.read(i, 256 * 1024, cx, &cur())).await {
                    Ok(0) => {
                        w.eof_ok.borrow_mut().push((side, i));
                        break;
                    }
                    Ok(_) => {}
                    Err(()) => return,
                }
            },
            Act::P => loop {
                match poll_fn(|cx| ep.read_packet(i, cx, &cur())).await {
                    Ok(0) => {
                        w.eof_ok.borrow_mut().push((side, i));
                        break;
                    }
                    Ok(_) => {}
                    Err(()) => return,
                }
            },
        }
    }
}

async fn driver(w: Rc<World>, side: usize) {
    let ep = w.ep[side].clone();
    loop {
        let d = poll_fn(|cx| {
            if ep.done.get() || !ep.has_conn() {
                return Poll::Ready(Drive::End);
            }
            *ep.driver.borrow_mut() = cur();
            match ep.poll_driver(cx) {
                Drive::Pending => Poll::Pending,
                d => Poll::Ready(d),
            }
        })
        .await;
        match d {
            Drive::Accepted(Some(i)) => {
                let id = ep.io.mon.borrow().s[i].id;
                let k = ((id - 1) / 2) as usize;
                let scripts = w.plan[1 - side].get(k).map(|p| p.1.clone()).unwrap_or_default();
                for (n, s) in scripts.into_iter().enumerate() {
                    w.spawn(format!("{}.in{id}.{n}", ep.io.mon.borrow().name), actor(w.clone(), side, i, s));
                }
                // the next poll happens when the scheduler gets back to this task
                yield_now().await;
            }
            Drive::Accepted(None) => yield_now().await,
            _ => {
                // as applications do: an ended connection is dropped
                if ep.has_conn() {
                    yield_now().await;
                    ep.drop_conn();
                }
                return;
            }
        }
    }
}

async fn opener(w: Rc<World>, side: usize) {
    let ep = w.ep[side].clone();
    for k in 0..w.plan[side].len() {
        if !ep.has_conn() {
            return;
        }
        let r = poll_fn(|cx| {
            if !ep.has_conn() {
                return Poll::Ready(Err(()));
            }
            ep.poll_open(cx, &cur()).map_err(|_| ())
        })
        .await;
        let Ok(i) = r else { return };
        let id = ep.io.mon.borrow().s[i].id;
        for (n, s) in w.plan[side][k].0.iter().enumerate() {
            w.spawn(format!("{}.out{id}.{n}", ep.io.mon.borrow().name), actor(w.clone(), side, i, s));
        }
    }
}

fn fire(w: &World, e: Event) {
    ctx::note(|| format!("--- {e:?}"));
    match e {
        Event::CloseConn(s) => {
            if w.ep[s].has_conn() && !w.ep[s].closing_api.get() {
                w.ep[s].start_close()
            }
        }
        Event::DropConn(s) => {
            if w.ep[s].has_conn() {
                w.ep[s].drop_conn()
            }
        }
        Event::Cut => {
            w.cut.set(true);
            for s in 0..2 {
                let io = &w.ep[s].io;
                let mut r = io.rx.borrow_mut();
                r.read_err = true;
                r.write_err = true;
                r.wake_reader();
                r.wake_writer();
            }
        }
        Event::Eof(s) => {
            let mut r = w.ep[s].io.rx.borrow_mut();
            r.set_eof();
        }
        Event::WriteErr(s) => {
            let mut t = w.ep[s].io.tx.borrow_mut();
            t.write_err = true;
            t.wake_writer();
        }
    }
}

fn key(w: &World, tasks: &[Task]) -> u64 {
    let mut h = H::new();
    for e in &w.ep {
        h.u(e.io.mon.borrow().hash());
        h.b(e.done.get()).b(e.has_conn()).b(e.closing_api.get());
        let t = e.io.tx.borrow();
        h.u(t.len() as u64).u(t.flight as u64).b(t.closed).u(t.unflushed as u64).b(t.eof);
    }
    h.u(tasks.len() as u64);
    for t in tasks {
        h.b(t.flag.get());
    }
    h.0
}

pub fn run(sc: &Pair) {
    let ab = Pipe::new(sc.caps[0]);
    let ba = Pipe::new(sc.caps[1]);
    for p in [&ab, &ba] {
        let mut p = p.borrow_mut();
        p.flush_mode = sc.flush_mode;
        p.devs = sc.io_devs;
        p.chunk = sc.chunk;
        p.wcap = sc.wcap;
        p.delayed = sc.delay_ms > 0;
    }
    let e0 = Ep::new("A", 0, &sc.cfgs[0], ba.clone(), ab.clone());
    let e1 = Ep::new("B", 1, &sc.cfgs[1], ab, ba);
    for e in [&e0, &e1] {
        e.mon().strict = true;
    }
    let pick = |v: &Vec<StreamPlan>| -> Vec<(Vec<Script>, Vec<Script>)> {
        v.iter().map(|p| (p.local[ctx::choose(p.local.len())].clone(), p.remote[ctx::choose(p.remote.len())].clone())).collect()
    };
    let plan = [pick(&sc.open[0]), pick(&sc.open[1])];
    let w = Rc::new(World { ep: [e0, e1], spawn: RefCell::new(vec![]), eof_ok: RefCell::new(vec![]), plan, cut: Cell::new(false) });
    let r = {
        let w = w.clone();
        std::panic::catch_unwind(std::panic::AssertUnwindSafe(move || body(sc, &w)))
    };
    w.spawn.borrow_mut().clear();
    w.ep[0].teardown();
    w.ep[1].teardown();
    if let Err(e) = r {
        std::panic::resume_unwind(e);
    }
}

fn poll_task(t: &mut Task) -> bool {
    let f = Flag::new();
    t.flag = f.clone();
    CUR.with(|c| *c.borrow_mut() = f.clone());
    let wk = waker(&f);
    t.fut.as_mut().poll(&mut Context::from_waker(&wk)).is_ready()
}

const HORIZON: u32 = 60_000;

fn body(sc: &Pair, w: &Rc<World>) {
    let mut tasks: Vec<Task> = vec![];
    for s in 0..2 {
        w.spawn(format!("{}.driver", w.ep[s].io.mon.borrow().name), driver(w.clone(), s));
        if !sc.open[s].is_empty() {
            w.spawn(format!("{}.opener", w.ep[s].io.mon.borrow().name), opener(w.clone(), s));
        }
    }
    let mut events: Vec<Event> = sc.events.clone();
    let mut polls = 0u32;
    let mut kicked = false;
    loop {
        tasks.append(&mut w.spawn.borrow_mut());
        if ctx::over() {
            break;
        }
        let mut run: Vec<(usize, usize)> = tasks.iter().enumerate().filter(|(_, t)| t.flag.get()).map(|(i, t)| (t.flag.stamp.load(std::sync::atomic::Ordering::Relaxed), i)).collect();
        run.sort();
        if run.is_empty() {
            // nothing can run before something arrives
            if w.ep.iter().any(|e| e.io.tx.borrow().flight > 0) {
                ctx::note(|| format!("--- {} ms", sc.delay_ms));
                mc_rt::advance(sc.delay_ms * 1_000_000);
                for e in &w.ep {
                    e.io.tx.borrow_mut().land();
                }
                continue;
            }
            // nothing can run: every party must have a reason to wait
            if !kicked {
                kicked = true;
                for e in &w.ep {
                    check_quiet(e);
                }
                deadlock(w);
                if ctx::over() {
                    break;
                }
                kick(w, &mut tasks);
                continue;
            }
            if events.is_empty() {
                break;
            }
            kicked = false;
            let k = ctx::no_dev(|| 0);
            let e = events.remove(k);
            fire(w, e);
            continue;
        }
        polls += 1;
        if polls > HORIZON {
            ctx::fail("livelock", &["C06", "C07", "C12"], || format!("no rest after {HORIZON} polls"));
            break;
        }
        ctx::state(key(w, &tasks));
        let n = run.len() + if events.is_empty() { 0 } else { 1 };
        let k = if sc.sched_devs || !events.is_empty() {
            if sc.sched_devs {
                ctx::dev(n)
            } else {
                // only the position of the event is a choice
                if ctx::dev(2) == 1 {
                    run.len()
                } else {
                    0
                }
            }
        } else {
            0
        };
        kicked = false;
        if k >= run.len() {
            let e = events.remove(0);
            fire(w, e);
            continue;
        }
        let i = run[k].1;
        ctx::note(|| format!("> {}", tasks[i].name));
        if poll_task(&mut tasks[i]) {
            drop(tasks.remove(i));
        }
    }
    if !ctx::over() {
        finals(sc, w);
    }
    tasks.clear();
}

/// A driver nobody woke must not be able to achieve anything.
fn kick(w: &World, tasks: &mut [Task]) {
    for s in 0..2 {
        let ep = &w.ep[s];
        if ep.done.get() || !ep.has_conn() || ctx::over() {
            continue;
        }
        let name = format!("{}.driver", ep.io.mon.borrow().name);
        let snap = |w: &World| {
            let a = w.ep[s].io.mon.borrow();
            (a.in_bytes + a.out_bytes, a.pings_sent.len(), a.s.len(), w.ep[s].done.get(), w.ep[s].io.tx.borrow().unflushed)
        };
        let a = snap(w);
        if let Some(t) = tasks.iter_mut().find(|t| t.name == name) {
            poll_task(t);
        }
        let b = snap(w);
        if a != b && a.1 == b.1 {
            ctx::fail("wake.driver", &["C07", "C06"], || format!("{name} was asleep, yet polling it made progress"));
        }
    }
}

/// Nothing moves: look for parties that wait for each other.
fn deadlock(w: &World) {
    if ctx::over() {
        return;
    }
    for s in 0..2 {
        let (e, p) = (&w.ep[s], &w.ep[1 - s]);
        let m = e.io.mon.borrow();
        let pm = p.io.mon.borrow();
        // bytes nobody takes
        let full = e.io.tx.borrow().stuck();
        let taking = p.has_conn() && !p.done.get();
        let waiting = e.io.tx.borrow().buffered() > 0 || !m.pout.at_boundary() || m.s.iter().any(|x| x.queued() > 0 && !x.gone) || !m.pongs_due.is_empty();
        if full && taking && e.has_conn() && !e.done.get() && (waiting || e.closing_api.get()) {
            ctx::fail("deadlock.transport", &["C06", "C10", "C07", "C22"], || {
                format!("{} waits for room in the transport, {} does not read it (closing: {} {})", m.name, pm.name, m.closing, pm.closing)
            });
        }
        // a reader and a writer of one stream wait for each other
        if m.cut() || pm.cut() || m.hostile || pm.hostile {
            continue;
        }
        for x in &m.s {
            if x.writer.is_none() || x.gone {
                continue;
            }
            let Some(y) = pm.cur.get(&x.id).map(|i| &pm.s[*i]) else { continue };
            if !y.alive && !full {
                ctx::fail("deadlock.forsaken", &["C09"], || {
                    format!("{} waits to write on stream {} (credit {}), which {} has closed and dropped without reading it: the writer waits for ever", m.name, x.id, x.credit(), pm.name)
                });
            }
            if y.alive && y.reader.is_some() && y.buffered() == 0 && !full {
                ctx::fail("deadlock.stream", &["C06", "C02", "C04", "C07", "C22"], || {
                    format!("{} waits to write on stream {} (credit {}), {} waits to read it", m.name, x.id, x.credit(), pm.name)
                });
            }
            if y.alive && y.reader.is_none() && y.polled_reads {
                continue;
            }
        }
        for x in &m.s {
            // everything accepted for sending arrives at a peer that waits for it
            if x.gone || x.reader.is_none() || x.fin_in || x.rst_in {
                continue;
            }
            let Some(y) = pm.cur.get(&x.id).map(|i| &pm.s[*i]) else { continue };
            if y.written > x.received && !pm.closing {
                ctx::fail("deadlock.data", &["C06", "C01", "C07", "C22"], || format!("{} waits for data on stream {} of which {} bytes are stuck at {}", m.name, x.id, y.written - x.received, pm.name));
            }
            if y.closed_local && !y.gone && y.closes > 0 {
                ctx::fail("deadlock.eof", &["C06", "C08", "C07", "C22"], || format!("{} waits for the end of stream {} which {} has closed", m.name, x.id, pm.name));
            }
        }
    }
}

fn finals(sc: &Pair, w: &Rc<World>) {
    // a reader that saw a proper end got everything
    for (s, i) in w.eof_ok.borrow().iter() {
        let m = w.ep[*s].io.mon.borrow();
        let pm = w.ep[1 - *s].io.mon.borrow();
        let x = &m.s[*i];
        if !x.fin_in || x.rst_in || (!m.rac && m.cut()) {
            continue;
        }
        if let Some(j) = pm.cur.get(&x.id) {
            let y = &pm.s[*j];
            if x.delivered != y.written {
                ctx::fail("data.incomplete", &["C01", "C08", "C06"], || format!("{}: stream {} ended after {} of {} bytes", m.name, x.id, x.delivered, y.written));
            }
        }
    }
    let _ = sc;
    for e in &w.ep {
        if (e.closing_api.get() || w.cut.get()) && e.has_conn() && !e.done.get() {
            let m = e.io.mon.borrow();
            ctx::fail("end.stuck", &["C10", "C11", "C06"], || format!("{}: the connection does not end", m.name));
        }
        // one side gone: the other ends
        let m = e.io.mon.borrow();
        let eof = e.io.rx.borrow().eof;
        if eof && e.has_conn() && !e.done.get() {
            ctx::fail("end.stuck", &["C10", "C11", "C06"], || format!("{}: the connection does not end although its transport did", m.name));
        }
    }
}
