//! The explorer: parallel depth-first enumeration of choice sequences (stateless mode, iterated
//! deviation bound) and breadth-first search with state deduplication (graph mode).
use crate::ctx::{self, Rec, Shards};
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

pub type Body = Arc<dyn Fn() + Send + Sync>;

#[derive(Clone, Debug)]
pub enum Kind {
    /// All choice sequences; deviations up to the given bound.
    Dfs { max_dev: u32, depth: usize },
    /// All choice sequences up to script length `full`; beyond it, one per state key is continued.
    Frontier { max_dev: u32, full: usize, depth: usize },
    /// Breadth-first over the state key; `depth` = maximum script length.
    Graph { depth: usize },
}

#[derive(Clone)]
pub struct Scenario {
    pub name: String,
    pub body: Body,
    pub kind: Kind,
    pub weight: f64,
}

#[derive(Clone, Debug)]
pub struct Found {
    pub scenario: String,
    pub oracle: String,
    pub msg: String,
    pub choices: Vec<u16>,
    pub graph: bool,
    pub depth: usize,
}

#[derive(Default, Debug)]
pub struct Report {
    pub name: String,
    pub mode: String,
    pub executions: u64,
    pub steps: u64,
    pub states: u64,
    pub outcomes: u64,
    pub pruned: u64,
    pub merged: u64,
    pub divergences: u64,
    pub max_choices: u64,
    pub completed: String,
    pub exhaustive: bool,
    pub wall: f64,
    pub other: BTreeMap<String, u64>,
    pub found: Option<Found>,
    pub harness_error: Option<String>,
    pub sample_choices: Vec<u16>,
}

impl Report {
    pub fn mode_done(&self) -> String {
        format!("{} ({})", self.completed, self.mode)
    }
}

thread_local! {
    static PANIC: std::cell::RefCell<Option<(String, String)>> = const { std::cell::RefCell::new(None) };
    static BT: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}

static LAST_PANIC: Mutex<String> = Mutex::new(String::new());
pub static CRASH_FILE: Mutex<Option<String>> = Mutex::new(None);
static SCEN: Mutex<String> = Mutex::new(String::new());

thread_local! {
    static EXPECTED: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}

/// Whether `f` refuses to do its work by panicking.
pub fn expect_panic(f: impl FnOnce()) -> bool {
    EXPECTED.with(|e| e.set(true));
    let r = catch_unwind(AssertUnwindSafe(f));
    EXPECTED.with(|e| e.set(false));
    r.is_err()
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        if EXPECTED.with(|e| e.get()) {
            return;
        }
        let loc = info.location().map(|l| format!("{}:{}:{}", l.file(), l.line(), l.column())).unwrap_or_default();
        let msg = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_else(|| "panic".into());
        let fresh = PANIC.with(|p| {
            let mut p = p.borrow_mut();
            if p.is_none() {
                *p = Some((loc.clone(), msg.clone()));
                true
            } else {
                false
            }
        });
        if fresh && !is_harness(&loc) {
            // A second panic during unwinding aborts the process: leave a note for the parent.
            let choices: Vec<String> =
                ctx::CX_TRY(|e| e.log.iter().map(|r| r.t.to_string()).collect()).unwrap_or_default();
            let (graph, depth) = ctx::CX_TRY(|e| (e.graph, e.depth)).unwrap_or((false, 0));
            if let (Ok(f), Ok(s)) = (CRASH_FILE.try_lock(), SCEN.try_lock()) {
                if let Some(f) = f.as_ref() {
                    let _ = std::fs::write(f, format!("{}\n{}\n{}\n{}\n{} at {}", s, graph, depth, choices.join(","), msg, loc));
                }
            }
        }
        if let Ok(mut l) = LAST_PANIC.try_lock() {
            *l = format!("{msg} at {loc}");
        }
    }));
}

fn is_harness(loc: &str) -> bool {
    loc.starts_with("src/") || loc.contains("/verif/mc/src/") || loc.contains("mc/rt/")
}

pub struct RunResult {
    pub panic: Option<(String, String)>,
}

/// Run one execution.
pub fn run_one(body: &Body, prefix: Vec<u16>, graph: bool, depth: usize, tracing: bool) -> RunResult {
    run_merging(body, prefix, graph, depth, tracing, None)
}

fn run_merging(body: &Body, prefix: Vec<u16>, graph: bool, depth: usize, tracing: bool, merge: Option<(usize, Arc<Shards>)>) -> RunResult {
    ctx::begin(prefix, graph, depth, tracing);
    if let Some((full, seen)) = merge {
        ctx::with(|e| {
            e.full = full;
            e.seen = Some(seen);
        });
    }
    PANIC.with(|p| *p.borrow_mut() = None);
    let r = catch_unwind(AssertUnwindSafe(|| body()));
    mc_rt::set_hooks(None);
    let mut panic = None;
    if r.is_err() {
        let (loc, msg) = PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default();
        if is_harness(&loc) && !msg.starts_with("yamux-mc:") {
            panic = Some((loc, msg));
        } else {
            ctx::fail("panic", &[], || format!("panic: {msg} at {loc}"));
        }
    }
    RunResult { panic }
}

struct Item {
    log: Arc<[Rec]>,
    lo: usize,
    i: usize,
    alt: u16,
    devs: u32,
}

impl Item {
    fn next(&mut self, bound: u32) -> Option<(Vec<u16>, usize, u32)> {
        loop {
            if self.i < self.lo || self.log.is_empty() {
                return None;
            }
            let r = self.log[self.i];
            self.alt += 1;
            if self.alt >= r.n || (r.dev && self.devs + 1 > bound) {
                if self.i == 0 {
                    self.log = Arc::from([]);
                    return None;
                }
                self.i -= 1;
                self.alt = 0;
                continue;
            }
            let mut p: Vec<u16> = self.log[..self.i].iter().map(|r| r.t).collect();
            p.push(self.alt);
            let l = p.len();
            return Some((p, l, self.devs + r.dev as u32));
        }
    }
}

struct Stats {
    states: Shards,
    outcomes: Shards,
    executions: AtomicU64,
    steps: AtomicU64,
    pruned: AtomicU64,
    divergences: AtomicU64,
    max_choices: AtomicU64,
    other: Mutex<BTreeMap<String, u64>>,
    found: Mutex<Option<Found>>,
    harness: Mutex<Option<String>>,
    stop: AtomicBool,
    sample: Mutex<Vec<u16>>,
    slots: Vec<Slot>,
    merge: Mutex<Option<(usize, Arc<Shards>)>>,
    merged: AtomicU64,
    t0: Instant,
}

struct Slot {
    since: AtomicU64,
    prefix: Mutex<Vec<u16>>,
}

pub fn threads() -> usize {
    std::env::var("MC_THREADS").ok().and_then(|s| s.parse().ok()).unwrap_or_else(|| {
        std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(16)
    })
}

const HANG_SECS: u64 = 20;

impl Stats {
    fn new() -> Self {
        Stats {
            states: Shards::new(),
            outcomes: Shards::new(),
            executions: AtomicU64::new(0),
            steps: AtomicU64::new(0),
            pruned: AtomicU64::new(0),
            divergences: AtomicU64::new(0),
            max_choices: AtomicU64::new(0),
            other: Mutex::new(BTreeMap::new()),
            found: Mutex::new(None),
            harness: Mutex::new(None),
            stop: AtomicBool::new(false),
            sample: Mutex::new(vec![]),
            slots: (0..threads()).map(|_| Slot { since: AtomicU64::new(0), prefix: Mutex::new(vec![]) }).collect(),
            merge: Mutex::new(None),
            merged: AtomicU64::new(0),
            t0: Instant::now(),
        }
    }

    /// Run one execution on worker `w`; returns false when exploration must stop.
    fn exec(&self, w: usize, sc: &Scenario, prefix: Vec<u16>, graph: bool, depth: usize) -> bool {
        let slot = &self.slots[w];
        *slot.prefix.lock().unwrap() = prefix.clone();
        slot.since.store(self.t0.elapsed().as_millis() as u64 + 1, Relaxed);
        let merge = match sc.kind {
            Kind::Frontier { .. } => self.merge.lock().unwrap().clone(),
            _ => None,
        };
        let r = run_merging(&sc.body, prefix, graph, depth, false, merge);
        slot.since.store(0, Relaxed);
        let nth = self.executions.fetch_add(1, Relaxed) + 1;
        if nth.is_power_of_two() {
            *self.sample.lock().unwrap() = ctx::with(|e| e.log.iter().map(|r| r.t).collect());
        }
        if let Some((loc, msg)) = r.panic {
            let ch: Vec<u16> = ctx::with(|e| e.log.iter().map(|r| r.t).collect());
            self.harness.lock().unwrap().get_or_insert(format!("{} at {} in {} choices {:?}", msg, loc, sc.name, ch));
            self.stop.store(true, Relaxed);
            return false;
        }
        ctx::with(|e| {
            self.steps.fetch_add(e.steps, Relaxed);
            self.pruned.fetch_add((e.pruned && !e.merged) as u64, Relaxed);
            self.merged.fetch_add(e.merged as u64, Relaxed);
            self.divergences.fetch_add(e.divergences, Relaxed);
            self.max_choices.fetch_max(e.log.len() as u64, Relaxed);
            for s in e.states.drain(..) {
                self.states.insert(s);
            }
            self.outcomes.insert(e.outcome);
            if !e.other.is_empty() {
                let mut o = self.other.lock().unwrap();
                for (k, v) in &e.other {
                    *o.entry(k.to_string()).or_default() += v;
                }
            }
            if let Some(v) = e.viol.take() {
                let mut f = self.found.lock().unwrap();
                let choices: Vec<u16> = e.log.iter().map(|r| r.t).collect();
                let better = f.as_ref().map(|o| choices.len() < o.choices.len()).unwrap_or(true);
                if better {
                    *f = Some(Found { scenario: sc.name.clone(), oracle: v.oracle, msg: v.msg, choices, graph, depth: e.depth });
                }
                self.stop.store(true, Relaxed);
            }
        });
        !self.stop.load(Relaxed)
    }

    /// Watches for executions that never return (an endless loop inside the code under test).
    fn watch(&self, sc: &Scenario, graph: bool, depth: usize, done: &AtomicBool, on_hang: &(dyn Fn(Found) + Sync)) {
        while !done.load(Relaxed) {
            std::thread::park_timeout(Duration::from_millis(20));
            let now = self.t0.elapsed().as_millis() as u64;
            for s in &self.slots {
                let t = s.since.load(Relaxed);
                if t != 0 && now.saturating_sub(t) > HANG_SECS * 1000 {
                    let prefix = s.prefix.lock().unwrap().clone();
                    on_hang(Found {
                        scenario: sc.name.clone(),
                        oracle: "hang".into(),
                        msg: format!("execution did not return within {HANG_SECS}s"),
                        choices: prefix,
                        graph,
                        depth,
                    });
                }
            }
        }
    }
}

pub fn explore(sc: &Scenario, deadline: Instant, on_hang: &(dyn Fn(Found) + Sync)) -> Report {
    *SCEN.lock().unwrap() = sc.name.clone();
    let t0 = Instant::now();
    let st = Stats::new();
    let mut rep = Report { name: sc.name.clone(), ..Default::default() };
    match sc.kind.clone() {
        Kind::Dfs { max_dev, depth } | Kind::Frontier { max_dev, depth, .. } => {
            rep.mode = match sc.kind {
                Kind::Frontier { full, .. } => format!("dfs, script depth {depth}, beyond {full} modulo model state, deviations <= {max_dev}"),
                _ => format!("stateless dfs, script depth {depth}, deviations <= {max_dev}"),
            };
            let mut completed: Option<u32> = None;
            for bound in 0..=max_dev {
                if let Kind::Frontier { full, .. } = sc.kind {
                    *st.merge.lock().unwrap() = Some((full, Arc::new(Shards::new())));
                }
                let (all, any_skipped) = dfs(sc, &st, bound, depth, deadline, on_hang);
                if st.stop.load(Relaxed) {
                    break;
                }
                if !all {
                    break;
                }
                completed = Some(bound);
                if !any_skipped {
                    // no deviation was suppressed: higher bounds add nothing
                    completed = Some(u32::MAX);
                    break;
                }
            }
            rep.exhaustive = completed.map(|c| c >= max_dev).unwrap_or(false);
            rep.completed = match completed {
                Some(u32::MAX) => "all executions".into(),
                Some(b) => format!("all executions with <= {b} deviations"),
                None => "time cap reached below bound 0".into(),
            };
        }
        Kind::Graph { depth } => {
            rep.mode = format!("breadth-first over state keys, script length <= {depth}");
            let (d, closed) = graph(sc, &st, depth, deadline, on_hang);
            rep.exhaustive = closed || d >= depth;
            rep.completed = if closed {
                format!("state space closed at depth {d}")
            } else {
                format!("all states to depth {d}")
            };
        }
    }
    rep.executions = st.executions.load(Relaxed);
    rep.steps = st.steps.load(Relaxed);
    rep.states = st.states.len();
    rep.outcomes = st.outcomes.len();
    rep.pruned = st.pruned.load(Relaxed);
    rep.merged = st.merged.load(Relaxed);
    rep.divergences = st.divergences.load(Relaxed);
    rep.max_choices = st.max_choices.load(Relaxed);
    rep.other = st.other.into_inner().unwrap();
    rep.sample_choices = st.sample.into_inner().unwrap();
    rep.found = st.found.into_inner().unwrap();
    rep.harness_error = st.harness.into_inner().unwrap();
    rep.wall = t0.elapsed().as_secs_f64();
    rep
}

/// Returns (completed, some deviation was suppressed by the bound).
fn dfs(sc: &Scenario, st: &Stats, bound: u32, depth: usize, deadline: Instant, on_hang: &(dyn Fn(Found) + Sync)) -> (bool, bool) {
    let shared: Mutex<Vec<Item>> = Mutex::new(vec![]);
    let shared_len = AtomicUsize::new(0);
    let active = AtomicUsize::new(0);
    let capped = AtomicBool::new(false);
    let skipped = AtomicBool::new(false);
    let done = AtomicBool::new(false);
    let nt = threads();
    // root
    let root_done = AtomicBool::new(false);
    std::thread::scope(|s| {
        let watcher = s.spawn(|| st.watch(sc, false, depth, &done, on_hang));
        let mut hs = vec![];
        for w in 0..nt {
            let (shared, shared_len, active, capped, skipped, root_done) =
                (&shared, &shared_len, &active, &capped, &skipped, &root_done);
            hs.push(s.spawn(move || {
                let mut local: Vec<Item> = vec![];
                let after = |local: &mut Vec<Item>, lo: usize, devs: u32| {
                    let log: Arc<[Rec]> = ctx::with(|e| Arc::from(&e.log[..]));
                    if log[lo.min(log.len())..].iter().any(|r| r.dev) && devs + 1 > bound {
                        skipped.store(true, Relaxed);
                    }
                    if log.len() > lo {
                        local.push(Item { i: log.len() - 1, log, lo, alt: 0, devs });
                    }
                };
                if w == 0 {
                    active.fetch_add(1, SeqCst);
                    root_done.store(true, SeqCst);
                    if st.exec(w, sc, vec![], false, depth) {
                        after(&mut local, 0, 0);
                    }
                } else {
                    while !root_done.load(SeqCst) {
                        std::thread::yield_now();
                    }
                    active.fetch_add(1, SeqCst);
                }
                let mut n = 0u32;
                loop {
                    if st.stop.load(Relaxed) || capped.load(Relaxed) {
                        break;
                    }
                    let mut it = match local.pop() {
                        Some(it) => it,
                        None => {
                            // become idle; steal
                            active.fetch_sub(1, SeqCst);
                            let got = loop {
                                if let Some(it) = {
                                    let mut g = shared.lock().unwrap();
                                    let r = g.pop();
                                    if r.is_some() {
                                        active.fetch_add(1, SeqCst);
                                    }
                                    shared_len.store(g.len(), Relaxed);
                                    r
                                } {
                                    break Some(it);
                                }
                                if active.load(SeqCst) == 0 || st.stop.load(Relaxed) || capped.load(Relaxed) {
                                    break None;
                                }
                                std::thread::sleep(Duration::from_micros(50));
                            };
                            match got {
                                Some(it) => it,
                                None => return,
                            }
                        }
                    };
                    n += 1;
                    if n % 16 == 0 && Instant::now() > deadline {
                        capped.store(true, Relaxed);
                        break;
                    }
                    if let Some((p, lo, devs)) = it.next(bound) {
                        local.push(it);
                        if st.exec(w, sc, p, false, depth) {
                            after(&mut local, lo, devs);
                        }
                        if shared_len.load(Relaxed) < nt && local.len() > 1 {
                            let it = local.remove(0);
                            let mut g = shared.lock().unwrap();
                            g.push(it);
                            shared_len.store(g.len(), Relaxed);
                        }
                    }
                }
                active.fetch_sub(1, SeqCst);
            }));
        }
        for h in hs {
            let _ = h.join();
        }
        done.store(true, Relaxed);
        watcher.thread().unpark();
        let _ = watcher.join();
    });
    (!capped.load(Relaxed) && !st.stop.load(Relaxed), skipped.load(Relaxed))
}

/// Returns (fully explored depth, state space closed).
fn graph(sc: &Scenario, st: &Stats, depth: usize, deadline: Instant, on_hang: &(dyn Fn(Found) + Sync)) -> (usize, bool) {
    let visited = Shards::new();
    let nt = threads();
    // root
    if !st.exec(0, sc, vec![], true, usize::MAX) {
        return (0, false);
    }
    let (k, n) = ctx::with(|e| (e.key, e.next_n));
    visited.insert(k);
    let mut frontier: Vec<(Arc<[u16]>, u16)> = vec![(Arc::from([]), n)];
    for d in 0..depth {
        if frontier.is_empty() {
            return (d, true);
        }
        let idx = AtomicUsize::new(0);
        let capped = AtomicBool::new(false);
        let done = AtomicBool::new(false);
        let next: Mutex<Vec<(Arc<[u16]>, u16)>> = Mutex::new(vec![]);
        let last = d + 1 == depth;
        std::thread::scope(|s| {
            let watcher = s.spawn(|| st.watch(sc, true, depth, &done, on_hang));
            let mut hs = vec![];
            for w in 0..nt {
                let (idx, capped, next, frontier, visited) = (&idx, &capped, &next, &frontier, &visited);
                hs.push(s.spawn(move || {
                    let mut local = vec![];
                    'outer: loop {
                        let i = idx.fetch_add(1, Relaxed);
                        if i >= frontier.len() {
                            break;
                        }
                        let (h, n) = &frontier[i];
                        for op in 0..*n {
                            if Instant::now() > deadline {
                                capped.store(true, Relaxed);
                                break 'outer;
                            }
                            let mut p = h.to_vec();
                            p.push(op);
                            if !st.exec(w, sc, p.clone(), true, usize::MAX) {
                                break 'outer;
                            }
                            let (k, nn, cut) = ctx::with(|e| (e.key, e.next_n, e.pruned));
                            if visited.insert(k) && !last && !cut {
                                local.push((Arc::from(&p[..]), nn));
                            }
                        }
                    }
                    next.lock().unwrap().append(&mut local);
                }));
            }
            for h in hs {
                let _ = h.join();
            }
            done.store(true, Relaxed);
            watcher.thread().unpark();
            let _ = watcher.join();
        });
        // the visited keys are the states of this search
        if st.stop.load(Relaxed) || capped.load(Relaxed) {
            merge(st, &visited);
            return (d, false);
        }
        frontier = next.into_inner().unwrap();
        // canonical order, so that a run is reproducible whatever the thread timing
        frontier.sort();
    }
    merge(st, &visited);
    (depth, frontier.is_empty())
}

fn merge(st: &Stats, v: &Shards) {
    v.for_each(|k| {
        st.states.insert(k);
    });
}

/// Shrink a counterexample: zero or drop choices while the same oracle still fires.
pub fn minimize(sc: &Scenario, f: &Found, budget: Duration) -> Found {
    let t0 = Instant::now();
    let mut best = f.clone();
    let fires = |c: &[u16]| -> Option<(String, Vec<u16>)> {
        let r = run_one(&sc.body, c.to_vec(), f.graph, f.depth, false);
        if r.panic.is_some() {
            return None;
        }
        ctx::with(|e| {
            e.viol
                .take()
                .filter(|v| v.oracle == f.oracle)
                .map(|v| (v.msg, e.log.iter().map(|r| r.t).collect()))
        })
    };
    if fires(&best.choices).is_none() {
        return best;
    }
    // remove trailing zeros implicitly; try dropping script operations and zeroing choices
    let mut changed = true;
    while changed && t0.elapsed() < budget {
        changed = false;
        let mut i = best.choices.len();
        while i > 0 && t0.elapsed() < budget {
            i -= 1;
            if i >= best.choices.len() {
                continue;
            }
            let mut c = best.choices.clone();
            c.remove(i);
            if let Some((m, l)) = fires(&c) {
                if l.len() < best.choices.len() {
                    best.choices = l;
                    best.msg = m;
                    changed = true;
                    continue;
                }
            }
            if best.choices[i] != 0 {
                let mut c = best.choices.clone();
                c[i] = 0;
                if let Some((m, l)) = fires(&c) {
                    if l.len() <= best.choices.len() {
                        best.choices = l;
                        best.msg = m;
                        changed = true;
                    }
                }
            }
        }
    }
    best
}

/// Re-run with tracing.
pub fn trace(sc: &Scenario, choices: &[u16], graph: bool, depth: usize) -> (Vec<String>, Option<ctx::Violation>, Option<(String, String)>) {
    let r = run_one(&sc.body, choices.to_vec(), graph, depth, true);
    ctx::with(|e| (std::mem::take(&mut e.trace), e.viol.take(), r.panic))
}
