//! Per-execution context: the choice log that makes every execution replayable, the violation slot,
//! the trace and the state/transition counters.
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
use std::sync::{Mutex, OnceLock};

#[derive(Copy, Clone, Debug, PartialEq, Eq)]
pub struct Rec {
    pub n: u16,
    pub t: u16,
    pub dev: bool,
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub oracle: String,
    pub msg: String,
}

/// A set of 64-bit hashes shared by the workers.
pub struct Shards(Vec<Mutex<Set>>, AtomicU64);
impl Shards {
    pub fn new() -> Self {
        Shards((0..64).map(|_| Mutex::new(Set::default())).collect(), AtomicU64::new(0))
    }
    pub fn insert(&self, h: u64) -> bool {
        if self.1.load(Relaxed) > 60_000_000 {
            return false;
        }
        let new = self.0[(h >> 58) as usize].lock().unwrap().insert(h);
        if new {
            self.1.fetch_add(1, Relaxed);
        }
        new
    }
    pub fn len(&self) -> u64 {
        self.1.load(Relaxed)
    }
    pub fn for_each(&self, mut f: impl FnMut(u64)) {
        for s in &self.0 {
            s.lock().unwrap().iter().for_each(|k| f(*k));
        }
    }
}

#[derive(Default)]
pub struct Exec {
    pub prefix: Vec<u16>,
    pub log: Vec<Rec>,
    pub divergences: u64,
    pub graph: bool,
    pub depth: usize,
    pub ops: usize,
    pub key: u64,
    pub next_n: u16,
    /// from this script length on, only one execution per state key is continued
    pub full: usize,
    pub seen: Option<std::sync::Arc<Shards>>,
    pub tracing: bool,
    pub trace: Vec<String>,
    pub viol: Option<Violation>,
    pub pruned: bool,
    pub merged: bool,
    /// the choices made before the script (its configuration)
    pub setup: u64,
    pub steps: u64,
    pub hash: u64,
    pub states: Vec<u64>,
    pub outcome: u64,
    pub other: BTreeMap<&'static str, u64>,
    pub no_dev: u32,
}

thread_local! {
    static CX: RefCell<Exec> = RefCell::new(Exec::default());
}

/// The property being decided ("" = report everything).
pub static PROPERTY: OnceLock<String> = OnceLock::new();

pub fn property() -> &'static str {
    PROPERTY.get().map(|s| s.as_str()).unwrap_or("")
}

pub fn with<R>(f: impl FnOnce(&mut Exec) -> R) -> R {
    CX.with(|c| f(&mut c.borrow_mut()))
}

pub fn begin(prefix: Vec<u16>, graph: bool, depth: usize, tracing: bool) {
    with(|e| {
        let mut log = std::mem::take(&mut e.log);
        log.clear();
        let mut states = std::mem::take(&mut e.states);
        states.clear();
        *e = Exec { prefix, graph, depth, tracing, log, states, full: usize::MAX, ..Default::default() };
    });
    mc_rt::reset_clock();
}

fn pick(n: usize, dev: bool) -> usize {
    if n <= 1 {
        return 0;
    }
    with(|e| {
        let pos = e.log.len();
        let mut t = 0;
        if let Some(p) = e.prefix.get(pos) {
            t = *p as usize;
            if t >= n {
                t = n - 1;
                e.divergences += 1;
            }
        }
        e.log.push(Rec { n: n as u16, t: t as u16, dev });
        t
    })
}

/// A fully enumerated choice.
pub fn choose(n: usize) -> usize {
    pick(n, false)
}

/// A deviation from the default (0): counted against the deviation bound.
pub fn dev(n: usize) -> usize {
    if with(|e| e.no_dev > 0) {
        return 0;
    }
    pick(n, true)
}

/// Next operation of a bounded script: `None` when the script ends here.
pub fn choose_op(n: usize) -> Option<usize> {
    let stop = with(|e| {
        if e.graph {
            if e.log.len() >= e.prefix.len() {
                e.next_n = n as u16;
                return true;
            }
        } else if e.ops >= e.depth {
            return true;
        } else if e.ops >= e.full && e.log.len() >= e.prefix.len() {
            // a new execution: continued only if no other one reached this state with as many
            // operations and deviations
            let devs = e.log.iter().filter(|r| r.dev && r.t > 0).count();
            let mut h = H::new();
            h.u(e.key).u(e.ops as u64).u(devs as u64).u(e.setup);
            if !e.seen.as_ref().map(|s| s.insert(h.0)).unwrap_or(true) {
                e.depth = e.ops;
                // its prefix was explored with its epilogue as an execution of the full depth
                e.pruned |= e.ops == e.full;
                e.merged = true;
                return true;
            }
        }
        if e.ops == 0 {
            let mut h = H::new();
            e.log.iter().for_each(|r| {
                h.u(r.t as u64);
            });
            e.setup = h.0;
        }
        e.ops += 1;
        false
    });
    if stop || n == 0 {
        return None;
    }
    if with(|e| e.graph) {
        // in graph mode every op is logged, also when there is only one
        return Some(with(|e| {
            let pos = e.log.len();
            let mut t = e.prefix[pos] as usize;
            if t >= n {
                t = n - 1;
                e.divergences += 1;
            }
            e.log.push(Rec { n: n as u16, t: t as u16, dev: false });
            t
        }));
    }
    Some(choose(n))
}

/// Suppress deviations (used in prologues and epilogues).
pub fn no_dev<R>(f: impl FnOnce() -> R) -> R {
    with(|e| e.no_dev += 1);
    let r = f();
    with(|e| e.no_dev -= 1);
    r
}

pub fn set_key(k: u64) {
    with(|e| e.key = k)
}

pub fn step() {
    with(|e| e.steps += 1)
}
pub fn steps() -> u64 {
    with(|e| e.steps)
}

pub fn state(h: u64) {
    with(|e| e.states.push(h))
}

pub fn outcome(h: u64) {
    with(|e| e.outcome = e.outcome.wrapping_mul(0x9E3779B97F4A7C15).rotate_left(23) ^ h)
}

pub fn prune() {
    with(|e| e.pruned = true)
}
pub fn pruned() -> bool {
    with(|e| e.pruned)
}

/// Report a property violation. Only oracles that decide the property being checked count.
pub fn fail(oracle: &'static str, props: &[&str], msg: impl FnOnce() -> String) {
    let p = property();
    // under threads every guarantee counts (C23 is decided by the thread scenarios only)
    let relevant = p.is_empty() || props.is_empty() || props.contains(&p) || p == "C23";
    with(|e| {
        if e.pruned {
            return;
        }
        if relevant {
            if e.viol.is_none() {
                let m = msg();
                if e.tracing {
                    e.trace.push(format!("!! {oracle}: {m}"));
                }
                e.viol = Some(Violation { oracle: oracle.to_string(), msg: m });
            }
        } else {
            *e.other.entry(oracle).or_default() += 1;
        }
    })
}

/// Stop as soon as possible: a relevant violation was found, or the execution was pruned.
pub fn over() -> bool {
    with(|e| e.viol.is_some() || e.pruned)
}

pub fn tracing() -> bool {
    with(|e| e.tracing)
}

pub fn note(f: impl FnOnce() -> String) {
    if tracing() {
        let s = f();
        with(|e| e.trace.push(s))
    }
}

/// FNV-like hasher used for state keys.
#[derive(Clone, Copy)]
pub struct H(pub u64);
impl H {
    pub fn new() -> Self {
        H(0xcbf29ce484222325)
    }
    pub fn u(&mut self, v: u64) -> &mut Self {
        self.0 = (self.0 ^ v).wrapping_mul(0x9E3779B97F4A7C15);
        self.0 ^= self.0 >> 29;
        self
    }
    pub fn b(&mut self, v: bool) -> &mut Self {
        self.u(v as u64 + 1)
    }
}

pub type Set = HashSet<u64, std::hash::BuildHasherDefault<IdHash>>;
#[derive(Default)]
pub struct IdHash(u64);
impl std::hash::Hasher for IdHash {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, _: &[u8]) {
        unreachable!()
    }
    fn write_u64(&mut self, v: u64) {
        self.0 = v
    }
}

#[allow(non_snake_case)]
pub fn CX_TRY<R>(f: impl FnOnce(&mut Exec) -> R) -> Option<R> {
    CX.with(|c| c.try_borrow_mut().ok().map(|mut e| f(&mut e)))
}
