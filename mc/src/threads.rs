//! Environment C: the connection and its streams on different threads. Threads are coroutines; every
//! lock and channel operation of the code under test is a scheduling point. All interleavings up to a
//! preemption bound are explored; switches at blocking operations and thread ends are free.
use crate::ctx;
use crate::env::*;
use crate::explore::{Kind, Scenario};
use crate::mon::*;
use crate::pair::Act;
use crate::solo::{self, Op, Solo, World};
use corosensei::stack::DefaultStack;
use corosensei::{Coroutine, CoroutineResult, Yielder};
use std::cell::{Cell, RefCell};
use std::rc::Rc;
use std::sync::Arc;
use std::task::{Context, Poll};

#[derive(Clone, Debug)]
pub enum Th {
    /// the connection: steps, then driven until the end
    Driver(&'static [Step]),
    /// one stream
    Stream(usize, &'static [Act]),
    /// the remote and the transport; each step is atomic
    Env(&'static [Op]),
}

#[derive(Copy, Clone, Debug)]
pub enum Step {
    /// poll once
    Poll,
    /// poll until asleep
    Idle,
    Open,
    /// open a stream, waiting for it in the task that also drives the connection
    OpenWait,
    Close,
    Drop,
    /// do not drive any further
    Stop,
}

#[derive(Clone)]
pub struct Threads {
    pub solo: Solo,
    pub th: Vec<Th>,
}

impl Threads {
    pub fn new(solo: Solo, th: &[Th]) -> Threads {
        Threads { solo, th: th.to_vec() }
    }
    pub fn scenario(self, preemptions: u32) -> Scenario {
        let name = self.solo.name.clone();
        Scenario { name, body: Arc::new(move || run(&self)), kind: Kind::Dfs { max_dev: preemptions, depth: 0 }, weight: 1.0 }
    }
}

#[derive(Clone)]
enum St {
    Ready,
    Lock(usize),
    Flag(Arc<Flag>),
    Done,
}

enum Y {
    /// run that thread next
    Switch(usize),
    /// blocked or spinning: any other
    Block,
}

struct Sched {
    st: Vec<St>,
    cur: usize,
    /// currently inside a coroutine
    on: bool,
    quiet: bool,
    spins: u32,
}

type Yl = Yielder<(), Y>;

thread_local! {
    static S: RefCell<Sched> = const { RefCell::new(Sched { st: vec![], cur: 0, on: false, quiet: false, spins: 0 }) };
    static YL: Cell<*const Yl> = const { Cell::new(std::ptr::null()) };
    static HELD: Cell<u32> = const { Cell::new(0) };
    static STACKS: RefCell<Vec<DefaultStack>> = const { RefCell::new(vec![]) };
}

impl Sched {
    fn can(&self, i: usize) -> bool {
        match &self.st[i] {
            St::Ready => true,
            St::Flag(f) => f.get(),
            _ => false,
        }
    }
    fn runnable(&self, but: usize) -> Vec<usize> {
        (0..self.st.len()).filter(|i| *i != but && self.can(*i)).collect()
    }
}

fn suspend(y: Y) {
    let yl = YL.with(|c| c.get());
    // resumed by the scheduler, which sets YL again
    unsafe { (*yl).suspend(y) };
}

fn point(_p: mc_rt::Point) {
    let Some(others) = S.with(|s| {
        let s = s.borrow();
        if !s.on || s.quiet {
            return None;
        }
        Some(s.runnable(s.cur))
    }) else {
        return;
    };
    if others.is_empty() || ctx::over() {
        return;
    }
    ctx::step();
    let k = ctx::dev(others.len() + 1);
    if k > 0 {
        suspend(Y::Switch(others[k - 1]));
    }
}

fn block(addr: usize) -> bool {
    let ok = S.with(|s| {
        let mut s = s.borrow_mut();
        if !s.on || s.quiet {
            return false;
        }
        let c = s.cur;
        if addr == 0 {
            s.spins += 1;
            if s.spins > 10_000 {
                return false;
            }
        } else {
            s.st[c] = St::Lock(addr);
        }
        true
    });
    if ok {
        suspend(Y::Block);
    }
    ok
}

fn released(addr: usize) {
    S.with(|s| {
        if let Ok(mut s) = s.try_borrow_mut() {
            for t in s.st.iter_mut() {
                if matches!(t, St::Lock(a) if *a == addr) {
                    *t = St::Ready;
                }
            }
        }
    })
}

/// Run an operation until it is ready, sleeping until the waker of the latest poll is woken.
fn wait<R>(mut f: impl FnMut(&mut Context<'_>, &Arc<Flag>) -> Poll<R>) -> R {
    loop {
        let fl = Flag::new();
        let w = waker(&fl);
        if let Poll::Ready(r) = f(&mut Context::from_waker(&w), &fl) {
            return r;
        }
        sleep(fl);
    }
}

fn sleep(fl: Arc<Flag>) {
    if fl.get() {
        return;
    }
    S.with(|s| {
        let mut s = s.borrow_mut();
        let c = s.cur;
        s.st[c] = St::Flag(fl);
    });
    suspend(Y::Block);
}

/// Two halves of a stream on different threads take turns, as with `futures::io::split`.
fn exclusive<R>(i: usize, f: impl FnOnce() -> R) -> R {
    while HELD.with(|h| h.get()) & 1 << i != 0 {
        if !block(usize::MAX - i) {
            break;
        }
    }
    HELD.with(|h| h.set(h.get() | 1 << i));
    let r = f();
    HELD.with(|h| h.set(h.get() & !(1 << i)));
    released(usize::MAX - i);
    r
}

fn stream_thread(ep: &Rc<Ep>, i: usize, script: &[Act]) {
    for a in script {
        if !exclusive(i, || ep.alive(i)) || ctx::over() {
            return;
        }
        match *a {
            Act::Y => point(mc_rt::Point::Lock),
            Act::D => exclusive(i, || ep.drop_stream(i)),
            Act::W(n) => {
                let mut left = n;
                while left > 0 {
                    match wait(|cx, f| exclusive(i, || ep.write(i, left, cx, f))) {
                        Ok(k) => left -= k.min(left),
                        Err(()) => break,
                    }
                }
            }
            Act::W1(n) => {
                let _ = wait(|cx, f| exclusive(i, || ep.write(i, n, cx, f)));
            }
            Act::F => {
                let _ = wait(|cx, f| exclusive(i, || ep.flush(i, cx, f)));
            }
            Act::C => {
                let _ = wait(|cx, f| exclusive(i, || ep.close(i, cx, f)));
            }
            Act::R(n) => {
                let _ = wait(|cx, f| exclusive(i, || ep.read(i, n, cx, f)));
            }
            Act::RX(n) => {
                let mut left = n;
                while left > 0 {
                    match wait(|cx, f| exclusive(i, || ep.read(i, left, cx, f))) {
                        Ok(0) | Err(()) => break,
                        Ok(k) => left -= k,
                    }
                }
            }
            Act::RA => while !matches!(wait(|cx, f| exclusive(i, || ep.read(i, 256 * 1024, cx, f))), Ok(0) | Err(())) {},
            Act::P => while !matches!(wait(|cx, f| exclusive(i, || ep.read_packet(i, cx, f))), Ok(0) | Err(())) {},
        }
    }
}

fn driver_thread(ep: &Rc<Ep>, steps: &[Step]) {
    let idle = |max: usize| {
        for _ in 0..max {
            if ep.done.get() || ctx::over() || !ep.driver.borrow().get() {
                return;
            }
            ep.poll_once();
        }
    };
    for s in steps {
        match s {
            Step::Poll => idle(1),
            Step::Idle => idle(usize::MAX),
            Step::Open => {
                let f = Flag::new();
                let _ = ep.poll_open(&mut Context::from_waker(&waker(&f)), &f);
            }
            Step::OpenWait => loop {
                idle(usize::MAX);
                if ep.done.get() || ctx::over() {
                    return;
                }
                let f = ep.driver.borrow().clone();
                if ep.poll_open(&mut Context::from_waker(&waker(&f)), &f).is_ready() {
                    break;
                }
                sleep(f);
            },
            Step::Close => ep.start_close(),
            Step::Drop => {
                ep.drop_conn();
                return;
            }
            Step::Stop => return,
        }
    }
    loop {
        idle(usize::MAX);
        if ep.done.get() || ctx::over() {
            return;
        }
        let f = ep.driver.borrow().clone();
        sleep(f);
    }
}

fn run(sc: &Threads) {
    let world = World::new(&sc.solo);
    let ep = world.ep.clone();
    {
        let mut m = ep.mon();
        m.strict = false;
    }
    let w = Rc::new(RefCell::new(world));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| body(sc, &w, &ep)));
    S.with(|s| s.borrow_mut().quiet = true);
    if r.is_ok() {
        ep.teardown();
    }
    if let Err(e) = r {
        if r_leak(&e) {
            std::mem::forget(ep);
        }
        std::panic::resume_unwind(e);
    }
}

fn r_leak(_: &Box<dyn std::any::Any + Send>) -> bool {
    true
}

fn body(sc: &Threads, w: &Rc<RefCell<World>>, ep: &Rc<Ep>) {
    mc_rt::set_hooks(None);
    ctx::no_dev(|| {
        w.borrow().ep.run();
        for op in &sc.solo.prelude {
            w.borrow_mut().apply(op);
            if ctx::over() || matches!(op, Op::Nop) {
                continue;
            }
            if sc.solo.auto {
                w.borrow().ep.run();
            }
        }
        if let Some(op) = sc.solo.last.as_ref().filter(|_| !ctx::over()) {
            w.borrow_mut().apply(op);
        }
    });
    if ctx::over() {
        return;
    }
    ep.mon().concurrent = true;
    S.with(|s| {
        *s.borrow_mut() = Sched { st: vec![St::Ready; sc.th.len()], cur: 0, on: false, quiet: false, spins: 0 };
    });
    mc_rt::set_hooks(Some(mc_rt::Hooks { point, block, released }));
    HELD.with(|h| h.set(0));
    let mut co: Vec<Option<Coroutine<(), Y, (), DefaultStack>>> = sc
        .th
        .iter()
        .map(|t| {
            let t = t.clone();
            let (w, ep) = (w.clone(), ep.clone());
            let stack = STACKS.with(|s| s.borrow_mut().pop()).unwrap_or_else(|| DefaultStack::new(256 * 1024).expect("stack"));
            Some(Coroutine::with_stack(stack, move |yl: &Yl, _| {
                YL.with(|c| c.set(yl));
                match t {
                    Th::Stream(i, s) => stream_thread(&ep, i, s),
                    Th::Driver(s) => driver_thread(&ep, s),
                    Th::Env(ops) => {
                        for o in ops {
                            point(mc_rt::Point::Lock);
                            if ctx::over() {
                                return;
                            }
                            let on = {
                                let w = w.borrow();
                                w.remote_up()
                            };
                            if on {
                                w.borrow_mut().apply(o);
                            }
                        }
                    }
                }
            }))
        })
        .collect();
    let mut yls: Vec<*const Yl> = vec![std::ptr::null(); co.len()];
    let mut next: Option<usize> = None;
    loop {
        let cand = S.with(|s| s.borrow().runnable(usize::MAX));
        if cand.is_empty() {
            break;
        }
        let t = match next.take() {
            Some(t) if cand.contains(&t) => t,
            _ => cand[if ctx::over() { 0 } else { ctx::choose(cand.len()) }],
        };
        S.with(|s| {
            let mut s = s.borrow_mut();
            s.st[t] = St::Ready;
            s.cur = t;
            s.on = true;
        });
        ctx::note(|| format!("> thread {t} {:?}", kind(&sc.th[t])));
        YL.with(|c| c.set(yls[t]));
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| co[t].as_mut().unwrap().resume(())));
        yls[t] = YL.with(|c| c.get());
        S.with(|s| s.borrow_mut().on = false);
        match r {
            Ok(CoroutineResult::Yield(Y::Switch(k))) => next = Some(k),
            Ok(CoroutineResult::Yield(Y::Block)) => {
                // a spinning thread gives way to any other
                let alone = S.with(|s| s.borrow().runnable(t).is_empty());
                if !alone && S.with(|s| matches!(s.borrow().st[t], St::Ready)) {
                    let o = S.with(|s| s.borrow().runnable(t));
                    next = Some(o[0]);
                }
            }
            Ok(CoroutineResult::Return(())) => {
                S.with(|s| s.borrow_mut().st[t] = St::Done);
                let c = co[t].take().unwrap();
                STACKS.with(|s| s.borrow_mut().push(c.into_stack()));
            }
            Err(e) => {
                S.with(|s| s.borrow_mut().quiet = true);
                mc_rt::set_hooks(None);
                // what the others hold stays as it is
                for c in co.iter_mut() {
                    std::mem::forget(c.take());
                }
                std::panic::resume_unwind(e);
            }
        }
        ctx::state(w.try_borrow().map(|w| w.key()).unwrap_or(1) ^ ((t as u64) << 60));
    }
    let locked = S.with(|s| s.borrow().st.iter().any(|t| matches!(t, St::Lock(_))));
    S.with(|s| s.borrow_mut().quiet = true);
    mc_rt::set_hooks(None);
    if locked {
        for c in co.iter_mut() {
            std::mem::forget(c.take());
        }
        ctx::fail("deadlock.lock", &["C23", "C06", "C07"], || "threads wait for each other's locks".into());
        // nothing can be used any further
        std::mem::forget(w.clone());
        std::mem::forget(ep.clone());
        ep.leak();
        return;
    }
    for c in co.iter_mut().filter_map(|c| c.take()) {
        let mut c = c;
        // waiting threads sit between two operations
        c.force_unwind();
        STACKS.with(|s| s.borrow_mut().push(c.into_stack()));
    }
    if ctx::over() {
        return;
    }
    // all threads rest: from here on everything is exact again
    ep.mon().concurrent = false;
    ctx::note(|| "--- threads are at rest".into());
    solo::check_quiet(ep);
    ep.kick();
    if ep.io.mon.borrow().close_done {
        ep.mon().check_flushed();
    }
    if !ctx::over() && !stopped(sc) {
        solo::epilogue(&mut w.borrow_mut(), &sc.solo);
    }
}

fn stopped(sc: &Threads) -> bool {
    sc.th.iter().any(|t| matches!(t, Th::Driver(s) if matches!(s.last(), Some(Step::Stop))))
}

fn kind(t: &Th) -> String {
    match t {
        Th::Driver(_) => "driver".into(),
        Th::Stream(i, _) => format!("stream {i}"),
        Th::Env(_) => "env".into(),
    }
}
