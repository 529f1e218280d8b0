//! Thread-local hooks through which the shims (lock, clock, channel) reach the explorer.
use std::cell::Cell;

/// Kinds of scheduling points.
#[derive(Copy, Clone, Debug, PartialEq, Eq)]
#[repr(u8)]
pub enum Point {
    Lock = 0,
    Unlock = 1,
    ChanReady = 2,
    ChanSend = 3,
    ChanSent = 4,
    ChanRecv = 5,
    ChanClose = 6,
    ChanDrop = 7,
    ChanIsClosed = 8,
}

#[derive(Copy, Clone)]
pub struct Hooks {
    /// Called before a synchronisation operation.
    pub point: fn(Point),
    /// Called when a lock is contended; returns true when the caller should retry.
    pub block: fn(usize) -> bool,
    /// Called after a lock was released.
    pub released: fn(usize),
}

thread_local! {
    static HOOKS: Cell<Option<Hooks>> = const { Cell::new(None) };
    static NOW: Cell<u64> = const { Cell::new(START) };
}

const START: u64 = 1_000_000 * 1_000_000_000;

pub fn set_hooks(h: Option<Hooks>) {
    HOOKS.with(|c| c.set(h))
}

#[inline]
pub fn point(p: Point) {
    if let Some(h) = HOOKS.with(|c| c.get()) {
        (h.point)(p)
    }
}

/// A lock is held by someone else.
pub fn contended(addr: usize) {
    if let Some(h) = HOOKS.with(|c| c.get()) {
        if (h.block)(addr) {
            return;
        }
    }
    panic!("yamux-mc: deadlock: lock acquired twice by the same thread");
}

#[inline]
pub fn released(addr: usize) {
    if let Some(h) = HOOKS.with(|c| c.get()) {
        (h.released)(addr)
    }
}

pub fn now_nanos() -> u64 {
    NOW.with(|c| c.get())
}

pub fn reset_clock() {
    NOW.with(|c| c.set(START))
}

pub fn advance(nanos: u64) {
    NOW.with(|c| c.set(c.get() + nanos))
}

pub fn clock_offset() -> u64 {
    now_nanos() - START
}

/// Called inside a wait loop: somebody else has to run.
pub fn spin() {
    if let Some(h) = HOOKS.with(|c| c.get()) {
        (h.block)(0);
    }
}
