//! Allocation watcher: the largest single allocation made by the connection during one poll.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct Watch;

thread_local! {
    static ON: Cell<bool> = const { Cell::new(false) };
    static MAX: Cell<usize> = const { Cell::new(0) };
}

unsafe impl GlobalAlloc for Watch {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        note(l.size());
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        note(l.size());
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        note(n);
        System.realloc(p, l, n)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l)
    }
}

#[inline]
fn note(n: usize) {
    if n > LIMIT {
        let _ = ON.try_with(|o| {
            if o.get() {
                let _ = MAX.try_with(|m| m.set(m.get().max(n)));
            }
        });
    }
}

/// One frame body is at most 1 MiB; nothing else a poll allocates is that large.
const LIMIT: usize = (1 << 20) + (1 << 12);

pub struct Guard(bool);

/// Watch the code under test.
pub fn watch() -> Guard {
    Guard(ON.with(|o| o.replace(true)))
}
/// Harness code inside a watched region.
pub fn pause() -> Guard {
    Guard(ON.with(|o| o.replace(false)))
}

impl Drop for Guard {
    fn drop(&mut self) {
        ON.with(|o| o.set(self.0));
        if !self.0 {
            let m = MAX.with(|m| m.replace(0));
            if m > 0 && !std::thread::panicking() {
                crate::ctx::fail("alloc.large", &["C12", "C20"], || format!("one allocation of {m} bytes while driving the connection"));
            }
        }
    }
}
