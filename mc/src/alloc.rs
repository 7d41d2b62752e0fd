//! Counts the memory requests of the current thread: a deterministic measure of work.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct Counting;

thread_local! {
    static CALLS: Cell<u64> = const { Cell::new(0) };
    static BYTES: Cell<u64> = const { Cell::new(0) };
    static LAST: Cell<(u64, u64)> = const { Cell::new((0, 0)) };
}

fn add(n: usize) {
    let _ = CALLS.try_with(|c| c.set(c.get() + 1));
    let _ = BYTES.try_with(|c| c.set(c.get() + n as u64));
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        add(l.size());
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        add(n);
        System.realloc(p, l, n)
    }
}

pub fn now() -> (u64, u64) {
    (CALLS.with(|c| c.get()), BYTES.with(|c| c.get()))
}

pub fn record(start: (u64, u64)) {
    let n = now();
    LAST.with(|l| l.set((n.0 - start.0, n.1 - start.1)));
}

/// Requests and bytes requested by the last parse of this thread.
pub fn last() -> (u64, u64) {
    LAST.with(|l| l.get())
}
