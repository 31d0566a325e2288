//! Counting allocator: per-thread balance of live bytes and blocks, used to
//! decide that no memory remains after all values are dropped.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct Counting;

thread_local! {
    static LIVE: Cell<(i64, i64)> = const { Cell::new((0, 0)) };
    static TOTAL: Cell<u64> = const { Cell::new(0) };
    static REQUESTED: Cell<u64> = const { Cell::new(0) };
}

fn ask(bytes: usize) {
    let _ = REQUESTED.try_with(|t| t.set(t.get() + bytes as u64));
}

fn add(bytes: i64, blocks: i64) {
    let _ = LIVE.try_with(|l| {
        let (b, n) = l.get();
        l.set((b + bytes, n + blocks));
    });
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let p = unsafe { System.alloc(l) };
        if !p.is_null() {
            add(l.size() as i64, 1);
            ask(l.size());
            let _ = TOTAL.try_with(|t| t.set(t.get() + 1));
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        add(-(l.size() as i64), -1);
        unsafe { System.dealloc(p, l) }
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        let p = unsafe { System.alloc_zeroed(l) };
        if !p.is_null() {
            add(l.size() as i64, 1);
            ask(l.size());
            let _ = TOTAL.try_with(|t| t.set(t.get() + 1));
        }
        p
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let q = unsafe { System.realloc(p, l, n) };
        if !q.is_null() {
            add(n as i64 - l.size() as i64, 0);
            ask(n);
        }
        q
    }
}

/// (bytes, blocks) allocated minus freed by this thread
pub fn live() -> (i64, i64) {
    LIVE.with(|l| l.get())
}
/// bytes this thread asked for so far
pub fn requested() -> u64 {
    REQUESTED.with(|t| t.get())
}
pub fn total() -> u64 {
    TOTAL.with(|t| t.get())
}
