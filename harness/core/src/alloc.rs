//! An allocator that knows how much memory each thread holds.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct Counting;

thread_local! {
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
}

fn change(by: i64) {
    let _ = LIVE.try_with(|l| {
        let now = l.get() + by;
        l.set(now);
        let _ = PEAK.try_with(|p| p.set(p.get().max(now)));
    });
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        change(l.size() as i64);
        System.alloc(l)
    }

    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        change(l.size() as i64);
        System.alloc_zeroed(l)
    }

    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        change(-(l.size() as i64));
        System.dealloc(p, l)
    }

    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        change(n as i64 - l.size() as i64);
        System.realloc(p, l, n)
    }
}

/// Starts a measurement in this thread.
pub fn start() {
    LIVE.with(|l| l.set(0));
    PEAK.with(|p| p.set(0));
}

/// The most held at once since then, beyond what was held at the start.
pub fn peak() -> u64 {
    PEAK.with(|p| p.get().max(0) as u64)
}
