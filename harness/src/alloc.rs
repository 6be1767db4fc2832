//! Counts what the current thread has allocated.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct Counting;
thread_local! {
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
    static CAP: Cell<i64> = const { Cell::new(i64::MAX) };
}

pub fn live() -> i64 {
    LIVE.with(|l| l.get())
}
/// Peak since the last call of `reset_peak`
pub fn peak() -> i64 {
    PEAK.with(|p| p.get())
}
pub fn reset_peak() {
    PEAK.with(|p| p.set(live()))
}
/// more than `n` bytes above what is live now is taken as unbounded growth
pub fn set_cap(n: i64) {
    CAP.with(|c| c.set(live().saturating_add(n)))
}
pub fn no_cap() {
    CAP.with(|c| c.set(i64::MAX))
}

fn add(n: i64) {
    let _ = LIVE.try_with(|l| {
        let v = l.get() + n;
        l.set(v);
        let _ = PEAK.try_with(|p| {
            if v > p.get() {
                p.set(v)
            }
        });
        let _ = CAP.try_with(|c| {
            if v > c.get() {
                c.set(i64::MAX);
                crate::ctx::fatal("memory use grew without bound");
            }
        });
    });
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        add(l.size() as i64);
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        add(l.size() as i64);
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        add(-(l.size() as i64));
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        add(n as i64 - l.size() as i64);
        System.realloc(p, l, n)
    }
}
