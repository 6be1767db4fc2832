//! Run-time probes: the callbacks that LLVM's SanitizerCoverage pass puts in the library and in
//! the adapter crate (see ../rustc-wrap.sh). They give the monitors
//!  * a logical clock (control-flow edges executed), so that "does not terminate" and "does more
//!    work than linear" are decided on steps and not on wall-clock time,
//!  * the set of library edges the workload reached,
//!  * the constants the library compares with, which the generators use as sizes and values.
//!
//! This crate itself is not instrumented.
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicU32, AtomicU64, AtomicU8, AtomicUsize, Ordering::Relaxed};

thread_local! {
    static STEPS: Cell<u64> = const { Cell::new(0) };
    static LIMIT: Cell<u64> = const { Cell::new(u64::MAX) };
}

const NCOV: usize = 1 << 16;
static COV: [AtomicU8; NCOV] = [const { AtomicU8::new(0) }; NCOV];
static NEXT: AtomicU32 = AtomicU32::new(1);
static HANDLER: AtomicUsize = AtomicUsize::new(0);

static DICT_ON: AtomicBool = AtomicBool::new(false);
const NDICT: usize = 4096;
static DICT: [AtomicU64; NDICT] = [const { AtomicU64::new(0) }; NDICT];

pub fn steps() -> u64 {
    STEPS.with(|s| s.get())
}
pub fn set_limit(l: u64) {
    LIMIT.with(|s| s.set(l));
}
/// `f` is called (and must not return) on the thread that passed its step limit.
pub fn set_handler(f: fn() -> !) {
    HANDLER.store(f as usize, Relaxed);
}
pub fn edges_total() -> u32 {
    NEXT.load(Relaxed) - 1
}
pub fn edges_hit() -> u32 {
    COV.iter().filter(|c| c.load(Relaxed) != 0).count() as u32
}
pub fn dict_record(on: bool) {
    DICT_ON.store(on, Relaxed);
}
/// sorted
pub fn dict() -> Vec<u64> {
    let mut v: Vec<u64> = DICT.iter().map(|x| x.load(Relaxed)).filter(|x| *x > 0).collect();
    v.sort_unstable();
    v.dedup();
    v
}

#[cold]
fn note(c: u64) {
    if c == 0 {
        return;
    }
    let mut i = (c.wrapping_mul(0x9e37_79b9_7f4a_7c15) >> 52) as usize;
    for _ in 0..NDICT {
        match DICT[i].compare_exchange(0, c, Relaxed, Relaxed) {
            Ok(_) => return,
            Err(v) if v == c => return,
            Err(_) => i = (i + 1) % NDICT,
        }
    }
}

#[cold]
fn over() {
    STEPS.with(|s| s.set(0));
    LIMIT.with(|s| s.set(u64::MAX));
    let h = HANDLER.load(Relaxed);
    if h != 0 {
        let f: fn() -> ! = unsafe { std::mem::transmute(h) };
        f()
    }
}

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(start: *mut u32, stop: *mut u32) {
    let mut p = start;
    while p < stop {
        if *p == 0 {
            let n = NEXT.load(Relaxed);
            if (n as usize) < NCOV {
                *p = n;
                NEXT.store(n + 1, Relaxed);
            }
        }
        p = p.add(1);
    }
}

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard(g: *mut u32) {
    let n = STEPS.with(|s| {
        let n = s.get() + 1;
        s.set(n);
        n
    });
    if n > LIMIT.with(|l| l.get()) {
        over();
    }
    let c = &COV[(*g as usize) & (NCOV - 1)];
    if c.load(Relaxed) == 0 {
        c.store(1, Relaxed);
    }
}

macro_rules! cmp {
    ($($c:ident $n:ident $t:ty;)*) => {$(
        #[no_mangle]
        pub extern "C" fn $c(a: $t, _b: $t) {
            if DICT_ON.load(Relaxed) {
                note(a as u64);
            }
        }
        #[no_mangle]
        pub extern "C" fn $n(_a: $t, _b: $t) {}
    )*};
}
cmp! {
    __sanitizer_cov_trace_const_cmp1 __sanitizer_cov_trace_cmp1 u8;
    __sanitizer_cov_trace_const_cmp2 __sanitizer_cov_trace_cmp2 u16;
    __sanitizer_cov_trace_const_cmp4 __sanitizer_cov_trace_cmp4 u32;
    __sanitizer_cov_trace_const_cmp8 __sanitizer_cov_trace_cmp8 u64;
}

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_switch(_v: u64, cases: *const u64) {
    if DICT_ON.load(Relaxed) {
        let n = *cases;
        for i in 0..n.min(64) {
            note(*cases.add(2 + i as usize));
        }
    }
}

// ------------------------------------------------------------------------------------------------
// Bytes moved by memcpy and memmove, which have no edges of their own: these take the place of
// libc's for everything in the executable, count, and go on to libc's.

thread_local! {
    static MOVED: Cell<u64> = const { Cell::new(0) };
}
/// bytes that this thread has copied in calls of 64 bytes or more
pub fn moved() -> u64 {
    MOVED.with(|m| m.get())
}

#[cfg(feature = "moves")]
mod moves {
    use super::*;

    extern "C" {
        fn dlsym(h: *mut u8, name: *const u8) -> *mut u8;
    }
    type Move = unsafe extern "C" fn(*mut u8, *const u8, usize) -> *mut u8;
    static REAL: [AtomicUsize; 2] = [const { AtomicUsize::new(0) }; 2];

    #[cold]
    #[inline(never)]
    unsafe fn real(k: usize, d: *mut u8, s: *const u8, n: usize) -> *mut u8 {
        // 1: being looked for, which may itself copy
        if REAL[k].compare_exchange(0, 1, Relaxed, Relaxed).is_ok() {
            let name: &[u8] = if k == 0 { b"memcpy\0" } else { b"memmove\0" };
            let f = dlsym(-1isize as *mut u8, name.as_ptr());
            REAL[k].store(if f.is_null() { 1 } else { f as usize }, Relaxed);
        }
        // by hand meanwhile
        if (d as usize).wrapping_sub(s as usize) >= n {
            core::arch::asm!("rep movsb", inout("rcx") n => _, inout("rdi") d => _, inout("rsi") s => _, options(nostack));
        } else {
            core::arch::asm!("std", "rep movsb", "cld", inout("rcx") n => _, inout("rdi") d.wrapping_add(n).wrapping_sub(1) => _, inout("rsi") s.wrapping_add(n).wrapping_sub(1) => _, options(nostack));
        }
        d
    }
    #[inline(always)]
    unsafe fn moves(k: usize, d: *mut u8, s: *const u8, n: usize) -> *mut u8 {
        if n >= 64 {
            MOVED.with(|m| m.set(m.get() + n as u64));
        }
        let f = REAL[k].load(Relaxed);
        if f > 1 {
            let f: Move = std::mem::transmute(f);
            return f(d, s, n);
        }
        real(k, d, s, n)
    }
    #[no_mangle]
    pub unsafe extern "C" fn memcpy(d: *mut u8, s: *const u8, n: usize) -> *mut u8 {
        moves(0, d, s, n)
    }
    #[no_mangle]
    pub unsafe extern "C" fn memmove(d: *mut u8, s: *const u8, n: usize) -> *mut u8 {
        moves(1, d, s, n)
    }
}
