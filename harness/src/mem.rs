//! A counting allocator: the memory monitor.
//!
//! Counts are kept per thread (so that a case that runs on its own thread can be
//! attributed what it allocates) and for the process as a whole.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::Relaxed};

pub struct Counting;

/// Process-wide bytes beyond which allocations fail (as they would under a memory limit).
pub const PROCESS_LIMIT: usize = 3 << 30;

static CURRENT: AtomicUsize = AtomicUsize::new(0);
pub static REFUSED: AtomicBool = AtomicBool::new(false);

thread_local! {
    static LOCAL: Cell<isize> = const { Cell::new(0) };
    static PEAK: Cell<isize> = const { Cell::new(0) };
    static LARGEST: Cell<usize> = const { Cell::new(0) };
}

fn add(n: usize) -> bool {
    let c = CURRENT.fetch_add(n, Relaxed) + n;
    if c > PROCESS_LIMIT {
        CURRENT.fetch_sub(n, Relaxed);
        REFUSED.store(true, Relaxed);
        let _ = LARGEST.try_with(|l| l.set(l.get().max(n)));
        return false;
    }
    let _ = LOCAL.try_with(|l| {
        let v = l.get() + n as isize;
        l.set(v);
        let _ = PEAK.try_with(|p| {
            if v > p.get() {
                p.set(v)
            }
        });
    });
    let _ = LARGEST.try_with(|l| {
        if n > l.get() {
            l.set(n)
        }
    });
    true
}

fn sub(n: usize) {
    CURRENT.fetch_sub(n, Relaxed);
    let _ = LOCAL.try_with(|l| l.set(l.get() - n as isize));
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if !add(l.size()) {
            return std::ptr::null_mut();
        }
        let p = System.alloc(l);
        if p.is_null() {
            sub(l.size());
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        sub(l.size());
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if !add(l.size()) {
            return std::ptr::null_mut();
        }
        let p = System.alloc_zeroed(l);
        if p.is_null() {
            sub(l.size());
        }
        p
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if n > l.size() {
            if !add(n - l.size()) {
                return std::ptr::null_mut();
            }
            let _ = LARGEST.try_with(|c| c.set(c.get().max(n)));
        }
        let q = System.realloc(p, l, n);
        if q.is_null() {
            if n > l.size() {
                sub(n - l.size());
            }
        } else if n < l.size() {
            sub(l.size() - n);
        }
        q
    }
}

/// What this thread allocated while `f` ran.
#[derive(Debug, Clone, Copy)]
pub struct Usage {
    /// The most bytes held at once, beyond those held at the start.
    pub peak: usize,
    /// The largest single request.
    pub largest: usize,
}

pub fn measure<R>(f: impl FnOnce() -> R) -> (R, Usage) {
    let start = LOCAL.with(|l| l.get());
    PEAK.with(|p| p.set(start));
    LARGEST.with(|p| p.set(0));
    let r = f();
    let peak = PEAK.with(|p| p.get()) - start;
    let largest = LARGEST.with(|p| p.get());
    (r, Usage { peak: peak.max(0) as usize, largest })
}
