//! Seam: every allocation of the process.  Counts live and peak bytes, can refuse memory above a
//! cap, and is a scheduling point for simulated threads.

use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU64, Ordering::Relaxed};

pub struct SimAlloc;

static LIVE: AtomicI64 = AtomicI64::new(0);
static PEAK: AtomicI64 = AtomicI64::new(0);
static COUNT: AtomicU64 = AtomicU64::new(0);
static CAP: AtomicI64 = AtomicI64::new(i64::MAX);
static CAP_HIT: AtomicBool = AtomicBool::new(false);

#[inline]
fn take(n: usize) -> bool {
    let l = LIVE.fetch_add(n as i64, Relaxed) + n as i64;
    if l > CAP.load(Relaxed) {
        LIVE.fetch_sub(n as i64, Relaxed);
        CAP_HIT.store(true, Relaxed);
        // what the caller sees next is an allocation failure; say why before it aborts
        crate::runner::note_cap_hit();
        return false;
    }
    COUNT.fetch_add(1, Relaxed);
    PEAK.fetch_max(l, Relaxed);
    true
}

unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        crate::sched::point();
        if !take(l.size()) {
            return std::ptr::null_mut();
        }
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        crate::sched::point();
        if !take(l.size()) {
            return std::ptr::null_mut();
        }
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.fetch_sub(l.size() as i64, Relaxed);
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        crate::sched::point();
        if n > l.size() {
            if !take(n - l.size()) {
                return std::ptr::null_mut();
            }
        } else {
            LIVE.fetch_sub((l.size() - n) as i64, Relaxed);
        }
        System.realloc(p, l, n)
    }
}

pub fn live() -> i64 {
    LIVE.load(Relaxed)
}
pub fn count() -> u64 {
    COUNT.load(Relaxed)
}
pub fn reset_peak() {
    PEAK.store(LIVE.load(Relaxed), Relaxed);
}
pub fn peak() -> i64 {
    PEAK.load(Relaxed)
}
pub fn set_cap(extra: Option<i64>) {
    CAP.store(extra.map(|e| live() + e).unwrap_or(i64::MAX), Relaxed);
}
