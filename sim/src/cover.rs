//! Seam: a call at every basic block of the library (compiled in by `rustc-wrap.sh`).  It is a
//! scheduling point, counts simulated steps (the bound on run time is a bound on steps) and marks
//! the block as reached.

use std::sync::atomic::{AtomicBool, AtomicPtr, AtomicU64, AtomicUsize, Ordering::Relaxed};

pub static STEPS: AtomicU64 = AtomicU64::new(0);
static BUDGET: AtomicU64 = AtomicU64::new(u64::MAX);
pub static GUARDS: AtomicUsize = AtomicUsize::new(0);
/// one byte per block: reached in this run / in any run
static HERE: AtomicPtr<u8> = AtomicPtr::new(std::ptr::null_mut());
static EVER: AtomicPtr<u8> = AtomicPtr::new(std::ptr::null_mut());
static CALL_START: AtomicU64 = AtomicU64::new(0);
static MAX_CALL: AtomicU64 = AtomicU64::new(0);
static OVER: AtomicBool = AtomicBool::new(false);

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(mut a: *mut u32, b: *mut u32) {
    while a < b {
        if *a == 0 {
            *a = GUARDS.fetch_add(1, Relaxed) as u32 + 1;
        }
        a = a.add(1);
    }
}

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard(g: *mut u32) {
    let h = HERE.load(Relaxed);
    if h.is_null() {
        return;
    }
    *h.add(*g as usize) = 1;
    // one thread runs at a time inside a run
    let s = STEPS.load(Relaxed) + 1;
    STEPS.store(s, Relaxed);
    if s > BUDGET.load(Relaxed) && !OVER.swap(true, Relaxed) {
        crate::runner::report_and_exit("hang", "the call did not finish within its budget of steps");
    }
    crate::sched::point();
}

/// Shared maps, made once by the coordinator before it forks.
pub fn setup() {
    let n = GUARDS.load(Relaxed) + 1;
    let p = crate::runner::shared_bytes(n);
    EVER.store(p, Relaxed);
}
/// Start counting in a run (in the run's own process).
pub fn begin(budget: u64) {
    let n = GUARDS.load(Relaxed) + 1;
    STEPS.store(0, Relaxed);
    CALL_START.store(0, Relaxed);
    MAX_CALL.store(0, Relaxed);
    BUDGET.store(budget, Relaxed);
    let v = vec![0u8; n].into_boxed_slice();
    HERE.store(Box::leak(v).as_mut_ptr(), Relaxed);
}
/// A call begins: from here on it has this many steps.
pub fn call_budget(steps: u64) {
    let now = STEPS.load(Relaxed);
    let used = now - CALL_START.swap(now, Relaxed);
    MAX_CALL.store(MAX_CALL.load(Relaxed).max(used), Relaxed);
    BUDGET.store(now.saturating_add(steps), Relaxed);
}
/// The longest stretch between two calls so far.
pub fn max_call() -> u64 {
    MAX_CALL.load(Relaxed)
}
pub fn steps() -> u64 {
    STEPS.load(Relaxed)
}
/// Stop counting; returns steps, blocks reached and a fingerprint of the set of blocks.
pub fn end() -> (u64, u64, u64) {
    let h = HERE.swap(std::ptr::null_mut(), Relaxed);
    let e = EVER.load(Relaxed);
    let (mut n, mut sig) = (0, 0u64);
    if !h.is_null() {
        for i in 1..=GUARDS.load(Relaxed) {
            unsafe {
                if *h.add(i) != 0 {
                    n += 1;
                    sig = sig.wrapping_add(crate::rng::mix(i as u64));
                    if !e.is_null() {
                        *e.add(i) = 1;
                    }
                }
            }
        }
    }
    (STEPS.load(Relaxed), n, sig)
}
pub fn reached() -> usize {
    let e = EVER.load(Relaxed);
    (1..=GUARDS.load(Relaxed)).filter(|i| unsafe { *e.add(*i) != 0 }).count()
}

extern "C" {
    static __data_start: u8;
    static _end: u8;
}

/// Is this writable memory every thread sees (the process's static variables)?
#[inline]
fn is_static(a: usize) -> bool {
    unsafe { a >= std::ptr::addr_of!(__data_start) as usize && a < std::ptr::addr_of!(_end) as usize }
}

pub static SHARED: AtomicU64 = AtomicU64::new(0);

#[inline]
fn access(a: usize) {
    if is_static(a) && !HERE.load(Relaxed).is_null() {
        SHARED.store(SHARED.load(Relaxed) + 1, Relaxed);
        crate::sched::shared_point();
    }
}

macro_rules! accesses {
    ($($name:ident)*) => { $(
        #[no_mangle]
        pub unsafe extern "C" fn $name(a: usize) {
            access(a)
        }
    )* };
}
accesses!(__sanitizer_cov_load1 __sanitizer_cov_load2 __sanitizer_cov_load4 __sanitizer_cov_load8 __sanitizer_cov_load16
    __sanitizer_cov_store1 __sanitizer_cov_store2 __sanitizer_cov_store4 __sanitizer_cov_store8 __sanitizer_cov_store16);

/// Seam: the atomic operations of the library, each a scheduling point, carried out in the one
/// order the scheduler decides.
mod atomics {
    use super::*;
    use std::sync::atomic::{AtomicU16, AtomicU32, AtomicU8, Ordering::SeqCst};

    fn at(_: usize) {
        if HERE.load(Relaxed).is_null() {
            return;
        }
        SHARED.store(SHARED.load(Relaxed) + 1, Relaxed);
        crate::sched::shared_point();
    }

    macro_rules! ops {
        ($t:ty, $u:ty, $load:ident $store:ident $xchg:ident $add:ident $sub:ident $and:ident $or:ident $xor:ident $nand:ident $cas:ident) => {
            #[no_mangle]
            pub unsafe extern "C" fn $load(a: *const $t, _: i32) -> $u {
                at(a as usize);
                (*a).load(SeqCst)
            }
            #[no_mangle]
            pub unsafe extern "C" fn $store(a: *const $t, v: $u, _: i32) {
                at(a as usize);
                (*a).store(v, SeqCst)
            }
            #[no_mangle]
            pub unsafe extern "C" fn $xchg(a: *const $t, v: $u, _: i32) -> $u {
                at(a as usize);
                (*a).swap(v, SeqCst)
            }
            #[no_mangle]
            pub unsafe extern "C" fn $add(a: *const $t, v: $u, _: i32) -> $u {
                at(a as usize);
                (*a).fetch_add(v, SeqCst)
            }
            #[no_mangle]
            pub unsafe extern "C" fn $sub(a: *const $t, v: $u, _: i32) -> $u {
                at(a as usize);
                (*a).fetch_sub(v, SeqCst)
            }
            #[no_mangle]
            pub unsafe extern "C" fn $and(a: *const $t, v: $u, _: i32) -> $u {
                at(a as usize);
                (*a).fetch_and(v, SeqCst)
            }
            #[no_mangle]
            pub unsafe extern "C" fn $or(a: *const $t, v: $u, _: i32) -> $u {
                at(a as usize);
                (*a).fetch_or(v, SeqCst)
            }
            #[no_mangle]
            pub unsafe extern "C" fn $xor(a: *const $t, v: $u, _: i32) -> $u {
                at(a as usize);
                (*a).fetch_xor(v, SeqCst)
            }
            #[no_mangle]
            pub unsafe extern "C" fn $nand(a: *const $t, v: $u, _: i32) -> $u {
                at(a as usize);
                (*a).fetch_nand(v, SeqCst)
            }
            #[no_mangle]
            pub unsafe extern "C" fn $cas(a: *const $t, c: $u, v: $u, _: i32, _: i32) -> $u {
                at(a as usize);
                match (*a).compare_exchange(c, v, SeqCst, SeqCst) {
                    Ok(o) | Err(o) => o,
                }
            }
        };
    }
    ops!(AtomicU8, u8, __tsan_atomic8_load __tsan_atomic8_store __tsan_atomic8_exchange __tsan_atomic8_fetch_add __tsan_atomic8_fetch_sub __tsan_atomic8_fetch_and __tsan_atomic8_fetch_or __tsan_atomic8_fetch_xor __tsan_atomic8_fetch_nand __tsan_atomic8_compare_exchange_val);
    ops!(AtomicU16, u16, __tsan_atomic16_load __tsan_atomic16_store __tsan_atomic16_exchange __tsan_atomic16_fetch_add __tsan_atomic16_fetch_sub __tsan_atomic16_fetch_and __tsan_atomic16_fetch_or __tsan_atomic16_fetch_xor __tsan_atomic16_fetch_nand __tsan_atomic16_compare_exchange_val);
    ops!(AtomicU32, u32, __tsan_atomic32_load __tsan_atomic32_store __tsan_atomic32_exchange __tsan_atomic32_fetch_add __tsan_atomic32_fetch_sub __tsan_atomic32_fetch_and __tsan_atomic32_fetch_or __tsan_atomic32_fetch_xor __tsan_atomic32_fetch_nand __tsan_atomic32_compare_exchange_val);
    ops!(AtomicU64, u64, __tsan_atomic64_load __tsan_atomic64_store __tsan_atomic64_exchange __tsan_atomic64_fetch_add __tsan_atomic64_fetch_sub __tsan_atomic64_fetch_and __tsan_atomic64_fetch_or __tsan_atomic64_fetch_xor __tsan_atomic64_fetch_nand __tsan_atomic64_compare_exchange_val);
    #[no_mangle]
    pub extern "C" fn __tsan_atomic_thread_fence(_: i32) {
        std::sync::atomic::fence(SeqCst)
    }
    #[no_mangle]
    pub extern "C" fn __tsan_atomic_signal_fence(_: i32) {}
}

static PCS: AtomicPtr<[usize; 2]> = AtomicPtr::new(std::ptr::null_mut());

/// Only called when built with `OSUSIM_PCS`: where each block is.
#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_pcs_init(a: *mut [usize; 2], _: *mut [usize; 2]) {
    PCS.store(a, Relaxed);
}

extern "C" {
    static __executable_start: u8;
}

/// Which blocks were reached in any run, as offsets into the executable (for `tools/lines.py`).
pub fn dump(path: &str) {
    let (p, e) = (PCS.load(Relaxed), EVER.load(Relaxed));
    if p.is_null() {
        return;
    }
    let base = unsafe { std::ptr::addr_of!(__executable_start) as usize };
    let mut out = String::new();
    for i in 1..=GUARDS.load(Relaxed) {
        unsafe {
            out += &format!("{:#x} {}\n", (*p.add(i - 1))[0].wrapping_sub(base), *e.add(i));
        }
    }
    let _ = std::fs::write(path, out);
}
