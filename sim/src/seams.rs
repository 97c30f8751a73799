//! Seam: the operating-system services the process could draw nondeterminism from.  Inside a run,
//! clocks read simulated time, random bytes come from the run's seed, and futexes and yields go to
//! the simulated scheduler.  Outside a run they reach the kernel.

use std::arch::asm;
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU64, Ordering::SeqCst};

static ON: AtomicBool = AtomicBool::new(false);
static CLOCK_NS: AtomicI64 = AtomicI64::new(0);
static RND: AtomicU64 = AtomicU64::new(1);
pub static RANDOM_READS: AtomicU64 = AtomicU64::new(0);
pub static CLOCK_READS: AtomicU64 = AtomicU64::new(0);
pub static FUTEX_WAITS: AtomicU64 = AtomicU64::new(0);

pub fn enter(seed: u64) {
    RND.store(seed | 1, SeqCst);
    CLOCK_NS.store((crate::rng::mix(seed) >> 6) as i64, SeqCst);
    ON.store(true, SeqCst);
}
pub fn leave() {
    ON.store(false, SeqCst);
}
pub fn advance(ns: i64) {
    CLOCK_NS.fetch_add(ns, SeqCst);
}
/// A clock jump, possibly backwards.
pub fn set_clock(ns: i64) {
    CLOCK_NS.store(ns, SeqCst);
}

pub unsafe fn raw(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    let r: i64;
    asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c,
         in("r10") d, in("r8") e, in("r9") f, out("rcx") _, out("r11") _, options(nostack));
    r
}

unsafe fn errno_ret(r: i64) -> i64 {
    if (-4095..0).contains(&r) {
        *libc::__errno_location() = -r as i32;
        -1
    } else {
        r
    }
}

unsafe fn fill(buf: *mut u8, len: usize) {
    let mut i = 0;
    while i < len {
        let x = crate::rng::mix(RND.fetch_add(0x9E3779B97F4A7C15, SeqCst));
        for k in 0..8 {
            if i < len {
                *buf.add(i) = (x >> (8 * k)) as u8;
                i += 1;
            }
        }
    }
}

#[no_mangle]
pub unsafe extern "C" fn syscall(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    if ON.load(SeqCst) {
        if n == libc::SYS_getrandom {
            RANDOM_READS.fetch_add(1, SeqCst);
            fill(a as *mut u8, b as usize);
            return b;
        }
        if n == libc::SYS_futex && crate::sched::is_sim_thread() {
            let op = b as i32 & 0x7f;
            match op {
                libc::FUTEX_WAIT | libc::FUTEX_WAIT_BITSET => {
                    FUTEX_WAITS.fetch_add(1, SeqCst);
                    return errno_ret(crate::sched::futex_wait(a as *const u32, c as u32, d != 0));
                }
                libc::FUTEX_WAKE | libc::FUTEX_WAKE_BITSET => {
                    return crate::sched::futex_wake(a as *const u32, c as u32);
                }
                _ => {}
            }
        }
    }
    errno_ret(raw(n, a, b, c, d, e, f))
}

#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, flags: u32) -> isize {
    if ON.load(SeqCst) {
        RANDOM_READS.fetch_add(1, SeqCst);
        fill(buf, len);
        return len as isize;
    }
    errno_ret(raw(libc::SYS_getrandom, buf as i64, len as i64, flags as i64, 0, 0, 0)) as isize
}

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: i32, ts: *mut libc::timespec) -> i32 {
    if ON.load(SeqCst) {
        CLOCK_READS.fetch_add(1, SeqCst);
        // monotonic clocks never step back in a real system; the wall clock may
        let ns = CLOCK_NS.fetch_add(1_000, SeqCst);
        let ns = ns.max(0);
        (*ts).tv_sec = ns / 1_000_000_000;
        (*ts).tv_nsec = ns % 1_000_000_000;
        return 0;
    }
    errno_ret(raw(libc::SYS_clock_gettime, id as i64, ts as i64, 0, 0, 0, 0)) as i32
}

#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> i32 {
    if ON.load(SeqCst) && crate::sched::is_sim_thread() {
        crate::sched::yield_now();
        return 0;
    }
    raw(libc::SYS_sched_yield, 0, 0, 0, 0, 0, 0) as i32
}

/// Real monotonic time in nanoseconds, whatever the simulation does.
pub fn real_now() -> i64 {
    let mut ts = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    unsafe { raw(libc::SYS_clock_gettime, 1, &mut ts as *mut _ as i64, 0, 0, 0, 0) };
    ts.tv_sec * 1_000_000_000 + ts.tv_nsec
}
