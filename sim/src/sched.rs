//! The simulated scheduler: real threads, of which exactly one runs at a time; a seeded choice at
//! every allocation, output write, futex operation and call boundary decides which one continues.

use crate::rng::Rng;
use serde::{Deserialize, Serialize};
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicU32, AtomicU64, Ordering::SeqCst};

pub const MAX: usize = 8;

thread_local! {
    static ME: Cell<usize> = const { Cell::new(usize::MAX) };
    static QUIET: Cell<u32> = const { Cell::new(0) };
}

static ACTIVE: AtomicBool = AtomicBool::new(false);
static GATE: [AtomicU32; MAX + 1] = [const { AtomicU32::new(0) }; MAX + 1];

#[derive(Clone, Copy, PartialEq)]
enum St {
    Absent,
    Ready,
    Blocked(usize),
    Done,
}

/// How the next thread is chosen.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Plan {
    /// pseudo-random: on average every `quantum` points a switch to a random ready thread
    /// and one in `shared` times at an access to memory all threads share (0: as anywhere else);
    /// from `MEET` on: a thread that comes to such an access waits there (1, 1/2, 1/3... of the
    /// times) until every other thread is at one too, is done or is blocked
    Seeded {
        seed: u64,
        quantum: u32,
        #[serde(default)]
        shared: u32,
    },
    /// exactly these switches: (thread, its own step count, thread to run next); a thread that stops
    /// elsewhere is followed by the ready thread with the lowest number
    Explicit(Vec<(u8, u64, u8)>),
}

/// see `Plan::Seeded`
pub const MEET: u32 = 1_000_000;

struct Core {
    /// waiting at an access to shared memory for the others to get to one
    parked: [bool; MAX],
    st: [St; MAX],
    rng: Rng,
    /// mean number of points between switches; 0 for an explicit plan
    quantum: u32,
    left: u32,
    /// one in this many accesses to shared memory is a switch
    shared: u32,
    local: [u64; MAX + 1],
    plan: [Vec<(u64, u8)>; MAX + 1],
    next: [usize; MAX + 1],
    steps: u64,
    switches: u64,
    trace: u64,
}

const LOG: usize = 1 << 16;
static mut LOGGED: [(u8, u64, u8); LOG] = [(0, 0, 0); LOG];
static LOG_LEN: AtomicU64 = AtomicU64::new(0);

/// The switches of the last run, if they all fitted the log.
#[allow(static_mut_refs)]
pub fn log() -> Option<Vec<(u8, u64, u8)>> {
    let n = LOG_LEN.load(SeqCst) as usize;
    (n <= LOG).then(|| unsafe { LOGGED[..n].to_vec() })
}

static mut CORE: Option<Core> = None;

#[allow(static_mut_refs)]
fn core() -> &'static mut Core {
    // only the one running thread gets here
    unsafe { CORE.as_mut().unwrap() }
}

pub static STEPS: AtomicU64 = AtomicU64::new(0);
pub static SWITCHES: AtomicU64 = AtomicU64::new(0);
pub static TRACE: AtomicU64 = AtomicU64::new(0);

fn wait_gate(i: usize) {
    loop {
        if GATE[i].swap(0, SeqCst) == 1 {
            return;
        }
        unsafe {
            crate::seams::raw(libc::SYS_futex, &GATE[i] as *const _ as i64, libc::FUTEX_WAIT as i64 | 128, 0, 0, 0, 0);
        }
    }
}
fn open_gate(i: usize) {
    GATE[i].store(1, SeqCst);
    unsafe {
        crate::seams::raw(libc::SYS_futex, &GATE[i] as *const _ as i64, libc::FUTEX_WAKE as i64 | 128, 1, 0, 0, 0);
    }
}

pub fn is_sim_thread() -> bool {
    ACTIVE.load(SeqCst) && ME.try_with(|m| m.get()).unwrap_or(usize::MAX) != usize::MAX
}

/// Code of the harness that must not be interleaved.
pub fn quiet<T>(f: impl FnOnce() -> T) -> T {
    QUIET.with(|q| q.set(q.get() + 1));
    let r = f();
    QUIET.with(|q| q.set(q.get() - 1));
    r
}

fn ready(c: &Core, not: Option<usize>) -> ([usize; MAX], usize) {
    let mut r = [0usize; MAX];
    let mut n = 0;
    for i in 0..MAX {
        if c.st[i] == St::Ready && Some(i) != not {
            r[n] = i;
            n += 1;
        }
    }
    (r, n)
}

/// What the explicit plan says about this very point.
fn planned(c: &mut Core, me: usize) -> Option<usize> {
    let at = c.local[me];
    while let Some(&(s, to)) = c.plan[me].get(c.next[me]) {
        if s > at {
            return None;
        }
        c.next[me] += 1;
        if s == at {
            return Some(to as usize);
        }
    }
    None
}

/// One of the ready threads, if there is one: rather one that is not waiting for the others.
fn choose(c: &mut Core, not: Option<usize>) -> Option<usize> {
    let (mut r, mut n) = ready(c, not);
    if n == 0 {
        return None;
    }
    if r[..n].iter().any(|t| !c.parked[*t]) {
        let mut k = 0;
        for i in 0..n {
            if !c.parked[r[i]] {
                r[k] = r[i];
                k += 1;
            }
        }
        n = k;
    }
    let to = r[c.rng.below(n)];
    c.parked[to] = false;
    Some(to)
}

/// The thread to run after `me` stops.
fn pick(c: &mut Core, me: usize) -> Option<usize> {
    let (r, n) = ready(c, None);
    if n == 0 {
        return None;
    }
    if c.quantum == 0 {
        let p = planned(c, me);
        return Some(p.filter(|t| r[..n].contains(t)).unwrap_or(r[0]));
    }
    choose(c, None)
}

#[allow(static_mut_refs)]
fn note_switch(c: &mut Core, me: usize, to: usize) {
    let n = LOG_LEN.fetch_add(1, SeqCst) as usize;
    if n < LOG {
        unsafe { LOGGED[n] = (me as u8, c.local[me], to as u8) };
    }
    c.switches += 1;
    c.trace = crate::rng::mix(c.trace ^ ((to as u64 + 1) << 56) ^ ((me as u64) << 48) ^ c.local[me]);
    if c.quantum > 0 {
        c.left = c.rng.below(c.quantum as usize * 2) as u32;
    }
}

fn switch_to(c: &mut Core, me: usize, to: usize) {
    note_switch(c, me, to);
    if to == me {
        return;
    }
    open_gate(to);
    wait_gate(me);
}

/// A possible preemption.
pub fn point() {
    preempt(false)
}

/// The same, right before an access to memory that all threads share.
pub fn shared_point() {
    preempt(true)
}

fn preempt(at_shared: bool) {
    if !ACTIVE.load(SeqCst) {
        return;
    }
    let me = ME.try_with(|m| m.get()).unwrap_or(usize::MAX);
    if me == usize::MAX || QUIET.try_with(|q| q.get()).unwrap_or(1) > 0 {
        return;
    }
    let c = core();
    c.steps += 1;
    c.local[me] += 1;
    if c.quantum == 0 {
        if let Some(to) = planned(c, me) {
            let (r, n) = ready(c, Some(me));
            if r[..n].contains(&to) {
                switch_to(c, me, to);
            }
        }
        return;
    }
    if at_shared && c.shared >= MEET && c.rng.below((c.shared - MEET) as usize + 1) == 0 {
        c.parked[me] = true;
        match choose(c, None) {
            Some(to) if to != me => switch_to(c, me, to),
            _ => {}
        }
        return;
    }
    let now = at_shared && c.shared > 0 && c.shared < MEET && c.rng.below(c.shared as usize) == 0;
    if c.left > 0 && !now {
        c.left -= 1;
        return;
    }
    match choose(c, Some(me)) {
        Some(to) => switch_to(c, me, to),
        None => c.left = c.quantum,
    }
}

pub fn yield_now() {
    let me = ME.with(|m| m.get());
    let c = core();
    c.steps += 1;
    c.local[me] += 1;
    let (r, n) = ready(c, Some(me));
    if n > 0 {
        let to = if c.quantum == 0 {
            planned(c, me).filter(|t| r[..n].contains(t)).unwrap_or(r[0])
        } else {
            choose(c, Some(me)).unwrap_or(r[0])
        };
        switch_to(c, me, to);
    }
}

pub fn futex_wait(addr: *const u32, expected: u32, timed: bool) -> i64 {
    let me = ME.with(|m| m.get());
    let c = core();
    c.steps += 1;
    c.local[me] += 1;
    if unsafe { (*(addr as *const AtomicU32)).load(SeqCst) } != expected {
        return -(libc::EAGAIN as i64);
    }
    c.st[me] = St::Blocked(addr as usize);
    match pick(c, me) {
        Some(to) => {
            switch_to(c, me, to);
            0
        }
        None if timed => {
            // nobody else can run: simulated time passes until the timeout
            c.st[me] = St::Ready;
            crate::seams::advance(1_000_000_000);
            -(libc::ETIMEDOUT as i64)
        }
        None => crate::runner::report_and_exit("deadlock", "every simulated thread waits for another one"),
    }
}

pub fn futex_wake(addr: *const u32, n: u32) -> i64 {
    let me = ME.with(|m| m.get());
    let c = core();
    c.steps += 1;
    c.local[me] += 1;
    let mut woken = 0;
    let start = crate::rng::mix(c.local[me] ^ (me as u64) << 40) as usize % MAX;
    for k in 0..MAX {
        let i = (start + k) % MAX;
        if woken < n && c.st[i] == St::Blocked(addr as usize) {
            c.st[i] = St::Ready;
            woken += 1;
        }
    }
    woken as i64
}

/// Run the bodies as simulated threads, to completion, under the plan.  Bodies catch their panics.
#[allow(static_mut_refs)]
pub fn run(plan: &Plan, bodies: Vec<Box<dyn FnOnce() + Send>>) {
    let n = bodies.len();
    assert!(n <= MAX && n > 0);
    let mut st = [St::Absent; MAX];
    for s in st.iter_mut().take(n) {
        *s = St::Ready;
    }
    for g in &GATE {
        g.store(0, SeqCst);
    }
    LOG_LEN.store(0, SeqCst);
    let mut lists: [Vec<(u64, u8)>; MAX + 1] = Default::default();
    let (seed, quantum, shared) = match plan {
        Plan::Seeded { seed, quantum, shared } => (*seed, (*quantum).max(1), *shared),
        Plan::Explicit(v) => {
            for (t, at, to) in v {
                if (*t as usize) <= MAX {
                    lists[*t as usize].push((*at, *to));
                }
            }
            for l in lists.iter_mut() {
                l.sort();
            }
            (0, 0, 0)
        }
    };
    unsafe {
        CORE = Some(Core {
            parked: [false; MAX],
            st,
            rng: Rng::new(seed),
            quantum,
            left: 0,
            shared,
            local: [0; MAX + 1],
            plan: lists,
            next: [0; MAX + 1],
            steps: 0,
            switches: 0,
            trace: 0,
        })
    };
    let handles: Vec<_> = bodies
        .into_iter()
        .enumerate()
        .map(|(i, b)| {
            std::thread::Builder::new()
                .stack_size(2 << 20)
                .spawn(move || {
                    wait_gate(i);
                    ME.with(|m| m.set(i));
                    b();
                    ME.with(|m| m.set(usize::MAX));
                    let c = core();
                    c.st[i] = St::Done;
                    c.local[i] += 1;
                    match pick(c, i) {
                        Some(to) => {
                            note_switch(c, i, to);
                            open_gate(to)
                        }
                        None => {
                            if c.st.iter().any(|s| matches!(s, St::Blocked(_))) {
                                crate::runner::report_and_exit(
                                    "deadlock",
                                    "the remaining simulated threads wait for a thread that has finished",
                                );
                            }
                            open_gate(MAX)
                        }
                    }
                })
                .unwrap()
        })
        .collect();
    ACTIVE.store(true, SeqCst);
    let c = core();
    let first = pick(c, MAX).unwrap();
    note_switch(c, MAX, first);
    open_gate(first);
    wait_gate(MAX);
    ACTIVE.store(false, SeqCst);
    for h in handles {
        let _ = h.join();
    }
    let c = core();
    STEPS.fetch_add(c.steps, SeqCst);
    SWITCHES.fetch_add(c.switches, SeqCst);
    TRACE.store(c.trace, SeqCst);
}
