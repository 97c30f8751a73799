//! Runs, workers, reports.  A run is one scenario executed in a freshly forked process, in a freshly
//! spawned thread, behind the seams.  The coordinating processes never call the library.

use crate::rng::{hash_str, mix};
use crate::{alloc, cover, seams, world};
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU32, AtomicU64, AtomicUsize, Ordering::SeqCst};

pub const OUT: usize = 1 << 20;
/// Basic blocks one call may take.
pub const CALL_STEPS: u64 = 200_000_000;
/// Basic blocks after which a run stops repeating itself (sweeps).
pub const RUN_STEPS: u64 = 150_000_000;
/// memory a run may hold before the simulated machine refuses more
pub const MEM_CAP: i64 = 1 << 30;

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Viol {
    /// properties this breaks; `*`: whichever is being checked
    pub props: Vec<String>,
    pub class: String,
    pub msg: String,
}

#[derive(Clone, Debug, Serialize, Deserialize, Default)]
pub struct Report {
    pub viols: Vec<Viol>,
    pub faults: BTreeMap<String, u64>,
    pub notes: BTreeMap<String, u64>,
    pub calls: u64,
    pub steps: u64,
    pub max_call: u64,
    pub blocks: u64,
    pub sig: u64,
    pub sched_steps: u64,
    pub switches: u64,
    pub trace: u64,
    pub sim_ns: i64,
    pub nontrivial: bool,
    /// the schedule as explicit switches, when the run had one
    pub schedule: Option<Vec<(u8, u64, u8)>>,
}

/// What a running scenario reports to.
pub struct Ctx {
    pub rep: Report,
}

impl Ctx {
    pub fn fault(&mut self, kind: &str) {
        *self.rep.faults.entry(kind.to_string()).or_default() += 1;
        self.rep.nontrivial = true;
    }
    /// Has the run taken so long that sweeps should end?
    pub fn tired(&mut self) -> bool {
        let t = cover::steps() > RUN_STEPS;
        if t {
            self.note("sweep ended early");
        }
        t
    }
    pub fn note(&mut self, kind: &str) {
        *self.rep.notes.entry(kind.to_string()).or_default() += 1;
    }
    pub fn viol(&mut self, props: &[&str], class: &str, msg: impl Into<String>) {
        let mut msg = msg.into();
        if msg.len() > 2000 {
            let mut k = 2000;
            while !msg.is_char_boundary(k) {
                k -= 1;
            }
            msg.truncate(k);
        }
        if self.rep.viols.len() < 20 {
            self.rep.viols.push(Viol {
                props: props.iter().map(|s| s.to_string()).collect(),
                class: class.to_string(),
                msg,
            });
        }
    }
    /// A call into the library.  A panic in it breaks the given properties.
    pub fn call<T>(&mut self, props: &[&str], what: &str, f: impl FnOnce() -> T) -> Option<T> {
        self.rep.calls += 1;
        set_phase(what);
        match guarded(f) {
            Ok(v) => Some(v),
            Err(p) => {
                self.viol(props, &format!("panic {}", p.at), format!("{what}: panicked at {}: {}", p.at, p.msg));
                None
            }
        }
    }
}

pub struct Panic {
    pub at: String,
    pub msg: String,
}

thread_local! {
    static LAST: RefCell<Option<Panic>> = const { RefCell::new(None) };
}

pub fn install_hook() {
    std::panic::set_hook(Box::new(|i| {
        crate::sched::quiet(|| {
            let at = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
            let msg = match i.payload().downcast_ref::<&str>() {
                Some(s) => s.to_string(),
                None => i.payload().downcast_ref::<String>().cloned().unwrap_or_default(),
            };
            let msg: String = msg.chars().take(300).collect();
            LAST.with(|l| *l.borrow_mut() = Some(Panic { at, msg }));
        })
    }));
}

pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, Panic> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => Err(LAST
            .with(|l| l.borrow_mut().take())
            .unwrap_or(Panic { at: "?".into(), msg: String::new() })),
    }
}

// ------------------------------------------------------------------------------------------------
// Shared memory between a run and its worker

pub fn shared_bytes(n: usize) -> *mut u8 {
    unsafe {
        let p = libc::mmap(
            std::ptr::null_mut(),
            n.max(1),
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE,
            -1,
            0,
        );
        assert!(p != libc::MAP_FAILED);
        p as *mut u8
    }
}

#[repr(C)]
struct Slot {
    done: AtomicU32,
    len: AtomicU32,
    phase_len: AtomicU32,
    cap_hit: AtomicU32,
    phase: [u8; 256],
    out: [u8; OUT],
}

static LIMITED: AtomicU64 = AtomicU64::new(0);
static SLOT: std::sync::atomic::AtomicPtr<Slot> = std::sync::atomic::AtomicPtr::new(std::ptr::null_mut());

fn slot() -> &'static mut Slot {
    unsafe { &mut *SLOT.load(SeqCst) }
}
pub fn new_slot() {
    SLOT.store(shared_bytes(std::mem::size_of::<Slot>()) as *mut Slot, SeqCst);
}

/// Time for code that has no step counter: 40 s of processor time from now.
fn cpu_limit() {
    unsafe {
        let mut t: libc::timespec = std::mem::zeroed();
        seams::raw(libc::SYS_clock_gettime, libc::CLOCK_PROCESS_CPUTIME_ID as i64, &mut t as *mut _ as i64, 0, 0, 0, 0);
        let lim = libc::rlimit { rlim_cur: t.tv_sec as u64 + 40, rlim_max: 1000 };
        libc::setrlimit(libc::RLIMIT_CPU, &lim);
    }
}

pub fn set_phase(s: &str) {
    if SLOT.load(SeqCst).is_null() {
        return;
    }
    cover::call_budget(CALL_STEPS);
    let done = cover::steps() / CALL_STEPS;
    if done != LIMITED.swap(done, SeqCst) {
        cpu_limit();
    }
    let t = slot();
    let b = s.as_bytes();
    let n = b.len().min(256);
    t.phase[..n].copy_from_slice(&b[..n]);
    t.phase_len.store(n as u32, SeqCst);
}

pub fn note_cap_hit() {
    let p = SLOT.load(SeqCst);
    if !p.is_null() {
        unsafe { (*p).cap_hit.store(1, SeqCst) };
    }
}

fn write_out(b: &[u8]) {
    let t = slot();
    let n = b.len().min(OUT);
    t.out[..n].copy_from_slice(&b[..n]);
    t.len.store(n as u32, SeqCst);
    t.done.store(1, SeqCst);
}

/// From anywhere inside a run: report this and end the run at once.
pub fn report_and_exit(class: &str, msg: &str) -> ! {
    let t = slot();
    let n = t.phase_len.load(SeqCst) as usize;
    let phase = String::from_utf8_lossy(&t.phase[..n]).into_owned();
    let r = crate::sched::quiet(|| {
        let r = Report {
            viols: vec![Viol { props: vec!["*".into()], class: class.into(), msg: format!("{phase}: {msg}") }],
            schedule: crate::sched::log(),
            ..Default::default()
        };
        serde_json::to_vec(&r).unwrap_or_default()
    });
    write_out(&r);
    unsafe { libc::_exit(0) }
}

/// Fork; run `f` in the child; return what it wrote, or how it died.
pub fn in_child(f: impl FnOnce() -> Vec<u8>) -> Result<Vec<u8>, String> {
    let t = slot();
    t.done.store(0, SeqCst);
    t.len.store(0, SeqCst);
    t.phase_len.store(0, SeqCst);
    t.cap_hit.store(0, SeqCst);
    unsafe {
        let pid = libc::fork();
        if pid == 0 {
            cpu_limit();
            let none = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
            libc::setrlimit(libc::RLIMIT_CORE, &none);
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            libc::alarm(300);
            let dn = libc::open(c"/dev/null".as_ptr(), libc::O_WRONLY);
            libc::dup2(dn, 2);
            let b = f();
            write_out(&b);
            libc::_exit(0);
        }
        assert!(pid > 0, "fork failed");
        let mut st = 0;
        while libc::waitpid(pid, &mut st, 0) < 0 {}
        if t.done.load(SeqCst) == 1 {
            let n = t.len.load(SeqCst) as usize;
            return Ok(t.out[..n].to_vec());
        }
        let n = t.phase_len.load(SeqCst) as usize;
        let phase = String::from_utf8_lossy(&t.phase[..n]).into_owned();
        let how = if libc::WIFSIGNALED(st) {
            match libc::WTERMSIG(st) {
                libc::SIGABRT if t.cap_hit.load(SeqCst) == 1 => "ran out of memory".into(),
                libc::SIGABRT => "aborted (SIGABRT)".to_string(),
                libc::SIGSEGV => "stack overflow or invalid access (SIGSEGV)".into(),
                libc::SIGXCPU => "did not finish (hang)".into(),
                libc::SIGALRM => "killed by signal 9".into(),
                s => format!("killed by signal {s}"),
            }
        } else {
            format!("process ended early with status {}", libc::WEXITSTATUS(st))
        };
        Err(format!("{phase}\u{1}{how}"))
    }
}

/// Execute one scenario in its own process.
pub fn run_one(prop: &str, scn: &world::Scn, seed: u64) -> Report {
    let r = in_child(|| {
        seams::enter(mix(seed));
        alloc::set_cap(Some(MEM_CAP));
        cover::begin(CALL_STEPS);
        let h = std::thread::Builder::new()
            .stack_size(2 << 20)
            .spawn({
                let prop = prop.to_string();
                let scn = scn.clone();
                move || {
                    let mut cx = Ctx { rep: Report::default() };
                    if let Err(p) = guarded(|| world::exec(&prop, &scn, &mut cx)) {
                        // the caller (the simulator) only relies on what the library promises it
                        cx.viol(&["*"], "the library broke what its caller relies on", format!("{} {}", p.at, p.msg));
                    }
                    cx.rep
                }
            })
            .unwrap();
        let mut rep = h.join().unwrap_or_default();
        seams::leave();
        alloc::set_cap(None);
        cover::call_budget(u64::MAX);
        rep.max_call = cover::max_call();
        let (steps, blocks, sig) = cover::end();
        rep.steps = steps;
        rep.blocks = blocks;
        rep.sig = sig;
        rep.sched_steps = crate::sched::STEPS.load(SeqCst);
        rep.switches = crate::sched::SWITCHES.load(SeqCst);
        rep.trace = crate::sched::TRACE.load(SeqCst);
        let shared = cover::SHARED.load(SeqCst);
        if shared > 0 {
            rep.notes.insert("accesses of the library to memory shared by its threads".into(), shared);
        }
        if rep.switches > 0 && rep.viols.iter().any(|v| world::concerns(v, prop)) {
            rep.schedule = crate::sched::log();
        }
        serde_json::to_vec(&rep).unwrap()
    });
    match r {
        Ok(b) => serde_json::from_slice(&b).unwrap_or_else(|e| Report {
            viols: vec![Viol { props: vec!["harness".into()], class: "harness".into(), msg: format!("bad report: {e}") }],
            ..Default::default()
        }),
        Err(m) => {
            let (phase, how) = m.split_once('\u{1}').unwrap_or(("", &m));
            // ended from outside: says nothing about the library
            let props = if how == "killed by signal 9" { "harness" } else { "*" };
            Report {
                viols: vec![Viol { props: vec![props.into()], class: how.to_string(), msg: format!("{phase}: {how}") }],
                ..Default::default()
            }
        }
    }
}

/// The violation of `prop` in a report, if any.
pub fn pertinent<'a>(rep: &'a Report, prop: &str) -> Option<&'a Viol> {
    rep.viols.iter().find(|v| world::concerns(v, prop))
}

pub fn seed_of(base: u64, prop: &str, index: u64) -> u64 {
    mix(base ^ mix(hash_str(prop)) ^ mix(index.wrapping_add(0x51)))
}

#[derive(Serialize, Deserialize, Default)]
pub struct Sum {
    pub runs: u64,
    pub nontrivial: u64,
    pub calls: u64,
    pub steps: u64,
    pub max_call: u64,
    pub max_run: u64,
    pub sched_steps: u64,
    pub switches: u64,
    pub sim_ns: i128,
    pub faults: BTreeMap<String, u64>,
    pub notes: BTreeMap<String, u64>,
    pub sigs: Vec<u64>,
    pub traces: Vec<u64>,
    pub found: Vec<(u64, Viol)>,
    pub harness: Vec<(u64, Viol)>,
}

pub struct Search {
    pub sum: Sum,
    pub distinct: usize,
    pub traces: usize,
    pub wall: f64,
    pub planned: u64,
}

/// Seeded search: `runs` scenarios over `workers` processes.
pub fn search(prop: &str, base: u64, tier: &str, runs: u64, workers: usize, max_wall: f64) -> Search {
    let t0 = seams::real_now();
    let stop = shared_bytes(4096) as *const AtomicU64;
    unsafe { (*stop).store(u64::MAX, SeqCst) };
    const BIG: usize = 64 << 20;
    let mut outs = vec![];
    let mut pids = vec![];
    for w in 0..workers {
        let area = shared_bytes(BIG);
        outs.push(area);
        let pid = unsafe { libc::fork() };
        if pid == 0 {
            unsafe { libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL) };
            new_slot();
            let mut s = Sum::default();
            let mut sigs = HashSet::new();
            let mut traces = HashSet::new();
            let mut i = w as u64;
            while i < runs {
                let limit = unsafe { (*stop).load(SeqCst) };
                if i > limit || (seams::real_now() - t0) as f64 / 1e9 > max_wall {
                    break;
                }
                let seed = seed_of(base, prop, i);
                let scn = world::gen(prop, seed, tier);
                let rep = run_one(prop, &scn, seed);
                s.runs += 1;
                s.nontrivial += rep.nontrivial as u64;
                s.calls += rep.calls;
                s.steps += rep.steps;
                s.max_call = s.max_call.max(rep.max_call);
                s.max_run = s.max_run.max(rep.steps);
                s.sched_steps += rep.sched_steps;
                s.switches += rep.switches;
                s.sim_ns += rep.sim_ns as i128;
                for (k, v) in &rep.faults {
                    *s.faults.entry(k.clone()).or_default() += v;
                }
                for (k, v) in &rep.notes {
                    *s.notes.entry(k.clone()).or_default() += v;
                }
                if rep.nontrivial && sigs.len() < 1_500_000 {
                    sigs.insert(rep.sig);
                }
                if rep.switches > 0 && traces.len() < 500_000 {
                    traces.insert(rep.trace);
                }
                if let Some(v) = pertinent(&rep, prop) {
                    s.found.push((i, v.clone()));
                    unsafe { (*stop).fetch_min(i, SeqCst) };
                    break;
                }
                if let Some(v) = rep.viols.iter().find(|v| v.props.iter().any(|p| p == "harness")) {
                    if s.harness.len() < 3 {
                        s.harness.push((i, v.clone()));
                    }
                }
                i += workers as u64;
            }
            s.sigs = sigs.into_iter().collect();
            s.traces = traces.into_iter().collect();
            let b = serde_json::to_vec(&s).unwrap();
            unsafe {
                let n = b.len().min(BIG - 8);
                std::ptr::copy_nonoverlapping(b.as_ptr(), area.add(8), n);
                (*(area as *const AtomicUsize)).store(n, SeqCst);
                libc::_exit(0);
            }
        }
        pids.push(pid);
    }
    for p in pids {
        let mut st = 0;
        unsafe { while libc::waitpid(p, &mut st, 0) < 0 {} }
    }
    let mut sum = Sum::default();
    let mut sigs: HashSet<u64> = HashSet::new();
    let mut traces: HashSet<u64> = HashSet::new();
    for area in outs {
        let b = unsafe {
            let n = (*(area as *const AtomicUsize)).load(SeqCst);
            std::slice::from_raw_parts(area.add(8), n).to_vec()
        };
        unsafe { libc::munmap(area as *mut _, BIG) };
        let Ok(s) = serde_json::from_slice::<Sum>(&b) else {
            eprintln!("a worker died");
            continue;
        };
        sum.runs += s.runs;
        sum.nontrivial += s.nontrivial;
        sum.calls += s.calls;
        sum.steps += s.steps;
        sum.max_call = sum.max_call.max(s.max_call);
        sum.max_run = sum.max_run.max(s.max_run);
        sum.sched_steps += s.sched_steps;
        sum.switches += s.switches;
        sum.sim_ns += s.sim_ns;
        for (k, v) in s.faults {
            *sum.faults.entry(k).or_default() += v;
        }
        for (k, v) in s.notes {
            *sum.notes.entry(k).or_default() += v;
        }
        sigs.extend(s.sigs);
        traces.extend(s.traces);
        sum.found.extend(s.found);
        sum.harness.extend(s.harness);
    }
    sum.found.sort_by_key(|f| f.0);
    Search {
        sum,
        distinct: sigs.len(),
        traces: traces.len(),
        wall: (seams::real_now() - t0) as f64 / 1e9,
        planned: runs,
    }
}

// ------------------------------------------------------------------------------------------------
// Minimisation: generic delta debugging over the scenario's JSON

fn class_key(c: &str) -> String {
    c.to_string()
}

pub struct Mini<'a> {
    prop: &'a str,
    class: String,
    seed: u64,
    tries: usize,
    max: usize,
    until: i64,
    best: Value,
    report: Report,
}

impl Mini<'_> {
    fn attempt(&mut self, v: &Value) -> bool {
        if self.tries >= self.max || seams::real_now() > self.until {
            return false;
        }
        let Ok(scn) = serde_json::from_value::<world::Scn>(v.clone()) else { return false };
        self.tries += 1;
        let rep = run_one(self.prop, &scn, self.seed);
        if rep.viols.iter().any(|x| world::concerns(x, self.prop) && class_key(&x.class) == self.class) {
            self.best = v.clone();
            self.report = rep;
            return true;
        }
        false
    }
    fn spent(&self) -> bool {
        self.tries >= self.max || seams::real_now() > self.until
    }
    fn paths(v: &Value, at: &mut Vec<Step>, out: &mut Vec<Vec<Step>>) {
        out.push(at.clone());
        match v {
            Value::Array(a) => {
                for (i, x) in a.iter().enumerate() {
                    at.push(Step::I(i));
                    Self::paths(x, at, out);
                    at.pop();
                }
            }
            Value::Object(o) => {
                for (k, x) in o {
                    at.push(Step::K(k.clone()));
                    Self::paths(x, at, out);
                    at.pop();
                }
            }
            _ => {}
        }
    }
    fn with(&self, path: &[Step], new: Value) -> Option<Value> {
        let mut v = self.best.clone();
        let mut cur = &mut v;
        for s in path {
            cur = match s {
                Step::I(i) => cur.as_array_mut()?.get_mut(*i)?,
                Step::K(k) => cur.as_object_mut()?.get_mut(k)?,
            };
        }
        *cur = new;
        Some(v)
    }
    fn get(&self, path: &[Step]) -> Option<&Value> {
        let mut cur = &self.best;
        for s in path {
            cur = match s {
                Step::I(i) => cur.as_array()?.get(*i)?,
                Step::K(k) => cur.as_object()?.get(k)?,
            };
        }
        Some(cur)
    }
    fn shrink_at(&mut self, path: &[Step]) -> bool {
        let Some(v) = self.get(path).cloned() else { return false };
        let mut any = false;
        // parts of a record that constrain one another stay as they were drawn
        let key = path.iter().rev().find_map(|s| if let Step::K(k) = s { Some(k.as_str()) } else { None });
        let key = key.unwrap_or("");
        let keep = match &v {
            Value::Array(_) => ["pts", "es", "esets", "cont", "first", "pos"].contains(&key),
            Value::String(_) => !["text", "Raw", "Text"].contains(&key),
            Value::Number(_) => ["version", "osb_version", "form", "origin", "Version", "sector"].contains(&key),
            _ => false,
        };
        if keep {
            return false;
        }
        match v {
            Value::Array(mut a) => {
                let mut chunk = a.len();
                while chunk >= 1 && !self.spent() {
                    let mut i = 0;
                    while i < a.len() {
                        let mut b = a.clone();
                        b.drain(i..(i + chunk).min(a.len()));
                        let cand = self.with(path, Value::Array(b.clone()));
                        if cand.map(|c| self.attempt(&c)).unwrap_or(false) {
                            a = b;
                            any = true;
                        } else {
                            i += chunk;
                        }
                    }
                    if chunk == 1 {
                        break;
                    }
                    chunk = (chunk / 2).max(1);
                }
            }
            Value::String(s) => {
                let mut cands = vec![String::new(), "0".into(), "a".into()];
                let cs: Vec<char> = s.chars().collect();
                if cs.len() > 1 {
                    cands.push(cs[..cs.len() / 2].iter().collect());
                    cands.push(cs[cs.len() / 2..].iter().collect());
                    if cs.len() <= 40 {
                        for i in 0..cs.len() {
                            let mut d = cs.clone();
                            d.remove(i);
                            cands.push(d.into_iter().collect());
                        }
                    }
                }
                for c in cands {
                    if c.len() < s.len() || (c.len() == s.len() && c < s) {
                        if let Some(v) = self.with(path, Value::String(c)) {
                            if self.attempt(&v) {
                                return true;
                            }
                        }
                    }
                }
            }
            Value::Number(n) => {
                let mut cands: Vec<Value> = vec![json!(0), json!(1)];
                if let Some(u) = n.as_u64() {
                    if u <= 1 {
                        cands.truncate(u as usize);
                    } else {
                        cands.push(json!(u / 2));
                        cands.push(json!(u - 1));
                    }
                } else if let Some(i) = n.as_i64() {
                    cands.push(json!(i / 2));
                }
                for c in cands {
                    if let Some(v) = self.with(path, c) {
                        if self.attempt(&v) {
                            return true;
                        }
                    }
                }
            }
            Value::Bool(true) => {
                if let Some(v) = self.with(path, Value::Bool(false)) {
                    any = self.attempt(&v);
                }
            }
            Value::Object(_) => {
                if let Some(v) = self.with(path, Value::Null) {
                    any = self.attempt(&v);
                }
            }
            _ => {}
        }
        any
    }
    fn go(&mut self) {
        loop {
            let mut progress = false;
            // shallow structure first
            let mut out = vec![];
            Self::paths(&self.best, &mut vec![], &mut out);
            out.sort_by_key(|p| p.len());
            for p in out {
                if self.spent() {
                    return;
                }
                progress |= self.shrink_at(&p);
            }
            if !progress {
                return;
            }
        }
    }
}

#[derive(Clone, Debug)]
enum Step {
    I(usize),
    K(String),
}

pub fn minimise(prop: &str, scn: &world::Scn, seed: u64, v: &Viol, max: usize, secs: f64) -> (Value, Report, usize) {
    let start = serde_json::to_value(scn).unwrap();
    let mut m = Mini {
        prop,
        class: class_key(&v.class),
        seed,
        tries: 0,
        max,
        until: seams::real_now() + (secs * 1e9) as i64,
        best: start.clone(),
        report: Report::default(),
    };
    if !m.attempt(&start) {
        return (start, Report { viols: vec![v.clone()], ..Default::default() }, m.tries);
    }
    // a schedule given by a seed becomes the list of its switches, so that switches can be dropped
    if let Some(list) = m.report.schedule.clone() {
        if let Some(v) = world::with_schedule(&m.best, list) {
            m.attempt(&v);
        }
    }
    m.go();
    (m.best, m.report, m.tries)
}

// ------------------------------------------------------------------------------------------------
// Commands

pub struct Known {
    pub prop: String,
    pub id: String,
    pub text: String,
}

static KNOWN: std::sync::OnceLock<Vec<Known>> = std::sync::OnceLock::new();

/// The findings listed in known_findings.txt: `known: property=<id> finding=<id> :: <what fails>`.
/// Read once, before the first run is forked.
pub fn known() -> &'static [Known] {
    KNOWN.get_or_init(|| {
        let Ok(s) = std::fs::read_to_string(format!("{}/known_findings.txt", verif_dir())) else { return vec![] };
        s.lines()
            .filter_map(|l| {
                let l = l.strip_prefix("known: property=")?;
                let (prop, l) = l.split_once(" finding=")?;
                let (id, text) = l.split_once(" :: ")?;
                Some(Known { prop: prop.into(), id: id.into(), text: text.into() })
            })
            .collect()
    })
}

pub fn listed(prop: &str, id: &str) -> bool {
    known().iter().any(|k| k.prop == prop && k.id == id)
}

pub fn verif_dir() -> String {
    std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into())
}

pub fn check(prop: &str, tier: &str, base: u64) -> i32 {
    let workers = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4);
    let workers = std::env::var("VERIF_WORKERS").ok().and_then(|w| w.parse().ok()).unwrap_or(workers).clamp(1, 32);
    let (runs, max_wall) = world::plan(prop, tier);
    let runs = std::env::var("VERIF_RUNS").ok().and_then(|w| w.parse().ok()).unwrap_or(runs);
    known();
    cover::setup();
    new_slot();
    let s = search(prop, base, tier, runs, workers, max_wall);
    let mut code = 0;
    let mut violation = Value::Null;
    for (i, v) in &s.sum.harness {
        println!("harness problem in run {i}: {} {}", v.class, v.msg);
    }
    if !s.sum.harness.is_empty() && s.sum.found.is_empty() {
        // the machinery itself failed: no verdict may be drawn from such runs
        code = 1;
        println!("the check could not decide {prop}: its own machinery failed");
    }
    if let Some((i, v)) = s.sum.found.first() {
        code = 1;
        let seed = seed_of(base, prop, *i);
        let scn = world::gen(prop, seed, tier);
        let (max, secs) = if tier == "quick" { (4000, 40.0) } else { (20000, 180.0) };
        let (min, rep, tries) = minimise(prop, &scn, seed, v, max, secs);
        let pv = rep.viols.iter().find(|x| world::concerns(x, prop) && x.class == v.class).unwrap_or(v).clone();
        let dir = format!("{}/replays", verif_dir());
        let _ = std::fs::create_dir_all(&dir);
        let path = format!("{dir}/{prop}-{i}-{:08x}.json", (hash_str(&min.to_string()) >> 32) as u32);
        let file = json!({
            "property": prop, "verif_seed": base, "run": i, "seed": seed, "tier": tier,
            "class": pv.class, "message": pv.msg, "trace": rep.trace, "steps": rep.steps,
            "minimisation_runs": tries, "scenario": min,
        });
        std::fs::write(&path, serde_json::to_string_pretty(&file).unwrap()).unwrap();
        println!("run {i} (seed {seed}): {}: {}", pv.class, pv.msg);
        let again = replay_report(&file);
        let same = again.viols.iter().any(|x| x.class == pv.class && x.msg == pv.msg);
        println!("replayed from the file: {}", if same { "same violation" } else { "DIFFERENT OUTCOME" });
        println!("VIOLATION property={prop} replay={path}");
        violation = json!({"run": i, "seed": seed, "class": pv.class, "message": pv.msg, "replay": path, "replay_reproduces": same});
    }
    for k in known().iter().filter(|k| k.prop == prop) {
        let n = s.sum.notes.get(&k.id).copied().unwrap_or(0);
        println!("KNOWN-FINDING: property={prop} {} (met in {n} runs)", k.text);
    }
    evidence(prop, tier, base, &s, workers, violation);
    if let Ok(p) = std::env::var("OSUSIM_PCS_OUT") {
        cover::dump(&p);
    }
    println!(
        "{prop}: {} runs ({} planned), {} distinct behaviours, {} of {} library blocks reached, {:.1} s",
        s.sum.runs,
        s.planned,
        s.distinct,
        cover::reached(),
        cover::GUARDS.load(SeqCst),
        s.wall
    );
    code
}

fn evidence(prop: &str, tier: &str, base: u64, s: &Search, workers: usize, violation: Value) {
    let samples: Vec<Value> = (0..2u64)
        .map(|i| {
            let seed = seed_of(base, prop, i);
            let mut t = serde_json::to_string(&world::gen(prop, seed, tier)).unwrap();
            if t.len() > 3000 {
                let mut k = 3000;
                while !t.is_char_boundary(k) {
                    k -= 1;
                }
                t.truncate(k);
                t.push_str("...");
            }
            json!({"run": i, "seed": seed, "scenario": t})
        })
        .collect();
    let hours = s.wall / 3600.0;
    let mut cov = json!({
        "evaluations": s.sum.runs,
        "distinct_nontrivial": s.distinct,
        "rule": world::rule(prop),
        "samples": samples,
        "planned_runs": s.planned,
        "nontrivial_runs": s.sum.nontrivial,
        "library_calls": s.sum.calls,
        "runs_per_hour": (s.sum.runs as f64 / hours) as u64,
        "seeds_per_hour": (s.sum.runs as f64 / hours) as u64,
        "simulated_steps": s.sum.steps,
        "most_steps_in_a_call": s.sum.max_call,
        "most_steps_in_a_run": s.sum.max_run,
        "steps_allowed_in_a_call": CALL_STEPS,
        "simulated_time_s": s.sum.sim_ns as f64 / 1e9,
        "faults_injected": s.sum.faults,
        "events": s.sum.notes,
        "distinct_measure": "distinct sets of the library's basic blocks executed by a non-trivial run",
        "library_blocks_reached": cover::reached(),
        "library_blocks_total": cover::GUARDS.load(SeqCst),
        "workers": workers,
        "real_components": "the whole osu-file-parser crate and its dependencies as compiled from /repo",
        "stub_components": world::stubs(prop),
    });
    if s.sum.switches > 0 {
        cov["schedules"] = json!({"scheduling_points": s.sum.sched_steps, "switches": s.sum.switches, "distinct_schedules": s.traces});
    }
    if !violation.is_null() {
        cov["violation"] = violation;
    }
    let e = json!({"property": prop, "tier": tier, "seed": base, "level": "exploration", "coverage": cov, "wall_s": s.wall});
    let dir = format!("{}/evidence", verif_dir());
    let _ = std::fs::create_dir_all(&dir);
    let _ = std::fs::write(format!("{dir}/{prop}.json"), serde_json::to_string_pretty(&e).unwrap());
}

fn replay_report(file: &Value) -> Report {
    let prop = file["property"].as_str().unwrap_or("");
    match serde_json::from_value::<world::Scn>(file["scenario"].clone()) {
        Ok(scn) => run_one(prop, &scn, file["seed"].as_u64().unwrap_or(0)),
        Err(e) => Report {
            viols: vec![Viol { props: vec!["harness".into()], class: "bad replay file".into(), msg: e.to_string() }],
            ..Default::default()
        },
    }
}

pub fn replay(path: &str) -> i32 {
    let s = std::fs::read_to_string(path).expect("replay file");
    let file: Value = serde_json::from_str(&s).expect("replay file");
    known();
    cover::setup();
    new_slot();
    let prop = file["property"].as_str().unwrap_or("").to_string();
    let rep = replay_report(&file);
    for v in &rep.viols {
        println!("{:?} {}: {}", v.props, v.class, v.msg);
    }
    match pertinent(&rep, &prop) {
        Some(v) => {
            let same = file["class"] == v.class.as_str() && file["message"] == v.msg.as_str() && file["trace"] == rep.trace;
            println!("{}", if same { "reproduced exactly" } else { "reproduced with a different message or schedule" });
            println!("VIOLATION property={prop} replay={path}");
            1
        }
        None => {
            println!("not reproduced");
            0
        }
    }
}

/// The simulator's own determinism: the same seeds twice must give identical reports.
pub fn selftest(base: u64, n: u64) -> i32 {
    known();
    cover::setup();
    new_slot();
    let mut bad = 0;
    for prop in world::PROPS {
        for i in 0..n {
            let seed = seed_of(base, prop, i);
            let scn = world::gen(prop, seed, "quick");
            let a = run_one(prop, &scn, seed);
            let j = serde_json::to_value(&scn).unwrap();
            let scn2: world::Scn = serde_json::from_value(j).unwrap();
            let b = run_one(prop, &scn2, seed);
            if serde_json::to_string(&a).unwrap() != serde_json::to_string(&b).unwrap() {
                bad += 1;
                println!("{prop} run {i}: not deterministic\n {:?}\n {:?}", a, b);
            }
        }
    }
    println!("determinism: {} properties x {n} seeds, {bad} differences", world::PROPS.len());
    (bad > 0) as i32
}

pub static STOPPED: AtomicBool = AtomicBool::new(false);
