//! World "calls": callers that open, edit, compare and print; one after another in one thread, or
//! concurrently under the simulated scheduler.  What each call must give is what it gives as the
//! only call of a fresh process with another clock and other random numbers.

use crate::apply;
use crate::gen;
use crate::input::{self, Input};
use crate::model::*;
use crate::rng::{mix, Rng};
use crate::runner::{guarded, in_child, Ctx};
use crate::sched::{self, Plan, MEET};
use osusim_glue::{keyframes, same_text, Located};
use crate::seams;
use crate::session::as_cmds;
use osu_file_parser::*;
use serde::{Deserialize, Serialize};
use std::collections::hash_map::DefaultHasher;
use std::fmt::Write as _;
use std::hash::{Hash, Hasher};
use std::sync::{Arc, Mutex};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Calls {
    /// the stored files the callers work on
    pub files: Vec<Input>,
    /// storyboard files
    pub osbs: Vec<Input>,
    pub threads: Vec<Vec<Call>>,
    /// None: one after another in one thread
    pub plan: Option<Plan>,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Call {
    Open(usize),
    /// open and print in another version
    Print { file: usize, version: u8 },
    Append { file: usize, first: usize, second: usize },
    Push { file: usize, osb: usize, at: usize, cmds: Vec<(MCmd, usize)> },
    Edit { file: usize, version: u8, section: String, key: String, val: String },
    Compare { a: usize, b: usize },
    FailPrint { file: usize, at: usize },
    Text { a: usize, b: usize },
    /// read the beatmap all threads share
    SharedPrint { version: u8 },
    SharedCompare { file: usize },
    Pieces { file: usize, seed: u64 },
    /// print one small value to an output that fails, then go on with others
    FailPiece { file: usize, kind: u8, seed: u64, at: usize, by_piece: bool },
}

/// Fails for good at the n-th piece.
struct Nth {
    got: String,
    left: usize,
}
impl std::fmt::Write for Nth {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        if self.left == 0 {
            return Err(std::fmt::Error);
        }
        self.left -= 1;
        self.got.push_str(s);
        Ok(())
    }
}
fn fail_one(x: &dyn std::fmt::Display, at: usize, by_piece: bool) -> String {
    if by_piece {
        let mut o = Nth { got: String::new(), left: at };
        let r = write!(o, "{x}");
        // how a text is cut into pieces is the library's business
        format!("{r:?}")
    } else {
        let mut o = Short { got: String::new(), left: at };
        format!("{:?}", write!(o, "{x}"))
    }
}

struct Short {
    got: String,
    left: usize,
}
impl std::fmt::Write for Short {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        if s.len() > self.left {
            return Err(std::fmt::Error);
        }
        self.left -= s.len();
        self.got.push_str(s);
        Ok(())
    }
}

fn show(f: &OsuFile) -> String {
    let mut h = DefaultHasher::new();
    f.hash(&mut h);
    format!("{f}\n---\n{:?}\n---\n{:?}\n{:x}", f.osb_to_string(), f, h.finish())
}
fn show_err<E: std::fmt::Debug>(e: &Error<E>, text: &str) -> String
where
    Error<E>: Located,
{
    format!("error at {}: {}; {}; {:?}", e.line_index(), e.shown(), e.with_line(text), e.error())
}

fn open(text: &str) -> Result<OsuFile, String> {
    text.parse::<OsuFile>().map_err(|e| show_err(&e, text))
}

struct Texts {
    files: Vec<String>,
    osbs: Vec<String>,
}

/// Carry out one call and describe everything it returned.
fn perform(c: &Call, t: &Texts, shared: Option<&OsuFile>) -> String {
    let file = |i: usize| &t.files[i % t.files.len()][..];
    let osb = |i: usize| &t.osbs[i % t.osbs.len()][..];
    let res = guarded(|| match c {
        Call::Open(i) => match open(file(*i)) {
            Ok(f) => show(&f),
            Err(e) => e,
        },
        Call::Print { file: i, version } => match open(file(*i)) {
            Ok(mut f) => {
                f.version = *version;
                f.to_string()
            }
            Err(e) => e,
        },
        Call::Append { file: i, first, second } => match open(file(*i)) {
            Ok(mut f) => {
                let mut s = String::new();
                for o in [first, second] {
                    let text = osb(*o);
                    match f.append_osb(text) {
                        Ok(()) => s.push_str(&format!("{:?}\n", f.osb_to_string())),
                        Err(e) => s.push_str(&show_err(&e, text)),
                    }
                }
                s + &show(&f)
            }
            Err(e) => e,
        },
        Call::Push { file: i, osb: o, at, cmds } => match open(file(*i)) {
            Ok(mut f) => {
                let mut s = String::new();
                let _ = f.append_osb(osb(*o));
                for evs in [f.events.as_mut(), f.osb.as_mut().and_then(|o| o.events.as_mut())].into_iter().flatten() {
                    let n = evs.0.len();
                    for k in 0..n {
                        if let Some(e) = as_cmds(&mut evs.0[(at % n + k) % n]) {
                            for (c, d) in cmds {
                                s.push_str(&format!("{:?}\n", e.try_push_cmd(apply::cmd(c), *d)));
                            }
                            break;
                        }
                    }
                }
                s + &show(&f)
            }
            Err(e) => e,
        },
        Call::Edit { file: i, version, section, key, val } => match open(file(*i)) {
            Ok(f) => {
                let mut g = f.clone();
                apply::set_kv(&mut g, section, key, Some(val));
                g.version = *version;
                let s = g.to_string();
                let again = match open(&s) {
                    Ok(h) => show(&h),
                    Err(e) => e,
                };
                format!("{} {}\n{again}", f == g, s)
            }
            Err(e) => e,
        },
        Call::Compare { a, b } => match (open(file(*a)), open(file(*b))) {
            (Ok(x), Ok(y)) => format!("{} {} {}", x == y, x == x.clone(), x.to_string() == y.to_string()),
            (x, y) => format!("{:?} {:?}", x.err(), y.err()),
        },
        Call::FailPrint { file: i, at } => match open(file(*i)) {
            Ok(f) => {
                let mut o = Short { got: String::new(), left: *at };
                let r = write!(o, "{f}");
                format!("{r:?} {} {:?}", o.got, f.osb_to_string())
            }
            Err(e) => e,
        },
        Call::Text { a, b } => {
            let (x, y) = (file(*a), file(*b));
            format!("{} {}", same_text(x, y), osu_str_trimmer(x))
        }
        Call::SharedPrint { version } => match shared {
            Some(f) => {
                let s = show(f);
                let mut g = f.clone();
                g.version = *version;
                format!("{s} {} {}", g, g == *f)
            }
            None => "nothing shared".into(),
        },
        Call::SharedCompare { file: i } => match (shared, open(file(*i))) {
            (Some(f), Ok(g)) => format!("{} {}", *f == g, g.to_string() == f.to_string()),
            (_, g) => format!("{:?}", g.err()),
        },
        Call::Pieces { file: i, seed } => {
            // single records, decimals and settings on their own
            let mut r = Rng::new(*seed);
            let mut s = String::new();
            for _ in 0..6 {
                let d = gen::dec(&mut r);
                let x = apply::dec(&d);
                let y = d.0.parse::<Decimal>();
                s.push_str(&format!("{x} {:?} {} {}\n", x, x == apply::dec(&gen::dec(&mut r)), y.is_ok_and(|y| y == x)));
            }
            let (first, cont) = ((gen::dec(&mut r), gen::dec(&mut r)), gen::two_cont(&mut r));
            s.push_str(&format!("{} {:?}\n", apply::two(&first, &cont), gen::col_cont(&mut r)));
            let (g, h) = (gen::cmd(&mut r, 2), gen::cmd(&mut r, 1));
            let (g, h) = (apply::cmd(&g), apply::cmd(&h));
            s.push_str(&format!("{:?} {:?} {}\n", VersionedToString::to_string(&g, 14), g, g == h));
            for v in [2u8, 3, 5, 14] {
                for n in [0u8, 7, 8, 100, 101, 255] {
                    s.push_str(&format!("{:?}", hitobjects::ComboSkipCount::new(n, v).map(|c| c.map(|mut c| (c.get(), c.set(n / 2, v), c.set(n.saturating_add(3), v), c.get())))));
                    s.push_str(&format!("{:?}", events::Volume::new(n, v).map(|mut c| (c.get(), c.set(n / 2, v), c.set(n.saturating_add(3), v), c.get()))));
                }
            }
            for n in [1i64, 3, 250, 333, 60000, 777777] {
                let d = rust_decimal::Decimal::new(n + r.below(50) as i64, 1);
                s.push_str(&format!("{} {}\n", timingpoints::TimingPoint::bpm_to_beat_duration_ms(d), timingpoints::TimingPoint::beat_duration_ms_to_bpm(d)));
            }
            if let Ok(f) = open(file(*i)) {
                for t in f.timing_points.iter().flat_map(|t| &t.0).take(20) {
                    s.push_str(&format!("{:?} {:?} {:?}\n", t.calc_bpm(), t.calc_slider_velocity_multiplier(), t.effects().map(|e| e.kiai_time_enabled())));
                }
                for e in f.events.iter().flat_map(|e| &e.0).take(40) {
                    if let events::Event::StoryboardObject(o) = e {
                        if let events::storyboard::sprites::ObjectType::Animation(a) = &o.object_type {
                            // a file name without a last component is another matter
                            if a.frame_count < 200 && a.filepath.get().file_name().is_some_and(|n| n.to_str().is_some_and(|n| n.contains('.') && !n.ends_with('"'))) {
                                s.push_str(&format!("{:?}\n", a.frame_file_names()));
                            }
                        }
                    }
                }
                for v in [3, 5, 14] {
                    s.push_str(&format!("{:?}", f.timing_points.as_ref().and_then(|t| VersionedToString::to_string(t, v))));
                    s.push_str(&format!("{:?}", f.hitobjects.as_ref().and_then(|t| VersionedToString::to_string(t, v))));
                    s.push_str(&format!("{:?}", f.colours.as_ref().and_then(|t| VersionedToString::to_string(t, v))));
                }
            }
            s
        }
        Call::FailPiece { file: i, kind, seed, at, by_piece } => {
            let mut r = Rng::new(*seed);
            let mut s = String::new();
            for _ in 0..3 {
                let (at, by) = (r.below(*at + 1), *by_piece);
                s.push_str(&match kind {
                    0 | 1 => fail_one(&apply::dec(&gen::dec(&mut r)), at, by),
                    2 => {
                        let (first, cont) = ((gen::dec(&mut r), gen::dec(&mut r)), gen::two_cont(&mut r));
                        fail_one(keyframes(&apply::two(&first, &cont)), at, by)
                    }
                    3 => match file(*i).parse::<OsuFile>() {
                        Ok(f) => fail_one(&f, at, by),
                        Err(e) => fail_one(e.shown(), at, by) + &fail_one(e.error(), at, by),
                    },
                    _ => {
                        let mut f = OsuFile::default(14);
                        match f.append_osb(osb(*i)) {
                            Ok(()) => fail_one(&f, at, by),
                            Err(e) => fail_one(e.shown(), at, by) + &show_err(&e, osb(*i)),
                        }
                    }
                });
            }
            s
        }
    });
    match res {
        Ok(s) => s,
        Err(p) => format!("panic at {}: {}", p.at, p.msg),
    }
}

pub fn first_difference(a: &str, b: &str) -> String {
    let k = a.bytes().zip(b.bytes()).take_while(|(x, y)| x == y).count();
    let cut = |s: &str| {
        let mut st = k.saturating_sub(60).min(s.len());
        while !s.is_char_boundary(st) {
            st -= 1;
        }
        s[st..].chars().take(200).collect::<String>()
    };
    format!("alone: ...{:?}; here: ...{:?}", cut(a), cut(b))
}

const CAP: usize = 200 << 10;

pub fn exec(prop: &str, cx: &mut Ctx, c: &Calls) {
    let p = [prop];
    if c.files.is_empty() || c.osbs.is_empty() || c.threads.is_empty() {
        return;
    }
    let texts = Arc::new(Texts {
        files: c.files.iter().map(|i| i.text(Some(cx))).collect(),
        osbs: c.osbs.iter().map(|i| i.text(Some(cx))).collect(),
    });
    let threads: Vec<Vec<Call>> = c.threads.iter().take(sched::MAX).filter(|t| !t.is_empty()).cloned().collect();
    if threads.is_empty() {
        return;
    }
    // what every call gives on its own, in a fresh process each
    let mut alone: Vec<(Call, String)> = vec![];
    for call in threads.iter().flatten() {
        if alone.iter().any(|(k, _)| k == call) {
            continue;
        }
        let seed = mix(alone.len() as u64 + 77);
        let r = in_child(|| {
            seams::enter(seed);
            let shared = open(&texts.files[0]).ok();
            let mut s = perform(call, &texts, shared.as_ref());
            if s.len() > CAP {
                let mut h = DefaultHasher::new();
                s.hash(&mut h);
                s = format!("{:x}", h.finish());
            }
            s.into_bytes()
        });
        match r {
            Ok(b) => alone.push((call.clone(), String::from_utf8_lossy(&b).into_owned())),
            Err(_) => {
                // the call kills a process by itself: another property's business
                cx.note("call crashes on its own");
                return;
            }
        }
    }
    let squeeze = |s: String| {
        if s.len() > CAP {
            let mut h = DefaultHasher::new();
            s.hash(&mut h);
            format!("{:x}", h.finish())
        } else {
            s
        }
    };
    let shared = match guarded(|| open(&texts.files[0])) {
        Ok(r) => r.ok().map(Arc::new),
        Err(_) => None,
    };
    let shared_before = shared.as_ref().map(|f| format!("{f:?}"));
    let mut results: Vec<Vec<String>> = vec![];
    match &c.plan {
        None => {
            for t in &threads {
                let mut v = vec![];
                for call in t {
                    cx.rep.calls += 1;
                    crate::runner::set_phase(&format!("{call:?}").chars().take(200).collect::<String>());
                    // time passes between calls, and the clock may jump
                    seams::set_clock(mix(v.len() as u64 + 9) as i64 >> 2);
                    v.push(squeeze(perform(call, &texts, shared.as_deref())));
                }
                results.push(v);
            }
        }
        Some(plan) => {
            let out: Arc<Mutex<Vec<Vec<String>>>> = Arc::new(Mutex::new(vec![vec![]; threads.len()]));
            let bodies: Vec<Box<dyn FnOnce() + Send>> = threads
                .iter()
                .enumerate()
                .map(|(i, t)| {
                    let (t, texts, shared, out) = (t.clone(), texts.clone(), shared.clone(), out.clone());
                    Box::new(move || {
                        for call in &t {
                            let s = perform(call, &texts, shared.as_deref());
                            sched::quiet(|| out.lock().unwrap()[i].push(s));
                        }
                    }) as Box<dyn FnOnce() + Send>
                })
                .collect();
            crate::runner::set_phase("concurrent calls");
            crate::cover::call_budget(4 * crate::runner::CALL_STEPS);
            sched::run(plan, bodies);
            cx.rep.nontrivial = true;
            cx.rep.calls += threads.iter().map(|t| t.len() as u64).sum::<u64>();
            let o = std::mem::take(&mut *out.lock().unwrap());
            results = o.into_iter().map(|v| v.into_iter().map(squeeze).collect()).collect();
        }
    }
    let mut fails = 0;
    for (i, (t, r)) in threads.iter().zip(&results).enumerate() {
        for (k, (call, got)) in t.iter().zip(r).enumerate() {
            let want = &alone.iter().find(|(c, _)| c == call).unwrap().1;
            if got.starts_with("error") || got.starts_with("Err") {
                fails += 1;
            }
            if got != want {
                let mut name = format!("{call:?}");
                name.truncate(name.char_indices().nth(200).map(|x| x.0).unwrap_or(name.len()));
                cx.viol(&p, "result differs from the call alone", format!("thread {i} call {k} {name}: {}", first_difference(want, got)));
                return;
            }
        }
        if r.len() < t.len() {
            cx.viol(&p, "calls missing", format!("thread {i} made {} of {} calls", r.len(), t.len()));
        }
    }
    if fails > 0 {
        *cx.rep.notes.entry("failed calls in between".into()).or_default() += fails;
        cx.rep.nontrivial = true;
    }
    if let (Some(f), Some(b)) = (&shared, &shared_before) {
        if format!("{f:?}") != *b {
            cx.viol(&p, "shared beatmap changed", "readers changed the shared beatmap");
        }
    }
}

fn call(r: &mut Rng, shared: bool) -> Call {
    let f = |r: &mut Rng| r.below(4);
    match r.below(if shared { 19 } else { 16 }) {
        0..=2 => Call::Open(f(r)),
        3 => Call::Print { file: f(r), version: gen::version(r) },
        4 | 5 => Call::Append { file: f(r), first: r.below(3), second: r.below(3) },
        6 => {
            let n = 1 + r.below(4);
            Call::Push { file: f(r), osb: r.below(3), at: r.below(9), cmds: (0..n).map(|_| (gen::cmd(r, 1), r.below(4))).collect() }
        }
        7 => {
            let section = *r.pick(&["General", "Editor", "Metadata", "Difficulty"]);
            let key = r.pick(kv_table(section)).0;
            Call::Edit { file: f(r), version: gen::version(r), section: section.into(), key: key.into(), val: gen::kv_value(r, key) }
        }
        8 => Call::Compare { a: f(r), b: f(r) },
        9 | 10 => Call::FailPrint { file: f(r), at: r.below(300) },
        11 => Call::Text { a: f(r), b: f(r) },
        12 | 13 => Call::Pieces { file: f(r), seed: r.next() % 10_000 },
        14 | 15 => Call::FailPiece { file: f(r), kind: r.below(5) as u8, seed: r.next() % 10_000, at: r.below(25), by_piece: r.chance(1, 2) },
        16 | 17 => Call::SharedPrint { version: gen::version(r) },
        _ => Call::SharedCompare { file: f(r) },
    }
}

fn little(r: &mut Rng, osb: bool) -> Input {
    if r.chance(1, 6) {
        return input::good(r, Some(osb), 100);
    }
    let z = gen::Size { events: 1 + r.below(4), rows: 1 + r.below(4), full: false };
    let base = if osb {
        input::Base::Osb(gen::osb(r, z))
    } else {
        let v = gen::version(r);
        input::Base::Map(gen::map(r, v, z))
    };
    Input { base, layout: gen::layout(r), faults: vec![], latin: false }
}

fn files(r: &mut Rng, osb: bool, n: usize, damaged_pct: usize) -> Vec<Input> {
    (0..n)
        .map(|_| {
            let mut i = little(r, osb);
            if r.below(100) < damaged_pct {
                let len = i.good().len();
                i.faults = gen::faults(r, len, 2);
            }
            i
        })
        .collect()
}

pub fn gen_threads(r: &mut Rng) -> Calls {
    let mut fs = files(r, false, 4, 30);
    // two versions of one file, so that cross-talk shows
    if r.chance(1, 3) {
        fs[1] = fs[0].clone();
        let len = fs[1].good().len();
        fs[1].faults = gen::faults(r, len, 1);
    }
    let osbs = files(r, true, 3, 30);
    let n = 2 + r.below(3);
    let threads = (0..n)
        .map(|_| {
            let k = 1 + r.below(3);
            (0..k).map(|_| call(r, true)).collect()
        })
        .collect();
    let quantum = *r.pick(&[10u32, 50, 200, 1000, 5000, 20_000]);
    Calls { files: fs, osbs, threads, plan: Some(Plan::Seeded { seed: r.next() % 1_000_000_000, quantum, shared: *r.pick(&[0, 1, 2, 3, 8, 30, MEET, MEET, MEET + 1, MEET + 2]) }) }
}

/// Two storyboards that differ in the values of their variables only; the first one may be
/// damaged further on.
fn other_values(r: &mut Rng, osbs: &mut [Input]) {
    let z = gen::Size { events: 1 + r.below(4), rows: 1, full: false };
    let mut o = gen::osb(r, z);
    let n = 1 + r.below(3);
    let mut ev = gen::events(r, 14, n, true);
    let start = gen::int(r);
    for e in ev.iter_mut() {
        if let Some(c) = e.cmds_mut() {
            c.insert(0, MCmd { start: Some(start), kind: MCmdKind::One { op: "F".into(), easing: 0, end: Some(1), first: Dec("5".into()), cont: vec![] } });
        }
    }
    o.events = Some(ev);
    let doc = |vals: [&str; 2]| {
        let mut o = o.clone();
        o.variables = Some(vec![("q".into(), vals[0].into()), ("qq".into(), vals[1].into())]);
        let mut d = o.render(&Layout { final_newline: true, ..Default::default() });
        for l in d.lines.iter_mut().filter(|l| l.kind == LineKind::Cmd) {
            // the same text whatever the values are
            l.text = l.text.replace('7', "$qq").replace('5', "$q");
        }
        d.lines.iter().map(|l| l.text.clone()).collect::<Vec<_>>()
    };
    let vals = ["5", "7", "1", "23", "-4"];
    for i in osbs.iter_mut().take(2) {
        let lines = doc([*r.pick(&vals), *r.pick(&vals)]);
        *i = Input { base: input::Base::Lines { osb: true, lines }, layout: Layout::default(), faults: vec![], latin: false };
        if r.chance(1, 2) {
            let n = i.good().lines().count();
            i.faults.push(crate::disk::Fault::Line { line: n.saturating_sub(1 + r.below(2)), text: gen::line(r) });
        }
    }
}

pub fn gen_sequence(r: &mut Rng) -> Calls {
    let mut fs = files(r, false, 4, 45);
    if r.chance(1, 2) {
        // the repaired file after the damaged one
        fs[1] = fs[0].clone();
        fs[1].faults.clear();
        if fs[0].faults.is_empty() {
            let len = fs[0].good().len();
            fs[0].faults = gen::faults(r, len, 2);
        }
    }
    let mut osbs = files(r, true, 3, 50);
    let k = 4 + r.below(10);
    let mut t: Vec<Call> = (0..k).map(|_| call(r, true)).collect();
    if r.chance(1, 3) {
        other_values(r, &mut osbs);
        let n = t.len();
        t.insert(r.below(n + 1), Call::Append { file: r.below(4), first: 0, second: 1 });
    }
    if r.chance(1, 2) {
        t.insert(0, Call::Open(0));
        t.push(Call::Open(1));
    }
    // the same few calls over and over
    if r.chance(1, 60) {
        t.truncate(2 + r.below(3));
        let n = 20 + r.below(100);
        t = t.iter().cloned().cycle().take(t.len() * n).collect();
    }
    Calls { files: fs, osbs, threads: vec![t], plan: None }
}
