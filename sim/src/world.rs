//! The scenarios of every property: how they are drawn from a seed and carried out.

use crate::calls::{self, Calls};
use crate::damage::{self, Dmg};
use crate::query::{self, Compare, Query};
use crate::rng::Rng;
use crate::runner::{Ctx, Viol};
use crate::session::{self, Session};
use crate::sink::{self, Sink};
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Scn {
    Damage(Dmg),
    Session(Session),
    Sink(Sink),
    Calls(Calls),
    Query(Query),
    Compare(Compare),
    Parts(crate::parts::Parts),
}

pub const PROPS: [&str; 17] =
    ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17"];

pub fn gen(prop: &str, seed: u64, _tier: &str) -> Scn {
    let mut r = Rng::new(seed);
    let r = &mut r;
    match prop {
        "C01" => Scn::Damage(damage::gen_open(r)),
        "C02" => Scn::Damage(damage::gen_line(r)),
        "C03" => Scn::Damage(damage::gen_contain(r)),
        "C09" => Scn::Damage(damage::gen_memory(r)),
        "C10" => Scn::Damage(damage::gen_reenc(r)),
        "C16" => Scn::Damage(damage::gen_salvage(r)),
        "C17" => Scn::Parts(crate::parts::gen(r)),
        "C14" => Scn::Query(query::gen(r)),
        "C15" => Scn::Compare(query::gen_compare(r)),
        "C05" => Scn::Sink(sink::gen(r)),
        "C06" => Scn::Calls(calls::gen_threads(r)),
        "C12" => Scn::Calls(calls::gen_sequence(r)),
        _ => Scn::Session(session::gen(prop, r)),
    }
}

pub fn exec(prop: &str, s: &Scn, cx: &mut Ctx) {
    match s {
        Scn::Damage(d) => damage::exec(cx, d),
        Scn::Session(s) => session::exec(cx, s),
        Scn::Sink(s) => sink::exec(cx, s),
        Scn::Query(q) => query::exec(cx, q),
        Scn::Parts(p) => crate::parts::exec(cx, p),
        Scn::Compare(c) => query::exec_compare(cx, c),
        Scn::Calls(c) => calls::exec(prop, cx, c),
    }
}

/// (runs, wall-clock limit in seconds)
pub fn plan(prop: &str, tier: &str) -> (u64, f64) {
    let quick = match prop {
        "C01" => 40_000,
        "C02" => 100_000,
        "C03" => 50_000,
        "C04" => 80_000,
        "C05" => 20_000,
        "C06" => 8_000,
        "C07" => 80_000,
        "C08" => 40_000,
        "C09" => 40_000,
        "C10" => 120_000,
        "C11" => 80_000,
        "C12" => 16_000,
        "C14" => 80_000,
        "C15" => 40_000,
        "C16" => 120_000,
        "C17" => 60_000,
        _ => 80_000,
    };
    if tier == "quick" {
        (quick, 60.0)
    } else {
        (quick * 40, 780.0)
    }
}

pub fn concerns(v: &Viol, prop: &str) -> bool {
    v.props.iter().any(|p| p == prop || p == "*")
}

/// The scenario with its seeded schedule replaced by the switches it made.
pub fn with_schedule(v: &Value, list: Vec<(u8, u64, u8)>) -> Option<Value> {
    let mut v = v.clone();
    let p = v.get_mut("Calls")?.get_mut("plan")?;
    p.get("Seeded")?;
    *p = json!({ "Explicit": list });
    Some(v)
}

pub fn rule(prop: &str) -> &'static str {
    match prop {
        "C01" => "a run stores a generated or real-world file of format version 3-14, lets storage faults damage it and opens it; it is non-trivial when at least one fault changed the file",
        "C02" => "a run damages one line of a readable file; non-trivial when the line changed",
        "C03" => "a run damages a generated file whose records are known and compares what opens with the undamaged lines; non-trivial when at least one fault changed the file",
        "C09" => "a run opens, prints and drops a damaged file while the allocator is accounted; non-trivial when at least one fault changed the file",
        "C10" => "a run re-encodes a good or damaged file and compares the outcomes; non-trivial when at least one re-encoding applied",
        "C14" => "a run opens a damaged file, asks it for everything and calls setters; non-trivial when at least one fault changed the file",
        "C15" => "a run carries two copies of a text over different transports and compares them; non-trivial when a transport or damage changed one",
        "C16" => "a run opens a damaged file and saves and reopens it in a chain of versions; non-trivial when at least one fault changed the file",
        "C17" => "a run opens a good or damaged file whole and part by part; non-trivial when at least one fault changed the file",
        "C05" => "a run prints one value to outputs failing at many bytes; non-trivial when at least one output failed",
        "C06" => "a run executes several callers as simulated threads under one seeded schedule; every run with threads is non-trivial",
        "C12" => "a run makes a sequence of calls, some of which fail; non-trivial when at least one fault or failed call was in it",
        "C11" | "C13" => "a run is an editing session on storyboard commands with saves, crashes and restarts; non-trivial when an edit was refused or a fault or restart happened",
        _ => "a run is an editing session with appends, saves, crashes and restarts on a simulated disk; non-trivial when a fault, crash or restart happened",
    }
}

pub fn stubs(prop: &str) -> &'static str {
    match prop {
        "C06" => "thread scheduler (one real thread at a time, switching at every basic block of the library, allocation and futex), futex, clock, random numbers, allocator accounting; the editor programs calling the library",
        "C05" => "outputs, simulated disk, clock, random numbers, allocator accounting; the editor program calling the library",
        _ => "disk (sectors, cache, directory, crashes), clock, random numbers, allocator accounting; the editor program calling the library",
    }
}
