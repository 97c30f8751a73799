//! Deterministic simulation of programs that use osu-file-parser.

mod alloc;
mod apply;
mod calls;
mod cover;
mod damage;
mod disk;
mod gen;
mod input;
mod model;
mod names;
mod observe;
mod parts;
mod query;
mod rng;
mod runner;
mod sched;
mod seams;
mod session;
mod sink;
mod world;

#[global_allocator]
static A: alloc::SimAlloc = alloc::SimAlloc;

fn main() {
    runner::install_hook();
    let a: Vec<String> = std::env::args().collect();
    let base: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse().ok()).unwrap_or(1);
    let mut tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
    if let Some(i) = a.iter().position(|x| x == "--tier") {
        if let Some(t) = a.get(i + 1) {
            tier = t.clone();
        }
    }
    if tier != "thorough" {
        tier = "quick".into();
    }
    let code = match (a.get(1).map(|s| s.as_str()), a.get(2)) {
        (Some("check"), Some(p)) if world::PROPS.contains(&p.as_str()) => runner::check(p, &tier, base),
        (Some("replay"), Some(p)) => runner::replay(p),
        (Some("selftest"), n) => runner::selftest(base, n.and_then(|n| n.parse().ok()).unwrap_or(30)),
        _ => {
            eprintln!("usage: osusim check <property> [--tier quick|thorough] | replay <file> | selftest [runs]");
            2
        }
    };
    std::process::exit(code);
}
