//! Generation of beatmaps, storyboards, layouts, edits and faults.

use crate::disk::Fault;
use crate::model::*;
use crate::rng::Rng;

pub fn version(r: &mut Rng) -> u8 {
    match r.below(10) {
        0..=3 => 14,
        4 => 3,
        5 => 4,
        6 => *r.pick(&[5, 10, 11, 12]),
        _ => r.range(3, 14) as u8,
    }
}

/// Numbers at which representations change.
const EDGES: [i32; 24] = [
    7, 8, 9, 10, 15, 16, 31, 32, 63, 64, 99, 100, 127, 128, 255, 256, 999, 1000, 9999, 10_000, 32_767, 32_768, 65_535, 65_536,
];

pub fn int(r: &mut Rng) -> i32 {
    let i = match r.below(18) {
        0 | 1 => return r.recent[r.clone().below(4)],
        2 => {
            let e = *r.pick(&EDGES[..]);
            if r.chance(1, 4) {
                -e
            } else {
                e
            }
        }
        3 => {
            let w = r.below(31);
            (1i32 << w).wrapping_add(r.below(3) as i32 - 1)
        }
        _ => plain_int(r),
    };
    let k = r.below(4);
    r.recent[k] = i;
    i
}

/// Items that repeat their neighbour.
pub fn echo<T: Clone>(r: &mut Rng, v: &mut Vec<T>) {
    if !v.is_empty() && r.chance(1, 5) {
        let i = r.below(v.len());
        for _ in 0..1 + r.size(1, 3) {
            v.insert(i, v[i].clone());
        }
    }
}

fn plain_int(r: &mut Rng) -> i32 {
    match r.below(14) {
        0 => *r.pick(&[i32::MAX, i32::MAX - 1, i32::MAX - 23, i32::MAX - 24, i32::MAX - 25]),
        1 => *r.pick(&[i32::MIN, i32::MIN + 1, i32::MIN + 23, i32::MIN + 24, i32::MIN + 25]),
        2 => -(r.below(1000) as i32),
        3 => 0,
        4 => *r.pick(&[1, -1, 23, 24, 25, -24]),
        5..=8 => r.below(100) as i32,
        _ => r.below(2_000_000) as i32,
    }
}

/// An integer event time that a file of version `v` can hold.
fn time_i(r: &mut Rng, v: u8) -> i32 {
    let t = int(r);
    if v <= 4 {
        t.max(i32::MIN + 24)
    } else {
        t
    }
}

pub fn dec(r: &mut Rng) -> Dec {
    Dec(match r.below(22) {
        20 | 21 => int(r).to_string(),
        0 => "0".into(),
        1 => format!("-{}", r.below(5000)),
        2 => format!("{}.{}", r.below(1000), r.below(1_000_000)),
        3 => format!("-{}.{:03}", r.below(1000), r.below(1000)),
        4 => format!("0.{:015}", r.next() % 1_000_000_000_000_000),
        5 => format!("{}", r.range(-2_147_483_648, 2_147_483_647)),
        6 => format!("{}", r.next() % 1_000_000_000_000_000_000),
        7 => ["NaN", "1E+20", "\u{221e}", "x", "-", "1e-9", "0x10", "79228162514264337593543950335"][r.below(8)].into(),
        8 => format!("{}.0", r.below(100)),
        9 => format!("{}.50", r.below(100)),
        10 => format!("{:03}", r.below(100)),
        _ => format!("{}", r.below(1000)),
    })
}

/// A decimal that stands for a time.
pub fn time_d(r: &mut Rng) -> Dec {
    Dec(match r.below(16) {
        0 => format!("-{}", r.below(5000)),
        1 => format!("{}.{}", r.below(1_000_000), r.below(1000)),
        2 => int(r).to_string(),
        3 => ["abc", "1E+5", "NaN", "-9999999999", "99999999999", "0"][r.below(6)].into(),
        4 => format!("{}.{:012}", r.below(1_000_000), r.next() % 1_000_000_000_000),
        5 => ["23", "24", "25", "-24", "-0.5"][r.below(5)].into(),
        _ => r.below(400_000).to_string(),
    })
}

const WORDS: [&str; 24] = [
    "sky", "Aspire", "dj", "TV Size", "a:b", "東方", "naïve", "e\u{301}", "#1", "[x]", "//", "=", "$v", "x, y", "{}",
    "%s", "0", "-1", "\u{1F600}", "\\", "'q'", "\"q\"", "|", "...",
];

fn text(r: &mut Rng) -> String {
    let n = match r.below(10) {
        0 => 0,
        1..=6 => 1,
        7 => 2,
        8 => 2 + r.below(12),
        _ if r.chance(1, 8) => 100 + r.below(400),
        _ => 12 + r.below(60),
    };
    let mut s = String::new();
    for i in 0..n {
        if i > 0 {
            s.push(' ');
        }
        s.push_str(r.pick::<&str>(&WORDS[..]));
    }
    if r.chance(1, 12) {
        s.push_str(r.pick::<&str>(&[" ", "\t", "\u{a0}", "\u{3000}", "  "]));
    }
    let t = s.trim_start().to_string();
    t
}

pub fn file(r: &mut Rng) -> String {
    match r.below(16) {
        14 => {
            // a long quoted path with spaces
            let n = r.size(8, 40);
            let words = (0..n).map(|_| *r.pick(&["a", "bg", "TV Size", "dir/b", "東方", "part one", "~"])).collect::<Vec<_>>().join(" ");
            format!("\"{words}.png\"")
        }
        15 => {
            // dots, extensions and digits again in the name
            let n = 1 + r.below(4);
            let e = *r.pick(&[".png", ".a", ".0", "0.png", ".jpg", "1"]);
            let mut s = r.pick(&["", "sb/", "sb.png/", "a.0/"]).to_string();
            for _ in 0..n {
                s.push_str(r.pick::<&str>(&["a", "b", "0", "png", ".", "x1", e, e]));
            }
            s + e
        }
        13 => r
            .pick(&["/home/u/Songs/1 a - b/sb.png", "/abs/path/to/bg.png", "C:\\osu!\\Songs\\x.png", "\"/abs/with space.png\"", "../up.png", "./here.png", "a/../b.png", "sb//two.png", "sb/.png", "sb/dir/"])
            .to_string(),
        12 => {
            // a long path of words from several scripts
            let n = r.size(6, 40);
            let mut s = String::from("sb");
            for _ in 0..n {
                s.push(*r.pick(&['/', '/', '\\', '_']));
                s.push_str(r.pick(&["東方", "naïve", "e\u{301}", "\u{1F600}", "part", "a1"]));
            }
            s + ".png"
        }
        0 => "\"bg pic.png\"".into(),
        1 => "sb\\part 1.png".into(),
        2 => "音.png".into(),
        3 => "a.b.c".into(),
        4 => "noext".into(),
        5 => ["", "\"q.png\"", "x|y:z.png", "[k].png", "-", "\"open", "sb/a;b.jpg"][r.below(7)].into(),
        _ => format!("sb/{}{}.png", r.pick(&["s", "bg", "t"]), r.below(30)),
    }
}

pub fn kv_value(r: &mut Rng, key: &str) -> String {
    match kv_kind(key).unwrap() {
        Kv::Str => match key {
            "AudioFilename" => file(r).trim_start().to_string(),
            _ => text(r),
        },
        Kv::Int => int(r).to_string(),
        Kv::Dec => dec(r).0,
        Kv::Bool => r.below(2).to_string(),
        Kv::IntList => {
            let n = r.size(3, 30);
            (0..n).map(|_| int(r).to_string()).collect::<Vec<_>>().join(",")
        }
        Kv::Tags => {
            let n = if r.chance(1, 60) { 300 } else { r.size(4, 20) };
            let t = (0..n).map(|_| *r.pick(&["a", "tag", "東方", "x:y", "", "TV"])).collect::<Vec<_>>().join(" ");
            t.trim_start().to_string()
        }
        Kv::Mode => r.below(4).to_string(),
        Kv::Countdown => r.below(4).to_string(),
        Kv::SampleSet => r.pick(&["Normal", "Soft", "Drum", "None"]).to_string(),
        Kv::Overlay => r.pick(&["NoChange", "Below", "Above"]).to_string(),
    }
}

fn kvs(r: &mut Rng, section: &str, v: u8, full: bool) -> Vec<(String, String)> {
    let t = kv_table(section);
    let keep = if full { 100 } else { 10 + r.below(80) };
    let mut out = vec![];
    for (k, _) in t {
        if r.below(100) < keep {
            let mut val = kv_value(r, k);
            if *k == "Mode" && r.chance(2, 3) && !kv_readable(v, k, &val) {
                val = "0".into();
            }
            out.push((k.to_string(), val));
        }
    }
    if r.chance(1, 3) && out.len() > 1 {
        for i in (1..out.len()).rev() {
            let j = r.below(i + 1);
            out.swap(i, j);
        }
    }
    out
}

fn rgb(r: &mut Rng) -> (u8, u8, u8) {
    (r.below(256) as u8, *r.pick(&[0, 1, 128, 255]), r.below(256) as u8)
}

fn opos(r: &mut Rng) -> Option<Pos> {
    if r.chance(1, 2) {
        Some((dec(r), dec(r)))
    } else {
        None
    }
}

pub fn trig(r: &mut Rng) -> MTrig {
    match r.below(5) {
        0 => MTrig::Passing,
        1 => MTrig::Failing,
        _ => {
            let set = if r.chance(2, 3) { Some(r.below(4) as u8) } else { None };
            MTrig::Hit {
                set,
                add_set: if set.is_some() && r.chance(1, 2) { Some(r.below(4) as u8) } else { None },
                add: if r.chance(1, 2) { Some(r.below(3) as u8) } else { None },
                custom: match r.below(6) {
                    0 => Some(0),
                    1 => Some(r.below(10) as u64),
                    2 => Some(10 + r.below(1000) as u64),
                    3 => Some(u64::MAX),
                    _ => None,
                },
            }
        }
    }
}

fn se(r: &mut Rng) -> (Option<i32>, Option<i32>) {
    match r.below(8) {
        0 => (None, None),
        1 | 2 => (Some(int(r)), None),
        _ => (Some(int(r)), Some(int(r))),
    }
}

pub fn two_cont(r: &mut Rng) -> Vec<(Dec, Option<Dec>)> {
    let n = r.size(3, 8);
    let mut v: Vec<(Dec, Option<Dec>)> = (0..n)
        .map(|i| {
            let second = if i + 1 == n && r.chance(1, 3) { None } else { Some(dec(r)) };
            (dec(r), second)
        })
        .collect();
    if v.iter().all(|k| k.1.is_some()) {
        echo(r, &mut v);
    }
    v
}
pub fn col_cont(r: &mut Rng) -> Vec<(u8, Option<u8>, Option<u8>)> {
    let n = r.size(3, 8);
    let mut v: Vec<(u8, Option<u8>, Option<u8>)> = (0..n)
        .map(|i| {
            let c = rgb(r);
            if i + 1 == n {
                match r.below(4) {
                    0 => (c.0, None, None),
                    1 => (c.0, Some(c.1), None),
                    _ => (c.0, Some(c.1), Some(c.2)),
                }
            } else {
                (c.0, Some(c.1), Some(c.2))
            }
        })
        .collect();
    if v.iter().all(|k| k.2.is_some()) {
        echo(r, &mut v);
    }
    v
}

/// A trigger's group: usually a small number.
fn group(r: &mut Rng) -> i32 {
    if r.chance(1, 2) {
        r.below(4) as i32 - 1
    } else {
        int(r)
    }
}

/// One command; `depth` bounds further nesting.
pub fn cmd(r: &mut Rng, depth: usize) -> MCmd {
    let easing = match r.below(6) {
        0 => int(r),
        _ => r.below(36) as i32,
    };
    let (start, end) = se(r);
    let nest = depth > 0 && r.chance(1, 3);
    if nest {
        let n = r.size(3, 8);
        let cmds = (0..n).map(|_| cmd(r, depth - 1)).collect();
        return if r.chance(1, 2) {
            MCmd { start, kind: MCmdKind::Loop { count: r.below(100) as u32, cmds } }
        } else {
            let group = if r.chance(1, 3) { Some(group(r)) } else { None };
            let end = if r.chance(1, 4) { None } else { end };
            MCmd { start, kind: MCmdKind::Trig { ty: trig(r), end, group, cmds } }
        };
    }
    let kind = match r.below(12) {
        0..=3 => {
            let n = r.size(2, 6);
            MCmdKind::One {
                op: r.pick(&["F", "MX", "MY", "S", "R"]).to_string(),
                easing,
                end,
                first: dec(r),
                cont: (0..n).map(|_| dec(r)).collect(),
            }
        }
        4..=6 => MCmdKind::Two {
            op: r.pick(&["M", "V"]).to_string(),
            easing,
            end,
            first: (dec(r), dec(r)),
            cont: two_cont(r),
        },
        7 | 8 => MCmdKind::Col { easing, end, first: rgb(r), cont: col_cont(r) },
        9 => {
            let n = r.size(2, 4);
            MCmdKind::Par {
                easing,
                end,
                first: r.pick(&["H", "V", "A"]).to_string(),
                cont: (0..n).map(|_| r.pick(&["H", "V", "A"]).to_string()).collect(),
            }
        }
        10 => MCmdKind::Loop { count: *r.pick(&[0, 1, 7, u32::MAX]), cmds: vec![] },
        _ => MCmdKind::Trig { ty: trig(r), end, group: if r.chance(1, 2) { Some(group(r)) } else { None }, cmds: vec![] },
    };
    MCmd { start, kind }
}

/// Loops and triggers inside each other, `n` deep, with something in the innermost.
pub fn chain(r: &mut Rng, n: usize) -> MCmd {
    let mut c = cmd(r, 0);
    for _ in 0..n {
        let mut cmds = vec![c];
        if r.chance(1, 8) {
            cmds.insert(r.below(2), cmd(r, 0));
        }
        let start = Some(int(r));
        let kind = if r.chance(2, 3) {
            MCmdKind::Loop { count: r.below(100) as u32, cmds }
        } else {
            MCmdKind::Trig { ty: trig(r), end: Some(int(r)), group: None, cmds }
        };
        c = MCmd { start, kind };
    }
    c
}

pub fn cmds(r: &mut Rng, n: usize, depth: usize) -> Vec<MCmd> {
    let mut v = (0..n).map(|_| cmd(r, depth)).collect();
    echo(r, &mut v);
    if n > 0 && r.chance(1, 60) {
        let deep = r.size(20, 70);
        v.push(chain(r, deep));
    }
    v
}

pub fn event(r: &mut Rng, v: u8, sb: bool) -> MEvent {
    let k = if sb { r.below(14) } else { r.below(9) };
    let ncmd = if r.chance(1, 2) { 0 } else { r.size(4, 14) };
    let depth = *r.pick(&[0, 1, 1, 2, 3, 5]);
    match k {
        0 if r.chance(1, 3) => MEvent::Comment(text(r)),
        0 => MEvent::Comment(r.pick(&["Background and Video events", "", " ", "[Fake]", "a,b", "0,0,x", "東"]).to_string()),
        1 => MEvent::Background { t: int(r), file: file(r), pos: opos(r), cmds: cmds(r, ncmd / 2, depth) },
        2 => MEvent::Video {
            long: MFlag(r.chance(1, 2)),
            t: time_i(r, v),
            file: file(r),
            pos: opos(r),
            cmds: cmds(r, ncmd / 2, depth),
        },
        3 | 4 => MEvent::Break { long: MFlag(r.chance(1, 3)), s: time_i(r, v), e: time_i(r, v) },
        5 => MEvent::ColT { t: time_i(r, v), rgb: rgb(r) },
        6 => MEvent::SampleL {
            t: time_d(r),
            layer: r.below(6) as u8,
            file: file(r),
            vol: if r.chance(1, 2) { Some(r.below(101) as u8) } else { None },
            cmds: cmds(r, ncmd / 3, depth),
        },
        7 => MEvent::Audio { t: int(r), layer: r.below(4) as u8, file: file(r), vol: r.below(101) as u8 },
        8 => {
            if r.chance(1, 2) {
                MEvent::SpriteL {
                    layer: r.below(6) as u8,
                    origin: r.below(10) as u8,
                    file: file(r),
                    pos: opos(r),
                    cmds: cmds(r, ncmd, depth),
                }
            } else {
                MEvent::AnimL {
                    layer: r.below(6) as u8,
                    origin: r.below(10) as u8,
                    file: file(r),
                    pos: opos(r),
                    cmds: cmds(r, ncmd, depth),
                }
            }
        }
        _ => {
            let odd = r.chance(1, 10);
            MEvent::Obj {
                layer: r.below(5) as u8,
                origin: if odd { *r.pick(&[10, -1, 99, i32::MAX]) } else { r.below(10) as i32 },
                short: odd || r.chance(1, 3),
                file: file(r),
                pos: (dec(r), dec(r)),
                anim: if r.chance(1, 3) {
                    Some(MAnim {
                        count: *r.pick(&[0, 1, 4, 60, u32::MAX]),
                        delay: Dec(r.pick(&["0", "16.6", "100", "33.333333", "-5", "0.10"]).to_string()),
                        once: r.chance(1, 2),
                    })
                } else {
                    None
                },
                cmds: cmds(r, ncmd, depth),
            }
        }
    }
}

pub fn events(r: &mut Rng, v: u8, n: usize, sb: bool) -> Vec<MEvent> {
    let mut e = (0..n).map(|_| event(r, v, sb)).collect();
    echo(r, &mut e);
    e
}

/// Timing points: some repeat the one before them, some differ from it in one thing.
fn tps(r: &mut Rng, n: usize) -> Vec<MTp> {
    let mut v: Vec<MTp> = vec![];
    for _ in 0..n {
        let mut t = tp(r);
        if let (Some(p), true) = (v.last(), r.chance(1, 6)) {
            let mut q = p.clone();
            match r.below(7) {
                0 => q.t = t.t,
                1 => q.beat = t.beat,
                2 => q.vol = t.vol,
                3 => q.idx = t.idx,
                4 => q.uninh = q.uninh.and(t.uninh),
                5 => q.set = t.set,
                _ => {}
            }
            if q.uninh.is_none() {
                q.eff = None;
            }
            t = q;
        }
        v.push(t);
    }
    v
}

fn hos(r: &mut Rng, n: usize) -> Vec<MHo> {
    let mut v: Vec<MHo> = vec![];
    for _ in 0..n {
        let mut h = ho(r);
        if let (Some(p), true) = (v.last(), r.chance(1, 6)) {
            let mut q = p.clone();
            match r.below(5) {
                0 => q.t = h.t,
                1 => q.x = h.x,
                2 => q.sample = h.sample,
                3 => q.nc = h.nc,
                _ => {}
            }
            h = q;
        }
        v.push(h);
    }
    v
}

pub fn tp(r: &mut Rng) -> MTp {
    let (uninh, eff) = match r.below(6) {
        0 => (None, None),
        1 => (Some(r.chance(1, 2)), None),
        _ => (Some(r.chance(1, 2)), Some(*r.pick(&[0, 1, 8, 9, 2, u32::MAX, 5]))),
    };
    MTp {
        t: time_d(r),
        beat: match r.below(5) {
            0 => dec(r),
            1 => Dec("-100".into()),
            2 => Dec("333.33333333333".into()),
            3 => Dec(format!("-{}.{}", r.below(200), r.below(10000))),
            _ => Dec(r.below(1000).to_string()),
        },
        meter: if r.chance(1, 8) { int(r) } else { 4 },
        set: if r.chance(1, 8) { int(r) } else { r.below(4) as i32 },
        idx: if r.chance(1, 8) { *r.pick(&[u32::MAX, 1 << 31, (1 << 31) - 1]) } else { r.below(4) as u32 },
        vol: if r.chance(1, 8) { int(r) } else { r.below(101) as i32 },
        uninh,
        eff,
    }
}

pub fn colour(r: &mut Rng) -> MColour {
    let c = rgb(r);
    match r.below(6) {
        0 => MColour::Track(c),
        1 => MColour::Border(c),
        _ => MColour::Combo(if r.chance(1, 10) { int(r).max(0) } else { r.below(12) as i32 }, c),
    }
}

fn samp(r: &mut Rng) -> Option<MSample> {
    if r.chance(1, 3) {
        return None;
    }
    if r.chance(1, 4) {
        return Some(MSample::default());
    }
    let n = |r: &mut Rng| if r.chance(1, 8) { *r.pick(&[4u64, 99, u64::MAX]) } else { r.below(4) as u64 };
    Some(MSample {
        n: n(r),
        a: n(r),
        i: n(r),
        v: if r.chance(1, 2) { 0 } else { 1 + r.below(100) as u8 },
        f: r.pick(&["", "", "hit.wav", "a b.wav", "音.ogg", "x,y.wav"]).to_string(),
    })
}

pub fn ho(r: &mut Rng) -> MHo {
    let kind = match r.below(10) {
        0..=4 => MHoKind::Circle,
        5..=7 => {
            let p = r.size(3, 20);
            let (mut e, mut s) = (if r.chance(1, 3) { 0 } else { r.size(3, 6) }, if r.chance(1, 2) { 0 } else { r.size(3, 6) });
            if r.chance(1, 3) {
                (e, s) = (0, 0);
            }
            MHoKind::Slider {
                ct: r.pick(&["B", "C", "L", "P"]).to_string(),
                pts: (0..p).map(|_| (dec_nocolon(r), dec_nocolon(r))).collect(),
                slides: if r.chance(1, 10) { int(r) } else { 1 + r.below(4) as i32 },
                len: dec(r),
                es: (0..e).map(|_| r.below(16) as u8).collect(),
                esets: (0..s).map(|_| (r.below(4) as u64, r.below(5) as u64)).collect(),
                form: MForm(r.below(3) as u8),
            }
        }
        8 => MHoKind::Spinner { end: time_d(r) },
        _ => MHoKind::Hold { end: time_d(r) },
    };
    MHo {
        x: dec(r),
        y: dec(r),
        t: time_d(r),
        nc: r.chance(1, 3),
        skip: if r.chance(1, 4) { r.below(8) as u8 } else { 0 },
        hs: r.below(16) as u8,
        kind,
        sample: samp(r),
    }
}
fn dec_nocolon(r: &mut Rng) -> Dec {
    dec(r)
}

#[derive(Clone, Copy)]
pub struct Size {
    pub events: usize,
    pub rows: usize,
    pub full: bool,
}

pub fn small(r: &mut Rng) -> Size {
    match r.below(10) {
        0..=5 => Size { events: 1 + r.below(5), rows: 1 + r.below(5), full: false },
        6..=8 => Size { events: r.below(14), rows: r.below(20), full: r.chance(1, 2) },
        _ if r.chance(1, 12) => Size { events: 20 + r.below(100), rows: 100 + r.below(250), full: true },
        _ => Size { events: r.below(50), rows: r.below(80), full: true },
    }
}

pub fn map(r: &mut Rng, v: u8, z: Size) -> MMap {
    let skip = |r: &mut Rng| r.chance(1, 6);
    let mut m = MMap { version: v, ..Default::default() };
    for s in ["General", "Editor", "Metadata", "Difficulty"] {
        if !skip(r) {
            let k = kvs(r, s, v, z.full);
            *m.kv_mut(s) = Some(k);
        }
    }
    if !skip(r) {
        let n = r.below(z.events + 1);
        m.events = Some(events(r, v, n, r.clone().chance(2, 3)));
    }
    if !skip(r) {
        let n = r.below(z.rows + 1);
        m.timing = Some(tps(r, n));
    }
    if !skip(r) {
        let n = if r.chance(1, 30) { r.below(z.rows.max(8) * 4) } else { r.below(9) };
        let mut c = (0..n).map(|_| colour(r)).collect();
        echo(r, &mut c);
        m.colours = Some(c);
    }
    if !skip(r) {
        let n = r.below(z.rows + 1);
        m.hitobjects = Some(hos(r, n));
    }
    m
}

pub fn osb(r: &mut Rng, z: Size) -> MOsb {
    let variables = if r.chance(2, 3) {
        let n = r.size(4, 10);
        let mut names: Vec<String> = vec![];
        let mut out = vec![];
        for _ in 0..n {
            let name = r
                .pick(&["a", "ab", "x", "white", "start", "xy", "v1", "v10", "v", "変数"])
                .to_string();
            if names.contains(&name) {
                continue;
            }
            names.push(name.clone());
            let val = match r.below(9) {
                8 => {
                    let n = r.size(20, 300);
                    r.pick(&["é", "東", "12,", "x", "\u{1F600}"]).repeat(n) + "1"
                }
                0 => "255,255,255".to_string(),
                1 => dec(r).0,
                2 => "0".into(),
                3 => r.below(300).to_string(),
                4 => ["", "$a", "M,0", ",", "H", "=", " "][r.below(7)].to_string(),
                _ => r.below(30).to_string(),
            };
            out.push((name, val));
        }
        Some(out)
    } else {
        None
    };
    let n = r.below(z.events + 1);
    let ev = if r.chance(9, 10) { Some(events(r, 14, n, true)) } else { None };
    MOsb { variables, events: ev }
}

pub fn layout(r: &mut Rng) -> Layout {
    if r.chance(1, 4) {
        return Layout { final_newline: r.chance(1, 2), header_gap: 0, section_gap: 1, ..Default::default() };
    }
    let p = |r: &mut Rng| if r.chance(1, 2) { 0 } else { r.below(40) as u8 };
    Layout {
        bom: r.chance(1, 6),
        lead_blank: if r.chance(1, 5) { r.below(4) as u8 } else { 0 },
        lead_indent: 0,
        endings: *r.pick(&[0, 0, 1, 1, 2]),
        final_newline: r.chance(2, 3),
        order: if r.chance(1, 5) { r.next() as u32 % 100_000 } else { 0 },
        sprinkle: r.next() % 1_000_000,
        blank_pct: p(r),
        indent_pct: p(r),
        underscore_pct: p(r),
        notes: if r.chance(1, 4) { r.below(4) as u8 } else { 0 },
        header_gap: if r.chance(1, 3) { r.below(3) as u8 } else { 0 },
        head_space: if r.chance(1, 5) { r.below(16) as u8 } else { 0 },
        section_gap: r.below(3) as u8,
        kv_space: r.below(3) as u8,
        alt_pct: p(r),
        flood: match r.below(1500) {
            0..=1 => 65_500 + r.below(80) as u32,
            2..=40 => 230 + r.below(60) as u32,
            _ => 0,
        },
        flood_at: r.below(200) as u32,
    }
}

const TOKENS: [&str; 62] = [
    "", "-", "0", "1", "-1", "2147483647", "2147483648", "-2147483648", "-2147483649", "4294967295", "4294967296",
    "18446744073709551615", "18446744073709551616", "79228162514264337593543950335", "79228162514264337593543950336",
    "-79228162514264337593543950335", "NaN", "1e400", "1E5", "0.0000000000000000000000000000001", "256", "101", "255",
    "é", "\u{feff}", "\u{1F600}", "[", "]", "[x", "//", ",", ",,", ":", "::", "|", "||", "$", "$a", "=", " ", "  ", "\t",
    "_", "HitSoundSoftDrumWhistle5", "HitSoundSoft12", "HitSoundDrum1Soft2", "HitSoundWhistleFinish", "Sprite", "Animation",
    "Video", "Break", "LoopForever", "0:0:0:0:", "B|1:1", "L", "T", "M", "[General]", "osu file format v14", "\u{0}", "\r",
    "\n",
];

pub fn token(r: &mut Rng) -> String {
    match r.below(18) {
        0 => {
            let n = 1 + r.below(6);
            (0..n).map(|_| *r.pick(&TOKENS[..])).collect()
        }
        1 => "9".repeat(1 + r.below(60)),
        2 => " ".repeat(r.below(12)),
        3 => {
            let w = r.below(64);
            (r.next() >> w).to_string()
        }
        4 => ((1u64 << r.below(33)) + r.below(16) as u64).to_string(),
        5 => r.pick(&EDGES[..]).to_string(),
        6 if r.chance(1, 4) => {
            let n = r.size(30, 400);
            r.pick(&["é", "東", "a", "\u{1F600}", "1", "- "]).repeat(n)
        }
        _ => r.pick(&TOKENS[..]).to_string(),
    }
}

const LINES: [&str; 44] = [
    "[General ]", "[ Events]", "[hitobjects]", "[TimingPoints]x", "[General]", "[HitObjects", "HitObjects]", "[]", "[", "]", "[Events] x", "[Unknown]", "  [Events]", "// c", "//", "0", "1",
    "Video", "Videox", "Break", "350,1", "6", "3,", "Sprite", "Sprite,Background,Centre,a.png,0,0", " F,0,0,,1",
    "   F,0,0,,1", " L,0,1", "  T,HitSoundSoft12,0,1", "_M,0,0,,1,1", " T,HitSoundDrumWhistle1Soft2", "$a=1", "$", "$=",
    "BeatmapID:x", "BeatmapSetID:", "Tags:", ":", "key", "Combo1 : 1,2,3", "0,0,0,1,0", "Animation,Pass,Centre,f,0,0,1,x",
    "0,100", "osu file format v3",
];

pub fn line(r: &mut Rng) -> String {
    if r.chance(1, 4) {
        let n = 1 + r.below(5);
        let s = (0..n).map(|_| token(r)).collect::<Vec<_>>().join(r.pick::<&str>(&[",", ":", "", "|"]));
        s.replace(['\n', '\r'], "")
    } else if r.chance(1, 12) {
        // a command at any depth
        let n = r.size(8, 300);
        format!("{}{}", r.pick(&[" ", "_"]).repeat(n), r.pick(&["F,0,1,,1", "L,0,2", "M,0,1,2,3,4", "x"]))
    } else {
        r.pick(&LINES[..]).to_string()
    }
}

pub fn grow(r: &mut Rng) -> Fault {
    let by = match r.below(4) {
        0 => r.range(-300, 300),
        1 => 10i64.pow(r.below(18) as u32),
        _ => 1i64 << r.below(40),
    };
    let n = *r.pick(&[6, 12]);
    Fault::Grow { line: r.below(1000), field: r.below(n), by }
}

/// A storage fault somewhere in a file of about `len` bytes.
pub fn fault(r: &mut Rng, len: usize) -> Fault {
    let len = len.max(1);
    let size = *r.pick(&[8, 16, 32, 64, 512]);
    let at = r.below(len + 1);
    let sec = r.below(len / size + 1);
    match r.below(21) {
        0 | 1 => Fault::Flip { at, bit: r.below(8) as u8 },
        2 => Fault::Byte { at, val: r.next() as u8 },
        3 => Fault::Lost { sector: sec, size },
        4 => Fault::Stale { sector: sec, from: r.below(len / size + 1), size },
        5 => Fault::Swap { a: sec, b: r.below(len / size + 1), size },
        6 => Fault::Dup { sector: sec, size },
        7 => Fault::Drop { sector: sec, size },
        8 => Fault::Garble { at, len: 1 + r.below(40), seed: r.next() % 100_000 },
        9 | 10 => Fault::Trunc { at },
        11 => Fault::Over { at, text: token(r) },
        12 => Fault::Insert { at, text: token(r) },
        13 if r.chance(1, 2) => grow(r),
        13 | 14 if r.chance(1, 3) => Fault::Copy { line: r.below(1000), from: r.below(12), to: if r.chance(1, 3) { 0 } else { r.below(12) }, place: r.below(8) as u8 },
        13..=15 => Fault::Field { line: r.below(1000), field: r.below(12), text: token(r) },
        16 | 17 => Fault::Line { line: r.below(1000), text: line(r) },
        18 => {
            if r.chance(1, 2) {
                Fault::LineLost { line: r.below(1000) }
            } else {
                Fault::Merge { line: r.below(1000) }
            }
        }
        19 => Fault::LineDup { line: r.below(1000), to: r.below(1000) },
        _ => Fault::Header { line: r.below(1000), how: r.next() as u8 },
    }
}

pub fn faults(r: &mut Rng, len: usize, max: usize) -> Vec<Fault> {
    let n = if r.chance(2, 3) { 1 } else { 1 + r.below(max) };
    (0..n).map(|_| fault(r, len)).collect()
}
