//! World "sink": values are printed to outputs that fail, stall and accept only parts.

use crate::apply;
use crate::damage::{open, Opened};
use crate::disk::Disk;
use crate::gen;
use crate::input::{self, Input};
use crate::model::*;
use crate::rng::Rng;
use crate::runner::Ctx;
use osu_file_parser::events::storyboard::cmds::ContinuingFields;
use osu_file_parser::*;
use serde::{Deserialize, Serialize};
use std::fmt::{self, Display, Write as _};
use std::io::{self, Write as _};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Sink {
    pub item: Item,
    pub seed: u64,
    /// how many failure points of each kind are tried (all of them if the text is shorter)
    pub points: usize,
    /// capacity of the buffered writer in front of the simulated file
    pub buf: usize,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Item {
    Built(MMap),
    File { input: Input, version: u8 },
    Dec(Dec),
    Two { first: Pos, cont: Vec<(Dec, Option<Dec>)> },
    TwoInt { first: (i32, i32), cont: Vec<(i32, Option<i32>)> },
    /// the error a damaged file gives
    Error(Input),
}

const P: &[&str] = &["C05"];

#[derive(Clone, Copy, PartialEq, Debug)]
enum Mode {
    /// accepts the bytes up to the limit, then fails for good
    Partial,
    /// refuses the piece that crosses the limit as a whole, then fails for good
    Whole,
    /// fails once, then works again
    Once,
}

struct FmtSink {
    got: String,
    limit: usize,
    mode: Mode,
    failed: bool,
    dead: bool,
}
impl fmt::Write for FmtSink {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        if self.dead {
            return Err(fmt::Error);
        }
        if !self.failed && self.got.len() + s.len() > self.limit {
            self.failed = true;
            self.dead = self.mode != Mode::Once;
            if self.mode == Mode::Partial {
                let mut k = self.limit - self.got.len();
                while !s.is_char_boundary(k) {
                    k -= 1;
                }
                self.got.push_str(&s[..k]);
            }
            return Err(fmt::Error);
        }
        self.got.push_str(s);
        Ok(())
    }
}

/// An operating-system output: short writes, interruptions, and a failure at one byte.
struct IoSink {
    got: Vec<u8>,
    rng: Rng,
    short: bool,
    interrupt: bool,
    fail: Option<(usize, u8)>,
    failed: bool,
    calm: u32,
}
impl io::Write for IoSink {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        if b.is_empty() {
            return Ok(0);
        }
        if self.interrupt && self.calm == 0 && self.rng.chance(1, 3) {
            self.calm = 1;
            return Err(io::Error::from(io::ErrorKind::Interrupted));
        }
        self.calm = 0;
        let mut n = b.len();
        if self.short {
            n = 1 + self.rng.below(n);
        }
        if let Some((at, how)) = self.fail {
            if self.got.len() + n > at {
                n = at - self.got.len();
                if n == 0 {
                    self.failed = true;
                    return match how {
                        0 => Err(io::Error::from_raw_os_error(libc::ENOSPC)),
                        1 => Err(io::Error::from_raw_os_error(libc::EIO)),
                        2 => Err(io::Error::from(io::ErrorKind::WouldBlock)),
                        _ => Ok(0),
                    };
                }
            }
        }
        self.got.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

struct SimFile<'a> {
    disk: &'a mut Disk,
    inode: usize,
}
impl io::Write for SimFile<'_> {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        self.disk.append(self.inode, b).map_err(|_| io::Error::from_raw_os_error(libc::ENOSPC))?;
        Ok(b.len())
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

fn points(r: &mut Rng, len: usize, n: usize) -> Vec<usize> {
    if len <= n {
        (0..len).collect()
    } else {
        let mut v: Vec<usize> = (0..n).map(|_| r.below(len)).collect();
        v.extend([0, 1, len - 1]);
        v
    }
}

fn drive<T: Display + PartialEq + fmt::Debug + Clone>(cx: &mut Ctx, s: &Sink, x: &T) {
    let before = x.clone();
    let dbg = format!("{x:?}");
    drive_any(cx, s, x);
    if *x != before || format!("{x:?}") != dbg {
        cx.viol(P, "value modified by printing", format!("{dbg} became {x:?}"));
    }
}

fn drive_any<T: Display>(cx: &mut Ctx, s: &Sink, x: &T) {
    let mut r = Rng::new(s.seed);
    let Some(full) = cx.call(P, "printing", || x.to_string()) else { return };
    let at = points(&mut r, full.len(), s.points.max(1));
    for mode in [Mode::Partial, Mode::Whole, Mode::Once] {
        for &k in &at {
            let mut o = FmtSink { got: String::new(), limit: k, mode, failed: false, dead: false };
            let Some(res) = cx.call(P, "printing to a failing output", || write!(o, "{x}")) else { return };
            if !o.failed {
                cx.viol(P, "text incomplete", format!("only {} of {} bytes were written and the call returned {res:?}", o.got.len(), full.len()));
                return;
            }
            if res.is_ok() {
                cx.viol(P, "failure swallowed", format!("the output failed at byte {k} of {} ({mode:?}) and printing returned success", full.len()));
                return;
            }
            if !full.starts_with(&o.got) {
                cx.viol(P, "accepted text is not a prefix", format!("failing at byte {k} ({mode:?}): {:?} of {:?}", tail(&o.got), tail(&full)));
                return;
            }
        }
        *cx.rep.faults.entry(format!("output failure ({mode:?})")).or_default() += at.len() as u64;
    }
    // operating-system outputs
    for how in 0..4u8 {
        let some = points(&mut r, full.len(), (s.points / 4).max(1));
        for &k in &some {
            let mut o = IoSink { got: vec![], rng: Rng::new(r.next()), short: r.chance(1, 2), interrupt: r.chance(1, 2), fail: Some((k, how)), failed: false, calm: 0 };
            let Some(res) = cx.call(P, "printing to a failing file", || write!(o, "{x}")) else { return };
            if res.is_ok() || !o.failed {
                cx.viol(P, "failure swallowed", format!("the file failed at byte {k} of {} and printing returned {res:?}", full.len()));
                return;
            }
            if o.got != full.as_bytes()[..k] {
                cx.viol(P, "accepted text is not a prefix", format!("failing at byte {k}: {} bytes accepted", o.got.len()));
                return;
            }
        }
        let kind = ["disk full", "I/O error", "would block", "zero-length write"][how as usize];
        *cx.rep.faults.entry(kind.into()).or_default() += some.len() as u64;
    }
    for _ in 0..4 {
        let mut o = IoSink { got: vec![], rng: Rng::new(r.next()), short: true, interrupt: true, fail: None, failed: false, calm: 0 };
        let Some(res) = cx.call(P, "printing to a slow file", || write!(o, "{x}")) else { return };
        cx.fault("short and interrupted writes");
        if let Err(e) = res {
            cx.viol(P, "slow output failed", format!("short and interrupted writes only, and printing returned {e}"));
            return;
        }
        if o.got != full.as_bytes() {
            cx.viol(P, "slow output incomplete", format!("{} of {} bytes", o.got.len(), full.len()));
            return;
        }
    }
    // through a buffered writer onto a disk that fills up
    for _ in 0..4 {
        let mut disk = Disk::new(64);
        let inode = disk.create("f");
        let space = r.below(full.len() + 2);
        disk.space = Some(space);
        let res = {
            let mut w = io::BufWriter::with_capacity(s.buf.max(1), SimFile { disk: &mut disk, inode });
            let res = cx.call(P, "printing to a full disk", || write!(w, "{x}"));
            let Some(res) = res else { return };
            let res = res.and_then(|_| w.flush());
            let (_file, _rest) = w.into_parts();
            res
        };
        cx.fault("disk full behind a buffer");
        let got = disk.read("f").unwrap_or_default();
        if res.is_ok() != (got == full.as_bytes()) || (space < full.len() && res.is_ok()) {
            cx.viol(P, "failure swallowed", format!("a disk of {space} bytes took {} of {} bytes and saving returned {res:?}", got.len(), full.len()));
            return;
        }
        if !full.as_bytes().starts_with(&got) {
            cx.viol(P, "accepted text is not a prefix", format!("a disk of {space} bytes holds other bytes"));
            return;
        }
        cx.rep.sim_ns += disk.ns;
    }
    // the output is healthy again
    let again = cx.call(P, "printing again", || x.to_string());
    if again.as_deref() != Some(&full) {
        cx.viol(P, "reprint differs", format!("{:?} became {:?}", tail(&full), again.map(|a| tail(&a))));
    }
}

fn tail(s: &str) -> String {
    let n = s.chars().count();
    s.chars().skip(n.saturating_sub(200)).collect()
}

pub fn exec(cx: &mut Ctx, s: &Sink) {
    match &s.item {
        Item::Built(m) => drive(cx, s, &apply::map(m)),
        Item::File { input, version } => {
            let text = input.text(None);
            match open(cx, &["C01"], &text, input.is_osb(), 14) {
                Opened::Map(mut f) => {
                    f.version = *version;
                    drive(cx, s, &*f);
                }
                _ => cx.note("file rejected"),
            }
        }
        Item::Dec(d) => drive(cx, s, &apply::dec(d)),
        Item::Two { first, cont } => drive(cx, s, &apply::two(first, cont)),
        Item::TwoInt { first, cont } => {
            if let Ok(x) = ContinuingFields::new(*first, cont.clone()) {
                drive(cx, s, &x)
            }
        }
        Item::Error(i) => {
            let text = i.text(Some(cx));
            if i.is_osb() {
                let mut f = OsuFile::new(14);
                if let Some(Err(e)) = cx.call(&["C01"], "appending", || f.append_osb(&text)) {
                    drive_any(cx, s, &e);
                    drive_any(cx, s, e.error());
                }
            } else if let Some(Err(e)) = cx.call(&["C01"], "opening", || text.parse::<OsuFile>()) {
                drive_any(cx, s, &e);
                drive_any(cx, s, e.error());
            }
        }
    }
}

pub fn gen(r: &mut Rng) -> Sink {
    let item = match r.below(12) {
        0..=2 => {
            let v = gen::version(r);
            let z = gen::small(r);
            Item::Built(gen::map(r, v, z))
        }
        3..=5 => Item::File { input: input::good(r, None, 20), version: gen::version(r) },
        6 | 7 => Item::Dec(gen::dec(r)),
        8 => Item::Two { first: (gen::dec(r), gen::dec(r)), cont: gen::two_cont(r) },
        9 => {
            let n = r.below(5);
            Item::TwoInt {
                first: (gen::int(r), gen::int(r)),
                cont: (0..n).map(|i| (gen::int(r), if i + 1 == n && r.chance(1, 2) { None } else { Some(gen::int(r)) })).collect(),
            }
        }
        _ => Item::Error(input::damaged(r, None, 20, 3)),
    };
    let points = match item {
        Item::Built(_) | Item::File { .. } => 60,
        _ => 200,
    };
    Sink { item, seed: r.next() % 1_000_000, points, buf: *r.pick(&[1, 7, 64, 512, 8192]) }
}
