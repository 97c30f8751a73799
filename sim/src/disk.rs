//! The simulated disk: sectors, a volatile cache, files with atomic rename, and the faults real
//! storage meets.  Only what was synced is certain to survive a crash.

use crate::rng::Rng;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;

#[derive(Clone, Default)]
struct Inode {
    /// what the running system reads
    cached: Vec<u8>,
    /// what is on the platter
    durable: Vec<u8>,
    dirty: bool,
}

/// A simulated disk.
#[derive(Clone)]
pub struct Disk {
    sector: usize,
    inodes: Vec<Inode>,
    /// directory as the running system sees it, and as it is on the platter
    dir: BTreeMap<String, usize>,
    durable_dir: BTreeMap<String, usize>,
    pub ns: i64,
    pub space: Option<usize>,
    pub writes: u64,
    pub syncs: u64,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum IoErr {
    NoSpace,
    Eio,
}

/// What a save meets on its way to the disk; `at` counts bytes of the file.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum WriteFault {
    NoSpace { at: usize },
    Eio { at: usize },
    SyncFails,
}

impl Disk {
    pub fn new(sector: usize) -> Disk {
        Disk {
            sector: sector.max(1),
            inodes: vec![],
            dir: BTreeMap::new(),
            durable_dir: BTreeMap::new(),
            ns: 0,
            space: None,
            writes: 0,
            syncs: 0,
        }
    }
    pub fn create(&mut self, name: &str) -> usize {
        self.inodes.push(Inode::default());
        self.dir.insert(name.to_string(), self.inodes.len() - 1);
        self.ns += 50_000;
        self.inodes.len() - 1
    }
    /// Open for overwriting in place (the file keeps its identity, and is truncated).
    pub fn truncate(&mut self, name: &str) -> usize {
        match self.dir.get(name) {
            Some(&i) => {
                self.inodes[i].cached.clear();
                self.inodes[i].dirty = true;
                i
            }
            None => self.create(name),
        }
    }
    pub fn append(&mut self, i: usize, data: &[u8]) -> Result<(), IoErr> {
        self.writes += 1;
        self.ns += 2_000 + data.len() as i64;
        if let Some(s) = self.space {
            let used: usize = self.dir.values().map(|&i| self.inodes[i].cached.len()).sum();
            if used + data.len() > s {
                return Err(IoErr::NoSpace);
            }
        }
        self.inodes[i].cached.extend_from_slice(data);
        self.inodes[i].dirty = true;
        Ok(())
    }
    pub fn sync(&mut self, i: usize) {
        self.syncs += 1;
        self.ns += 5_000_000;
        self.inodes[i].durable = self.inodes[i].cached.clone();
        self.inodes[i].dirty = false;
    }
    pub fn rename(&mut self, from: &str, to: &str) {
        if let Some(i) = self.dir.remove(from) {
            self.dir.insert(to.to_string(), i);
        }
        self.ns += 100_000;
    }
    pub fn sync_dir(&mut self) {
        self.syncs += 1;
        self.ns += 5_000_000;
        self.durable_dir = self.dir.clone();
    }
    pub fn remove(&mut self, name: &str) {
        self.dir.remove(name);
    }
    pub fn inode(&self, name: &str) -> Option<usize> {
        self.dir.get(name).copied()
    }
    pub fn read(&self, name: &str) -> Option<Vec<u8>> {
        self.dir.get(name).map(|&i| self.inodes[i].cached.clone())
    }

    /// Power loss and restart: for every file an arbitrary subset of its unsynced sectors reached
    /// the platter, possibly torn; unsynced directory changes survive as a prefix of themselves
    /// (all or nothing per crash).
    pub fn crash(&mut self, r: &mut Rng) {
        let keep_dir = r.chance(1, 2);
        let dir = if keep_dir { self.dir.clone() } else { self.durable_dir.clone() };
        let s = self.sector;
        for n in self.inodes.iter_mut() {
            if n.dirty {
                let how = r.below(4);
                let old = n.durable.clone();
                let len = match how {
                    0 => old.len(),
                    1 => n.cached.len(),
                    _ => {
                        let m = old.len().max(n.cached.len());
                        if m == 0 {
                            0
                        } else {
                            r.below(m + 1)
                        }
                    }
                };
                let mut out = vec![0u8; len];
                let mut at = 0;
                while at < len {
                    let end = (at + s).min(len);
                    let src: &[u8] = if r.chance(1, 2) { &n.cached } else { &old };
                    for k in at..end {
                        out[k] = src.get(k).copied().unwrap_or(0);
                    }
                    if r.chance(1, 8) && end > at {
                        // torn sector: the rest of it still holds the other content
                        let cut = at + r.below(end - at);
                        let other: &[u8] = if r.chance(1, 2) { &old } else { &n.cached };
                        for k in cut..end {
                            out[k] = other.get(k).copied().unwrap_or(0);
                        }
                    }
                    at = end;
                }
                n.durable = out;
            }
            n.cached = n.durable.clone();
            n.dirty = false;
        }
        self.dir = dir.clone();
        self.durable_dir = dir;
        self.space = None;
        self.ns += 10_000_000_000;
    }
}

/// Damage to the bytes of a stored file.  Positions are taken modulo the file's length.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Fault {
    /// flip one bit
    Flip { at: usize, bit: u8 },
    /// one byte replaced
    Byte { at: usize, val: u8 },
    /// a sector never written: zeros
    Lost { sector: usize, size: usize },
    /// a sector holding old content: the text of another place of the file
    Stale { sector: usize, from: usize, size: usize },
    /// two sectors swapped by a misdirected write
    Swap { a: usize, b: usize, size: usize },
    /// a sector written twice, the content after it pushed back
    Dup { sector: usize, size: usize },
    /// a sector dropped out of the file, the content after it pulled up
    Drop { sector: usize, size: usize },
    /// bytes overwritten by printable noise
    Garble { at: usize, len: usize, seed: u64 },
    /// file cut off
    Trunc { at: usize },
    /// bytes overwritten by these
    Over { at: usize, text: String },
    /// bytes squeezed in
    Insert { at: usize, text: String },
    /// this field (comma, colon or pipe separated) of this line replaced
    Field { line: usize, field: usize, text: String },
    /// a field of a line written into or next to another one (0 over it, 1 after it, 2 before it), or a separator doubled (3);
    /// 4 to 7: on the next line that uses a variable, from the field that does
    Copy { line: usize, from: usize, to: usize, place: u8 },
    /// the number in this field grown by this much
    Grow { line: usize, field: usize, by: i64 },
    /// a whole line replaced
    Line { line: usize, text: String },
    /// a line lost together with its ending
    LineLost { line: usize },
    /// a line ending lost: two lines merged
    Merge { line: usize },
    /// a line stored a second time elsewhere
    LineDup { line: usize, to: usize },
    /// the header of the section this line is in stored again before it, spelled some other way
    Header { line: usize, how: u8 },
}

impl Fault {
    pub fn kind(&self) -> &'static str {
        match self {
            Fault::Flip { .. } => "bit flip",
            Fault::Byte { .. } => "byte garbled",
            Fault::Lost { .. } => "lost sector (zeros)",
            Fault::Stale { .. } => "stale sector",
            Fault::Swap { .. } => "misdirected write (sectors swapped)",
            Fault::Dup { .. } => "duplicated sector",
            Fault::Drop { .. } => "dropped sector",
            Fault::Garble { .. } => "garbled bytes",
            Fault::Trunc { .. } => "truncation (short write)",
            Fault::Over { .. } => "bytes overwritten",
            Fault::Insert { .. } => "bytes inserted",
            Fault::Field { .. } => "field garbled",
            Fault::Copy { .. } => "field misplaced",
            Fault::Grow { .. } => "number garbled",
            Fault::Line { .. } => "line garbled",
            Fault::LineLost { .. } => "line lost",
            Fault::Merge { .. } => "line ending lost",
            Fault::LineDup { .. } => "line duplicated",
            Fault::Header { .. } => "section header repeated",
        }
    }
}

/// A stored byte that may remember where in the undamaged file it was.
pub trait Cell: Copy + PartialEq {
    fn byte(&self) -> u8;
    /// a byte a fault put there
    fn fresh(b: u8) -> Self;
}
impl Cell for u8 {
    fn byte(&self) -> u8 {
        *self
    }
    fn fresh(b: u8) -> u8 {
        b
    }
}
impl Cell for (u8, u32) {
    fn byte(&self) -> u8 {
        self.0
    }
    fn fresh(b: u8) -> (u8, u32) {
        (b, u32::MAX)
    }
}

fn spans<C: Cell>(b: &[C]) -> Vec<(usize, usize, usize)> {
    // (start, end of content, end with ending)
    let mut v = vec![];
    let mut s = 0;
    while s < b.len() {
        let e = b[s..].iter().position(|c| c.byte() == b'\n').map(|p| s + p);
        match e {
            Some(e) => {
                let c = if e > s && b[e - 1].byte() == b'\r' { e - 1 } else { e };
                v.push((s, c, e + 1));
                s = e + 1;
            }
            None => {
                v.push((s, b.len(), b.len()));
                s = b.len();
            }
        }
    }
    v
}

/// The comma, colon or pipe separated fields of a line.
fn fields<C: Cell>(b: &[C], s: usize, e: usize) -> Vec<(usize, usize)> {
    let mut cuts = vec![s];
    for k in s..e {
        if matches!(b[k].byte(), b',' | b':' | b'|') {
            cuts.push(k + 1);
        }
    }
    (0..cuts.len()).map(|i| (cuts[i], if i + 1 < cuts.len() { cuts[i + 1] - 1 } else { e })).collect()
}

/// A line that is not blank, if there is one.
fn line_at<C: Cell>(b: &[C], line: usize) -> (usize, usize) {
    let sp = spans(b);
    let full: Vec<_> = sp.iter().filter(|(s, e, _)| s < e).collect();
    let (s, e, _) = if full.is_empty() { sp[line % sp.len()] } else { *full[line % full.len()] };
    (s, e)
}

fn field_at<C: Cell>(b: &[C], line: usize, field: usize) -> (usize, usize) {
    let (s, e) = line_at(b, line);
    let f = fields(b, s, e);
    f[field % f.len()]
}

/// A section header in another spelling.
pub fn respelled(h: &str, how: u8) -> String {
    let name = h.trim_start_matches('[').trim_end_matches(']');
    match how % 14 {
        0 => format!("[{name} ]"),
        1 => format!("[ {name}]"),
        2 => format!("[{}]", name.to_lowercase()),
        3 => format!("[{}]", name.to_uppercase()),
        4 => format!("[{name}] "),
        5 => format!(" [{name}]"),
        6 => format!("[{name}]x"),
        7 => format!("[[{name}]]"),
        8 => format!("[{name}"),
        9 => format!("{name}]"),
        10 => format!("[{name}]//"),
        11 => format!("[{name}\t]"),
        12 => format!("[{}]", name.trim_end_matches('s')),
        _ => format!("[{name}]"),
    }
}

/// Apply one fault; returns false if it had nothing to act on.
pub fn apply<C: Cell>(b: &mut Vec<C>, f: &Fault) -> bool {
    if b.is_empty() {
        return false;
    }
    let before = b.clone();
    let n = b.len();
    let fresh = |c: &[C]| c.iter().map(|c| C::fresh(c.byte())).collect::<Vec<C>>();
    let text = |t: &str| t.bytes().map(C::fresh).collect::<Vec<C>>();
    let put = |c: &mut C, x: u8| {
        if c.byte() != x {
            *c = C::fresh(x)
        }
    };
    let sec = |i: usize, size: usize| {
        let size = size.max(1);
        let cnt = (n + size - 1) / size;
        let i = i % cnt;
        (i * size, ((i + 1) * size).min(n))
    };
    match f {
        Fault::Flip { at, bit } => {
            let x = b[at % n].byte() ^ 1 << (bit % 8);
            put(&mut b[at % n], x)
        }
        Fault::Byte { at, val } => put(&mut b[at % n], *val),
        Fault::Lost { sector, size } => {
            let (s, e) = sec(*sector, *size);
            for c in &mut b[s..e] {
                put(c, 0);
            }
        }
        Fault::Stale { sector, from, size } => {
            let (s, e) = sec(*sector, *size);
            let (fs, fe) = sec(*from, *size);
            for k in 0..(e - s).min(fe - fs) {
                put(&mut b[s + k], before[fs + k].byte());
            }
        }
        Fault::Swap { a, b: c, size } => {
            let (s, e) = sec(*a, *size);
            let (fs, fe) = sec(*c, *size);
            for k in 0..(e - s).min(fe - fs) {
                put(&mut b[s + k], before[fs + k].byte());
                put(&mut b[fs + k], before[s + k].byte());
            }
        }
        Fault::Dup { sector, size } => {
            let (s, e) = sec(*sector, *size);
            let src = fresh(&before[s..e]);
            b.splice(e..e, src);
        }
        Fault::Drop { sector, size } => {
            let (s, e) = sec(*sector, *size);
            b.drain(s..e);
        }
        Fault::Garble { at, len, seed } => {
            let mut r = Rng::new(*seed);
            let s = at % n;
            for k in s..(s + len.max(&1)).min(n) {
                let x = 32 + r.below(95) as u8;
                put(&mut b[k], x);
            }
        }
        Fault::Trunc { at } => b.truncate(at % n),
        Fault::Over { at, text } => {
            let s = at % n;
            for (k, c) in text.bytes().enumerate() {
                if s + k < n {
                    put(&mut b[s + k], c);
                }
            }
        }
        Fault::Insert { at, text: t } => {
            let s = at % (n + 1);
            b.splice(s..s, text(t));
        }
        Fault::Field { line, field, text: t } => {
            let (fs, fe) = field_at(b, *line, *field);
            b.splice(fs..fe, text(t));
        }
        Fault::Copy { line, from, to, place } => {
            let (mut line, mut from) = (*line, *from);
            if *place > 3 {
                let lines: Vec<_> = spans(b).into_iter().filter(|(s, e, _)| s < e).collect();
                let uses = |(s, e): (usize, usize)| b[s..e].iter().any(|c| c.byte() == b'$');
                let found = (0..lines.len()).map(|k| (line + k) % lines.len()).find_map(|l| {
                    let f = fields(b, lines[l].0, lines[l].1);
                    (1..f.len()).find(|k| uses(f[*k])).map(|k| (l, k))
                });
                if let Some((l, k)) = found {
                    (line, from) = (l, k);
                }
            }
            let (fs, fe) = field_at(b, line, from);
            let (ts, te) = field_at(b, line, *to);
            let copy = fresh(&before[fs..fe]);
            match place % 4 {
                0 => b.splice(ts..te, copy),
                1 => b.splice(te..te, copy),
                2 => b.splice(ts..ts, copy),
                _ => b.splice(te..te, text([",", ":", "|"][from % 3])),
            };
        }
        Fault::Grow { line, field, by } => {
            // the next line that has a number, and the next number in it
            let num = |(fs, fe): (usize, usize)| {
                let old: Vec<u8> = b[fs..fe].iter().map(|c| c.byte()).collect();
                std::str::from_utf8(&old).ok().and_then(|t| t.trim().parse::<i64>().ok())
            };
            let lines = spans(b);
            let found = (0..lines.len()).map(|k| lines[(line + k) % lines.len()]).find_map(|(s, e, _)| {
                let f = fields(b, s, e);
                (0..f.len()).map(|k| f[(field + k) % f.len()]).find_map(|f| num(f).map(|n| (f, n)))
            });
            if let Some(((fs, fe), n)) = found {
                b.splice(fs..fe, text(&(n as i128 + *by as i128).to_string()));
            }
        }
        Fault::Line { line, text: t } => {
            let (s, e) = line_at(b, *line);
            b.splice(s..e, text(t));
        }
        Fault::LineLost { line } => {
            let sp = spans(b);
            let (s, _, e) = sp[line % sp.len()];
            b.drain(s..e);
        }
        Fault::Merge { line } => {
            let sp = spans(b);
            let (_, c, e) = sp[line % sp.len()];
            b.drain(c..e);
        }
        Fault::LineDup { line, to } => {
            let sp = spans(b);
            let (s, _, e) = sp[line % sp.len()];
            let mut src = fresh(&before[s..e]);
            if src.last().map(|c| c.byte()) != Some(b'\n') {
                src.push(C::fresh(b'\n'));
            }
            let t = sp[to % sp.len()].0;
            b.splice(t..t, src);
        }
        Fault::Header { line, how } => {
            let (at, _) = line_at(b, *line);
            let of = |s: usize, e: usize| String::from_utf8_lossy(&b[s..e].iter().map(|c| c.byte()).collect::<Vec<u8>>()).into_owned();
            let header = spans(b).iter().take_while(|x| x.0 <= at).map(|x| of(x.0, x.1)).filter(|l| l.trim().starts_with('[')).last();
            if let Some(h) = header {
                let t = respelled(h.trim(), *how) + "\n";
                b.splice(at..at, text(&t));
            }
        }
    }
    b.len() != before.len() || b.iter().zip(&before).any(|(x, y)| x.byte() != y.byte())
}

/// How the damaged bytes reach the caller as text (files are read as text before they are parsed).
pub fn decode(b: &[u8], latin: bool) -> String {
    if latin {
        match std::str::from_utf8(b) {
            Ok(s) => s.to_string(),
            Err(_) => b.iter().map(|&c| c as char).collect(),
        }
    } else {
        String::from_utf8_lossy(b).into_owned()
    }
}
