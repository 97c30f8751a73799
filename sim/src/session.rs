//! World "session": an editor holds a beatmap in memory, edits it, appends storyboards, saves it to
//! a simulated disk, crashes, restarts and reopens what survived.

use crate::apply;
use crate::disk::{decode, Disk, IoErr};
use crate::gen;
use crate::input::{self, Base, Input};
use crate::model::*;
use crate::observe;
use crate::rng::Rng;
use crate::runner::Ctx;
use osu_file_parser::events::storyboard::cmds::{self, Command, CommandProperties};
use osu_file_parser::events::{Event, EventWithCommands};
use osu_file_parser::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::fmt::Write as _;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Session {
    pub start: Start,
    pub sector: usize,
    pub ops: Vec<Op>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Start {
    /// built in memory
    Built(MMap),
    /// opened from a good file
    File(Input),
    /// opened from a file whose command lines had their indentation changed
    Indented { input: Input, moves: Vec<Indent> },
}

/// A new indentation for one command line.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Indent {
    pub cmd: usize,
    pub to: usize,
    /// on top of what it has
    pub add: bool,
    pub seed: u64,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Rec {
    Event { osb: bool, ev: MEvent },
    Tp(MTp),
    Colour(MColour),
    Ho(MHo),
    Var { name: String, value: String },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Sec {
    General,
    Editor,
    Metadata,
    Difficulty,
    Events,
    TimingPoints,
    Colours,
    HitObjects,
    Osb,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    SetKv { section: String, key: String, val: Option<String> },
    Put { rec: Rec, at: usize, replace: bool },
    Remove { sec: Sec, at: usize },
    /// a whole section removed, or added empty
    Section { sec: Sec, on: bool },
    Push { osb: bool, at: usize, cmd: MCmd, depth: usize },
    PushTwo { osb: bool, at: usize, x: Dec, y: Option<Dec> },
    SetTwo { osb: bool, at: usize, index: usize, x: Dec, y: Option<Dec> },
    PushCol { osb: bool, at: usize, r: u8, g: Option<u8>, b: Option<u8> },
    SetCol { osb: bool, at: usize, index: usize, r: u8, g: Option<u8>, b: Option<u8> },
    Version(u8),
    Append(Input),
    Save { atomic: bool, sync: bool, fault: Option<SaveFault> },
    /// power loss and restart
    Crash { seed: u64 },
    /// the program ends and is started again
    Restart,
    /// the operating system writes its cache back
    Writeback,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum SaveFault {
    NoSpace { at: usize },
    Eio { at: usize },
    /// power loss after this many disk operations of the save
    Crash { step: u32, seed: u64 },
}

const OSU: &str = "map.osu";
const OSB: &str = "map.osb";
const ALL: &[&str] = &["C07", "C08", "C11", "C13"];

struct World {
    disk: Disk,
    lib: OsuFile,
    /// the value in memory
    model: MMap,
    /// content written to the disk and what opening it must give
    maps: BTreeMap<Vec<u8>, MMap>,
    osbs: BTreeMap<Vec<u8>, MOsb>,
    backup: Option<Vec<u8>>,
    /// storyboard file content acknowledged last
    steps: u32,
    /// all saves so far were atomic and synced
    clean: bool,
    acked: Option<(Vec<u8>, Option<Vec<u8>>)>,
    /// contents written after the acknowledged save
    later: Vec<(Vec<u8>, Option<Vec<u8>>)>,
}

enum SaveEnd {
    Acked,
    Unsynced,
    Failed,
    Crashed,
}

struct DiskOut<'a> {
    disk: &'a mut Disk,
    inode: usize,
    written: usize,
    fail: Option<(usize, IoErr)>,
    err: Option<IoErr>,
}

impl std::fmt::Write for DiskOut<'_> {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        let mut b = s.as_bytes();
        let mut bad = None;
        if let Some((at, e)) = self.fail {
            if self.written + b.len() > at {
                b = &b[..at.saturating_sub(self.written)];
                bad = Some(e);
            }
        }
        let _ = self.disk.append(self.inode, b);
        self.written += b.len();
        match bad {
            Some(e) => {
                self.err = Some(e);
                Err(std::fmt::Error)
            }
            None => Ok(()),
        }
    }
}

pub use osusim_glue::as_cmds;

fn events_of(f: &mut OsuFile, osb: bool) -> Option<&mut Events> {
    if osb {
        f.osb.as_mut().and_then(|o| o.events.as_mut())
    } else {
        f.events.as_mut()
    }
}
fn model_events(m: &mut MMap, osb: bool) -> Option<&mut Vec<MEvent>> {
    if osb {
        m.osb.as_mut().and_then(|o| o.events.as_mut())
    } else {
        m.events.as_mut()
    }
}

fn twos<'a>(c: &'a mut [Command], out: &mut Vec<&'a mut cmds::ContinuingFields<Decimal>>) {
    for c in c {
        match &mut c.properties {
            CommandProperties::Move { positions_xy: p, .. } | CommandProperties::VectorScale { scales_xy: p, .. } => out.push(p),
            CommandProperties::Loop { commands, .. } | CommandProperties::Trigger { commands, .. } => twos(commands, out),
            _ => {}
        }
    }
}
fn cols<'a>(c: &'a mut [Command], out: &mut Vec<&'a mut cmds::Colours>) {
    for c in c {
        match &mut c.properties {
            CommandProperties::Colour { colours, .. } => out.push(colours),
            CommandProperties::Loop { commands, .. } | CommandProperties::Trigger { commands, .. } => cols(commands, out),
            _ => {}
        }
    }
}

fn two_at(f: &mut OsuFile, osb: bool, at: usize) -> Option<&mut cmds::ContinuingFields<Decimal>> {
    let mut v = vec![];
    for e in events_of(f, osb)?.0.iter_mut() {
        if let Some(e) = as_cmds(e) {
            twos(e.commands_mut(), &mut v);
        }
    }
    let n = v.len();
    (n > 0).then(|| v.swap_remove(at % n))
}
fn col_at(f: &mut OsuFile, osb: bool, at: usize) -> Option<&mut cmds::Colours> {
    let mut v = vec![];
    for e in events_of(f, osb)?.0.iter_mut() {
        if let Some(e) = as_cmds(e) {
            cols(e.commands_mut(), &mut v);
        }
    }
    let n = v.len();
    (n > 0).then(|| v.swap_remove(at % n))
}

/// Reference semantics of keyframe lists.
fn push_two(first: &Pos, cont: &mut Vec<(Dec, Option<Dec>)>, kf: (Dec, Option<Dec>)) {
    let n = cont.len();
    if n > 0 && cont[n - 1].1.is_none() {
        let before = if n > 1 { cont[n - 2].1.clone() } else { Some(first.1.clone()) };
        cont[n - 1].1 = before;
    }
    cont.push(kf);
}
fn set_two(cont: &mut [(Dec, Option<Dec>)], index: usize, kf: (Dec, Option<Dec>)) -> bool {
    if index >= cont.len() || (index + 1 < cont.len() && kf.1.is_none()) {
        return false;
    }
    cont[index] = kf;
    true
}
type Kc = (u8, Option<u8>, Option<u8>);
fn push_col(first: &(u8, u8, u8), cont: &mut Vec<Kc>, mut kf: Kc) {
    let n = cont.len();
    if n > 0 {
        let (g, b) = if n > 1 { (cont[n - 2].1, cont[n - 2].2) } else { (Some(first.1), Some(first.2)) };
        let l = &mut cont[n - 1];
        l.1 = l.1.or(g);
        l.2 = l.2.or(b);
    }
    if kf.1.is_none() && kf.2.is_some() {
        // a blue component cannot be written without a green one
        kf.1 = if n > 0 { cont[n - 1].1 } else { Some(first.1) };
    }
    cont.push(kf);
}
fn set_col(cont: &mut [Kc], index: usize, kf: Kc) -> bool {
    if index >= cont.len() || (index + 1 < cont.len() && (kf.1.is_none() || kf.2.is_none())) || (kf.1.is_none() && kf.2.is_some()) {
        return false;
    }
    cont[index] = kf;
    true
}

fn trees(m: &MMap) -> Vec<Vec<MCmd>> {
    let mut v = vec![];
    for e in m.events.iter().flatten().chain(m.osb.iter().flat_map(|o| o.events.iter().flatten())) {
        if let Some(c) = e.cmds() {
            v.push(c.clone());
        }
    }
    v
}
fn trees_mut(m: &mut MMap) -> Vec<&mut Vec<MCmd>> {
    let evs = m.events.iter_mut().flatten();
    evs.chain(m.osb.iter_mut().flat_map(|o| o.events.iter_mut().flatten())).filter_map(|e| e.cmds_mut()).collect()
}
/// The commands of a tree in the order of their lines, each with its depth.
fn flat(c: &[MCmd], depth: usize, out: &mut Vec<(MCmd, usize)>) {
    for c in c {
        let mut one = c.clone();
        if let Some(s) = one.sub_mut() {
            s.clear();
        }
        out.push((one, depth));
        if let Some(s) = c.sub() {
            flat(s, depth + 1, out);
        }
    }
}

/// A file whose command lines moved to other depths: each lands where it now says, or the file is
/// rejected.
fn indented(cx: &mut Ctx, input: &Input, moves: &[Indent]) -> Option<OsuFile> {
    const P: &[&str] = &["C11"];
    let mut doc = input.doc();
    let mut want = match &input.base {
        Base::Map(m) => {
            let mut m = m.stored(m.version);
            m.osb = None;
            m
        }
        Base::Osb(o) => MMap { version: 14, osb: Some(o.clone()), ..Default::default() },
        _ => return None,
    };
    let lines: Vec<usize> = (0..doc.lines.len()).filter(|&i| doc.lines[i].kind == LineKind::Cmd).collect();
    let mut all = vec![];
    for t in trees_mut(&mut want) {
        let mut f = vec![];
        flat(t, 1, &mut f);
        all.push(f);
    }
    if lines.is_empty() || all.iter().map(|f| f.len()).sum::<usize>() != lines.len() {
        return None;
    }
    for m in moves {
        let k = m.cmd % lines.len();
        let c = all.iter_mut().flatten().nth(k).unwrap();
        let to = if m.add { c.1 + m.to } else { m.to.max(1) };
        c.1 = to;
        let l = &mut doc.lines[lines[k]].text;
        let mut r = Rng::new(m.seed);
        let one = *r.pick(&[" ", "_", ""]);
        let ind: String = (0..to).map(|_| if one.is_empty() { *r.pick(&[" ", "_"]) } else { one }).collect();
        *l = format!("{ind}{}", l.trim_start_matches([' ', '_']));
        cx.fault("indentation changed");
    }
    let mut fits = true;
    for (t, f) in trees_mut(&mut want).into_iter().zip(&all) {
        t.clear();
        for (c, d) in f {
            fits &= push_cmd(t, c.clone(), *d);
        }
    }
    let text = doc.text();
    let osb = input.is_osb();
    let r = cx.call(P, "opening an indented storyboard", || {
        if osb {
            let mut f = OsuFile::new(14);
            f.append_osb(&text).map(|_| f).map_err(|e| (e.line_index(), e.to_string()))
        } else {
            text.parse::<OsuFile>().map_err(|e| (e.line_index(), e.to_string()))
        }
    })?;
    match r {
        Ok(f) => {
            cx.note("indented file opened");
            if !fits {
                cx.viol(P, "misfit accepted", format!("a command line with an indentation that fits nowhere was accepted: {moves:?}"));
                return None;
            }
            let mut got = observe::map(&f);
            if !osb {
                got.osb = None;
            }
            want.canon();
            got.canon();
            if trees(&got) != trees(&want) {
                cx.viol(P, "opened elsewhere", observe::diff(&want, &got));
            }
            Some(f)
        }
        Err((line, e)) => {
            cx.note("indented file rejected");
            if fits {
                cx.viol(P, "fitting command refused", format!("line {line}: {e}, after {moves:?}"));
            }
            None
        }
    }
}

fn keyframes(c: &[MCmd], out: &mut Vec<String>) {
    for c in c {
        match &c.kind {
            MCmdKind::Two { op, first, cont, .. } => out.push(format!("{op} {first:?} {cont:?}")),
            MCmdKind::Col { first, cont, .. } => out.push(format!("C {first:?} {cont:?}")),
            MCmdKind::Loop { cmds, .. } | MCmdKind::Trig { cmds, .. } => keyframes(cmds, out),
            _ => {}
        }
    }
}
fn all_keyframes(m: &MMap) -> Vec<String> {
    let mut v = vec![];
    for t in trees(m) {
        keyframes(&t, &mut v);
    }
    v
}

impl World {
    fn look(&mut self) {
        self.model = observe::raw(&self.lib);
    }

    /// One disk operation of a save; true if the power goes now.
    fn step(&mut self, crash: &Option<(u32, u64)>) -> bool {
        self.steps += 1;
        match crash {
            Some((s, _)) => self.steps == *s + 1,
            None => false,
        }
    }

    fn save(&mut self, cx: &mut Ctx, atomic: bool, sync: bool, fault: &Option<SaveFault>) -> SaveEnd {
        let v = self.lib.version;
        let mut want = self.model.stored(v);
        let want_osb = want.osb.take();
        // the storyboard's text is needed first: it may not exist
        let lib = &self.lib;
        let Some(osb_text) = cx.call(ALL, "printing the storyboard", || lib.osb_to_string()) else { return SaveEnd::Failed };
        if want_osb.is_some() && osb_text.is_none() {
            cx.viol(&["C07"], "storyboard not saved", format!("the beatmap (version {v}) has a storyboard but it prints to nothing"));
        }
        let Some(text) = cx.call(ALL, "printing the beatmap", || lib.to_string()) else { return SaveEnd::Failed };
        let crash = match fault {
            Some(SaveFault::Crash { step, seed }) => Some((*step, *seed)),
            _ => None,
        };
        self.steps = 0;
        self.maps.insert(text.clone().into_bytes(), want);
        if let (Some(t), Some(w)) = (&osb_text, want_osb.clone()) {
            self.osbs.insert(t.clone().into_bytes(), w);
        }
        if !(atomic && sync) {
            self.clean = false;
        }
        self.later.push((text.clone().into_bytes(), osb_text.clone().map(|t| t.into_bytes())));
        for part in [OSB, OSU] {
            let fail = match fault {
                Some(SaveFault::NoSpace { at }) if part == OSU => Some((*at % (text.len() + 1), IoErr::NoSpace)),
                Some(SaveFault::Eio { at }) if part == OSU => Some((*at % (text.len() + 1), IoErr::Eio)),
                _ => None,
            };
            if part == OSB && osb_text.is_none() {
                self.disk.remove(OSB);
                if self.step(&crash) {
                    return self.power_cut(cx, &crash);
                }
                continue;
            }
            let tmp = format!("{part}.tmp");
            let name = if atomic { tmp.as_str() } else { part };
            let inode = if atomic { self.disk.create(name) } else { self.disk.truncate(name) };
            if self.step(&crash) {
                return self.power_cut(cx, &crash);
            }
            let mut out = DiskOut { disk: &mut self.disk, inode, written: 0, fail, err: None };
            let lib = &self.lib;
            let r = match part {
                OSU => cx.call(ALL, "printing the beatmap to disk", || write!(out, "{lib}")),
                _ => Some(out.write_str(osb_text.as_deref().unwrap_or(""))),
            };
            let failed = out.err;
            if let Some(e) = failed {
                cx.fault(if e == IoErr::NoSpace { "disk full during save" } else { "I/O error during save" });
            }
            if r != Some(Ok(())) || failed.is_some() {
                if atomic {
                    self.disk.remove(&tmp);
                }
                return SaveEnd::Failed;
            }
            if self.step(&crash) {
                return self.power_cut(cx, &crash);
            }
            if sync {
                self.disk.sync(inode);
                if self.step(&crash) {
                    return self.power_cut(cx, &crash);
                }
            }
            if atomic {
                self.disk.rename(&tmp, part);
                if self.step(&crash) {
                    return self.power_cut(cx, &crash);
                }
            }
        }
        if sync {
            self.disk.sync_dir();
            self.acked = self.later.pop();
            self.later.clear();
            self.backup = Some(text.into_bytes());
            if self.step(&crash) {
                return self.power_cut(cx, &crash);
            }
            SaveEnd::Acked
        } else {
            SaveEnd::Unsynced
        }
    }

    fn power_cut(&mut self, cx: &mut Ctx, crash: &Option<(u32, u64)>) -> SaveEnd {
        cx.fault("power loss during save");
        let mut r = Rng::new(crash.unwrap().1);
        self.disk.crash(&mut r);
        SaveEnd::Crashed
    }

    /// Start the program again and open what the disk holds.
    fn reopen(&mut self, cx: &mut Ctx) {
        self.disk.remove("map.osu.tmp");
        self.disk.remove("map.osb.tmp");
        let Some(bytes) = self.disk.read(OSU) else {
            if self.clean && self.acked.is_some() {
                cx.viol(&["harness"], "harness", "an acknowledged file is gone");
            }
            cx.note("nothing durable yet");
            self.lib = OsuFile::new(self.lib.version);
            self.look();
            return;
        };
        let osb_bytes = self.disk.read(OSB);
        if self.clean {
            if let Some((a, ab)) = &self.acked {
                let ok = (&bytes == a || self.later.iter().any(|l| l.0 == bytes))
                    && (&osb_bytes == ab || self.later.iter().any(|l| l.1 == osb_bytes));
                if !ok {
                    cx.viol(&["harness"], "harness", "the disk lost an acknowledged save");
                }
            }
        }
        let known = self.maps.get(&bytes).cloned();
        let text = decode(&bytes, false);
        let props: &[&str] = if known.is_some() { ALL } else { &["C01"] };
        let Some(r) = cx.call(props, "reopening the beatmap", || text.parse::<OsuFile>()) else {
            self.lib = OsuFile::new(14);
            self.look();
            return;
        };
        let mut lib = match r {
            Ok(l) => l,
            Err(e) => {
                if known.is_some() {
                    cx.viol(ALL, "saved file rejected", format!("reopening a saved file (version {:?}) fails: {e}; text: {text:?}", self.lib.version));
                    self.lib = OsuFile::new(14);
                    self.look();
                    return;
                }
                cx.note("torn file rejected");
                // back to the last acknowledged content
                let Some(b) = self.backup.clone() else {
                    self.lib = OsuFile::new(14);
                    self.look();
                    return;
                };
                let i = self.disk.create(OSU);
                let _ = self.disk.append(i, &b);
                self.disk.sync(i);
                self.disk.sync_dir();
                return self.reopen(cx);
            }
        };
        let mut known_osb = true;
        let mut want_osb = None;
        if let Some(b) = &osb_bytes {
            let t = decode(b, false);
            want_osb = self.osbs.get(b).cloned();
            known_osb = want_osb.is_some();
            let props: &[&str] = if known_osb { ALL } else { &["C01"] };
            match cx.call(props, "reopening the storyboard", || lib.append_osb(&t)) {
                None => {
                    self.lib = OsuFile::new(14);
                    self.look();
                    return;
                }
                Some(Err(e)) if known_osb => {
                    cx.viol(ALL, "saved storyboard rejected", format!("reopening a saved storyboard fails: {e}; text: {t:?}"));
                }
                _ => {}
            }
        }
        if known.is_none() || !known_osb {
            cx.note("torn file opened");
        }
        let got = observe::map(&lib);
        if let Some(mut want) = known {
            let mut got = got.clone();
            if known_osb {
                want.osb = if want.version >= 14 { want_osb } else { None };
                want.canon();
            } else {
                got.osb = None;
            }
            cx.note("reopened and compared");
            if got != want {
                let mut props = vec!["C07", "C08"];
                if trees(&got) != trees(&want) {
                    props.push("C11");
                }
                if all_keyframes(&got) != all_keyframes(&want) {
                    props.push("C13");
                }
                cx.viol(&props, "reopened differently", format!("{}; text: {text:?}{}", observe::diff(&want, &got),
                    osb_bytes.as_ref().map(|b| format!(" storyboard: {:?}", decode(b, false))).unwrap_or_default()));
            }
            // an unedited file saves to the same bytes
            let again = cx.call(ALL, "printing the reopened beatmap", || lib.to_string());
            if let Some(a) = again {
                if a.as_bytes() != &bytes[..] {
                    cx.viol(&["C08"], "resave differs", format!("reopened and saved again:\n{text:?}\nbecame\n{a:?}"));
                }
            }
            if known_osb && lib.version >= 14 {
                let again = cx.call(ALL, "printing the reopened storyboard", || lib.osb_to_string()).flatten();
                let b = osb_bytes.map(|b| decode(&b, false));
                if again != b && lib.osb.is_some() {
                    cx.viol(&["C08"], "resave differs", format!("storyboard reopened and saved again:\n{b:?}\nbecame\n{again:?}"));
                }
            }
        }
        self.lib = lib;
        self.look();
    }

    fn append(&mut self, cx: &mut Ctx, input: &Input) {
        const P: &[&str] = &["C04"];
        let text = input.text(Some(cx));
        let before = self.lib.clone();
        let lib = &mut self.lib;
        let Some(r) = cx.call(P, "appending a storyboard", || lib.append_osb(&text)) else { return };
        let mut fresh = OsuFile::new(before.version);
        let Some(rf) = cx.call(P, "appending a storyboard", || fresh.append_osb(&text)) else { return };
        match &r {
            Err(e) => {
                cx.note("append rejected");
                if self.lib != before || format!("{:?}", self.lib) != format!("{before:?}") {
                    let d = observe::diff(&observe::raw(&before), &observe::raw(&self.lib));
                    cx.viol(P, "failed append changed the beatmap", format!("the append failed ({e}) and the beatmap changed: {d}"));
                }
                if matches!(input.base, Base::Osb(_)) && input.faults.is_empty() {
                    cx.viol(P, "undamaged storyboard refused", e.to_string());
                }
                if rf.is_ok() {
                    cx.viol(P, "append depends on the beatmap", format!("rejected with {e}, but accepted by an empty beatmap"));
                }
            }
            Ok(()) => {
                cx.note("append accepted");
                let mut rest = self.lib.clone();
                rest.osb = before.osb.clone();
                if rest != before || format!("{rest:?}") != format!("{before:?}") {
                    let d = observe::diff(&observe::raw(&before), &observe::raw(&rest));
                    cx.viol(P, "append changed more than the storyboard", d);
                }
                if self.lib.version < 14 && self.lib.osb.is_some() {
                    cx.viol(P, "storyboard in a version without storyboards", format!("version {}", self.lib.version));
                }
                if rf.is_err() || fresh.osb != self.lib.osb {
                    let mut a = observe::raw(&fresh);
                    let b = observe::raw(&self.lib);
                    a = MMap { osb: a.osb, ..b.clone() };
                    cx.viol(P, "storyboard not replaced as a whole", format!("appended to an empty beatmap the same file gives something else: {}", observe::diff(&a, &b)));
                }
                // a carriage return kept from a mangled line ending is read as part of the line ending once
                // it is saved; such a value cannot be stored, so a session does not carry on with it
                if text.replace("\r\n", "\n").contains('\r') {
                    cx.note("append with a lone carriage return undone");
                    self.lib = before;
                    return;
                }
                if let (Base::Osb(o), true, true) = (&input.base, input.faults.is_empty(), self.lib.version >= 14) {
                    let mut want = MMap { osb: Some(o.clone()), ..Default::default() };
                    want.canon();
                    let mut got = MMap { osb: self.lib.osb.as_ref().map(observe::osb), ..Default::default() };
                    got.canon();
                    if want != got {
                        cx.viol(P, "storyboard incomplete", observe::diff(&want, &got));
                    }
                }
            }
        }
        self.look();
    }

    fn push(&mut self, cx: &mut Ctx, osb: bool, at: usize, c: &MCmd, depth: usize) {
        const P: &[&str] = &["C11"];
        let Some(evs) = events_of(&mut self.lib, osb) else { return };
        let idx: Vec<usize> = (0..evs.0.len()).filter(|&i| as_cmds(&mut evs.0[i]).is_some()).collect();
        if idx.is_empty() {
            return;
        }
        let i = idx[at % idx.len()];
        let before = evs.0[i].clone();
        let all_before = evs.clone();
        let libcmd = apply::cmd(c);
        let seen = observe::cmd(&libcmd);
        let target = as_cmds(&mut evs.0[i]).unwrap();
        let Some(r) = cx.call(P, "adding a command", || target.try_push_cmd(libcmd, depth)) else { return };
        let mut want = observe::event(&before);
        let fits = push_cmd(want.cmds_mut().unwrap(), seen.clone(), depth);
        cx.note(if fits { "command added" } else { "command refused" });
        let after = &evs.0[i];
        let got = observe::event(after);
        match (&r, fits) {
            (Ok(()), false) => cx.viol(P, "misfit accepted", format!("depth {depth} does not fit {:?}", observe::event(&before).cmds())),
            (Err(e), true) => cx.viol(P, "fitting command refused", format!("depth {depth} fits {:?} but: {e}", observe::event(&before).cmds())),
            (Err(_), false) => {
                cx.rep.nontrivial = true;
                if *after != before || format!("{after:?}") != format!("{before:?}") {
                    cx.viol(P, "refused command left a trace", format!("depth {depth}: {:?} became {:?}", observe::event(&before), got));
                }
            }
            (Ok(()), true) => {
                if got != want {
                    cx.viol(P, "command landed elsewhere", format!("depth {depth}, command {seen:?}: expected {:?}, got {:?}", want.cmds(), got.cmds()));
                }
            }
        }
        for (k, (a, b)) in all_before.0.iter().zip(&evs.0).enumerate() {
            if k != i && a != b {
                cx.viol(P, "another object changed", format!("object {k} while adding to {i}"));
            }
        }
        self.look();
    }

    fn keyframes(&mut self, cx: &mut Ctx, op: &Op) {
        const P: &[&str] = &["C13"];
        cx.rep.nontrivial = true;
        match op {
            Op::PushTwo { osb, at, x, y } | Op::SetTwo { osb, at, x, y, .. } => {
                let Some(t) = two_at(&mut self.lib, *osb, *at) else { return };
                let (first, old) = observe::two(t);
                let kf = (apply::dec(x), y.as_ref().map(apply::dec));
                let mkf = (observe::dec(&kf.0), kf.1.as_ref().map(observe::dec));
                let mut want = old.clone();
                let (fits, r) = match op {
                    Op::SetTwo { index, .. } => {
                        let index = if want.is_empty() { *index } else { *index % (want.len() + 2) };
                        let before = t.clone();
                        let f = set_two(&mut want, index, mkf);
                        let Some(r) = cx.call(P, "replacing a keyframe", || t.set_continuing_fields(index, kf)) else { return };
                        if r.is_err() && *t != before {
                            cx.viol(P, "refused keyframe left a trace", format!("{before:?} became {t:?}"));
                        }
                        (f, r.map_err(|e| e.to_string()))
                    }
                    _ => {
                        push_two(&first, &mut want, mkf);
                        let Some(()) = cx.call(P, "adding a keyframe", || t.push_continuing_fields(kf)) else { return };
                        (true, Ok(()))
                    }
                };
                cx.note(if fits { "keyframe accepted" } else { "keyframe refused" });
                if r.is_ok() != fits {
                    cx.viol(P, "keyframe wrongly accepted or refused", format!("{op:?} on {first:?} {old:?}: {r:?}"));
                }
                // the same list handed over as a whole
                let mut raw = t.continuing_fields().to_vec();
                let kf = (apply::dec(x), y.as_ref().map(apply::dec));
                match op {
                    Op::SetTwo { index, .. } if !raw.is_empty() => {
                        let k = *index % raw.len();
                        raw[k] = kf;
                    }
                    _ => raw.push(kf),
                }
                let whole = raw.iter().rev().skip(1).all(|k| k.1.is_some());
                let Some(made) = cx.call(P, "making a keyframe list", || cmds::ContinuingFields::new(t.start_values().clone(), raw.clone())) else { return };
                if made.is_ok() != whole || made.as_ref().is_ok_and(|m| m.continuing_fields() != raw || m.start_values() != t.start_values()) {
                    cx.viol(P, "keyframe list made wrongly", format!("{raw:?} gave {made:?}"));
                }
                let mut moved = t.clone();
                let start = (apply::dec(x), apply::dec(x));
                *moved.start_values_mut() = start.clone();
                if *moved.start_values() != start || moved.continuing_fields() != t.continuing_fields() {
                    cx.viol(P, "start of the keyframes", format!("{t:?} with the start {start:?} became {moved:?}"));
                }
                let got = observe::two(t);
                if r.is_ok() && fits && (got.1 != want || got.0 != first) {
                    cx.viol(P, "keyframes differ", format!("{op:?} on {first:?} {old:?}: expected {want:?}, got {:?} {:?}", got.0, got.1));
                }
                if got.1.iter().rev().skip(1).any(|k| k.1.is_none()) {
                    cx.viol(P, "incomplete keyframe inside the list", format!("{op:?} on {old:?}: {:?}", got.1));
                }
            }
            Op::PushCol { osb, at, r, g, b } | Op::SetCol { osb, at, r, g, b, .. } => {
                let Some(t) = col_at(&mut self.lib, *osb, *at) else { return };
                let first = *t.start_rgb();
                let old = t.continuing_fields().to_vec();
                let mut want = old.clone();
                let kf = (*r, *g, *b);
                let (fits, done) = match op {
                    Op::SetCol { index, .. } => {
                        let index = if want.is_empty() { *index } else { *index % (want.len() + 2) };
                        let before = t.clone();
                        let f = set_col(&mut want, index, kf);
                        let Some(r) = cx.call(P, "replacing a colour keyframe", || t.set_continuing_rgbs(index, kf)) else { return };
                        if r.is_err() && *t != before {
                            cx.viol(P, "refused keyframe left a trace", format!("{before:?} became {t:?}"));
                        }
                        (f, r.map_err(|e| e.to_string()))
                    }
                    _ => {
                        push_col(&first, &mut want, kf);
                        let Some(()) = cx.call(P, "adding a colour keyframe", || t.push_continuing_rgbs(kf)) else { return };
                        (true, Ok(()))
                    }
                };
                cx.note(if fits { "keyframe accepted" } else { "keyframe refused" });
                if done.is_ok() != fits {
                    cx.viol(P, "keyframe wrongly accepted or refused", format!("{op:?} on {first:?} {old:?}: {done:?}"));
                }
                let mut raw = t.continuing_fields().to_vec();
                match op {
                    Op::SetCol { index, .. } if !raw.is_empty() => {
                        let k = *index % raw.len();
                        raw[k] = kf;
                    }
                    _ => raw.push(kf),
                }
                let n = raw.len();
                let whole = raw.iter().enumerate().all(|(i, k)| k.1.is_some() && (k.2.is_some() || i + 1 == n) || i + 1 == n && k.2.is_none());
                let Some(made) = cx.call(P, "making a colour keyframe list", || cmds::Colours::new(first, raw.clone())) else { return };
                if made.is_ok() != whole || made.as_ref().is_ok_and(|m| m.continuing_fields() != raw || *m.start_rgb() != first) {
                    cx.viol(P, "keyframe list made wrongly", format!("{raw:?} gave {made:?}"));
                }
                let mut moved = t.clone();
                *moved.start_rgb_mut() = (first.2, *r, first.0);
                if *moved.start_rgb() != (first.2, *r, first.0) || moved.start != (first.2, *r, first.0) || moved.continuing_fields() != t.continuing_fields() {
                    cx.viol(P, "start of the keyframes", format!("{t:?} became {moved:?}"));
                }
                let got = t.continuing_fields().to_vec();
                if done.is_ok() && fits && (got != want || *t.start_rgb() != first) {
                    cx.viol(P, "keyframes differ", format!("{op:?} on {first:?} {old:?}: expected {want:?}, got {got:?}"));
                }
                let n = got.len();
                if got.iter().enumerate().any(|(i, k)| (i + 1 < n && (k.1.is_none() || k.2.is_none())) || (k.1.is_none() && k.2.is_some())) {
                    cx.viol(P, "incomplete keyframe inside the list", format!("{op:?} on {old:?}: {got:?}"));
                }
            }
            _ => {}
        }
        self.look();
    }

    fn edit(&mut self, op: &Op) {
        fn put<T>(v: &mut Vec<T>, at: usize, replace: bool, x: T) {
            if replace && !v.is_empty() {
                let i = at % v.len();
                v[i] = x;
            } else {
                let i = at % (v.len() + 1);
                v.insert(i, x);
            }
        }
        fn del<T>(v: &mut Vec<T>, at: usize) {
            if !v.is_empty() {
                let i = at % v.len();
                v.remove(i);
            }
        }
        let f = &mut self.lib;
        match op {
            Op::SetKv { section, key, val } => apply::set_kv(f, section, key, val.as_deref()),
            Op::Put { rec, at, replace } => match rec {
                Rec::Event { osb, ev } => {
                    let e = apply::event(ev);
                    let evs = if *osb {
                        f.osb
                            .get_or_insert_with(|| Osb { variables: None, events: None })
                            .events
                            .get_or_insert_with(|| Events(vec![]))
                    } else {
                        f.events.get_or_insert_with(|| Events(vec![]))
                    };
                    put(&mut evs.0, *at, *replace, e);
                }
                Rec::Tp(t) => put(&mut f.timing_points.get_or_insert_with(|| TimingPoints(vec![])).0, *at, *replace, apply::timing(t)),
                Rec::Colour(c) => put(&mut f.colours.get_or_insert_with(|| Colours(vec![])).0, *at, *replace, apply::colour(c)),
                Rec::Ho(h) => put(&mut f.hitobjects.get_or_insert_with(|| HitObjects(vec![])).0, *at, *replace, apply::hitobject(h)),
                Rec::Var { name, value } => {
                    let o = f.osb.get_or_insert_with(|| Osb { variables: None, events: None });
                    let v = o.variables.get_or_insert_with(Vec::new);
                    v.retain(|x| x.name != *name);
                    put(v, *at, *replace, osu_file_parser::osb::Variable { name: name.clone(), value: value.clone() });
                }
            },
            Op::Remove { sec, at } => match sec {
                Sec::Events => {
                    if let Some(e) = &mut f.events {
                        del(&mut e.0, *at)
                    }
                }
                Sec::Osb => {
                    if let Some(e) = f.osb.as_mut().and_then(|o| o.events.as_mut()) {
                        del(&mut e.0, *at)
                    }
                }
                Sec::TimingPoints => {
                    if let Some(e) = &mut f.timing_points {
                        del(&mut e.0, *at)
                    }
                }
                Sec::Colours => {
                    if let Some(e) = &mut f.colours {
                        del(&mut e.0, *at)
                    }
                }
                Sec::HitObjects => {
                    if let Some(e) = &mut f.hitobjects {
                        del(&mut e.0, *at)
                    }
                }
                _ => {}
            },
            Op::Section { sec, on } => {
                let on = *on;
                match sec {
                    Sec::General => f.general = on.then(General::new),
                    Sec::Editor => f.editor = on.then(Editor::new),
                    Sec::Metadata => f.metadata = on.then(Metadata::new),
                    Sec::Difficulty => f.difficulty = on.then(Difficulty::new),
                    Sec::Events => f.events = on.then(|| Events(vec![])),
                    Sec::TimingPoints => f.timing_points = on.then(|| TimingPoints(vec![])),
                    Sec::Colours => f.colours = on.then(|| Colours(vec![])),
                    Sec::HitObjects => f.hitobjects = on.then(|| HitObjects(vec![])),
                    Sec::Osb => f.osb = on.then(|| Osb { variables: None, events: None }),
                }
            }
            _ => {}
        }
        self.look();
    }
}

pub fn exec(cx: &mut Ctx, s: &Session) {
    let lib = match &s.start {
        Start::Built(m) => apply::map(m),
        Start::Indented { input, moves } => match indented(cx, input, moves) {
            Some(f) => f,
            None => return,
        },
        Start::File(i) => {
            let text = i.text(None);
            if i.is_osb() {
                let mut f = OsuFile::new(14);
                let _ = cx.call(&["C01"], "opening the first storyboard", || f.append_osb(&text).is_ok());
                f
            } else {
                match cx.call(&["C01"], "opening the first file", || text.parse::<OsuFile>()) {
                    Some(Ok(f)) => f,
                    _ => {
                        cx.note("first file rejected");
                        OsuFile::new(14)
                    }
                }
            }
        }
    };
    if let Start::File(Input { base: Base::Map(m), faults, .. }) = &s.start {
        // written by another program: commands land where their indentation says
        if faults.is_empty() {
            let mut want = m.stored(m.version);
            let mut got = observe::map(&lib);
            for m in [&mut want, &mut got] {
                m.osb = None;
                m.canon();
            }
            if trees(&got) != trees(&want) {
                cx.viol(&["C11"], "opened elsewhere", observe::diff(&want, &got));
            }
            if all_keyframes(&got) != all_keyframes(&want) {
                cx.viol(&["C13"], "keyframes opened differently", observe::diff(&want, &got));
            }
        }
    }
    let model = observe::raw(&lib);
    let mut w = World {
        disk: Disk::new(s.sector),
        lib,
        model,
        maps: BTreeMap::new(),
        osbs: BTreeMap::new(),
        backup: None,
        steps: 0,
        clean: true,
        acked: None,
        later: vec![],
    };
    for op in &s.ops {
        match op {
            Op::Version(v) => {
                w.lib.version = *v;
                w.look();
                cx.note("version changed");
            }
            Op::Append(i) => w.append(cx, i),
            Op::Push { osb, at, cmd, depth } => w.push(cx, *osb, *at, cmd, *depth),
            Op::PushTwo { .. } | Op::SetTwo { .. } | Op::PushCol { .. } | Op::SetCol { .. } => w.keyframes(cx, op),
            Op::Save { atomic, sync, fault } => match w.save(cx, *atomic, *sync, fault) {
                SaveEnd::Acked => cx.note("save acknowledged"),
                SaveEnd::Unsynced => cx.note("save without sync"),
                SaveEnd::Failed => cx.note("save failed"),
                SaveEnd::Crashed => w.reopen(cx),
            },
            Op::Crash { seed } => {
                cx.fault("power loss and restart");
                let mut r = Rng::new(*seed);
                w.disk.crash(&mut r);
                w.reopen(cx);
            }
            Op::Restart => {
                cx.note("restart");
                cx.rep.nontrivial = true;
                w.reopen(cx);
            }
            Op::Writeback => {
                for n in [OSU, OSB] {
                    if let Some(i) = w.disk.inode(n) {
                        w.disk.sync(i);
                    }
                }
            }
            _ => w.edit(op),
        }
        if cx.rep.viols.len() > 2 {
            break;
        }
    }
    cx.rep.sim_ns += w.disk.ns;
    // leaving the session must not crash either
    cx.call(&["C01"], "dropping the beatmap", move || drop(w));
}

// ------------------------------------------------------------------------------------------------

fn kv_edit(r: &mut Rng) -> Op {
    let section = *r.pick(&["General", "Editor", "Metadata", "Difficulty"]);
    let key = r.pick(kv_table(section)).0;
    let val = if r.chance(1, 8) { None } else { Some(gen::kv_value(r, key)) };
    Op::SetKv { section: section.into(), key: key.into(), val }
}

fn sec(r: &mut Rng) -> Sec {
    match r.below(9) {
        0 => Sec::General,
        1 => Sec::Editor,
        2 => Sec::Metadata,
        3 => Sec::Difficulty,
        4 => Sec::Events,
        5 => Sec::TimingPoints,
        6 => Sec::Colours,
        7 => Sec::HitObjects,
        _ => Sec::Osb,
    }
}

fn at(r: &mut Rng) -> usize {
    r.below(1000)
}

fn edit(r: &mut Rng, v: u8) -> Op {
    let a = at(r);
    let replace = r.chance(1, 2);
    match r.below(20) {
        0..=4 => kv_edit(r),
        5..=7 => {
            let osb = r.chance(1, 3);
            Op::Put { rec: Rec::Event { osb, ev: gen::event(r, v, true) }, at: a, replace }
        }
        8..=10 => Op::Put { rec: Rec::Tp(gen::tp(r)), at: a, replace },
        11 => Op::Put { rec: Rec::Colour(gen::colour(r)), at: a, replace },
        12..=14 => Op::Put { rec: Rec::Ho(gen::ho(r)), at: a, replace },
        15 => {
            let o = gen::osb(r, gen::Size { events: 0, rows: 0, full: false });
            match o.variables.and_then(|v| v.into_iter().next()) {
                Some((name, value)) => Op::Put { rec: Rec::Var { name, value }, at: a, replace },
                None => kv_edit(r),
            }
        }
        16 => Op::Remove { sec: sec(r), at: a },
        17 => Op::Section { sec: sec(r), on: r.chance(2, 3) },
        18 => Op::Push { osb: r.chance(1, 3), at: a, cmd: gen::cmd(r, 2), depth: r.below(4) },
        _ => keyframe(r),
    }
}

fn keyframe(r: &mut Rng) -> Op {
    let osb = r.chance(1, 3);
    let a = at(r);
    let index = if r.chance(1, 6) { *r.pick(&[usize::MAX, 1000, 7]) } else { r.below(6) };
    match r.below(4) {
        0 => Op::PushTwo { osb, at: a, x: gen::dec(r), y: if r.chance(1, 2) { None } else { Some(gen::dec(r)) } },
        1 => Op::SetTwo { osb, at: a, index, x: gen::dec(r), y: if r.chance(1, 2) { None } else { Some(gen::dec(r)) } },
        k => {
            let g = if r.chance(1, 3) { None } else { Some(r.below(256) as u8) };
            let b = if r.chance(1, 2) { None } else { Some(r.below(256) as u8) };
            let red = r.below(256) as u8;
            if k == 2 {
                Op::PushCol { osb, at: a, r: red, g, b }
            } else {
                Op::SetCol { osb, at: a, index, r: red, g, b }
            }
        }
    }
}

fn save(r: &mut Rng) -> Op {
    let fault = match r.below(10) {
        0 => Some(SaveFault::NoSpace { at: r.below(10_000) }),
        1 => Some(SaveFault::Eio { at: r.below(10_000) }),
        2 => Some(SaveFault::Crash { step: r.below(10) as u32, seed: r.next() % 100_000 }),
        _ => None,
    };
    Op::Save { atomic: r.chance(4, 5), sync: r.chance(4, 5), fault }
}

fn good_save(r: &mut Rng) -> Op {
    Op::Save { atomic: true, sync: r.chance(9, 10), fault: None }
}

fn crash(r: &mut Rng) -> Op {
    if r.chance(1, 2) {
        Op::Crash { seed: r.next() % 100_000 }
    } else {
        Op::Restart
    }
}

fn append(r: &mut Rng) -> Op {
    let mut i = if r.chance(1, 3) {
        input::good(r, Some(true), 20)
    } else if r.chance(1, 8) {
        Input { base: Base::Lines { osb: true, lines: vec![] }, layout: Layout::default(), faults: vec![], latin: false }
    } else {
        input::damaged(r, Some(true), 20, 3)
    };
    if let (Base::Osb(_), true) = (&i.base, r.chance(1, 4)) {
        // damage near the end: everything before it has been read by then
        let n = i.good().lines().count();
        i.faults.push(crate::disk::Fault::Line { line: n.saturating_sub(1 + r.below(2)), text: gen::line(r) });
    }
    Op::Append(i)
}

fn start(r: &mut Rng) -> Start {
    if r.chance(1, 2) {
        let v = gen::version(r);
        let z = gen::small(r);
        let mut m = gen::map(r, v, z);
        if r.chance(1, 2) {
            let z = gen::small(r);
            m.osb = Some(gen::osb(r, z));
        }
        Start::Built(m)
    } else {
        Start::File(input::good(r, None, 20))
    }
}

/// The same events in a file in which command lines changed their indentation.
fn indent_start(r: &mut Rng, s: Start) -> Start {
    let Start::Built(mut m) = s else { return s };
    let base = match m.osb.take() {
        Some(o) if r.chance(1, 2) => Base::Osb(o),
        _ => Base::Map(m),
    };
    let input = Input { base, layout: gen::layout(r), faults: vec![], latin: false };
    let n = r.below(4);
    let moves = (0..n)
        .map(|_| {
            let to = match r.below(8) {
                0 => *r.pick(&[255, 256, 257, 512, 65_536]),
                1 => 0,
                _ => 1 + r.below(5),
            };
            Indent { cmd: r.below(40), to, add: to > 200 || r.chance(1, 3), seed: r.next() % 1000 }
        })
        .collect();
    Start::Indented { input, moves }
}

fn events_start(r: &mut Rng, v: u8) -> Start {
    let n = 1 + r.below(5);
    let mut ev = gen::events(r, v, n, true);
    // something commands can be added to
    while !ev.iter().any(|e| e.cmds().is_some()) {
        ev.push(gen::event(r, v, true));
    }
    let osb = if r.chance(1, 2) {
        let n = 1 + r.below(4);
        let mut o = gen::osb(r, gen::Size { events: 2, rows: 0, full: false });
        o.events = Some(gen::events(r, 14, n, true));
        Some(o)
    } else {
        None
    };
    Start::Built(MMap { version: v, events: Some(ev), osb, ..Default::default() })
}

/// The same beatmap, but written to a file by another program and opened.
fn maybe_file(r: &mut Rng, s: Start) -> Start {
    match s {
        Start::Built(mut m) if r.chance(1, 2) => {
            m.osb = None;
            Start::File(Input { base: Base::Map(m), layout: gen::layout(r), faults: vec![], latin: false })
        }
        s => s,
    }
}

pub fn gen(prop: &str, r: &mut Rng) -> Session {
    let sector = *r.pick(&[8usize, 32, 64, 512]);
    let mut ops = vec![];
    let st;
    match prop {
        "C04" => {
            st = start(r);
            let n = 3 + r.below(12);
            for _ in 0..n {
                ops.push(match r.below(20) {
                    0..=9 => append(r),
                    10..=14 => edit(r, 14),
                    15 | 16 => Op::Version(gen::version(r)),
                    17 => good_save(r),
                    _ => crash(r),
                });
            }
        }
        "C07" => {
            st = start(r);
            let n = 4 + r.below(16);
            for _ in 0..n {
                ops.push(match r.below(24) {
                    0..=11 => edit(r, 14),
                    12..=16 => save(r),
                    17..=20 => crash(r),
                    21 => Op::Version(gen::version(r)),
                    22 => append(r),
                    _ => Op::Writeback,
                });
            }
            ops.push(good_save(r));
            ops.push(crash(r));
        }
        "C08" => {
            st = start(r);
            let n = 2 + r.below(6);
            for _ in 0..n {
                if r.chance(4, 5) {
                    ops.push(Op::Version(gen::version(r)));
                }
                let cycles = 1 + r.below(3);
                for _ in 0..cycles {
                    ops.push(good_save(r));
                    ops.push(Op::Restart);
                }
                if r.chance(1, 4) {
                    ops.push(edit(r, 14));
                }
            }
        }
        "C11" => {
            let v = if r.chance(2, 3) { 14 } else { gen::version(r) };
            let b = events_start(r, v);
            st = if r.chance(1, 4) { indent_start(r, b) } else { maybe_file(r, b) };
            let n = 6 + r.below(30);
            let mut depth = 1usize;
            let mut target = at(r);
            let mut osb = r.chance(1, 3);
            for _ in 0..n {
                if r.chance(1, 8) {
                    target = at(r);
                    osb = r.chance(1, 3);
                    depth = 1;
                }
                if r.chance(1, 10) {
                    ops.push(good_save(r));
                    ops.push(crash(r));
                    continue;
                }
                // loops inside each other, far down
                if r.chance(1, 80) {
                    let far = r.size(20, 150);
                    for d in 1..=far {
                        let start = Some(gen::int(r));
                        let kind = MCmdKind::Loop { count: r.below(9) as u32, cmds: vec![] };
                        ops.push(Op::Push { osb, at: target, cmd: MCmd { start, kind }, depth: d });
                    }
                    depth = far;
                }
                // walk the depth: mostly where it fits, sometimes not
                depth = match r.below(10) {
                    0..=3 => depth + 1,
                    4 | 5 => depth,
                    6 | 7 => depth.saturating_sub(1),
                    8 => r.below(8),
                    _ => *r.pick(&[0, 1, 2, 3, 50, usize::MAX]),
                };
                let nest = if r.chance(1, 2) { 1 + r.below(2) } else { 0 };
                let mut c = gen::cmd(r, nest);
                if r.chance(1, 3) {
                    c.kind = MCmdKind::Loop { count: r.below(9) as u32, cmds: vec![] };
                }
                ops.push(Op::Push { osb, at: target, cmd: c, depth });
                if depth > 200 {
                    depth = 1;
                }
            }
            ops.push(good_save(r));
            ops.push(crash(r));
        }
        _ => {
            let v = if r.chance(2, 3) { 14 } else { gen::version(r) };
            st = match events_start(r, v) {
                Start::Built(mut m) => {
                    for evs in [m.events.as_mut(), m.osb.as_mut().and_then(|o| o.events.as_mut())].into_iter().flatten() {
                        for e in evs.iter_mut() {
                            if let Some(c) = e.cmds_mut() {
                                for _ in 0..1 + r.below(2) {
                                    c.push(keyed(r));
                                }
                            }
                        }
                    }
                    maybe_file(r, Start::Built(m))
                }
                s => s,
            };
            let n = 6 + r.below(30);
            let focus = at(r);
            for _ in 0..n {
                if r.chance(1, 9) {
                    ops.push(good_save(r));
                    ops.push(crash(r));
                    continue;
                }
                let mut k = keyframe(r);
                if r.chance(3, 4) {
                    match &mut k {
                        Op::PushTwo { at, .. } | Op::SetTwo { at, .. } | Op::PushCol { at, .. } | Op::SetCol { at, .. } => *at = focus,
                        _ => {}
                    }
                }
                ops.push(k);
            }
            ops.push(good_save(r));
            ops.push(crash(r));
        }
    }
    Session { start: st, sector, ops }
}

fn keyed(r: &mut Rng) -> MCmd {
    let start = Some(r.below(1000) as i32);
    let n = r.below(4);
    let kind = if r.chance(1, 2) {
        let mut cont = gen::two_cont(r);
        cont.truncate(n);
        if n > 0 && cont.len() == n && r.chance(1, 2) {
            cont[n - 1].1 = None;
        }
        MCmdKind::Two { op: r.pick(&["M", "V"]).to_string(), easing: 0, end: None, first: (gen::dec(r), gen::dec(r)), cont }
    } else {
        let mut cont = gen::col_cont(r);
        cont.truncate(n);
        MCmdKind::Col { easing: 0, end: None, first: (1, 2, 3), cont }
    };
    MCmd { start, kind }
}
