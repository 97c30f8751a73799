//! World "damage": a file is stored, storage damages it, a reader opens it.

use osusim_glue::Located;
use crate::disk::{apply, decode, Fault};
use crate::gen;
use crate::input::{self, Base, Input};
use crate::model::*;
use crate::observe;
use crate::rng::Rng;
use crate::runner::{listed, Ctx};
use osu_file_parser::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Dmg {
    Open { input: Input, osb_version: u8, sweep: bool },
    Line { input: Input, line: u32, how: How },
    Contain { input: Input, sweep: bool },
    Memory { input: Input, osb_version: u8 },
    Reenc { input: Input, steps: Vec<Re> },
    Salvage { input: Input, versions: Vec<u8> },
}

/// Damage to one line.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum How {
    /// made unreadable in a way the format certainly forbids
    Break(u8),
    Flip { at: usize, bit: u8 },
    Cut { keep: usize },
    Garble { at: usize, len: usize, seed: u64 },
    Over { at: usize, text: String },
    Insert { at: usize, text: String },
    Field { field: usize, text: String },
    Replace { text: String },
    /// lost content, the line ending left
    Empty,
}

/// Re-encodings that leave the content alone.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Re {
    Bom,
    Crlf,
    Lf,
    Mixed { seed: u64 },
    Blank { line: usize, n: u8, crlf: bool },
    DropFinal,
}

pub enum Opened {
    Map(Box<OsuFile>),
    Err { line: usize, text: String, dbg: String, located: String },
    Panicked,
}

fn show_map(cx: &mut Ctx, p: &[&str], f: &mut OsuFile, versions: &[u8]) {
    for &v in versions {
        f.version = v;
        if cx.call(p, "printing the beatmap", || f.to_string()).is_none() {
            return;
        }
        if cx.call(p, "printing the storyboard", || f.osb_to_string()).is_none() {
            return;
        }
    }
}

fn err_of<E: std::fmt::Debug>(cx: &mut Ctx, p: &[&str], e: Error<E>, text: &str) -> Opened
where
    Error<E>: Located,
{
    let line = e.line_index();
    let Some(t) = cx.call(p, "showing the error", || e.shown().to_string()) else { return Opened::Panicked };
    let Some(located) = cx.call(p, "showing the error with its line", || e.with_line(text)) else {
        return Opened::Panicked;
    };
    let dbg = format!("{:?}", e.error());
    // the error of a text inside a larger one, and of a text of a single line
    let k = line % 7 + 1;
    let outer = Error::processing_line::<(), String>(Err(Error::new(dbg.clone(), line)), k).map_err(|e| (e.line_index(), e.error().clone()));
    let single: Error<String> = dbg.clone().into();
    if outer != Err((line + k, dbg.clone())) || single.line_index() != 0 || single.error() != &dbg {
        cx.viol(&["C02"], "error of an inner text", format!("{line} within a text at {k} is {outer:?}; of one line {single:?}"));
    }
    // and the other ways an error is handed on
    let made = |l: usize| Error::new(dbg.clone(), l);
    let at = |e: &Error<String>| (e.line_index(), e.error().clone());
    let ways = [
        Error::<String>::new_into::<String>(dbg.clone(), line),
        Error::new_from_result::<()>(Err(dbg.clone()), line).unwrap_err(),
        Error::new_from_result_into::<(), String>(Err(dbg.clone()), line).unwrap_err(),
        made(line).error_into::<String>(),
        Error::error_result_into::<(), String>(Err(made(line))).unwrap_err(),
    ];
    let fine = Error::<String>::processing_line::<usize, String>(Ok(line), k).is_ok_and(|x| x == line)
        && Error::<String>::new_from_result_into::<usize, String>(Ok(line), k).is_ok_and(|x| x == line);
    if !fine || ways.iter().any(|e| at(e) != (line, dbg.clone())) {
        cx.viol(&["C02"], "error handed on", format!("line {line}: {ways:?}"));
    }
    Opened::Err { line, text: t, dbg, located }
}

/// Open a text as a beatmap, or append it as a storyboard to an empty beatmap.
pub fn open(cx: &mut Ctx, p: &[&str], text: &str, osb: bool, osb_version: u8) -> Opened {
    if osb {
        let mut f = OsuFile::new(osb_version);
        match cx.call(p, "appending the storyboard", || f.append_osb(text)) {
            None => Opened::Panicked,
            Some(Ok(())) => Opened::Map(Box::new(f)),
            Some(Err(e)) => err_of(cx, p, e, text),
        }
    } else {
        match cx.call(p, "opening the beatmap", || text.parse::<OsuFile>()) {
            None => Opened::Panicked,
            Some(Ok(f)) => Opened::Map(Box::new(f)),
            Some(Err(e)) => err_of(cx, p, e, text),
        }
    }
}

fn drop_in(cx: &mut Ctx, p: &[&str], o: Opened) {
    cx.call(p, "dropping the result", move || drop(o));
}

const ALL: [u8; 12] = [3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14];

fn exec_open(cx: &mut Ctx, input: &Input, osb_version: u8, sweep: bool) {
    const P: &[&str] = &["C01"];
    let osb = input.is_osb();
    let bytes = input.stored(Some(cx));
    let cuts = if sweep { 0..=bytes.len() } else { bytes.len()..=bytes.len() };
    if sweep {
        *cx.rep.faults.entry("truncation (short write)".into()).or_default() += bytes.len() as u64;
        cx.rep.nontrivial = true;
    }
    for k in cuts {
        let t = decode(&bytes[..k], input.latin);
        let mut o = open(cx, P, &t, osb, osb_version);
        match &mut o {
            Opened::Map(f) => {
                cx.note("opened");
                let own = f.version;
                show_map(cx, P, f, &[own]);
                if !sweep || k == bytes.len() {
                    show_map(cx, P, f, &ALL);
                } else {
                    show_map(cx, P, f, &[3, 4, 14]);
                }
            }
            Opened::Err { .. } => cx.note("rejected"),
            Opened::Panicked => {}
        }
        drop_in(cx, P, o);
        if cx.rep.viols.len() > 3 || (sweep && cx.tired()) {
            return;
        }
    }
    // a misdirected file: the same text where the other kind is expected
    if !sweep {
        let t = decode(&bytes, input.latin);
        let mut o = open(cx, P, &t, !osb, 14);
        if let Opened::Map(f) = &mut o {
            show_map(cx, P, f, &[14, 3]);
        }
        drop_in(cx, P, o);
    }
}

/// Spellings of a line of this kind that no format version allows.
fn broken(l: &Line, n: u8, version: u8) -> Option<String> {
    let n = n as usize;
    let ind: String = l.text.chars().take_while(|c| *c == ' ' || *c == '_').collect();
    Some(match l.kind {
        LineKind::Version => ["osu file format vX", "osu file format v2", "osu file forma v14", "osu file format v"][n % 4].into(),
        LineKind::Header => ["[Unknown]", "[Gen", "[]", "[HitObject"][n % 4].into(),
        LineKind::Kv => {
            let key = l.text.trim().split(':').next().unwrap_or("");
            match n % 4 {
                0 => "Bogus: 1".into(),
                1 => "no separator".into(),
                2 if kv_kind(key) == Some(Kv::Int) => format!("{key}: 1x"),
                3 if kv_kind(key) == Some(Kv::Int) => format!("{key}: 2147483648"),
                2 if kv_kind(key) == Some(Kv::IntList) => format!("{key}: 1,x"),
                _ => format!("x{}", l.text.trim()),
            }
        }
        LineKind::Event => ["Bogus,1,2", "0,x,a.png", "2,1", "Sprite,Nowhere,Centre,a,0,0", "Sample,1,0", "Animation,Pass,Centre,a,0,0,x,1,LoopOnce", "Video"][n % 7].into(),
        LineKind::Cmd => match n % 6 {
            0 => format!("{ind}Q,0,0,,1"),
            1 => format!("{ind}F,x,0,,1"),
            2 => format!("{}F,0,0,,1", " ".repeat(1000)),
            3 => format!("{ind}F,0,0"),
            4 => format!("{ind}C,0,0,,1,2,256"),
            _ => format!("{ind}T,Nothing,0,1"),
        },
        LineKind::Timing => {
            if version == 3 {
                "5".into()
            } else {
                ["5", "1,2,x,1,1,1,1,1", "1,2,4", "1,2,4,1,-1,1,1,1"][n % 4].into()
            }
        }
        LineKind::Colour if version >= 5 => ["Combo1 : 1,2", "Bogus : 1,2,3", "Combo1 : 1,2,256", "Combox : 1,2,3"][n % 4].into(),
        LineKind::Ho => ["1,2,3", "1,2,3,0,0", "1,2,3,1,x", "1,2,3,x,0"][n % 4].into(),
        LineKind::Var => ["novar", "$x"][n % 2].into(),
        _ => return None,
    })
}

fn hurt(l: &Line, how: &How, version: u8) -> Option<String> {
    let mut b = l.text.clone().into_bytes();
    let n = b.len();
    match how {
        How::Break(k) => return broken(l, *k, version),
        How::Flip { at, bit } => {
            apply(&mut b, &Fault::Flip { at: *at, bit: *bit });
        }
        How::Cut { keep } => b.truncate(if n == 0 { 0 } else { keep % n }),
        How::Garble { at, len, seed } => {
            apply(&mut b, &Fault::Garble { at: *at, len: *len, seed: *seed });
        }
        How::Over { at, text } => {
            apply(&mut b, &Fault::Over { at: *at, text: text.clone() });
        }
        How::Insert { at, text } => {
            apply(&mut b, &Fault::Insert { at: *at, text: text.clone() });
        }
        How::Field { field, text } => {
            apply(&mut b, &Fault::Field { line: 0, field: *field, text: text.clone() });
        }
        How::Replace { text } => b = text.clone().into_bytes(),
        How::Empty => b.clear(),
    }
    let s = decode(&b, false).replace(['\n', '\r'], "");
    Some(s)
}

fn exec_line(cx: &mut Ctx, input: &Input, line: u32, how: &How) {
    const P: &[&str] = &["C02"];
    let osb = input.is_osb();
    let version = input.version();
    let mut doc = input.doc();
    let cand: Vec<usize> = (0..doc.lines.len())
        .filter(|&i| match (&doc.lines[i].kind, how) {
            (LineKind::Blank, _) => false,
            (LineKind::Note, How::Break(_)) => false,
            _ => true,
        })
        .collect();
    if cand.is_empty() {
        return;
    }
    // behind a mass of blank lines, where there is such a line: in its section first
    let flood = input.layout.flood as usize;
    let end = input.layout.flood_at as usize % (doc.lines.len().saturating_sub(flood) + 1) + flood;
    let behind: Vec<usize> = cand.iter().copied().filter(|&i| flood > 0 && i >= end).collect();
    let near: Vec<usize> = behind.iter().copied().filter(|&i| doc.lines[i].section == doc.lines[end - 1].section).collect();
    let cand = [near, behind, cand].into_iter().find(|c| !c.is_empty()).unwrap();
    let at = cand[line as usize % cand.len()];
    match open(cx, P, &doc.text(), osb, 14) {
        Opened::Map(_) => {}
        _ => {
            cx.note("undamaged file rejected");
            return;
        }
    }
    let old = doc.lines[at].text.clone();
    let Some(new) = hurt(&doc.lines[at], how, version) else { return };
    if new == old || (doc.lines[at].kind == LineKind::Version && new.trim_matches(|c: char| c.is_whitespace() || c == '\u{feff}').is_empty()) {
        return;
    }
    doc.lines[at].text = new.clone();
    let kind = doc.lines[at].kind.clone();
    cx.fault(match how {
        How::Break(_) => "line made unreadable",
        How::Flip { .. } => "bit flip in a line",
        How::Cut { .. } => "line shortened",
        How::Garble { .. } => "bytes of a line garbled",
        How::Over { .. } => "bytes of a line overwritten",
        How::Insert { .. } => "bytes inserted in a line",
        How::Field { .. } => "field garbled",
        How::Replace { .. } => "line replaced",
        How::Empty => "line emptied",
    });
    let text = doc.text();
    let what = format!("line {at} ({kind:?}) damaged from {old:?} to {new:?}");
    match open(cx, P, &text, osb, 14) {
        Opened::Panicked => {}
        Opened::Map(_) => {
            cx.note("still opens");
            if matches!(how, How::Break(_)) {
                cx.viol(P, "unreadable line accepted", format!("{what}: the file still opens"));
            }
        }
        Opened::Err { line: l, text: msg, located, .. } => {
            cx.note("rejected");
            let lines: Vec<&str> = text.lines().collect();
            let Some(content) = lines.get(l) else {
                cx.viol(P, "line does not exist", format!("{what}: the error names line {l} of {}", lines.len()));
                return;
            };
            if !msg.contains(&(l + 1).to_string()) {
                cx.viol(P, "message without the line", format!("{what}: line {l} but the message is {msg:?}"));
            }
            if !located.contains(content.trim_end_matches('\r')) || !located.contains(&(l + 1).to_string()) {
                cx.viol(P, "message quotes another line", format!("{what}: line {l} is {content:?} but the message is {located:?}"));
            }
            if !cx.rep.viols.is_empty() {
                return;
            }
            let exact = matches!(how, How::Break(_)).then_some(at);
            let Some((class, why)) = wrong_line(cx, &doc, &text, osb, l, exact) else { return };
            let real = if osb { l } else { unshifted(&text, l) };
            if real != l && listed("C02", SHIFT) && wrong_line(cx, &doc, &text, osb, real, exact).is_none() {
                cx.note(SHIFT);
                return;
            }
            cx.viol(P, class, format!("{what}: the error names line {l} ({msg:?}): {why}"));
        }
    }
}

/// Whether this line is not the one an error should name, and why not.
fn wrong_line(cx: &mut Ctx, doc: &Doc, text: &str, osb: bool, l: usize, exact: Option<usize>) -> Option<(&'static str, String)> {
    const P: &[&str] = &["C02"];
    if let Some(at) = exact {
        return (l != at).then(|| ("wrong line", format!("line {at} is the damaged one")));
    }
    // where the file stops being readable
    let mut pos = if doc.bom { 3 } else { 0 };
    let mut starts = vec![];
    for d in &doc.lines {
        starts.push(pos);
        pos += d.text.len() + d.ending.len();
    }
    if doc.bom {
        starts[0] = 0;
    }
    starts.push(text.len());
    if l + 1 >= starts.len() {
        return Some(("line does not exist", format!("there is no line {l}")));
    }
    let first = doc.lines.iter().position(|d| d.kind == LineKind::Version);
    if osb || first.map(|f| l > f).unwrap_or(false) {
        if let Opened::Err { line, text: m, .. } = open(cx, P, &text[..starts[l]], osb, 14) {
            return Some(("an earlier line is unreadable", format!("the file cut off before line {l} is rejected too, at line {line}: {m:?}")));
        }
    }
    if let Opened::Map(_) = open(cx, P, &text[..starts[l + 1]], osb, 14) {
        return Some(("the named line is readable", format!("the file cut off after line {l} opens")));
    }
    None
}

/// The known finding: every earlier section that ends in a blank line makes the line an error names
/// one too small.
pub const SHIFT: &str = "section-ends-blank";

/// The line an error means under the known finding: the last one whose number minus the sections before
/// it that end in a blank line is the number named.
pub fn unshifted(text: &str, named: usize) -> usize {
    let text = text.strip_prefix('\u{feff}').unwrap_or(text);
    let lines: Vec<&str> = text.lines().collect();
    let mut shift = 0;
    let mut section: Option<bool> = None;
    let mut last = named;
    for (i, l) in lines.iter().enumerate() {
        let head = if section.is_none() { l.trim_start() } else { l };
        if head.starts_with('[') {
            if section == Some(true) && lines[i - 1].is_empty() {
                shift += 1;
            }
            let rest = head.split_once(']').map(|x| x.1).unwrap_or("");
            section = Some(!rest.trim().is_empty());
        } else if let Some(content) = &mut section {
            *content |= !l.trim().is_empty();
        }
        if i - shift == named {
            last = i;
        }
    }
    last
}

fn domain(rec: &str) -> &str {
    if rec.starts_with("osb/Variables") {
        "osb/Variables"
    } else if rec.starts_with("osb/Events") {
        "osb/Events"
    } else {
        rec.split('/').next().unwrap_or("")
    }
}

fn is_header(l: &str) -> bool {
    let t = l.trim();
    t.starts_with('[') && t.ends_with(']')
}

/// Compare what opened with the lines the faults left alone.
fn contained(cx: &mut Ctx, doc: &Doc, cells: &[(u8, u32)], bom: usize, osb: bool, version: u8) {
    const P: &[&str] = &["C03"];
    let bytes: Vec<u8> = cells.iter().map(|c| c.0).collect();
    let text = decode(&bytes, false);
    let f = match open(cx, P, &text, osb, 14) {
        Opened::Map(f) => f,
        Opened::Err { .. } => {
            cx.note("rejected");
            return;
        }
        Opened::Panicked => {
            // crashing is C01's business; the damage was not survived, but nothing was lost silently
            return;
        }
    };
    cx.note("opened");
    // which original lines are untouched: same bytes, a whole line again
    let mut pos = bom;
    let mut untouched = vec![false; doc.lines.len()];
    let mut at_of: BTreeMap<u32, usize> = BTreeMap::new();
    for (k, c) in cells.iter().enumerate() {
        if c.1 != u32::MAX {
            at_of.insert(c.1, k);
        }
    }
    let mut claimed = vec![false; cells.len()];
    for (i, l) in doc.lines.iter().enumerate() {
        let len = l.text.len();
        let start = pos as u32;
        pos += len + l.ending.len();
        if len == 0 {
            continue;
        }
        let Some(&k) = at_of.get(&start) else { continue };
        let whole = (0..len).all(|j| cells.get(k + j).map(|c| c.1 == start + j as u32).unwrap_or(false));
        let left = k == 0 || cells[k - 1].0 == b'\n' || (k == bom && bom == 3);
        let right = match cells.get(k + len) {
            None => true,
            Some(c) if c.0 == b'\n' => true,
            Some(c) if c.0 == b'\r' => cells.get(k + len + 1).map(|c| c.0 == b'\n').unwrap_or(false),
            _ => false,
        };
        if whole && left && right {
            untouched[i] = true;
            for j in 0..len {
                claimed[k + j] = true;
            }
        }
    }
    if !osb && !doc.lines.iter().zip(&untouched).any(|(l, u)| l.kind == LineKind::Version && *u) {
        cx.note("version line damaged");
        return;
    }
    // lines of the damaged file the faults had a hand in
    let mut foreign = vec![];
    let mut s = 0;
    for k in 0..=bytes.len() {
        if k == bytes.len() || bytes[k] == b'\n' {
            if s < k && (s..k).any(|j| !claimed[j] && bytes[j] != b'\r') {
                foreign.push(String::from_utf8_lossy(&bytes[s..k]).into_owned());
            }
            s = k + 1;
        }
    }
    let headers_hurt = doc.lines.iter().zip(&untouched).any(|(l, u)| l.kind == LineKind::Header && !*u)
        || foreign.iter().any(|l| is_header(l));
    // before version 5 there are no colours: what lands in that section is not the file's content
    if version < 5 && headers_hurt && String::from_utf8_lossy(&bytes).lines().any(|l| l.trim().starts_with("[Colours]")) {
        cx.note("records moved into a section this version ignores");
        return;
    }
    let vars_hurt = osb
        && (headers_hurt
            || doc.lines.iter().zip(&untouched).any(|(l, u)| l.kind == LineKind::Var && !*u)
            || foreign.iter().any(|l| l.trim_start().starts_with('$')));
    let mut m = observe::map(&f);
    m.version = 14;
    let mut have: BTreeMap<String, Vec<String>> = BTreeMap::new();
    let all = m.flat();
    let total = all.len();
    for r in all {
        have.entry(domain(&r).to_string()).or_default().push(r);
    }
    let mut want: BTreeMap<String, Vec<(usize, String)>> = BTreeMap::new();
    let mut count = 0;
    for (i, l) in doc.lines.iter().enumerate() {
        if !untouched[i] {
            continue;
        }
        let Some(rec) = &l.rec else { continue };
        // without its header a comment may be a comment outside of any section
        count += !(headers_hurt && l.text.starts_with("//")) as usize;
        if vars_hurt && l.kind == LineKind::Cmd && l.text.contains('$') {
            continue;
        }
        want.entry(domain(rec).to_string()).or_default().push((i, rec.clone()));
    }
    cx.rep.notes.entry("untouched records checked".into()).and_modify(|c| *c += count as u64).or_insert(count as u64);
    // a carriage return alone ends a setting as well
    let pieces: usize = foreign.iter().map(|l| l.split('\r').filter(|p| !p.is_empty()).count()).sum();
    if !headers_hurt && total > count + pieces {
        cx.viol(
            P,
            "records invented",
            format!("{count} record lines are undamaged and {} damaged, but the opened file has {total} records; damaged lines: {foreign:?}", foreign.len()),
        );
    }
    if total < count {
        cx.viol(
            P,
            "records dropped",
            format!("{count} record lines are undamaged but the opened file has {total} records; damaged lines: {foreign:?}"),
        );
        return;
    }
    if headers_hurt {
        cx.note("section header damaged");
        return;
    }
    for (dom, mut w) in want {
        let mut h = have.remove(&dom).unwrap_or_default();
        if matches!(dom.as_str(), "General" | "Editor" | "Metadata" | "Difficulty") {
            // the order of settings is not part of the value
            h.sort();
            w.sort_by(|a, b| a.1.cmp(&b.1));
        }
        let mut k = 0;
        for (i, rec) in &w {
            match h[k..].iter().position(|x| x == rec) {
                Some(p) => k += p + 1,
                None => {
                    let near = h.get(k).cloned().unwrap_or("nothing".into());
                    cx.viol(
                        P,
                        "undamaged record lost or altered",
                        format!(
                            "line {i} {:?} is undamaged but {rec} is not there (next is {near}); damaged lines: {foreign:?}",
                            doc.lines[*i].text
                        ),
                    );
                    return;
                }
            }
        }
    }
}

fn exec_contain(cx: &mut Ctx, input: &Input, sweep: bool) {
    let doc = input.doc();
    let osb = input.is_osb();
    let text = doc.text();
    let bom = if doc.bom { 3 } else { 0 };
    let cells: Vec<(u8, u32)> = text.bytes().enumerate().map(|(i, b)| (b, i as u32)).collect();
    let version = input.version();
    if sweep {
        for k in 0..=cells.len() {
            contained(cx, &doc, &cells[..k], bom, osb, version);
            if !cx.rep.viols.is_empty() || cx.tired() {
                return;
            }
        }
        *cx.rep.faults.entry("truncation (short write)".into()).or_default() += cells.len() as u64;
        cx.rep.nontrivial = true;
        return;
    }
    let mut c = cells;
    for f in &input.faults {
        if apply(&mut c, f) {
            cx.fault(f.kind());
        }
    }
    contained(cx, &doc, &c, bom, osb, version);
}

/// Length of the text once storyboard variables are expanded; None if too large to consider.
fn expanded_len(text: &str) -> Option<usize> {
    let mut vars: Vec<(String, String)> = vec![];
    for l in text.lines() {
        if let Some(r) = l.strip_prefix('$') {
            if let Some((n, v)) = r.split_once('=') {
                vars.push((n.to_string(), v.to_string()));
            }
        }
    }
    let mut total = text.len();
    if vars.is_empty() {
        return Some(total);
    }
    for l in text.lines() {
        if l.contains('$') {
            let mut cur = l.to_string();
            for (n, v) in &vars {
                let full = format!("${n}");
                let hits = cur.matches(&full).count();
                if cur.len() + hits * v.len() > 1 << 20 {
                    return None;
                }
                cur = cur.replace(&full, v);
                total += cur.len();
            }
        }
        if total > 4 << 20 {
            return None;
        }
    }
    Some(total)
}

const BASE: i64 = 64 << 10;
const PER_BYTE: i64 = 400;
const PRINT_PER_BYTE: i64 = 60;

fn exec_memory(cx: &mut Ctx, input: &Input, osb_version: u8) {
    use crate::alloc;
    const P: &[&str] = &["C09"];
    let osb = input.is_osb();
    let text = input.text(Some(cx));
    let Some(len) = expanded_len(&text) else {
        cx.note("expansion too large");
        return;
    };
    // whatever is set up once is set up now
    for warm in ["osu file format v14\n\n[General]\nMode: 0\n", "osu file format v14\n[Events]\n0,0,a\n", "x"] {
        let o = open(cx, P, warm, false, 14);
        drop_in(cx, P, o);
    }
    let idle = alloc::live();
    // with the same records and other numbers, a file needs as much as before
    let numbers_only = !input.faults.is_empty() && input.faults.iter().all(|f| matches!(f, Fault::Grow { .. }));
    let mut undamaged = None;
    if numbers_only {
        let good = input.good();
        if expanded_len(&good).is_some() {
            let live0 = alloc::live();
            alloc::reset_peak();
            let o = open(cx, P, &good, osb, osb_version);
            undamaged = Some((alloc::peak() - live0, expanded_len(&good).unwrap_or(0)));
            drop_in(cx, P, o);
        }
    }
    let mut last = None;
    for round in 0..3 {
        let live0 = alloc::live();
        alloc::reset_peak();
        let mut o = open(cx, P, &text, osb, osb_version);
        let used = alloc::peak() - live0;
        if used > BASE + PER_BYTE * len as i64 {
            cx.viol(P, "memory out of proportion", format!("opening {len} bytes needed {used} bytes of live memory"));
        }
        if let Some((good, good_len)) = undamaged {
            cx.note("same records, other numbers");
            if used > good + (16 << 10) + PER_BYTE * (len as i64 - good_len as i64).max(0) {
                cx.viol(P, "memory depends on the numbers", format!("opening {len} bytes needed {used} bytes of live memory, and {good} before numbers were garbled"));
            }
        }
        *cx.rep.notes.entry("peak bytes per 100 file bytes (sum)".into()).or_default() += (used * 100 / (len as i64 + 1)).max(0) as u64;
        if let Opened::Map(f) = &mut o {
            cx.note("opened");
            for v in [14, 3, 7] {
                f.version = v;
                let l1 = alloc::live();
                alloc::reset_peak();
                let s = cx.call(P, "printing the beatmap", || f.to_string()).unwrap_or_default();
                let s2 = cx.call(P, "printing the storyboard", || f.osb_to_string()).flatten().unwrap_or_default();
                let used = alloc::peak() - l1;
                // printing with variables tries them against the text
                let out = (s.len() + s2.len()) as i64;
                if used > BASE + PRINT_PER_BYTE * (out + len as i64) {
                    cx.viol(P, "memory out of proportion", format!("printing {out} bytes needed {used} bytes of live memory"));
                }
                drop((s, s2));
                if alloc::live() != l1 && round > 0 {
                    cx.viol(P, "leak", format!("printing kept {} bytes", alloc::live() - l1));
                }
            }
        } else {
            cx.note("rejected");
        }
        cx.rep.viols.reserve(1);
        drop_in(cx, P, o);
        let left = alloc::live() - live0;
        if round > 0 && left != 0 {
            last = Some(left);
        }
        if !cx.rep.viols.is_empty() {
            return;
        }
    }
    // tables that are set up once do not grow with the file
    let kept = alloc::live() - idle;
    if kept > BASE / 4 + len as i64 / 2 {
        cx.viol(P, "leak", format!("after opening, printing and dropping {len} bytes, {kept} bytes are still allocated"));
        return;
    }
    // the second round may still have grown a table once; the third may not
    if let Some(left) = last {
        let live0 = alloc::live();
        let o = open(cx, P, &text, osb, osb_version);
        drop_in(cx, P, o);
        let again = alloc::live() - live0;
        if again != 0 {
            cx.viol(P, "leak", format!("after opening and dropping, {again} bytes stayed allocated (before: {left})"));
            return;
        }
    }
    // a long session: one file after the other, alike but never the same
    if text.len() % 5 == 0 {
        let mut grown = 0;
        let start = alloc::live();
        for k in 0..OTHERS {
            let other = another(&text, k as u64);
            let l0 = alloc::live();
            let o = open(cx, P, &other, osb, osb_version);
            if let Opened::Map(f) = &o {
                let _ = cx.call(P, "printing the beatmap", || f.to_string());
                let _ = cx.call(P, "printing the storyboard", || f.osb_to_string());
            }
            drop_in(cx, P, o);
            drop(other);
            if k >= OTHERS / 2 && alloc::live() > l0 {
                grown += 1;
            }
        }
        cx.note("sessions over many different files");
        if grown >= OTHERS / 4 {
            cx.viol(
                P,
                "memory grows with every file",
                format!("of {OTHERS} similar files opened, printed and closed in turn, {grown} of the last {} each left memory behind, {} bytes in all", OTHERS / 2, alloc::live() - start),
            );
        }
    }
}

const OTHERS: usize = 24;

/// A file with the same records and other values: last digits of long numbers, letters of texts.
fn another(text: &str, k: u64) -> String {
    let mut r = Rng::new(k.wrapping_mul(0x9e37_79b9_7f4a_7c15) + 1);
    let mut out = String::with_capacity(text.len());
    let mut section = "";
    for l in text.split_inclusive('\n') {
        let t = l.trim();
        if t.starts_with('[') && t.ends_with(']') {
            section = t;
            out.push_str(l);
            continue;
        }
        let words = section == "[Metadata]" || t.starts_with("AudioFilename");
        let (mut quoted, mut value) = (false, false);
        let b: Vec<char> = l.chars().collect();
        for i in 0..b.len() {
            let c = b[i];
            quoted ^= c == '"';
            // a file name without quotes, an event's or a sample's
            let (s, e) = (b[..i].iter().rposition(|c| matches!(c, ',' | ':' | '=')).map_or(0, |p| p + 1), b[i..].iter().position(|c| matches!(c, ',' | ':' | '\r' | '\n')).map_or(b.len(), |p| i + p));
            let name = s > 0 && b[s..e].contains(&'.') && b[s..e].iter().filter(|c| c.is_alphabetic()).count() > 1;
            let free = quoted || words && value || name;
            value |= c == ':';
            let long = i >= 2 && b[i - 1].is_ascii_digit() && (b[i - 2].is_ascii_digit() || b[i - 2] == '.') && !b.get(i + 1).is_some_and(|c| c.is_ascii_digit());
            out.push(if c.is_ascii_digit() && long && !section.is_empty() {
                (b'0' + r.below(10) as u8) as char
            } else if c.is_ascii_alphabetic() && free {
                (b'a' + r.below(26) as u8) as char
            } else {
                c
            });
        }
    }
    out
}

fn exec_reenc(cx: &mut Ctx, input: &Input, steps: &[Re]) {
    const P: &[&str] = &["C10"];
    let osb = input.is_osb();
    let text = input.text(Some(cx));
    if text.replace("\r\n", "\n").contains('\r') || text.trim_matches(|c: char| c.is_whitespace() || c == '\u{feff}').is_empty() {
        return;
    }
    // lines: content, ending, index in the original
    let mut bom = text.starts_with('\u{feff}');
    let body = text.strip_prefix('\u{feff}').unwrap_or(&text);
    let mut lines: Vec<(String, &'static str, Option<usize>)> = body
        .split_inclusive('\n')
        .enumerate()
        .map(|(i, l)| {
            if let Some(c) = l.strip_suffix("\r\n") {
                (c.to_string(), "\r\n", Some(i))
            } else if let Some(c) = l.strip_suffix('\n') {
                (c.to_string(), "\n", Some(i))
            } else {
                (l.to_string(), "", Some(i))
            }
        })
        .collect();
    let n_orig = lines.len();
    for s in steps {
        match s {
            Re::Bom => {
                if !bom {
                    bom = true;
                    cx.fault("byte order mark added");
                }
            }
            Re::Crlf | Re::Lf | Re::Mixed { .. } => {
                let mut r = Rng::new(if let Re::Mixed { seed } = s { *seed } else { 0 });
                for l in lines.iter_mut().filter(|l| !l.1.is_empty()) {
                    l.1 = match s {
                        Re::Crlf => "\r\n",
                        Re::Lf => "\n",
                        _ => {
                            if r.chance(1, 2) {
                                "\r\n"
                            } else {
                                "\n"
                            }
                        }
                    };
                }
                cx.fault(match s {
                    Re::Crlf => "LF to CRLF",
                    Re::Lf => "CRLF to LF",
                    _ => "some endings converted",
                });
            }
            Re::Blank { line, n, crlf } => {
                let at = line % (lines.len() + 1);
                let e = if *crlf { "\r\n" } else { "\n" };
                if at > 0 && lines[at - 1].1.is_empty() {
                    lines[at - 1].1 = e;
                }
                for _ in 0..*n {
                    lines.insert(at, (String::new(), e, None));
                }
                cx.fault("blank lines added");
            }
            Re::DropFinal => {
                let only = lines.len() == 1;
                if let Some(l) = lines.last_mut() {
                    if !l.1.is_empty() && !(l.0.is_empty() && l.2.is_some() && only) {
                        l.1 = "";
                        cx.fault("final newline dropped");
                    }
                }
            }
        }
    }
    // a content-free last line without an ending is no line at all
    while lines.last().map(|l| l.0.is_empty() && l.1.is_empty()).unwrap_or(false) {
        lines.pop();
    }
    let mut new = String::new();
    if bom {
        new.push('\u{feff}');
    }
    for l in &lines {
        new.push_str(&l.0);
        new.push_str(l.1);
    }
    let a = open(cx, P, &text, osb, 14);
    let b = open(cx, P, &new, osb, 14);
    match (a, b) {
        (Opened::Map(a), Opened::Map(b)) => {
            cx.note("opened");
            if a != b {
                let (ma, mb) = (observe::raw(&a), observe::raw(&b));
                cx.viol(P, "content changed", format!("after {steps:?}: {}", observe::diff(&ma, &mb)));
            }
        }
        (Opened::Err { line, dbg, text: t, .. }, Opened::Err { line: l2, dbg: d2, text: t2, .. }) => {
            cx.note("rejected");
            if dbg != d2 {
                cx.viol(P, "reason changed", format!("after {steps:?}: {t:?} became {t2:?}"));
                return;
            }
            if line >= n_orig {
                return;
            }
            let moved = |l: usize| lines.iter().position(|x| x.2 == Some(l));
            let Some(w) = moved(line) else { return };
            if w == l2 {
                return;
            }
            if !osb && listed("C10", SHIFT) {
                let real = unshifted(&text, line);
                let real2 = unshifted(&new, l2);
                if moved(real) == Some(real2) {
                    cx.note(SHIFT);
                    return;
                }
            }
            cx.viol(P, "line not shifted", format!("after {steps:?}: error line {line} is now line {w}, but the error names {l2}: {t2:?}"));
        }
        (Opened::Map(_), Opened::Err { text: t, .. }) => {
            cx.viol(P, "rejected after re-encoding", format!("after {steps:?}: {t}"));
        }
        (Opened::Err { text: t, .. }, Opened::Map(_)) => {
            cx.viol(P, "accepted after re-encoding", format!("after {steps:?}; it was rejected with {t}"));
        }
        _ => {}
    }
}

pub fn exec(cx: &mut Ctx, d: &Dmg) {
    match d {
        Dmg::Open { input, osb_version, sweep } => exec_open(cx, input, *osb_version, *sweep),
        Dmg::Line { input, line, how } => exec_line(cx, input, *line, how),
        Dmg::Contain { input, sweep } => exec_contain(cx, input, *sweep),
        Dmg::Memory { input, osb_version } => exec_memory(cx, input, *osb_version),
        Dmg::Reenc { input, steps } => exec_reenc(cx, input, steps),
        Dmg::Salvage { input, versions } => exec_salvage(cx, input, versions),
    }
}

/// What opens from a damaged file is saved over it and opened again, in one version after the other.
fn exec_salvage(cx: &mut Ctx, input: &Input, versions: &[u8]) {
    const P: &[&str] = &["C16"];
    let text = decode(&input.stored(Some(cx)), input.latin);
    let osb = input.is_osb();
    // a carriage return that ends no line is part of a value for some readers, not for others
    if text.replace("\r\n", "\n").contains('\r') {
        return;
    }
    let Opened::Map(mut f) = open(cx, &[], &text, osb, 14) else {
        cx.note("rejected");
        return;
    };
    cx.note("opened");
    let print = |cx: &mut Ctx, f: &OsuFile| {
        cx.call(P, "saving", || if osb { f.osb_to_string().unwrap_or_default() } else { f.to_string() })
    };
    let own = f.version;
    for v in std::iter::once(own).chain(versions.iter().copied().filter(|_| !osb)) {
        f.version = v;
        if (v == 3 || v == 4) && !observe::map(&f).shiftable() {
            cx.note("time that cannot be kept 24 ms early");
            return;
        }
        let Some(first) = print(cx, &f) else { return };
        match open(cx, P, &first, osb, 14) {
            Opened::Map(g) => {
                let (before, after) = (observe::map(&f).stored(v), observe::map(&g).stored(v));
                if before != after {
                    cx.viol(P, "changed by the save", format!("version {v}: {}", observe::diff(&before, &after)));
                    return;
                }
                if let Some(second) = print(cx, &g) {
                    if second != first {
                        let d = crate::calls::first_difference(&first, &second);
                        cx.viol(P, "saved differently the second time", format!("version {v}: {d}"));
                        return;
                    }
                }
                f = g;
            }
            Opened::Err { located, .. } => {
                cx.viol(P, "does not reopen after the save", format!("version {v}: {located}"));
                return;
            }
            Opened::Panicked => return,
        }
    }
}

// ------------------------------------------------------------------------------------------------

pub fn gen_salvage(r: &mut Rng) -> Dmg {
    let mut input = if r.chance(1, 2) { input::focused(r) } else { input::good(r, None, 20) };
    let len = input.good().len();
    input.faults = gen::faults(r, len, 3);
    input.latin = r.chance(1, 8);
    Dmg::Salvage { input, versions: (0..r.below(5)).map(|_| gen::version(r)).collect() }
}

fn tiny(r: &mut Rng) -> Input {
    let z = gen::Size { events: 1 + r.below(3), rows: 1 + r.below(2), full: false };
    let base = if r.chance(1, 3) {
        Base::Osb(gen::osb(r, z))
    } else {
        let v = gen::version(r);
        Base::Map(gen::map(r, v, z))
    };
    // every prefix is tried, so no masses of lines
    let layout = Layout { flood: 0, ..gen::layout(r) };
    Input { base, layout, faults: vec![], latin: r.chance(1, 4) }
}

pub fn gen_open(r: &mut Rng) -> Dmg {
    let osb_version = if r.chance(1, 6) { r.range(3, 13) as u8 } else { 14 };
    match r.below(40) {
        0..=4 => Dmg::Open { input: tiny(r), osb_version, sweep: true },
        5 => Dmg::Open {
            input: Input {
                base: Base::Deep { osb: r.chance(1, 2), depth: *r.pick(&[3, 30, 100, 300]) },
                layout: Layout::default(),
                faults: if r.chance(1, 2) { gen::faults(r, 4000, 2) } else { vec![] },
                latin: false,
            },
            osb_version,
            sweep: false,
        },
        _ => Dmg::Open { input: input::damaged(r, None, 25, 4), osb_version, sweep: false },
    }
}

pub fn gen_line(r: &mut Rng) -> Dmg {
    let input = input::good(r, None, 12);
    let at = r.below(200);
    let how = match r.below(12) {
        0..=4 => How::Break(r.below(28) as u8),
        5 => How::Flip { at, bit: r.below(8) as u8 },
        6 => How::Cut { keep: at },
        7 => How::Garble { at, len: 1 + r.below(12), seed: r.next() % 10000 },
        8 => How::Over { at, text: gen::token(r) },
        9 => {
            if r.chance(1, 6) {
                How::Empty
            } else {
                How::Insert { at, text: gen::token(r) }
            }
        }
        10 => How::Field { field: r.below(12), text: gen::token(r) },
        _ => How::Replace { text: gen::line(r) },
    };
    Dmg::Line { input, line: r.below(100_000) as u32, how }
}

pub fn gen_contain(r: &mut Rng) -> Dmg {
    if r.chance(1, 10) {
        let mut i = tiny(r);
        i.latin = false;
        return Dmg::Contain { input: i, sweep: true };
    }
    let mut input = input::good(r, None, 0);
    let len = input.good().len();
    let n = if r.chance(2, 3) { 1 } else { 1 + r.below(3) };
    // faults that often leave the file readable
    for _ in 0..n {
        let f = if r.chance(1, 2) {
            match r.below(7) {
                6 => Fault::Header { line: r.below(1000), how: r.next() as u8 },
                0 => Fault::LineLost { line: r.below(1000) },
                1 => Fault::Trunc { at: r.below(len + 1) },
                2 => {
                    let t = r.pick(&["0", "1", "7", "12", "a", "", "-3", "0.5"]).to_string();
                    Fault::Field { line: r.below(1000), field: 1 + r.below(12), text: t }
                }
                3 => Fault::Over { at: r.below(len + 1), text: r.below(10).to_string() },
                4 => Fault::Line { line: r.below(1000), text: gen::line(r) },
                _ => Fault::Byte { at: r.below(len + 1), val: *r.pick(b"0123456789,:/[] \n") },
            }
        } else {
            gen::fault(r, len)
        };
        input.faults.push(f);
    }
    Dmg::Contain { input, sweep: false }
}

pub fn gen_memory(r: &mut Rng) -> Dmg {
    let osb_version = 14;
    let mut input = match r.below(10) {
        0 => Input {
            base: Base::Deep { osb: true, depth: *r.pick(&[10, 60, 200]) },
            layout: Layout::default(),
            faults: vec![],
            latin: false,
        },
        1 => {
            // a large file
            let z = gen::Size { events: 60, rows: 300, full: true };
            let v = gen::version(r);
            let base = if r.chance(1, 3) { Base::Osb(gen::osb(r, gen::Size { events: 200, ..z })) } else { Base::Map(gen::map(r, v, z)) };
            Input { base, layout: gen::layout(r), faults: vec![], latin: false }
        }
        2..=4 => input::focused(r),
        _ => input::good(r, None, 20),
    };
    if r.chance(3, 4) {
        let len = input.good().len();
        input.faults = gen::faults(r, len, 3);
        if r.chance(1, 2) {
            // garbled counts and lengths
            let t = ["4294967295", "2147483647", "99999999", "18446744073709551615", "1000000", "255", "65535"];
            let only = r.chance(1, 2);
            if only {
                input.faults.clear();
            }
            for _ in 0..1 + r.below(6) {
                input.faults.push(if !only && r.chance(1, 4) {
                    Fault::Field { line: r.below(1000), field: r.below(12), text: r.pick(&t).to_string() }
                } else {
                    let by = 1i64 << (10 + r.below(22));
                    let n = *r.pick(&[6, 12]);
                    Fault::Grow { line: r.below(1000), field: r.below(n), by: by + r.below(3) as i64 - 1 }
                });
            }
        }
    }
    Dmg::Memory { input, osb_version }
}

pub fn gen_reenc(r: &mut Rng) -> Dmg {
    let input = if r.chance(1, 2) { input::good(r, None, 20) } else { input::damaged(r, None, 20, 2) };
    let n = 1 + r.below(4);
    let steps = (0..n)
        .map(|_| match r.below(10) {
            0 => Re::Bom,
            1 => Re::Crlf,
            2 => Re::Lf,
            3 => Re::Mixed { seed: r.next() % 1000 },
            4 => Re::DropFinal,
            5 => Re::Blank { line: r.below(3), n: 1 + r.below(3) as u8, crlf: r.chance(1, 3) },
            _ => Re::Blank { line: r.below(100_000), n: 1 + r.below(3) as u8, crlf: r.chance(1, 3) },
        })
        .collect();
    Dmg::Reenc { input, steps }
}
