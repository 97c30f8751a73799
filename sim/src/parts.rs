//! World "damage", kind Parts: a reader that retrieves only a part of a stored file opens that part alone.

use crate::damage::{open, unshifted, Opened};
use crate::disk::decode;
use crate::gen;
use crate::input::{self, Input};
use crate::observe;
use crate::rng::Rng;
use crate::runner::Ctx;
use osu_file_parser::osu_file::events::storyboard::cmds::{Command, CommandProperties};
use osu_file_parser::osu_file::events::storyboard::sprites::Object;
use osu_file_parser::osu_file::events::*;
use osu_file_parser::osu_file::osb::{Osb, Variable};
use osu_file_parser::*;
use serde::{Deserialize, Serialize};

const P: &[&str] = &["C17"];

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Parts {
    pub input: Input,
}

/// A section as it stands in a text: name, content, line of the content's start.
struct Sec {
    name: String,
    text: String,
    line: usize,
}

/// Splits a text into its sections; `None` if a header is not closed, badly indented or stands twice.
fn split(text: &str) -> Option<Vec<Sec>> {
    let text = text.strip_prefix('\u{feff}').unwrap_or(text);
    let lines: Vec<&str> = text.lines().collect();
    let mut out: Vec<Sec> = Vec::new();
    for (i, l) in lines.iter().enumerate() {
        let head = if out.is_empty() { l.trim() } else { l };
        if head.starts_with('[') {
            let l = if out.is_empty() { l.trim_start_matches([' ', '\t']) } else { l };
            // other white space before the first header is no indentation
            let l = l.strip_prefix('[')?;
            let (name, rest) = l.split_once(']')?;
            if out.iter().any(|s| s.name == name) {
                return None;
            }
            out.push(Sec { name: name.into(), text: rest.into(), line: i });
        } else if let Some(s) = out.last_mut() {
            s.text.push('\n');
            s.text.push_str(l);
        }
    }
    for s in &mut out {
        let t = s.text.trim_start_matches([' ', '\t', '\r', '\n']);
        s.line += s.text[..s.text.len() - t.len()].matches('\n').count();
        s.text = t.into();
    }
    Some(out)
}

/// One event with its commands.
fn groups(section: &str) -> Vec<String> {
    let mut out: Vec<String> = Vec::new();
    for l in section.lines().filter(|l| !l.trim().is_empty()) {
        match out.last_mut() {
            Some(g) if l.starts_with([' ', '_']) => {
                g.push('\n');
                g.push_str(l);
            }
            _ => out.push(l.into()),
        }
    }
    out
}

struct Failed {
    text: String,
    line: usize,
}

/// Opens one section alone; puts it into `into`.
fn alone(cx: &mut Ctx, s: &Sec, v: u8, into: &mut OsuFile) -> Option<Result<(), Failed>> {
    macro_rules! sec {
        ($t:ty, $field:ident) => {
            cx.call(P, "opening a section alone", || <$t>::from_str(&s.text, v)).map(|r| {
                r.map(|x| into.$field = x)
                    .map_err(|e| Failed { text: e.error().to_string(), line: s.line + e.line_index() })
            })
        };
    }
    match s.name.as_str() {
        "General" => sec!(General, general),
        "Editor" => sec!(Editor, editor),
        "Metadata" => sec!(Metadata, metadata),
        "Difficulty" => sec!(Difficulty, difficulty),
        "Events" => sec!(Events, events),
        "TimingPoints" => sec!(TimingPoints, timing_points),
        "Colours" => sec!(Colours, colours),
        "HitObjects" => sec!(HitObjects, hitobjects),
        _ => None,
    }
}

fn records<T: VersionedFromStr + VersionedToString + PartialEq + std::fmt::Debug>(
    cx: &mut Ctx,
    what: &str,
    text: &str,
    whole: &[T],
    v: u8,
) where
    T::Err: std::fmt::Debug,
{
    let lines: Vec<&str> = text.lines().filter(|l| !l.trim().is_empty()).collect();
    if lines.len() != whole.len() {
        cx.viol(P, "records and lines differ in number", format!("{what}: {} lines, {} records", lines.len(), whole.len()));
        return;
    }
    for (l, w) in lines.iter().zip(whole) {
        match cx.call(P, "opening a record alone", || T::from_str(l, v)) {
            None => return,
            Some(Ok(Some(r))) if r == *w => {}
            Some(x) => {
                cx.viol(P, "a record alone is something else", format!("{what}: {l:?} alone gives {x:?}, in its file {w:?}"));
                return;
            }
        }
    }
}

fn printed<T: VersionedToString>(cx: &mut Ctx, what: &str, text: &str, whole: &[T], v: u8) {
    let Some(each) = cx.call(P, "printing records alone", || {
        whole.iter().filter_map(|r| r.to_string(v)).collect::<Vec<_>>().join("\n")
    }) else {
        return;
    };
    if each != text.trim_end_matches('\n') {
        let d = crate::calls::first_difference(text, &each);
        cx.viol(P, "records printed alone differ from the file", format!("{what}: {d}"));
    }
}

pub fn exec(cx: &mut Ctx, p: &Parts) {
    let text = decode(&p.input.stored(Some(cx)), p.input.latin);
    if text.replace("\r\n", "\n").contains('\r') {
        return;
    }
    if p.input.is_osb() {
        exec_osb(cx, &text);
        return;
    }
    let Some(secs) = split(&text) else { return };
    let whole = open(cx, &[], &text, false, 14);
    let version = match &whole {
        Opened::Map(f) => f.version,
        Opened::Err { .. } => {
            let t = text.strip_prefix('\u{feff}').unwrap_or(&text).trim_start_matches([' ', '\t', '\r', '\n']);
            let t = t.strip_prefix('\u{feff}').unwrap_or(t);
            let v = t.lines().next().and_then(|l| l.strip_prefix("osu file format v"));
            match v.and_then(|v| v.parse::<u8>().ok()) {
                Some(v) if (MIN_VERSION..=LATEST_VERSION).contains(&v) => v,
                _ => return,
            }
        }
        Opened::Panicked => return,
    };
    let mut asm = OsuFile::new(version);
    let mut failed = None;
    for s in &secs {
        match alone(cx, s, version, &mut asm) {
            // an unknown section, or a call that did not come back
            None => return,
            Some(Ok(())) => {}
            Some(Err(e)) => {
                failed = Some((s, e));
                break;
            }
        }
    }
    match (&whole, failed) {
        (Opened::Map(f), None) => {
            cx.note("opened");
            if **f != asm {
                let d = observe::diff(&observe::raw(f), &observe::raw(&asm));
                cx.viol(P, "the sections opened alone make another beatmap", d);
                return;
            }
            for s in &secs {
                match s.name.as_str() {
                    "TimingPoints" => records(cx, "timing point", &s.text, &f.timing_points.as_ref().unwrap().0, version),
                    "HitObjects" => records(cx, "hit object", &s.text, &f.hitobjects.as_ref().unwrap().0, version),
                    "Colours" => {
                        if let Some(c) = &f.colours {
                            records(cx, "colour", &s.text, &c.0, version)
                        }
                    }
                    "Events" => events(cx, &s.text, f.events.as_ref().unwrap(), version, &[]),
                    _ => {}
                }
            }
            print(cx, f, version);
        }
        (Opened::Map(_), Some((s, e))) => {
            cx.viol(P, "a section of a readable file is unreadable alone", format!("[{}]: {}", s.name, e.text));
        }
        (Opened::Err { line, text: t, .. }, Some((s, e))) => {
            cx.note("rejected");
            // something outside of the sections comes first
            if *line < secs[0].line {
                return;
            }
            rejected(cx, s, &e, version);
            if !t.ends_with(&e.text) {
                cx.viol(P, "another error for a section alone", format!("[{}]: alone {:?}, in its file {t:?}", s.name, e.text));
            }
            let at = unshifted(&text, *line);
            if at != e.line && *line != e.line {
                let d = format!("[{}]: alone line {}, in its file line {} (named {line}): {}", s.name, e.line, at, e.text);
                cx.viol(P, "another line for a section alone", d);
            }
        }
        (Opened::Err { line, text: t, .. }, None) => {
            if secs.is_empty() || *line < secs[0].line {
                return;
            }
            cx.viol(P, "the sections of an unreadable file are all readable alone", t.clone());
        }
        (Opened::Panicked, _) => {}
    }
}

/// The record a section is rejected for is rejected on its own.
fn rejected(cx: &mut Ctx, s: &Sec, e: &Failed, v: u8) {
    let Some(l) = s.text.lines().nth(e.line.wrapping_sub(s.line)) else { return };
    macro_rules! rec {
        ($t:ty) => {
            cx.call(P, "opening a record alone", || {
                <$t as VersionedFromStr>::from_str(l, v).map(|x| format!("{x:?}")).map_err(|e| e.to_string())
            })
        };
    }
    let r = match s.name.as_str() {
        "TimingPoints" => rec!(timingpoints::TimingPoint),
        "HitObjects" => rec!(hitobjects::HitObject),
        "Colours" => rec!(colours::Colour),
        _ => return,
    };
    match r {
        None => {}
        Some(Ok(x)) => cx.viol(P, "a record its file is rejected for is readable alone", format!("[{}]: {l:?} gives {x}", s.name)),
        Some(Err(t)) => {
            if !e.text.ends_with(&t) {
                cx.viol(P, "another error for a record alone", format!("[{}]: {l:?} alone {t:?}, in its section {:?}", s.name, e.text));
            }
        }
    }
}

fn bare(c: &Command) -> Command {
    let mut c = c.clone();
    if let CommandProperties::Loop { commands, .. } | CommandProperties::Trigger { commands, .. } = &mut c.properties {
        commands.clear();
    }
    c
}

fn flat<'a>(list: &'a [Command], out: &mut Vec<&'a Command>) {
    for c in list {
        out.push(c);
        if let CommandProperties::Loop { commands, .. } | CommandProperties::Trigger { commands, .. } = &c.properties {
            flat(commands, out);
        }
    }
}

/// An event opened by its own type, and its commands one by one.
fn event(cx: &mut Ctx, group: &str, whole: &Event, v: u8, vars: &[Variable]) {
    let mut lines = group.lines();
    let first = lines.next().unwrap_or_default();
    macro_rules! own {
        ($t:ty, $make:expr) => {{
            let Some(r) = cx.call(P, "opening an event by its type", || <$t as VersionedFromStr>::from_str(first, v)) else { return };
            match r {
                Ok(Some(x)) => $make(x),
                x => {
                    let d = format!("{first:?} alone: {x:?}, in its file {whole:?}");
                    cx.viol(P, "an event of a readable file is unreadable by its type", d);
                    return;
                }
            }
        }};
    }
    let mut plain = whole.clone();
    let cmds: Vec<Command> = match &mut plain {
        Event::Background(x) => std::mem::take(x.commands_mut()),
        Event::Video(x) => std::mem::take(x.commands_mut()),
        Event::SpriteLegacy(x) => std::mem::take(x.commands_mut()),
        Event::AnimationLegacy(x) => std::mem::take(x.commands_mut()),
        Event::SampleLegacy(x) => std::mem::take(x.commands_mut()),
        Event::StoryboardObject(x) => std::mem::take(x.commands_mut()),
        _ => vec![],
    };
    let alone = match whole {
        Event::Background(_) => own!(Background, Event::Background),
        Event::Video(_) => own!(Video, Event::Video),
        Event::Break(_) => own!(Break, Event::Break),
        Event::ColourTransformation(_) => own!(ColourTransformation, Event::ColourTransformation),
        Event::SpriteLegacy(_) => own!(SpriteLegacy, Event::SpriteLegacy),
        Event::AnimationLegacy(_) => own!(AnimationLegacy, Event::AnimationLegacy),
        Event::SampleLegacy(_) => own!(SampleLegacy, Event::SampleLegacy),
        Event::StoryboardObject(_) => own!(Object, Event::StoryboardObject),
        Event::AudioSample(_) => own!(AudioSample, Event::AudioSample),
        _ => return,
    };
    if alone != plain {
        cx.viol(P, "an event by its type is something else", format!("{first:?} alone gives {alone:?}, in its file {plain:?}"));
        return;
    }
    // with variables a line alone is another text
    if !vars.is_empty() {
        return;
    }
    let mut all = vec![];
    flat(&cmds, &mut all);
    let lines: Vec<&str> = lines.collect();
    if all.len() != lines.len() {
        cx.viol(P, "commands and lines differ in number", format!("{group:?}: {} commands", all.len()));
        return;
    }
    for (l, c) in lines.iter().zip(all) {
        let Some(r) = cx.call(P, "opening a command alone", || Command::from_str(l, v)) else { return };
        let c = bare(c);
        match r {
            Ok(Some(x)) if x == c => {}
            x => {
                cx.viol(P, "a command alone is something else", format!("{l:?} alone gives {x:?}, in its file {c:?}"));
                return;
            }
        }
    }
}

fn events(cx: &mut Ctx, text: &str, whole: &Events, v: u8, vars: &[Variable]) {
    let gs = groups(text);
    if gs.len() < whole.0.len() {
        let d = format!("{} events in {} groups of lines", whole.0.len(), gs.len());
        cx.viol(P, "events and lines differ in number", d);
        return;
    }
    let mut at = 0;
    for g in &gs {
        let Some(r) = cx.call(P, "opening an event alone", || Events::from_str_variables(g, v, vars)) else { return };
        match r {
            Ok(Some(e)) => {
                if let [e] = &e.0[..] {
                    event(cx, g, e, v, vars);
                }
                for e in e.0 {
                    if whole.0.get(at) != Some(&e) {
                        let d = format!("{g:?} alone gives {e:?}, in its file {:?}", whole.0.get(at));
                        cx.viol(P, "an event alone is something else", d);
                        return;
                    }
                    at += 1;
                }
            }
            x => {
                cx.viol(P, "an event of a readable file is unreadable alone", format!("{g:?}: {x:?}"));
                return;
            }
        }
    }
    if at != whole.0.len() {
        let d = format!("{at} of {}", whole.0.len());
        cx.viol(P, "events opened alone are fewer than in the file", d);
    }
}

fn print(cx: &mut Ctx, f: &OsuFile, v: u8) {
    let Some(text) = cx.call(P, "printing the beatmap", || f.to_string()) else { return };
    let mut want = format!("osu file format v{v}\n");
    let mut n = 0;
    macro_rules! sec {
        ($name:expr, $field:ident) => {
            if let Some(s) = &f.$field {
                match cx.call(P, "printing a section alone", || s.to_string(v)) {
                    None => return,
                    Some(None) => {}
                    Some(Some(t)) => {
                        n += 1;
                        want.push_str(&format!("\n[{}]\n{t}\n", $name));
                    }
                }
            }
        };
    }
    sec!("General", general);
    sec!("Editor", editor);
    sec!("Metadata", metadata);
    sec!("Difficulty", difficulty);
    sec!("Events", events);
    sec!("TimingPoints", timing_points);
    sec!("Colours", colours);
    sec!("HitObjects", hitobjects);
    let norm = |s: &str| {
        s.lines().filter(|l| !l.trim().is_empty()).map(String::from).collect::<Vec<_>>().join("\n")
    };
    if norm(&want) != norm(&text) {
        let d = crate::calls::first_difference(&norm(&text), &norm(&want));
        cx.viol(P, "sections printed alone differ from the file", format!("{n} sections: {d}"));
        return;
    }
    let Some(secs) = split(&text) else { return };
    for s in &secs {
        match s.name.as_str() {
            "TimingPoints" => printed(cx, "timing point", &s.text, &f.timing_points.as_ref().unwrap().0, v),
            "HitObjects" => printed(cx, "hit object", &s.text, &f.hitobjects.as_ref().unwrap().0, v),
            "Colours" => {
                if let Some(c) = &f.colours {
                    printed(cx, "colour", &s.text, &c.0, v)
                }
            }
            "Events" => printed(cx, "event", &s.text, &f.events.as_ref().unwrap().0, v),
            _ => {}
        }
    }
}

fn exec_osb(cx: &mut Ctx, text: &str) {
    let v = 14;
    let Some(secs) = split(text) else { return };
    let whole = open(cx, &[], text, true, v);
    let Some(own) = cx.call(P, "opening a storyboard alone", || Osb::from_str(text, v)) else { return };
    match (&whole, &own) {
        (Opened::Map(f), Ok(o)) => {
            if f.osb != *o {
                cx.viol(P, "a storyboard alone is something else", format!("{o:?}"));
                return;
            }
        }
        (Opened::Err { line, text: t, .. }, Err(e)) => {
            if *line != e.line_index() || *t != e.to_string() {
                cx.viol(P, "another error for a storyboard alone", format!("alone {e}, appended {t}"));
                return;
            }
        }
        (Opened::Panicked, _) => return,
        _ => {
            cx.viol(P, "a storyboard alone and appended are not both readable", format!("{:?}", own.err()));
            return;
        }
    }
    let mut vars: Option<Vec<Variable>> = None;
    let mut evs = None;
    for s in &secs {
        match s.name.as_str() {
            "Variables" => {
                let mut list = Vec::new();
                for (i, l) in s.text.lines().enumerate().filter(|(_, l)| !l.trim().is_empty()) {
                    match cx.call(P, "opening a variable alone", || Variable::from_str(l, v)) {
                        Some(Ok(Some(x))) => list.push(x),
                        Some(Err(e)) => return failed_osb(cx, &whole, secs[0].line, s.line + i, e.to_string()),
                        _ => return,
                    }
                }
                vars = Some(list);
            }
            "Events" => {
                let known = vars.clone().unwrap_or_default();
                match cx.call(P, "opening events alone", || Events::from_str_variables(&s.text, v, &known)) {
                    Some(Ok(Some(e))) => {
                        if let Opened::Map(f) = &whole {
                            if f.osb.as_ref().and_then(|o| o.events.as_ref()) == Some(&e) {
                                events(cx, &s.text, &e, v, &known);
                            }
                        }
                        evs = Some(e);
                    }
                    Some(Err(e)) => {
                        return failed_osb(cx, &whole, secs[0].line, s.line + e.line_index(), e.error().to_string())
                    }
                    _ => return,
                }
            }
            _ => return,
        }
    }
    let Opened::Map(f) = &whole else {
        if let Opened::Err { line, text: t, .. } = &whole {
            if !secs.is_empty() && *line >= secs[0].line {
                cx.viol(P, "the sections of an unreadable file are all readable alone", format!("{t}: {:?}", text.chars().take(200).collect::<String>()));
            }
        }
        return;
    };
    cx.note("opened");
    let asm = Osb { variables: vars, events: evs };
    if f.osb.as_ref() != Some(&asm) {
        cx.viol(P, "the sections opened alone make another storyboard", format!("{asm:?}"));
        return;
    }
    let (a, b) = (cx.call(P, "printing the storyboard", || f.osb_to_string()), cx.call(P, "printing a storyboard alone", || asm.to_string(v)));
    let (Some(a), Some(b)) = (a, b) else { return };
    if a != b {
        cx.viol(P, "a storyboard printed alone differs", format!("{a:?} {b:?}"));
        return;
    }
    let text = a.unwrap_or_default();
    for s in split(&text).unwrap_or_default() {
        let known = asm.variables.clone().unwrap_or_default();
        let want = match (s.name.as_str(), &asm.events) {
            ("Variables", _) => cx.call(P, "printing variables alone", || {
                known.iter().filter_map(|x| x.to_string(v)).collect::<Vec<_>>().join("\n")
            }),
            ("Events", Some(e)) => cx.call(P, "printing events alone", || {
                e.0.iter().filter_map(|x| x.to_string_variables(v, &known)).collect::<Vec<_>>().join("\n")
            }),
            _ => continue,
        };
        let Some(want) = want else { return };
        if want.trim_matches('\n') != s.text.trim_matches('\n') {
            let d = crate::calls::first_difference(&s.text, &want);
            cx.viol(P, "records printed alone differ from the file", format!("[{}]: {d}", s.name));
            return;
        }
    }
}

fn failed_osb(cx: &mut Ctx, whole: &Opened, first: usize, line: usize, text: String) {
    match whole {
        Opened::Map(_) => cx.viol(P, "a part of a readable file is unreadable alone", text),
        Opened::Err { line: l, text: t, .. } if *l >= first => {
            if !t.ends_with(&text) {
                cx.viol(P, "another error for a part alone", format!("alone {text:?}, in its file {t:?}"));
            }
            if *l != line {
                cx.viol(P, "another line for a part alone", format!("alone line {line}, in its file line {l}: {text}"));
            }
        }
        _ => {}
    }
}

pub fn gen(r: &mut Rng) -> Parts {
    let mut input = if r.chance(1, 2) { input::focused(r) } else { input::good(r, None, 20) };
    let len = input.good().len();
    if !r.chance(1, 8) {
        input.faults = gen::faults(r, len, 2);
    }
    input.latin = r.chance(1, 8);
    Parts { input }
}
