//! Stored files: what they were and what storage did to them.

use crate::disk::{apply, decode, Fault};
use crate::gen;
use crate::model::*;
use crate::rng::Rng;
use crate::runner::Ctx;
use serde::{Deserialize, Serialize};

include!(concat!(env!("OUT_DIR"), "/corpus.rs"));

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Base {
    Map(MMap),
    Osb(MOsb),
    Lines { osb: bool, lines: Vec<String> },
    /// nested loops `depth` deep in a storyboard sprite
    Deep { osb: bool, depth: u32 },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Input {
    pub base: Base,
    #[serde(default)]
    pub layout: Layout,
    #[serde(default)]
    pub faults: Vec<Fault>,
    #[serde(default)]
    pub latin: bool,
}

impl Input {
    pub fn is_osb(&self) -> bool {
        match &self.base {
            Base::Map(_) => false,
            Base::Osb(_) => true,
            Base::Lines { osb, .. } | Base::Deep { osb, .. } => *osb,
        }
    }
    pub fn doc(&self) -> Doc {
        match &self.base {
            Base::Map(m) => m.render(&self.layout),
            Base::Osb(o) => o.render(&self.layout),
            Base::Lines { lines, .. } => lines_doc(lines, &self.layout),
            Base::Deep { osb, depth } => {
                let mut l = vec![];
                if !osb {
                    l.push("osu file format v14".to_string());
                }
                l.push("[Events]".to_string());
                l.push("Sprite,Background,Centre,a.png,0,0".to_string());
                for d in 1..=*depth as usize {
                    l.push(format!("{}L,0,1", " ".repeat(d)));
                }
                lines_doc(&l, &self.layout)
            }
        }
    }
    pub fn good(&self) -> String {
        self.doc().text()
    }
    /// The bytes after the faults.
    pub fn stored(&self, cx: Option<&mut Ctx>) -> Vec<u8> {
        let mut b = self.good().into_bytes();
        let mut fired = vec![];
        for f in &self.faults {
            if apply(&mut b, f) {
                fired.push(f.kind());
            }
        }
        if let Some(cx) = cx {
            for k in fired {
                cx.fault(k);
            }
        }
        b
    }
    pub fn text(&self, cx: Option<&mut Ctx>) -> String {
        decode(&self.stored(cx), self.latin)
    }
    /// The version in the undamaged file.
    pub fn version(&self) -> u8 {
        match &self.base {
            Base::Map(m) => m.version,
            Base::Lines { lines, osb: false } => lines
                .iter()
                .find_map(|l| l.trim().trim_start_matches('\u{feff}').strip_prefix("osu file format v")?.trim().parse().ok())
                .unwrap_or(14),
            _ => 14,
        }
    }
}

fn lines_doc(lines: &[String], lay: &Layout) -> Doc {
    let mut r = Rng::new(lay.sprinkle);
    let mut out = vec![];
    let mut section = "";
    for _ in 0..lay.lead_blank {
        out.push(Line { text: String::new(), kind: LineKind::Blank, section, rec: None, ending: "\n" });
    }
    for l in lines {
        let t = l.trim();
        let kind = if t.is_empty() {
            LineKind::Blank
        } else if t.starts_with('[') && t.ends_with(']') {
            section = match t {
                "[General]" => "General",
                "[Editor]" => "Editor",
                "[Metadata]" => "Metadata",
                "[Difficulty]" => "Difficulty",
                "[Events]" => "Events",
                "[TimingPoints]" => "TimingPoints",
                "[Colours]" => "Colours",
                "[HitObjects]" => "HitObjects",
                "[Variables]" => "Variables",
                _ => "",
            };
            LineKind::Header
        } else if section.is_empty() {
            if t.contains("osu file format") {
                LineKind::Version
            } else {
                LineKind::Note
            }
        } else {
            match section {
                "Events" if l.starts_with([' ', '_']) => LineKind::Cmd,
                "Events" => LineKind::Event,
                "TimingPoints" => LineKind::Timing,
                "Colours" => LineKind::Colour,
                "HitObjects" => LineKind::Ho,
                "Variables" => LineKind::Var,
                _ => LineKind::Kv,
            }
        };
        let ending = match lay.endings {
            0 => "\n",
            1 => "\r\n",
            _ => {
                if r.chance(1, 2) {
                    "\n"
                } else {
                    "\r\n"
                }
            }
        };
        out.push(Line { text: l.clone(), kind, section, rec: None, ending });
    }
    if !lay.final_newline {
        if let Some(l) = out.last_mut() {
            l.ending = "";
        }
    }
    Doc { lines: out, bom: lay.bom }
}

/// An excerpt of a real file: every section, some of its lines.
pub fn corpus(r: &mut Rng, osb: Option<bool>) -> Base {
    loop {
        let (name, text) = CORPUS[r.below(CORPUS.len())];
        let is = name.ends_with(".osb");
        if osb.map(|o| o != is).unwrap_or(false) {
            continue;
        }
        let mut lines: Vec<String> = text.lines().map(|s| s.to_string()).collect();
        // thin it out: keep headers, the version line, and a window of each section
        if r.chance(2, 3) {
            let keep = 2 + r.below(12);
            let mut out = vec![];
            let mut n = 0;
            let mut skip = 0;
            for l in lines {
                let t = l.trim();
                if t.starts_with('[') && t.ends_with(']') {
                    n = 0;
                    skip = if t == "[Events]" { 0 } else { r.below(6) };
                    out.push(l);
                } else if t.starts_with("osu file") || t.is_empty() {
                    out.push(l);
                } else {
                    n += 1;
                    if n > skip && n <= skip + keep {
                        out.push(l);
                    }
                }
            }
            lines = out;
        }
        return Base::Lines { osb: is, lines };
    }
}

pub fn good(r: &mut Rng, osb: Option<bool>, corpus_pct: usize) -> Input {
    if r.below(100) < corpus_pct {
        let base = corpus(r, osb);
        return Input {
            base,
            layout: Layout { endings: *r.pick(&[0, 1, 2]), final_newline: r.chance(1, 2), sprinkle: r.next() % 1000, ..Default::default() },
            faults: vec![],
            latin: false,
        };
    }
    let is = osb.unwrap_or_else(|| r.chance(1, 3));
    let z = gen::small(r);
    let base = if is {
        Base::Osb(gen::osb(r, z))
    } else {
        let v = gen::version(r);
        Base::Map(gen::map(r, v, z))
    };
    Input { base, layout: gen::layout(r), faults: vec![], latin: false }
}

/// A file of a few records of one kind: faults hit them more often.
pub fn focused(r: &mut Rng) -> Input {
    let mut m = MMap { version: gen::version(r), ..Default::default() };
    let n = 1 + r.below(6);
    match r.below(8) {
        0..=2 => m.timing = Some((0..n).map(|_| gen::tp(r)).collect()),
        3..=5 => m.hitobjects = Some((0..n).map(|_| gen::ho(r)).collect()),
        6 => m.events = Some((0..n).map(|_| gen::event(r, m.version, true)).collect()),
        _ => m.events = Some((0..3 * n).map(|_| gen::event(r, m.version, true)).collect()),
    }
    let mut layout = gen::layout(r);
    layout.notes = 0;
    Input { base: Base::Map(m), layout, faults: vec![], latin: false }
}

pub fn damaged(r: &mut Rng, osb: Option<bool>, corpus_pct: usize, max: usize) -> Input {
    let mut i = good(r, osb, corpus_pct);
    let len = i.good().len();
    i.faults = gen::faults(r, len, max);
    i.latin = r.chance(1, 4);
    i
}
