//! The reference model: an independent description of a beatmap, how it is written to text in each
//! format version, and what each format version can store.  Nothing here calls the library.

use serde::{Deserialize, Serialize};
use std::fmt;
use std::str::FromStr;

pub type RDec = rust_decimal::Decimal;

/// A decimal literal, compared by value when it is a number and by text otherwise.
#[derive(Clone, Serialize, Deserialize)]
#[serde(transparent)]
pub struct Dec(pub String);

impl Dec {
    pub fn num(&self) -> Option<RDec> {
        RDec::from_str(&self.0).ok()
    }
    pub fn canon(&self) -> String {
        match self.num() {
            Some(d) if d.is_zero() => "0".into(),
            Some(d) => d.normalize().to_string(),
            None => self.0.clone(),
        }
    }
    pub fn i(v: i64) -> Dec {
        Dec(v.to_string())
    }
    /// The literal a format that stores times 24 ms early holds for this value.
    pub fn early(&self, v: u8) -> String {
        if v == 3 || v == 4 {
            match self.num().and_then(|d| d.checked_sub(RDec::from(24))) {
                Some(d) => d.to_string(),
                None => self.0.clone(),
            }
        } else {
            self.0.clone()
        }
    }
}
impl PartialEq for Dec {
    fn eq(&self, o: &Dec) -> bool {
        self.0 == o.0 || self.canon() == o.canon()
    }
}
impl fmt::Debug for Dec {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{}", self.canon())
    }
}

pub type Pos = (Dec, Dec);

#[derive(Clone, PartialEq, Debug, Serialize, Deserialize, Default)]
pub struct MMap {
    pub version: u8,
    pub general: Option<Vec<(String, String)>>,
    pub editor: Option<Vec<(String, String)>>,
    pub metadata: Option<Vec<(String, String)>>,
    pub difficulty: Option<Vec<(String, String)>>,
    pub events: Option<Vec<MEvent>>,
    pub timing: Option<Vec<MTp>>,
    pub colours: Option<Vec<MColour>>,
    pub hitobjects: Option<Vec<MHo>>,
    #[serde(default)]
    pub osb: Option<MOsb>,
}

#[derive(Clone, PartialEq, Debug, Serialize, Deserialize, Default)]
pub struct MOsb {
    pub variables: Option<Vec<(String, String)>>,
    pub events: Option<Vec<MEvent>>,
}

#[derive(Clone, PartialEq, Debug, Serialize, Deserialize)]
pub enum MEvent {
    Comment(String),
    Background { t: i32, file: String, pos: Option<Pos>, cmds: Vec<MCmd> },
    Video { long: MFlag, t: i32, file: String, pos: Option<Pos>, cmds: Vec<MCmd> },
    Break { long: MFlag, s: i32, e: i32 },
    ColT { t: i32, rgb: (u8, u8, u8) },
    SpriteL { layer: u8, origin: u8, file: String, pos: Option<Pos>, cmds: Vec<MCmd> },
    AnimL { layer: u8, origin: u8, file: String, pos: Option<Pos>, cmds: Vec<MCmd> },
    SampleL { t: Dec, layer: u8, file: String, vol: Option<u8>, cmds: Vec<MCmd> },
    Obj { layer: u8, origin: i32, short: bool, file: String, pos: Pos, anim: Option<MAnim>, cmds: Vec<MCmd> },
    Audio { t: i32, layer: u8, file: String, vol: u8 },
}

/// A purely presentational flag: it selects a spelling and is not part of the value.
#[derive(Clone, Copy, Serialize, Deserialize, Default)]
#[serde(transparent)]
pub struct MFlag(pub bool);
impl fmt::Debug for MFlag {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("_")
    }
}
impl PartialEq for MFlag {
    fn eq(&self, _: &MFlag) -> bool {
        true
    }
}

#[derive(Clone, PartialEq, Debug, Serialize, Deserialize)]
pub struct MAnim {
    pub count: u32,
    pub delay: Dec,
    pub once: bool,
}

#[derive(Clone, PartialEq, Debug, Serialize, Deserialize)]
pub struct MCmd {
    pub start: Option<i32>,
    pub kind: MCmdKind,
}

#[derive(Clone, PartialEq, Debug, Serialize, Deserialize)]
pub enum MCmdKind {
    /// F, MX, MY, S, R
    One { op: String, easing: i32, end: Option<i32>, first: Dec, cont: Vec<Dec> },
    /// M, V
    Two { op: String, easing: i32, end: Option<i32>, first: Pos, cont: Vec<(Dec, Option<Dec>)> },
    Col { easing: i32, end: Option<i32>, first: (u8, u8, u8), cont: Vec<(u8, Option<u8>, Option<u8>)> },
    Par { easing: i32, end: Option<i32>, first: String, cont: Vec<String> },
    Loop { count: u32, cmds: Vec<MCmd> },
    Trig { ty: MTrig, end: Option<i32>, group: Option<i32>, cmds: Vec<MCmd> },
}

#[derive(Clone, PartialEq, Debug, Serialize, Deserialize)]
pub enum MTrig {
    Hit { set: Option<u8>, add_set: Option<u8>, add: Option<u8>, custom: Option<u64> },
    Passing,
    Failing,
}

#[derive(Clone, PartialEq, Debug, Serialize, Deserialize)]
pub struct MTp {
    pub t: Dec,
    pub beat: Dec,
    pub meter: i32,
    pub set: i32,
    pub idx: u32,
    pub vol: i32,
    pub uninh: Option<bool>,
    pub eff: Option<u32>,
}

#[derive(Clone, PartialEq, Debug, Serialize, Deserialize)]
pub enum MColour {
    Combo(i32, (u8, u8, u8)),
    Track((u8, u8, u8)),
    Border((u8, u8, u8)),
}

#[derive(Clone, PartialEq, Debug, Serialize, Deserialize)]
pub struct MHo {
    pub x: Dec,
    pub y: Dec,
    pub t: Dec,
    pub nc: bool,
    pub skip: u8,
    pub hs: u8,
    pub kind: MHoKind,
    pub sample: Option<MSample>,
}

#[derive(Clone, PartialEq, Debug, Serialize, Deserialize)]
pub enum MHoKind {
    Circle,
    Slider {
        ct: String,
        pts: Vec<Pos>,
        slides: i32,
        len: Dec,
        es: Vec<u8>,
        esets: Vec<(u64, u64)>,
        /// 0: fields omitted when empty, 1: edge sounds written, 2: edge sounds and sets written
        form: MForm,
    },
    Spinner { end: Dec },
    Hold { end: Dec },
}

#[derive(Clone, Copy, Serialize, Deserialize, Default)]
#[serde(transparent)]
pub struct MForm(pub u8);
impl fmt::Debug for MForm {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("_")
    }
}
impl PartialEq for MForm {
    fn eq(&self, _: &MForm) -> bool {
        true
    }
}

#[derive(Clone, PartialEq, Debug, Serialize, Deserialize, Default)]
pub struct MSample {
    pub n: u64,
    pub a: u64,
    pub i: u64,
    pub v: u8,
    pub f: String,
}

pub const LAYERS: [&str; 5] = ["Background", "Fail", "Pass", "Foreground", "Overlay"];
pub const ORIGINS: [&str; 10] = [
    "TopLeft", "Centre", "CentreLeft", "TopRight", "BottomCentre", "TopCentre", "Custom", "CentreRight",
    "BottomLeft", "BottomRight",
];
pub const TSETS: [&str; 4] = ["All", "Normal", "Soft", "Drum"];
pub const TADDS: [&str; 3] = ["Whistle", "Finish", "Clap"];

/// How a key/value setting's value is typed.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Kv {
    Str,
    Int,
    Dec,
    Bool,
    IntList,
    Tags,
    Mode,
    Countdown,
    SampleSet,
    Overlay,
}

pub const GENERAL: [(&str, Kv); 21] = [
    ("AudioFilename", Kv::Str),
    ("AudioLeadIn", Kv::Int),
    ("AudioHash", Kv::Str),
    ("PreviewTime", Kv::Int),
    ("Countdown", Kv::Countdown),
    ("SampleSet", Kv::SampleSet),
    ("StackLeniency", Kv::Dec),
    ("Mode", Kv::Mode),
    ("LetterboxInBreaks", Kv::Bool),
    ("StoryFireInFront", Kv::Bool),
    ("UseSkinSprites", Kv::Bool),
    ("AlwaysShowPlayfield", Kv::Bool),
    ("OverlayPosition", Kv::Overlay),
    ("SkinPreference", Kv::Str),
    ("EpilepsyWarning", Kv::Bool),
    ("CountdownOffset", Kv::Int),
    ("SpecialStyle", Kv::Bool),
    ("WidescreenStoryboard", Kv::Bool),
    ("SamplesMatchPlaybackRate", Kv::Bool),
    ("EditorBookmarks", Kv::IntList),
    ("EditorDistanceSpacing", Kv::Dec),
];
pub const EDITOR: [(&str, Kv); 6] = [
    ("Bookmarks", Kv::IntList),
    ("DistanceSpacing", Kv::Dec),
    ("BeatDivisor", Kv::Dec),
    ("GridSize", Kv::Int),
    ("TimelineZoom", Kv::Dec),
    ("CurrentTime", Kv::Int),
];
pub const METADATA: [(&str, Kv); 10] = [
    ("Title", Kv::Str),
    ("TitleUnicode", Kv::Str),
    ("Artist", Kv::Str),
    ("ArtistUnicode", Kv::Str),
    ("Creator", Kv::Str),
    ("Version", Kv::Str),
    ("Source", Kv::Str),
    ("Tags", Kv::Tags),
    ("BeatmapID", Kv::Int),
    ("BeatmapSetID", Kv::Int),
];
pub const DIFFICULTY: [(&str, Kv); 6] = [
    ("HPDrainRate", Kv::Dec),
    ("CircleSize", Kv::Dec),
    ("OverallDifficulty", Kv::Dec),
    ("ApproachRate", Kv::Dec),
    ("SliderMultiplier", Kv::Dec),
    ("SliderTickRate", Kv::Dec),
];

pub fn kv_table(section: &str) -> &'static [(&'static str, Kv)] {
    match section {
        "General" => &GENERAL,
        "Editor" => &EDITOR,
        "Metadata" => &METADATA,
        _ => &DIFFICULTY,
    }
}

pub fn kv_kind(key: &str) -> Option<Kv> {
    for t in [&GENERAL[..], &EDITOR[..], &METADATA[..], &DIFFICULTY[..]] {
        for (k, kind) in t {
            if *k == key {
                return Some(*kind);
            }
        }
    }
    None
}

pub fn kv_canon(key: &str, val: &str) -> String {
    match kv_kind(key) {
        Some(Kv::Dec) => Dec(val.to_string()).canon(),
        Some(Kv::Int | Kv::Mode | Kv::Countdown | Kv::Bool) => {
            val.trim().parse::<i64>().map(|v| v.to_string()).unwrap_or_else(|_| val.to_string())
        }
        Some(Kv::IntList) => val
            .split(',')
            .map(|v| v.parse::<i64>().map(|v| v.to_string()).unwrap_or_else(|_| v.to_string()))
            .collect::<Vec<_>>()
            .join(","),
        _ => val.to_string(),
    }
}

fn mode_ok(v: u8, mode: &str) -> bool {
    match mode {
        "1" => v >= 5,
        "2" => v >= 7,
        "3" => v >= 10,
        _ => true,
    }
}

/// Whether a file of version `v` that contains this setting yields it when opened.
pub fn kv_readable(v: u8, key: &str, val: &str) -> bool {
    match key {
        "Countdown" => v >= 5,
        "SampleSet" => v >= 4,
        "OverlayPosition" => v >= 14,
        "Mode" => mode_ok(v, val),
        _ => true,
    }
}

/// Whether a save in version `v` keeps this setting.
pub fn kv_storable(v: u8, key: &str, val: &str) -> bool {
    kv_readable(v, key, val)
        && match key {
            "AudioHash" => v <= 13,
            "EditorBookmarks" | "EditorDistanceSpacing" => v <= 5,
            "CurrentTime" => v == 10,
            _ => true,
        }
}

pub fn norm_file(f: &str) -> String {
    if f.contains(' ') && !(f.starts_with('"') && f.ends_with('"')) {
        format!("\"{f}\"")
    } else {
        f.to_string()
    }
}

impl MEvent {
    pub fn cmds(&self) -> Option<&Vec<MCmd>> {
        match self {
            MEvent::Background { cmds, .. }
            | MEvent::Video { cmds, .. }
            | MEvent::SpriteL { cmds, .. }
            | MEvent::AnimL { cmds, .. }
            | MEvent::SampleL { cmds, .. }
            | MEvent::Obj { cmds, .. } => Some(cmds),
            _ => None,
        }
    }
    pub fn cmds_mut(&mut self) -> Option<&mut Vec<MCmd>> {
        match self {
            MEvent::Background { cmds, .. }
            | MEvent::Video { cmds, .. }
            | MEvent::SpriteL { cmds, .. }
            | MEvent::AnimL { cmds, .. }
            | MEvent::SampleL { cmds, .. }
            | MEvent::Obj { cmds, .. } => Some(cmds),
            _ => None,
        }
    }
    pub fn file_mut(&mut self) -> Option<&mut String> {
        match self {
            MEvent::Background { file, .. }
            | MEvent::Video { file, .. }
            | MEvent::SpriteL { file, .. }
            | MEvent::AnimL { file, .. }
            | MEvent::SampleL { file, .. }
            | MEvent::Audio { file, .. }
            | MEvent::Obj { file, .. } => Some(file),
            _ => None,
        }
    }
    /// The event without its commands.
    pub fn head(&self) -> MEvent {
        let mut e = self.clone();
        if let Some(c) = e.cmds_mut() {
            c.clear();
        }
        e
    }
    pub fn kind_name(&self) -> &'static str {
        match self {
            MEvent::Comment(_) => "comment",
            MEvent::Background { .. } => "background",
            MEvent::Video { .. } => "video",
            MEvent::Break { .. } => "break",
            MEvent::ColT { .. } => "colt",
            MEvent::SpriteL { .. } => "spritel",
            MEvent::AnimL { .. } => "animl",
            MEvent::SampleL { .. } => "samplel",
            MEvent::Obj { anim: None, .. } => "sprite",
            MEvent::Obj { .. } => "animation",
            MEvent::Audio { .. } => "audio",
        }
    }
}

impl MCmd {
    pub fn sub(&self) -> Option<&Vec<MCmd>> {
        match &self.kind {
            MCmdKind::Loop { cmds, .. } | MCmdKind::Trig { cmds, .. } => Some(cmds),
            _ => None,
        }
    }
    pub fn sub_mut(&mut self) -> Option<&mut Vec<MCmd>> {
        match &mut self.kind {
            MCmdKind::Loop { cmds, .. } | MCmdKind::Trig { cmds, .. } => Some(cmds),
            _ => None,
        }
    }
    pub fn head(&self) -> MCmd {
        let mut c = self.clone();
        if let Some(s) = c.sub_mut() {
            s.clear();
        }
        c
    }
}

/// Reference semantics of adding a command at a depth.
pub fn push_cmd(cmds: &mut Vec<MCmd>, cmd: MCmd, depth: usize) -> bool {
    if depth == 0 {
        return false;
    }
    let mut cur = cmds;
    for _ in 1..depth {
        match cur.last_mut().and_then(|c| c.sub_mut()) {
            Some(s) => cur = s,
            None => return false,
        }
    }
    cur.push(cmd);
    true
}

// ------------------------------------------------------------------------------------------------
// Rendering to text

fn o<T: fmt::Display>(x: &Option<T>) -> String {
    x.as_ref().map(|v| v.to_string()).unwrap_or_default()
}

fn pos_text(p: &Option<Pos>) -> String {
    match p {
        Some((x, y)) => format!(",{},{}", x.0, y.0),
        None => String::new(),
    }
}

fn early_i(t: i32, v: u8) -> i32 {
    if v == 3 || v == 4 {
        t.saturating_sub(24)
    } else {
        t
    }
}

impl MTrig {
    pub fn text(&self) -> String {
        match self {
            MTrig::Passing => "Passing".into(),
            MTrig::Failing => "Failing".into(),
            MTrig::Hit { set, add_set, add, custom } => format!(
                "HitSound{}{}{}{}",
                set.map(|s| TSETS[s as usize % 4]).unwrap_or(""),
                add_set.map(|s| TSETS[s as usize % 4]).unwrap_or(""),
                add.map(|s| TADDS[s as usize % 3]).unwrap_or(""),
                o(custom)
            ),
        }
    }
}

impl MCmd {
    /// The command's own line, without indentation.
    pub fn text(&self) -> String {
        let st = o(&self.start);
        match &self.kind {
            MCmdKind::One { op, easing, end, first, cont } => {
                let mut s = format!("{op},{easing},{st},{},{}", o(end), first.0);
                for c in cont {
                    s.push(',');
                    s.push_str(&c.0);
                }
                s
            }
            MCmdKind::Two { op, easing, end, first, cont } => {
                let mut s = format!("{op},{easing},{st},{},{},{}", o(end), first.0 .0, first.1 .0);
                for (a, b) in cont {
                    s.push(',');
                    s.push_str(&a.0);
                    if let Some(b) = b {
                        s.push(',');
                        s.push_str(&b.0);
                    }
                }
                s
            }
            MCmdKind::Col { easing, end, first, cont } => {
                let mut s = format!("C,{easing},{st},{},{},{},{}", o(end), first.0, first.1, first.2);
                for (r, g, b) in cont {
                    s.push_str(&format!(",{r}"));
                    if let Some(g) = g {
                        s.push_str(&format!(",{g}"));
                    }
                    if let Some(b) = b {
                        s.push_str(&format!(",{b}"));
                    }
                }
                s
            }
            MCmdKind::Par { easing, end, first, cont } => {
                let mut s = format!("P,{easing},{st},{},{first}", o(end));
                for c in cont {
                    s.push(',');
                    s.push_str(c);
                }
                s
            }
            MCmdKind::Loop { count, .. } => format!("L,{st},{count}"),
            MCmdKind::Trig { ty, end, group, .. } => {
                let mut s = format!("T,{}", ty.text());
                let fields = if group.is_some() {
                    3
                } else if end.is_some() {
                    2
                } else if self.start.is_some() {
                    1
                } else {
                    0
                };
                if fields >= 1 {
                    s.push_str(&format!(",{st}"));
                }
                if fields >= 2 {
                    s.push_str(&format!(",{}", o(end)));
                }
                if fields >= 3 {
                    s.push_str(&format!(",{}", o(group)));
                }
                s
            }
        }
    }
}

impl MEvent {
    /// The event's own line.
    pub fn text(&self, v: u8) -> String {
        match self {
            MEvent::Comment(c) => format!("//{c}"),
            MEvent::Background { t, file, pos, .. } => format!("0,{t},{file}{}", pos_text(pos)),
            MEvent::Video { long, t, file, pos, .. } => {
                format!("{},{},{file}{}", if long.0 { "Video" } else { "1" }, early_i(*t, v), pos_text(pos))
            }
            MEvent::Break { long, s, e } => {
                format!("{},{},{}", if long.0 { "Break" } else { "2" }, early_i(*s, v), early_i(*e, v))
            }
            MEvent::ColT { t, rgb } => format!("3,{},{},{},{}", early_i(*t, v), rgb.0, rgb.1, rgb.2),
            MEvent::SpriteL { layer, origin, file, pos, .. } => {
                format!("4,{layer},{origin},{file}{}", pos_text(pos))
            }
            MEvent::AnimL { layer, origin, file, pos, .. } => {
                format!("5,{layer},{origin},{file}{}", pos_text(pos))
            }
            MEvent::SampleL { t, layer, file, vol, .. } => {
                format!("6,{},{layer},{file}{}", t.0, vol.map(|v| format!(",{v}")).unwrap_or_default())
            }
            MEvent::Obj { layer, origin, short, file, pos, anim, .. } => {
                let origin = if *short || !(0..10).contains(origin) {
                    origin.to_string()
                } else {
                    ORIGINS[*origin as usize].to_string()
                };
                let head = format!("{},{origin},{file},{},{}", LAYERS[*layer as usize % 5], pos.0 .0, pos.1 .0);
                match anim {
                    None => format!("Sprite,{head}"),
                    Some(a) => format!(
                        "Animation,{head},{},{},{}",
                        a.count,
                        a.delay.0,
                        if a.once { "LoopOnce" } else { "LoopForever" }
                    ),
                }
            }
            MEvent::Audio { t, layer, file, vol } => format!("Sample,{t},{layer},{file},{vol}"),
        }
    }
}

impl MTp {
    pub fn text(&self, v: u8) -> String {
        let mut s = format!("{},{}", self.t.early(v), self.beat.0);
        if v >= 4 {
            s.push_str(&format!(",{},{},{}", self.meter, self.set, self.idx));
        }
        if v >= 5 {
            s.push_str(&format!(",{}", self.vol));
            match (self.uninh, self.eff) {
                (None, None) => {}
                (Some(u), None) if v == 5 => s.push_str(&format!(",{}", u as u8)),
                (u, e) => s.push_str(&format!(",{},{}", u.unwrap_or(true) as u8, e.unwrap_or(0))),
            }
        }
        s
    }
}

impl MColour {
    pub fn text(&self, form: u8) -> String {
        let sep = [" : ", ":", ": ", " :"][form as usize % 4];
        let rgb = |c: &(u8, u8, u8)| match form / 4 % 2 {
            0 => format!("{},{},{}", c.0, c.1, c.2),
            _ => format!("{}, {}, {}", c.0, c.1, c.2),
        };
        match self {
            MColour::Combo(n, c) => format!("Combo{n}{sep}{}", rgb(c)),
            MColour::Track(c) => format!("SliderTrackOverride{sep}{}", rgb(c)),
            MColour::Border(c) => {
                format!("{}{sep}{}", if form / 8 % 2 == 0 { "SliderBorder" } else { "Sliderborder" }, rgb(c))
            }
        }
    }
}

impl MSample {
    pub fn text(&self, v: u8) -> String {
        if v <= 11 {
            format!("{}:{}:{}", self.n, self.a, self.i)
        } else {
            format!("{}:{}:{}:{}:{}", self.n, self.a, self.i, self.v, self.f)
        }
    }
}

impl MHo {
    pub fn text(&self, v: u8) -> String {
        let ty = match self.kind {
            MHoKind::Circle => 1u32,
            MHoKind::Slider { .. } => 2,
            MHoKind::Spinner { .. } => 8,
            MHoKind::Hold { .. } => 128,
        } | if self.nc { 4 } else { 0 }
            | (self.skip as u32) << 4;
        let head = format!("{},{},{},{ty},{}", self.x.0, self.y.0, self.t.early(v), self.hs);
        let sample = if v >= 10 { self.sample.as_ref().map(|s| s.text(v)) } else { None };
        match &self.kind {
            MHoKind::Circle => match (v, sample) {
                (3, _) => format!("{head},"),
                (_, Some(s)) => format!("{head},{s}"),
                _ => head,
            },
            MHoKind::Spinner { end } => {
                let end = end.early(v);
                match sample {
                    Some(s) => format!("{head},{end},{s}"),
                    None => format!("{head},{end}"),
                }
            }
            MHoKind::Hold { end } => format!("{head},{}:{}", end.early(v), sample.unwrap_or_default()),
            MHoKind::Slider { ct, pts, slides, len, es, esets, form } => {
                let mut s = format!("{head},{ct}");
                let mut p: Vec<String> = Vec::new();
                if v == 3 {
                    p.push(format!("{}:{}", self.x.0, self.y.0));
                }
                for (x, y) in pts {
                    p.push(format!("{}:{}", x.0, y.0));
                }
                if !p.is_empty() {
                    s.push('|');
                    s.push_str(&p.join("|"));
                }
                s.push_str(&format!(",{slides},{}", len.0));
                let sets = !esets.is_empty() || form.0 >= 2 || sample.is_some();
                let sounds = !es.is_empty() || form.0 >= 1 || sets;
                if sounds {
                    s.push(',');
                    s.push_str(&es.iter().map(|e| e.to_string()).collect::<Vec<_>>().join("|"));
                }
                if sets {
                    s.push(',');
                    s.push_str(&esets.iter().map(|e| format!("{}:{}", e.0, e.1)).collect::<Vec<_>>().join("|"));
                }
                if let Some(sm) = sample {
                    s.push(',');
                    s.push_str(&sm);
                }
                s
            }
        }
    }
}

#[derive(Clone, PartialEq, Debug)]
pub enum LineKind {
    Version,
    Blank,
    Note,
    Header,
    Kv,
    Event,
    Cmd,
    Timing,
    Colour,
    Ho,
    Var,
}

#[derive(Clone, Debug)]
pub struct Line {
    pub text: String,
    pub kind: LineKind,
    /// `General`, `Events`, ... of the section the line is in
    pub section: &'static str,
    /// Canonical text of the record the line holds, if opening the file yields one for it.
    pub rec: Option<String>,
    pub ending: &'static str,
}

/// Presentational choices of a file, explicit so that minimisation can simplify them.
#[derive(Clone, Debug, Serialize, Deserialize, Default)]
pub struct Layout {
    pub bom: bool,
    /// blank lines before the version line
    pub lead_blank: u8,
    /// indentation of the version line
    pub lead_indent: u8,
    /// 0: LF, 1: CRLF, 2: mixed
    pub endings: u8,
    pub final_newline: bool,
    /// section order: a rotation / permutation seed (0 = canonical order)
    pub order: u32,
    /// seed of the per-line sprinkling below (used only when a rate is non-zero)
    pub sprinkle: u64,
    /// blank line before a record, out of 100
    pub blank_pct: u8,
    /// indentation of key/value and colour lines, out of 100
    pub indent_pct: u8,
    /// `_` instead of ` ` in command indentation, out of 100
    pub underscore_pct: u8,
    /// comment lines before the first section
    pub notes: u8,
    /// spaces before the first header and after each of them (n % 4, n / 4)
    #[serde(default)]
    pub head_space: u8,
    /// blank lines after a section header and between sections
    pub header_gap: u8,
    pub section_gap: u8,
    /// spaces after `key:`
    pub kv_space: u8,
    /// alternative spellings (colours, short hit samples), out of 100
    pub alt_pct: u8,
    /// this many further blank lines, before this line
    #[serde(default)]
    pub flood: u32,
    #[serde(default)]
    pub flood_at: u32,
}

impl Layout {
    /// Put in the mass of blank lines, if there is one.
    pub fn flooded(&self, mut lines: Vec<Line>) -> Vec<Line> {
        if self.flood > 0 {
            let at = self.flood_at as usize % (lines.len() + 1);
            let section = if at == 0 { "" } else { lines[at - 1].section };
            let ending = if self.endings == 1 { "\r\n" } else { "\n" };
            let blank = Line { text: String::new(), kind: LineKind::Blank, section, rec: None, ending };
            lines.splice(at..at, std::iter::repeat_n(blank, self.flood as usize));
        }
        lines
    }
}

pub struct Doc {
    pub lines: Vec<Line>,
    pub bom: bool,
}

impl Doc {
    pub fn text(&self) -> String {
        let mut s = String::new();
        if self.bom {
            s.push('\u{feff}');
        }
        for l in &self.lines {
            s.push_str(&l.text);
            s.push_str(l.ending);
        }
        s
    }
}

pub fn kv_rec(section: &str, k: &str, val: &str) -> String {
    format!("{section}/{k}={}", kv_canon(k, val))
}

pub const OSU_ORDER: [&str; 8] =
    ["General", "Editor", "Metadata", "Difficulty", "Events", "TimingPoints", "Colours", "HitObjects"];

fn permute<T: Clone>(xs: &[T], seed: u32) -> Vec<T> {
    let mut v = xs.to_vec();
    if seed == 0 {
        return v;
    }
    let mut r = crate::rng::Rng::new(seed as u64);
    for i in (1..v.len()).rev() {
        v.swap(i, r.below(i + 1));
    }
    v
}

struct W<'a> {
    lines: Vec<Line>,
    lay: &'a Layout,
    r: crate::rng::Rng,
}

impl W<'_> {
    fn pct(&mut self, p: u8) -> bool {
        p > 0 && self.r.below(100) < p as usize
    }
    fn push(&mut self, text: String, kind: LineKind, section: &'static str, rec: Option<String>) {
        let ending = match self.lay.endings {
            0 => "\n",
            1 => "\r\n",
            _ => {
                if self.r.chance(1, 2) {
                    "\n"
                } else {
                    "\r\n"
                }
            }
        };
        self.lines.push(Line { text, kind, section, rec, ending });
    }
    fn blanks(&mut self, n: u8, section: &'static str) {
        for _ in 0..n {
            self.push(String::new(), LineKind::Blank, section, None);
        }
    }
    fn record(&mut self, text: String, kind: LineKind, section: &'static str, rec: Option<String>) {
        let p = self.lay.blank_pct;
        if self.pct(p) {
            let n = 1 + self.r.below(3) as u8;
            self.blanks(n, section);
        }
        let ind = self.lay.indent_pct;
        let text = if matches!(kind, LineKind::Kv | LineKind::Colour) && self.pct(ind) {
            format!("{}{}", [" ", "  ", "\t", "    "][self.r.below(4)], text)
        } else {
            text
        };
        self.push(text, kind, section, rec);
    }
    fn header(&mut self, name: &'static str) {
        let g = self.lay.section_gap;
        self.blanks(g, "");
        let first = !self.lines.iter().any(|l| l.kind == LineKind::Header);
        let ind = if first { self.lay.head_space % 4 } else { 0 };
        let tail = self.lay.head_space / 4 % 4;
        self.push(format!("{}[{name}]{}", " ".repeat(ind as usize), " ".repeat(tail as usize)), LineKind::Header, name, None);
        let g = self.lay.header_gap;
        self.blanks(g, name);
    }
    fn cmds(&mut self, cmds: &[MCmd], depth: usize, section: &'static str, dom: &str, vars: &[(String, String)]) {
        for c in cmds {
            let mut ind = String::new();
            for _ in 0..depth {
                let u = self.lay.underscore_pct;
                ind.push(if self.pct(u) { '_' } else { ' ' });
            }
            let text = subst(&c.text(), vars);
            self.record(format!("{ind}{text}"), LineKind::Cmd, section, Some(cmd_rec(dom, c)));
            if let Some(s) = c.sub() {
                self.cmds(s, depth + 1, section, dom, vars);
            }
        }
    }
    fn events(&mut self, evs: &[MEvent], v: u8, dom: &str, vars: &[(String, String)]) {
        for e in evs {
            self.record(e.text(v), LineKind::Event, "Events", Some(ev_rec(dom, e)));
            if let Some(c) = e.cmds() {
                self.cmds(c, 1, "Events", dom, vars);
            }
        }
    }
}

/// What a reader makes of a command line's text: every variable in order, plain replacement.
pub fn expand(text: &str, vars: &[(String, String)]) -> String {
    let Some((_, tail)) = text.split_once(',') else { return text.to_string() };
    let mut cur = text.to_string();
    for (n, val) in vars {
        let full = format!("${n}");
        if tail.contains(&full) {
            cur = cur.replace(&full, val);
        }
    }
    cur
}

/// Use variables in a command's text where that reads back as the same command.
pub fn subst(text: &str, vars: &[(String, String)]) -> String {
    if vars.is_empty() {
        return text.to_string();
    }
    let Some((head, tail)) = text.split_once(',') else { return text.to_string() };
    let mut fields: Vec<String> = tail.split(',').map(|s| s.to_string()).collect();
    for i in 0..fields.len() {
        for (n, val) in vars {
            if !val.is_empty() && *val == fields[i] {
                let old = std::mem::replace(&mut fields[i], format!("${n}"));
                let cand = format!("{head},{}", fields.join(","));
                if expand(&cand, vars) == text {
                    break;
                }
                fields[i] = old;
            }
        }
    }
    format!("{head},{}", fields.join(","))
}

pub fn ev_rec(dom: &str, e: &MEvent) -> String {
    let mut h = e.head();
    if let Some(f) = h.file_mut() {
        *f = norm_file(f);
    }
    format!("{dom}Events/{h:?}")
}
pub fn cmd_rec(dom: &str, c: &MCmd) -> String {
    format!("{dom}Events/cmd {:?}", c.head())
}
pub fn ho_rec(h: &MHo) -> String {
    format!("HitObjects/{:?}", h)
}

impl MMap {
    pub fn kv(&self, s: &str) -> &Option<Vec<(String, String)>> {
        match s {
            "General" => &self.general,
            "Editor" => &self.editor,
            "Metadata" => &self.metadata,
            _ => &self.difficulty,
        }
    }
    pub fn kv_mut(&mut self, s: &str) -> &mut Option<Vec<(String, String)>> {
        match s {
            "General" => &mut self.general,
            "Editor" => &mut self.editor,
            "Metadata" => &mut self.metadata,
            _ => &mut self.difficulty,
        }
    }

    /// Text of the .osu file in version `v`, line by line.
    pub fn render(&self, lay: &Layout) -> Doc {
        let v = self.version;
        let mut w = W { lines: vec![], lay, r: crate::rng::Rng::new(lay.sprinkle) };
        w.blanks(lay.lead_blank, "");
        w.push(
            format!("{}osu file format v{v}", " ".repeat(lay.lead_indent as usize)),
            LineKind::Version,
            "",
            None,
        );
        for i in 0..lay.notes {
            w.push(
                ["// a note", "//", "  // indented [note]", "// key: value", "//[Events]"][i as usize % 5].to_string(),
                LineKind::Note,
                "",
                None,
            );
        }
        let exp = self.readable(v);
        for name in permute(&OSU_ORDER, lay.order) {
            match name {
                "General" | "Editor" | "Metadata" | "Difficulty" => {
                    if let Some(kvs) = self.kv(name) {
                        w.header(name);
                        for (k, val) in kvs {
                            let rec = kv_readable(v, k, val).then(|| kv_rec(name, k, val));
                            w.record(
                                format!("{k}:{}{val}", " ".repeat(lay.kv_space as usize)),
                                LineKind::Kv,
                                name,
                                rec,
                            );
                        }
                    }
                }
                "Events" => {
                    if let Some(e) = &self.events {
                        w.header(name);
                        w.events(e, v, "", &[]);
                    }
                }
                "TimingPoints" => {
                    if let Some(t) = &self.timing {
                        w.header(name);
                        for (i, p) in t.iter().enumerate() {
                            let rec = exp.timing.as_ref().map(|t| format!("TimingPoints/{:?}", t[i]));
                            w.record(p.text(v), LineKind::Timing, name, rec);
                        }
                    }
                }
                "Colours" => {
                    if let Some(c) = &self.colours {
                        w.header(name);
                        for p in c {
                            let rec = (v >= 5).then(|| format!("Colours/{p:?}"));
                            let a = lay.alt_pct;
                            let form = if w.pct(a) { w.r.below(16) as u8 } else { 0 };
                            w.record(p.text(form), LineKind::Colour, name, rec);
                        }
                    }
                }
                _ => {
                    if let Some(h) = &self.hitobjects {
                        w.header(name);
                        for (i, p) in h.iter().enumerate() {
                            let rec = exp.hitobjects.as_ref().map(|h| ho_rec(&h[i]));
                            let mut text = p.text(v);
                            let a = lay.alt_pct;
                            if w.pct(a) {
                                text = shorten_sample(&text, p, v);
                            }
                            w.record(text, LineKind::Ho, name, rec);
                        }
                    }
                }
            }
        }
        let mut lines = lay.flooded(w.lines);
        if !lay.final_newline {
            if let Some(l) = lines.last_mut() {
                l.ending = "";
            }
        }
        Doc { lines, bom: lay.bom }
    }

    /// What opening `render(version)` should give.
    pub fn readable(&self, v: u8) -> MMap {
        let mut m = self.clone();
        m.osb = None;
        for s in ["General", "Editor", "Metadata", "Difficulty"] {
            if let Some(k) = m.kv_mut(s) {
                k.retain(|(k, val)| kv_readable(v, k, val));
            }
        }
        if v < 5 {
            m.colours = None;
        }
        if let Some(t) = &mut m.timing {
            for p in t {
                p.store(v);
            }
        }
        if let Some(h) = &mut m.hitobjects {
            for p in h {
                p.store(v);
            }
        }
        m.canon();
        m
    }

    /// Whether versions 3 and 4 can store the decimal times, which they keep 24 ms early.
    pub fn shiftable(&self) -> bool {
        let ok = |t: &Dec| {
            t.num().map_or(true, |d| {
                let o = RDec::from(24);
                d.checked_sub(o).and_then(|e| e.checked_add(o)) == Some(d)
            })
        };
        self.timing.iter().flatten().all(|p| ok(&p.t))
            && self.hitobjects.iter().flatten().all(|h| {
                ok(&h.t)
                    && match &h.kind {
                        MHoKind::Spinner { end } | MHoKind::Hold { end } => ok(end),
                        _ => true,
                    }
            })
    }

    /// What is left of the beatmap after a save in version `v` and a reopen.
    pub fn stored(&self, v: u8) -> MMap {
        let mut m = self.clone();
        m.version = v;
        for s in ["General", "Editor", "Metadata", "Difficulty"] {
            if let Some(k) = m.kv_mut(s) {
                k.retain(|(k, val)| kv_storable(v, k, val));
            }
        }
        if let Some(e) = &mut m.events {
            store_events(e, v);
        }
        if v < 14 {
            m.osb = None;
        }
        if let Some(o) = &mut m.osb {
            if let Some(e) = &mut o.events {
                store_events(e, v);
            }
        }
        if v < 5 {
            m.colours = None;
        }
        if let Some(t) = &mut m.timing {
            for p in t {
                p.store(v);
            }
        }
        if let Some(h) = &mut m.hitobjects {
            for p in h {
                p.store(v);
            }
        }
        m.canon();
        m
    }

    /// Bring presentational variation of the value itself into one form.
    pub fn canon(&mut self) {
        for s in ["General", "Editor", "Metadata", "Difficulty"] {
            if let Some(kvs) = self.kv_mut(s) {
                for (k, v) in kvs.iter_mut() {
                    *v = kv_canon(k, v);
                }
                kvs.sort();
            }
        }
        if let Some(e) = &mut self.events {
            canon_events(e);
        }
        if let Some(o) = &mut self.osb {
            if let Some(e) = &mut o.events {
                canon_events(e);
            }
        }
        if let Some(t) = &mut self.timing {
            for p in t {
                p.uninh = Some(p.uninh.unwrap_or(true));
                p.eff = Some(p.eff.unwrap_or(0));
            }
        }
        if let Some(h) = &mut self.hitobjects {
            for p in h {
                p.canon();
            }
        }
    }

    /// Flattened canonical records, attachments ignored.
    pub fn flat(&self) -> Vec<String> {
        let mut v = Vec::new();
        for s in ["General", "Editor", "Metadata", "Difficulty"] {
            if let Some(kvs) = self.kv(s) {
                for (k, val) in kvs {
                    v.push(kv_rec(s, k, val));
                }
            }
        }
        if let Some(e) = &self.events {
            flat_events(e, "", &mut v);
        }
        if let Some(t) = &self.timing {
            for p in t {
                v.push(format!("TimingPoints/{p:?}"));
            }
        }
        if let Some(c) = &self.colours {
            for p in c {
                v.push(format!("Colours/{p:?}"));
            }
        }
        if let Some(h) = &self.hitobjects {
            for p in h {
                v.push(ho_rec(p));
            }
        }
        if let Some(o) = &self.osb {
            o.flat_into(&mut v);
        }
        v
    }
}

fn shorten_sample(text: &str, p: &MHo, v: u8) -> String {
    if v < 10 || matches!(p.kind, MHoKind::Hold { .. }) {
        return text.to_string();
    }
    match &p.sample {
        Some(s) if s.v == 0 && s.f.is_empty() && v >= 12 => {
            let full = s.text(v);
            let mut short = format!("{}:{}", s.n, s.a);
            if s.i != 0 {
                short.push_str(&format!(":{}", s.i));
            }
            match text.strip_suffix(&full) {
                Some(h) => format!("{h}{short}"),
                None => text.to_string(),
            }
        }
        _ => text.to_string(),
    }
}

fn flat_cmds(c: &[MCmd], dom: &str, v: &mut Vec<String>) {
    for c in c {
        v.push(cmd_rec(dom, c));
        if let Some(s) = c.sub() {
            flat_cmds(s, dom, v);
        }
    }
}

pub fn flat_events(e: &[MEvent], dom: &str, v: &mut Vec<String>) {
    for e in e {
        v.push(ev_rec(dom, e));
        if let Some(c) = e.cmds() {
            flat_cmds(c, dom, v);
        }
    }
}

fn store_events(e: &mut Vec<MEvent>, v: u8) {
    if v >= 14 {
        e.retain(|e| !matches!(e, MEvent::ColT { .. }));
    }
    if v == 3 || v == 4 {
        // times that cannot be stored 24 ms early
        for e in e.iter_mut() {
            match e {
                MEvent::Video { t, .. } | MEvent::ColT { t, .. } => *t = t.saturating_sub(24).saturating_add(24),
                MEvent::Break { s, e, .. } => {
                    *s = s.saturating_sub(24).saturating_add(24);
                    *e = e.saturating_sub(24).saturating_add(24);
                }
                _ => {}
            }
        }
    }
}

fn canon_events(e: &mut [MEvent]) {
    for e in e {
        if let Some(f) = e.file_mut() {
            *f = norm_file(f);
        }
    }
}

impl MTp {
    fn store(&mut self, v: u8) {
        if v <= 3 {
            self.meter = 4;
            self.set = 1;
            self.idx = 1;
        }
        if v <= 4 {
            self.vol = 100;
            self.uninh = Some(true);
            self.eff = Some(0);
        }
        self.uninh = Some(self.uninh.unwrap_or(true));
        self.eff = Some(self.eff.unwrap_or(0));
    }
}

impl MHo {
    fn canon(&mut self) {
    }
    fn store(&mut self, v: u8) {
        if v <= 9 {
            self.sample = match (&self.kind, v) {
                (MHoKind::Circle, 3) => Some(MSample::default()),
                _ => None,
            };
        } else if v <= 11 {
            if let Some(s) = &mut self.sample {
                s.v = 0;
                s.f.clear();
            }
        }
        self.canon();
    }
}

pub fn var_rec(n: &str, v: &str) -> String {
    format!("osb/Variables/{n}={v}")
}

impl MOsb {
    pub fn flat_into(&self, v: &mut Vec<String>) {
        if let Some(vs) = &self.variables {
            for (n, x) in vs {
                v.push(var_rec(n, x));
            }
        }
        if let Some(e) = &self.events {
            flat_events(e, "osb/", v);
        }
    }

    pub fn render(&self, lay: &Layout) -> Doc {
        let mut w = W { lines: vec![], lay, r: crate::rng::Rng::new(lay.sprinkle) };
        w.blanks(lay.lead_blank, "");
        for i in 0..lay.notes {
            w.push(
                ["// a note", "//", "  // indented [note]", "// key: value", "//[Events]"][i as usize % 5].to_string(),
                LineKind::Note,
                "",
                None,
            );
        }
        let empty = Vec::new();
        let vars = self.variables.as_ref().unwrap_or(&empty);
        if let Some(vs) = &self.variables {
            w.header("Variables");
            for (n, x) in vs {
                w.record(format!("${n}={x}"), LineKind::Var, "Variables", Some(var_rec(n, x)));
            }
        }
        if let Some(e) = &self.events {
            w.header("Events");
            w.events(e, 14, "osb/", vars);
        }
        let mut lines = lay.flooded(w.lines);
        if !lay.final_newline {
            if let Some(l) = lines.last_mut() {
                l.ending = "";
            }
        }
        Doc { lines, bom: lay.bom }
    }

    pub fn canon(&mut self) {
        if let Some(e) = &mut self.events {
            canon_events(e);
        }
    }
}
