//! Library values to model values, through the library's public interface only.

use crate::model::*;
use crate::names;
use osu_file_parser::events::normal_event::types::{LayerLegacy, OriginTypeLegacy};
use osu_file_parser::events::storyboard::cmds::{self, Command, CommandProperties};
use osu_file_parser::events::storyboard::sprites::{LoopType, ObjectType, Origin};
use osu_file_parser::events::storyboard::types as st;
use osu_file_parser::events::{Event, Events};
use osu_file_parser::hitobjects as ho;
use osu_file_parser::*;

pub fn dec(d: &Decimal) -> Dec {
    Dec(d.to_string())
}
fn rdec(d: &RDec) -> Dec {
    Dec(d.to_string())
}
fn pos(p: &Position) -> Pos {
    (dec(&p.x), dec(&p.y))
}
fn opos(p: &Option<Position>) -> Option<Pos> {
    p.as_ref().map(pos)
}
fn file(f: &FilePath) -> String {
    f.get().to_string_lossy().into_owned()
}
fn layer_legacy(l: LayerLegacy) -> u8 {
    names::place(&names::LAYERS_LEGACY, &l) as u8
}
fn origin_legacy(l: OriginTypeLegacy) -> u8 {
    names::place(&names::ORIGINS_LEGACY, &l) as u8
}
fn rgb(c: &osu_file_parser::colours::Rgb) -> (u8, u8, u8) {
    (c.red, c.green, c.blue)
}
fn b01(b: bool) -> String {
    (b as u8).to_string()
}
fn list(v: &[i32]) -> String {
    v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")
}

macro_rules! kv {
    ($out:ident, $s:expr, $( $field:ident, $name:literal, $ty:ty, |$x:ident| $f:expr; )*) => {
        $( if let Some(w) = &$s.$field { let $x: $ty = w.clone().into(); $out.push(($name.to_string(), $f)); } )*
    };
}

pub fn general(g: &General) -> Vec<(String, String)> {
    let mut o = vec![];
    kv!(o, g,
        audio_filename, "AudioFilename", std::path::PathBuf, |x| x.display().to_string();
        audio_lead_in, "AudioLeadIn", i32, |x| x.to_string();
        audio_hash, "AudioHash", String, |x| x;
        preview_time, "PreviewTime", i32, |x| x.to_string();
        stack_leniency, "StackLeniency", Decimal, |x| x.to_string();
        letterbox_in_breaks, "LetterboxInBreaks", bool, |x| b01(x);
        story_fire_in_front, "StoryFireInFront", bool, |x| b01(x);
        use_skin_sprites, "UseSkinSprites", bool, |x| b01(x);
        always_show_playfield, "AlwaysShowPlayfield", bool, |x| b01(x);
        skin_preference, "SkinPreference", String, |x| x;
        epilepsy_warning, "EpilepsyWarning", bool, |x| b01(x);
        countdown_offset, "CountdownOffset", i32, |x| x.to_string();
        special_style, "SpecialStyle", bool, |x| b01(x);
        widescreen_storyboard, "WidescreenStoryboard", bool, |x| b01(x);
        samples_match_playback_rate, "SamplesMatchPlaybackRate", bool, |x| b01(x);
        editor_bookmarks, "EditorBookmarks", Vec<i32>, |x| list(&x);
        editor_distance_spacing, "EditorDistanceSpacing", Decimal, |x| x.to_string();
    );
    use osu_file_parser::general as gm;
    if let Some(c) = g.countdown {
        let v = match c {
            gm::Countdown::NoCountdown => "0",
            gm::Countdown::Normal => "1",
            gm::Countdown::Half => "2",
            gm::Countdown::Double => "3",
            _ => "?",
        };
        o.push(("Countdown".into(), v.into()));
    }
    if let Some(c) = g.sample_set {
        let v = match c {
            gm::SampleSet::Normal => "Normal",
            gm::SampleSet::Soft => "Soft",
            gm::SampleSet::Drum => "Drum",
            gm::SampleSet::None => "None",
            _ => "?",
        };
        o.push(("SampleSet".into(), v.into()));
    }
    if let Some(c) = g.mode {
        let v = match c {
            gm::Mode::Osu => "0",
            gm::Mode::Taiko => "1",
            gm::Mode::Catch => "2",
            gm::Mode::Mania => "3",
            _ => "?",
        };
        o.push(("Mode".into(), v.into()));
    }
    if let Some(c) = g.overlay_position {
        let v = match c {
            gm::OverlayPosition::NoChange => "NoChange",
            gm::OverlayPosition::Below => "Below",
            gm::OverlayPosition::Above => "Above",
            _ => "?",
        };
        o.push(("OverlayPosition".into(), v.into()));
    }
    o
}

pub fn editor(e: &Editor) -> Vec<(String, String)> {
    let mut o = vec![];
    kv!(o, e,
        bookmarks, "Bookmarks", Vec<i32>, |x| list(&x);
        distance_spacing, "DistanceSpacing", Decimal, |x| x.to_string();
        beat_divisor, "BeatDivisor", Decimal, |x| x.to_string();
        grid_size, "GridSize", i32, |x| x.to_string();
        timeline_zoom, "TimelineZoom", Decimal, |x| x.to_string();
        current_time, "CurrentTime", i32, |x| x.to_string();
    );
    o
}

pub fn tags_text(t: &[String]) -> String {
    // a list holding one empty tag is not the empty list
    if t.len() == 1 && t[0].is_empty() {
        "<one empty tag>".into()
    } else {
        t.join(" ")
    }
}

pub fn metadata(m: &Metadata) -> Vec<(String, String)> {
    let mut o = vec![];
    kv!(o, m,
        title, "Title", String, |x| x;
        title_unicode, "TitleUnicode", String, |x| x;
        artist, "Artist", String, |x| x;
        artist_unicode, "ArtistUnicode", String, |x| x;
        creator, "Creator", String, |x| x;
        version, "Version", String, |x| x;
        source, "Source", String, |x| x;
        tags, "Tags", Vec<String>, |x| tags_text(&x);
        beatmap_id, "BeatmapID", i32, |x| x.to_string();
        beatmap_set_id, "BeatmapSetID", i32, |x| x.to_string();
    );
    o
}

pub fn difficulty(d: &Difficulty) -> Vec<(String, String)> {
    let mut o = vec![];
    kv!(o, d,
        hp_drain_rate, "HPDrainRate", Decimal, |x| x.to_string();
        circle_size, "CircleSize", Decimal, |x| x.to_string();
        overall_difficulty, "OverallDifficulty", Decimal, |x| x.to_string();
        approach_rate, "ApproachRate", Decimal, |x| x.to_string();
        slider_multiplier, "SliderMultiplier", Decimal, |x| x.to_string();
        slider_tickrate, "SliderTickRate", Decimal, |x| x.to_string();
    );
    o
}

fn trig(t: &st::TriggerType) -> MTrig {
    match t {
        st::TriggerType::HitSound { sample_set, additions_sample_set, addition, custom_sample_set } => {
            let set = |s: &Option<st::SampleSet>| {
                s.map(|s| match s {
                    st::SampleSet::All => 0,
                    st::SampleSet::Normal => 1,
                    st::SampleSet::Soft => 2,
                    st::SampleSet::Drum => 3,
                    _ => 99,
                })
            };
            MTrig::Hit {
                set: set(sample_set),
                add_set: set(additions_sample_set),
                add: addition.map(|a| match a {
                    st::Addition::Whistle => 0,
                    st::Addition::Finish => 1,
                    st::Addition::Clap => 2,
                    _ => 99,
                }),
                custom: custom_sample_set.map(|x| x as u64),
            }
        }
        st::TriggerType::Passing => MTrig::Passing,
        st::TriggerType::Failing => MTrig::Failing,
        _ => MTrig::Failing,
    }
}

fn easing(e: st::Easing) -> i32 {
    names::easing_number(&e)
}
fn par(p: &st::Parameter) -> String {
    match p {
        st::Parameter::ImageFlipHorizontal => "H",
        st::Parameter::ImageFlipVertical => "V",
        st::Parameter::UseAdditiveColourBlending => "A",
        _ => "?",
    }
    .into()
}

pub fn two(f: &cmds::ContinuingFields<Decimal>) -> (Pos, Vec<(Dec, Option<Dec>)>) {
    let s = f.start_values();
    ((dec(&s.0), dec(&s.1)), f.continuing_fields().iter().map(|(a, b)| (dec(a), b.as_ref().map(dec))).collect())
}

pub fn cmd(c: &Command) -> MCmd {
    let one = |op: &str, e: &st::Easing, end: &Option<i32>, f: &Decimal, c: &[Decimal]| MCmdKind::One {
        op: op.into(),
        easing: easing(*e),
        end: *end,
        first: dec(f),
        cont: c.iter().map(dec).collect(),
    };
    use CommandProperties as P;
    let kind = match &c.properties {
        P::Fade { easing: e, end_time, start_opacity, continuing_opacities } => {
            one("F", e, end_time, start_opacity, continuing_opacities)
        }
        P::MoveX { easing: e, end_time, start_x, continuing_x } => one("MX", e, end_time, start_x, continuing_x),
        P::MoveY { easing: e, end_time, start_y, continuing_y } => one("MY", e, end_time, start_y, continuing_y),
        P::Scale { easing: e, end_time, start_scale, continuing_scales } => {
            one("S", e, end_time, start_scale, continuing_scales)
        }
        P::Rotate { easing: e, end_time, start_rotation, continuing_rotations } => {
            one("R", e, end_time, start_rotation, continuing_rotations)
        }
        P::Move { easing: e, end_time, positions_xy } => {
            let (first, cont) = two(positions_xy);
            MCmdKind::Two { op: "M".into(), easing: easing(*e), end: *end_time, first, cont }
        }
        P::VectorScale { easing: e, end_time, scales_xy } => {
            let (first, cont) = two(scales_xy);
            MCmdKind::Two { op: "V".into(), easing: easing(*e), end: *end_time, first, cont }
        }
        P::Colour { easing: e, end_time, colours } => MCmdKind::Col {
            easing: easing(*e),
            end: *end_time,
            first: colours.start,
            cont: colours.continuing.clone(),
        },
        P::Parameter { easing: e, end_time, parameter, continuing_parameters } => MCmdKind::Par {
            easing: easing(*e),
            end: *end_time,
            first: par(parameter),
            cont: continuing_parameters.iter().map(par).collect(),
        },
        P::Loop { loop_count, commands } => {
            MCmdKind::Loop { count: *loop_count, cmds: commands.iter().map(cmd).collect() }
        }
        P::Trigger { trigger_type, end_time, group_number, commands } => MCmdKind::Trig {
            ty: trig(trigger_type),
            end: *end_time,
            group: *group_number,
            cmds: commands.iter().map(cmd).collect(),
        },
        _ => MCmdKind::Loop { count: u32::MAX, cmds: vec![] },
    };
    MCmd { start: c.start_time, kind }
}

pub fn cmds_of(v: &[Command]) -> Vec<MCmd> {
    v.iter().map(cmd).collect()
}

fn origin(o: &Origin) -> i32 {
    names::origin_number(&o.type_)
}

pub fn event(e: &Event) -> MEvent {
    match e {
        Event::Comment(c) => MEvent::Comment(c.clone()),
        Event::Background(b) => MEvent::Background {
            t: b.start_time,
            file: file(&b.file_name),
            pos: opos(&b.position),
            cmds: cmds_of(&b.commands),
        },
        Event::Video(b) => MEvent::Video {
            long: MFlag(false),
            t: b.start_time,
            file: file(&b.file_name),
            pos: opos(&b.position),
            cmds: cmds_of(&b.commands),
        },
        Event::Break(b) => MEvent::Break { long: MFlag(false), s: b.start_time, e: b.end_time },
        Event::ColourTransformation(c) => MEvent::ColT { t: c.start_time, rgb: (c.red, c.green, c.blue) },
        Event::SpriteLegacy(s) => MEvent::SpriteL {
            layer: layer_legacy(s.layer),
            origin: origin_legacy(s.origin),
            file: file(&s.file_name),
            pos: opos(&s.position),
            cmds: cmds_of(&s.commands),
        },
        Event::AnimationLegacy(s) => MEvent::AnimL {
            layer: layer_legacy(s.layer),
            origin: origin_legacy(s.origin),
            file: file(&s.file_name),
            pos: opos(&s.position),
            cmds: cmds_of(&s.commands),
        },
        Event::SampleLegacy(s) => MEvent::SampleL {
            t: dec(&s.time),
            layer: layer_legacy(s.layer),
            file: file(&s.file_name),
            vol: s.volume.map(|v| v.get()),
            cmds: cmds_of(&s.commands),
        },
        Event::StoryboardObject(o) => {
            let layer = names::place(&names::OBJECT_LAYERS, &o.layer) as u8;
            let (f, anim) = match &o.object_type {
                ObjectType::Sprite(s) => (file(&s.filepath), None),
                ObjectType::Animation(a) => (
                    file(&a.filepath),
                    Some(MAnim {
                        count: a.frame_count,
                        delay: rdec(&a.frame_delay),
                        once: matches!(a.loop_type, LoopType::LoopOnce),
                    }),
                ),
                _ => ("?".into(), None),
            };
            MEvent::Obj {
                layer,
                origin: origin(&o.origin),
                short: o.origin.shorthand,
                file: f,
                pos: pos(&o.position),
                anim,
                cmds: cmds_of(&o.commands),
            }
        }
        Event::AudioSample(a) => MEvent::Audio {
            t: a.time,
            layer: names::place(&names::AUDIO_LAYERS, &a.layer) as u8,
            file: file(&a.filepath),
            vol: a.volume.get(),
        },
        _ => MEvent::Comment("<unknown event>".into()),
    }
}

pub fn events(e: &Events) -> Vec<MEvent> {
    e.0.iter().map(event).collect()
}

pub fn timing(t: &timingpoints::TimingPoint) -> MTp {
    let txt = VersionedToString::to_string(t, 14).unwrap_or_default();
    let beat = txt.split(',').nth(1).unwrap_or("").to_string();
    let idx = match t.sample_index() {
        timingpoints::SampleIndex::OsuDefaultHitsounds => 0,
        timingpoints::SampleIndex::Index(i) => i.get(),
        _ => u32::MAX,
    };
    MTp {
        t: dec(t.time()),
        beat: Dec(beat),
        meter: t.meter(),
        set: names::point_set_number(&t.sample_set()),
        idx,
        vol: t.volume().volume(),
        uninh: Some(t.uninherited()),
        eff: t.effects().map(|e| <u32 as VersionedFrom<timingpoints::Effects>>::from(*e, 14).unwrap()),
    }
}

pub fn colour(c: &colours::Colour) -> MColour {
    match c {
        colours::Colour::Combo(n, c) => MColour::Combo(*n, rgb(c)),
        colours::Colour::SliderTrackOverride(c) => MColour::Track(rgb(c)),
        colours::Colour::SliderBorder(c) => MColour::Border(rgb(c)),
        _ => MColour::Combo(i32::MIN, (0, 0, 0)),
    }
}

pub fn hitsound(h: &ho::HitSound) -> u8 {
    names::hitsound(h)
}
fn hset(s: ho::SampleSet) -> u64 {
    names::object_set_number(&s)
}

pub fn sample(s: &ho::HitSample) -> MSample {
    MSample {
        n: hset(s.normal_set),
        a: hset(s.addition_set),
        i: names::object_index_number(&s.index),
        v: s.volume.volume().unwrap_or(0),
        f: s.filename.clone(),
    }
}

pub fn hitobject(h: &ho::HitObject) -> MHo {
    MHo {
        x: dec(&h.position.x),
        y: dec(&h.position.y),
        t: dec(&h.time),
        nc: h.new_combo,
        skip: h.combo_skip_count.get(),
        hs: hitsound(&h.hitsound),
        kind: match &h.obj_params {
            ho::HitObjectParams::HitCircle => MHoKind::Circle,
            ho::HitObjectParams::Slider(s) => MHoKind::Slider {
                ct: names::CURVES.iter().find(|c| c.1 == s.curve_type).map_or("?", |c| c.0).into(),
                pts: s.curve_points.iter().map(|p| pos(&p.0)).collect(),
                slides: s.slides,
                len: dec(&s.length),
                es: s.edge_sounds.iter().map(hitsound).collect(),
                esets: s.edge_sets.iter().map(|e| (hset(e.normal_set), hset(e.addition_set))).collect(),
                form: MForm(0),
            },
            ho::HitObjectParams::Spinner { end_time } => MHoKind::Spinner { end: dec(end_time) },
            ho::HitObjectParams::OsuManiaHold { end_time } => MHoKind::Hold { end: dec(end_time) },
            _ => MHoKind::Circle,
        },
        sample: h.hitsample.as_ref().map(sample),
    }
}

pub fn osb(o: &Osb) -> MOsb {
    MOsb {
        variables: o
            .variables
            .as_ref()
            .map(|v| v.iter().map(|v| (v.name.clone(), v.value.clone())).collect()),
        events: o.events.as_ref().map(events),
    }
}

/// The raw value, as held in memory.
pub fn raw(o: &OsuFile) -> MMap {
    MMap {
        version: o.version,
        general: o.general.as_ref().map(general),
        editor: o.editor.as_ref().map(editor),
        metadata: o.metadata.as_ref().map(metadata),
        difficulty: o.difficulty.as_ref().map(difficulty),
        events: o.events.as_ref().map(events),
        timing: o.timing_points.as_ref().map(|t| t.0.iter().map(timing).collect()),
        colours: o.colours.as_ref().map(|t| t.0.iter().map(colour).collect()),
        hitobjects: o.hitobjects.as_ref().map(|t| t.0.iter().map(hitobject).collect()),
        osb: o.osb.as_ref().map(osb),
    }
}

/// The value in canonical form.
pub fn map(o: &OsuFile) -> MMap {
    let mut m = raw(o);
    m.canon();
    m
}

/// First difference between two model values, for messages.
pub fn diff(a: &MMap, b: &MMap) -> String {
    fn show<T: std::fmt::Debug>(x: &T) -> String {
        let mut s = format!("{x:?}");
        if s.len() > 300 {
            let mut k = 300;
            while !s.is_char_boundary(k) {
                k -= 1;
            }
            s.truncate(k);
            s.push_str("...");
        }
        s
    }
    fn seq<T: PartialEq + std::fmt::Debug>(n: &str, a: &Option<Vec<T>>, b: &Option<Vec<T>>) -> Option<String> {
        if a == b {
            return None;
        }
        match (a, b) {
            (Some(x), Some(y)) => {
                for i in 0..x.len().max(y.len()) {
                    if x.get(i) != y.get(i) {
                        let long = |v: Option<&T>| v.map(|x| format!("{x:?}")).unwrap_or("nothing".into());
                        let (ex, gy) = (long(x.get(i)), long(y.get(i)));
                        let same = ex.chars().zip(gy.chars()).take_while(|(a, b)| a == b).count();
                        let cut = |s: &str| {
                            let from = same.saturating_sub(120);
                            let mut o: String = s.chars().skip(from).take(300).collect();
                            if from > 0 {
                                o = format!("...{o}");
                            }
                            if s.chars().count() > from + 300 {
                                o.push_str("...");
                            }
                            o
                        };
                        return Some(format!(
                            "{n}[{i}]: expected {} but got {} ({} vs {} records)",
                            cut(&ex),
                            cut(&gy),
                            x.len(),
                            y.len()
                        ));
                    }
                }
                Some(n.to_string())
            }
            _ => Some(format!("section {n}: expected {} but got {}", show(&a.is_some()), show(&b.is_some()))),
        }
    }
    if a.version != b.version {
        return format!("version {} vs {}", a.version, b.version);
    }
    let oa = a.osb.clone().unwrap_or_default();
    let ob = b.osb.clone().unwrap_or_default();
    None.or_else(|| seq("General", &a.general, &b.general))
        .or_else(|| seq("Editor", &a.editor, &b.editor))
        .or_else(|| seq("Metadata", &a.metadata, &b.metadata))
        .or_else(|| seq("Difficulty", &a.difficulty, &b.difficulty))
        .or_else(|| seq("Events", &a.events, &b.events))
        .or_else(|| seq("TimingPoints", &a.timing, &b.timing))
        .or_else(|| seq("Colours", &a.colours, &b.colours))
        .or_else(|| seq("HitObjects", &a.hitobjects, &b.hitobjects))
        .or_else(|| seq("osb Variables", &oa.variables, &ob.variables))
        .or_else(|| seq("osb Events", &oa.events, &ob.events))
        .unwrap_or_else(|| {
            if a.osb.is_some() != b.osb.is_some() {
                format!("storyboard: expected {} but got {}", a.osb.is_some(), b.osb.is_some())
            } else {
                "no difference found".into()
            }
        })
}
