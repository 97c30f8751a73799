//! Model values to library values, through the library's public constructors and fields: what an
//! editor built on the library does.

use crate::model::*;
use crate::names;
use osu_file_parser::colours::{Colour, Rgb};
use osu_file_parser::events::audio_sample;
use osu_file_parser::events::normal_event::types::{LayerLegacy, OriginTypeLegacy};
use osu_file_parser::events::normal_event::*;
use osu_file_parser::events::storyboard::cmds::{self, Command, CommandProperties};
use osu_file_parser::events::storyboard::sprites::*;
use osu_file_parser::events::storyboard::types as st;
use osu_file_parser::events::{Event, Events};
use osu_file_parser::osb::Variable;
use osu_file_parser::hitobjects as ho;
use osu_file_parser::*;
use std::str::FromStr;

pub fn dec(d: &Dec) -> Decimal {
    match d.num() {
        Some(n) => Decimal::new(n),
        None => Decimal::new_from_str(&d.0),
    }
}
fn pos(p: &Pos) -> Position {
    Position { x: dec(&p.0), y: dec(&p.1) }
}
fn opos(p: &Option<Pos>) -> Option<Position> {
    p.as_ref().map(pos)
}
fn file(f: &str) -> FilePath {
    FilePath::from(f)
}
fn layer_legacy(l: u8) -> LayerLegacy {
    names::LAYERS_LEGACY[l as usize]
}
fn origin_legacy(l: u8) -> OriginTypeLegacy {
    names::ORIGINS_LEGACY[l as usize]
}
fn easing(e: i32) -> st::Easing {
    names::easing(e)
}
fn par(s: &str) -> st::Parameter {
    match s {
        "H" => st::Parameter::ImageFlipHorizontal,
        "V" => st::Parameter::ImageFlipVertical,
        _ => st::Parameter::UseAdditiveColourBlending,
    }
}

pub fn trig(t: &MTrig) -> st::TriggerType {
    let set = |s: u8| match s {
        0 => st::SampleSet::All,
        1 => st::SampleSet::Normal,
        2 => st::SampleSet::Soft,
        _ => st::SampleSet::Drum,
    };
    match t {
        MTrig::Passing => st::TriggerType::Passing,
        MTrig::Failing => st::TriggerType::Failing,
        MTrig::Hit { set: s, add_set, add, custom } => st::TriggerType::HitSound {
            sample_set: s.map(set),
            additions_sample_set: add_set.map(set),
            addition: add.map(|a| match a {
                0 => st::Addition::Whistle,
                1 => st::Addition::Finish,
                _ => st::Addition::Clap,
            }),
            custom_sample_set: custom.map(|c| c as usize),
        },
    }
}

pub fn two(first: &Pos, cont: &[(Dec, Option<Dec>)]) -> cmds::ContinuingFields<Decimal> {
    cmds::ContinuingFields::new(
        (dec(&first.0), dec(&first.1)),
        cont.iter().map(|(a, b)| (dec(a), b.as_ref().map(dec))).collect(),
    )
    .expect("generated keyframes are well-formed")
}

pub fn cmd(c: &MCmd) -> Command {
    use CommandProperties as P;
    let properties = match &c.kind {
        MCmdKind::One { op, easing: e, end, first, cont } => {
            let (easing, end_time, f) = (easing(*e), *end, dec(first));
            let c: Vec<Decimal> = cont.iter().map(dec).collect();
            match op.as_str() {
                "F" => P::Fade { easing, end_time, start_opacity: f, continuing_opacities: c },
                "MX" => P::MoveX { easing, end_time, start_x: f, continuing_x: c },
                "MY" => P::MoveY { easing, end_time, start_y: f, continuing_y: c },
                "S" => P::Scale { easing, end_time, start_scale: f, continuing_scales: c },
                _ => P::Rotate { easing, end_time, start_rotation: f, continuing_rotations: c },
            }
        }
        MCmdKind::Two { op, easing: e, end, first, cont } => {
            let (easing, end_time) = (easing(*e), *end);
            match op.as_str() {
                "M" => P::Move { easing, end_time, positions_xy: two(first, cont) },
                _ => P::VectorScale { easing, end_time, scales_xy: two(first, cont) },
            }
        }
        MCmdKind::Col { easing: e, end, first, cont } => P::Colour {
            easing: easing(*e),
            end_time: *end,
            colours: cmds::Colours::new(*first, cont.clone()).expect("generated colours are well-formed"),
        },
        MCmdKind::Par { easing: e, end, first, cont } => P::Parameter {
            easing: easing(*e),
            end_time: *end,
            parameter: par(first),
            continuing_parameters: cont.iter().map(|c| par(c)).collect(),
        },
        MCmdKind::Loop { count, cmds } => {
            P::Loop { loop_count: *count, commands: cmds.iter().map(cmd).collect() }
        }
        MCmdKind::Trig { ty, end, group, cmds } => P::Trigger {
            trigger_type: trig(ty),
            end_time: *end,
            group_number: *group,
            commands: cmds.iter().map(cmd).collect(),
        },
    };
    Command { start_time: c.start, properties }
}

pub fn cmds_of(c: &[MCmd]) -> Vec<Command> {
    c.iter().map(cmd).collect()
}

pub fn event(e: &MEvent) -> Event {
    match e {
        MEvent::Comment(c) => Event::Comment(c.clone()),
        MEvent::Background { t, file: f, pos, cmds } => Event::Background(Background {
            start_time: *t,
            file_name: file(f),
            position: opos(pos),
            commands: cmds_of(cmds),
        }),
        MEvent::Video { t, file: f, pos, cmds, .. } => {
            let mut v = Video::new(*t, file(f), opos(pos));
            v.commands = cmds_of(cmds);
            Event::Video(v)
        }
        MEvent::Break { s, e, .. } => Event::Break(Break::new(*s, *e)),
        MEvent::ColT { t, rgb } => Event::ColourTransformation(ColourTransformation {
            start_time: *t,
            red: rgb.0,
            green: rgb.1,
            blue: rgb.2,
        }),
        MEvent::SpriteL { layer, origin, file: f, pos, cmds } => Event::SpriteLegacy(SpriteLegacy {
            layer: layer_legacy(*layer),
            origin: origin_legacy(*origin),
            file_name: file(f),
            position: opos(pos),
            commands: cmds_of(cmds),
        }),
        MEvent::AnimL { layer, origin, file: f, pos, cmds } => Event::AnimationLegacy(AnimationLegacy {
            layer: layer_legacy(*layer),
            origin: origin_legacy(*origin),
            file_name: file(f),
            position: opos(pos),
            commands: cmds_of(cmds),
        }),
        MEvent::SampleL { t, layer, file: f, vol, cmds } => Event::SampleLegacy(SampleLegacy {
            time: dec(t),
            layer: layer_legacy(*layer),
            file_name: file(f),
            volume: vol.map(|v| audio_sample::Volume::new(v, 14).unwrap()),
            commands: cmds_of(cmds),
        }),
        MEvent::Obj { layer, origin, short, file: f, pos: p, anim, cmds } => {
            let type_ = names::origin(*origin);
            Event::StoryboardObject(Object {
                layer: names::OBJECT_LAYERS[*layer as usize % 5],
                origin: Origin { type_, shorthand: *short },
                position: pos(p),
                object_type: match anim {
                    None => ObjectType::Sprite(Sprite { filepath: file(f) }),
                    Some(a) => ObjectType::Animation(Animation {
                        frame_count: a.count,
                        frame_delay: a.delay.num().unwrap_or_default(),
                        loop_type: if a.once { LoopType::LoopOnce } else { LoopType::LoopForever },
                        filepath: file(f),
                    }),
                },
                commands: cmds_of(cmds),
            })
        }
        MEvent::Audio { t, layer, file: f, vol } => Event::AudioSample(audio_sample::AudioSample {
            time: *t,
            layer: match layer {
                0 => audio_sample::Layer::Background,
                1 => audio_sample::Layer::Fail,
                2 => audio_sample::Layer::Pass,
                _ => audio_sample::Layer::Foreground,
            },
            filepath: file(f),
            volume: audio_sample::Volume::new(*vol, 14).unwrap(),
        }),
    }
}

pub fn events(e: &[MEvent]) -> Events {
    Events(e.iter().map(event).collect())
}

/// A timing point as an editor makes it.
pub fn timing(p: &MTp) -> timingpoints::TimingPoint {
    use timingpoints as tp;
    let time: Option<i32> = p.t.0.parse().ok();
    let set = names::point_set(p.set);
    let idx = match std::num::NonZeroU32::new(p.idx) {
        Some(n) => tp::SampleIndex::Index(n),
        None => tp::SampleIndex::OsuDefaultHitsounds,
    };
    match time {
        Some(time) => {
            let eff = |e: u32| <tp::Effects as VersionedFrom<u32>>::from(e, 14).unwrap();
            let mut x = tp::TimingPoint::new_uninherited(
                time,
                dec(&p.beat),
                p.meter,
                set,
                idx,
                tp::Volume::new(p.vol, 14).unwrap(),
                eff(p.eff.unwrap_or(0)),
            );
            x.set_uninherited(p.uninh.unwrap_or(true));
            *x.effects_mut() = p.eff.map(eff);
            x
        }
        None => {
            let mut q = p.clone();
            q.uninh = Some(q.uninh.unwrap_or(true));
            q.eff = Some(q.eff.unwrap_or(0));
            <tp::TimingPoint as VersionedFromStr>::from_str(&q.text(14), 14).ok().flatten().unwrap()
        }
    }
}

pub fn colour(c: &MColour) -> Colour {
    let rgb = |c: &(u8, u8, u8)| Rgb { red: c.0, green: c.1, blue: c.2 };
    match c {
        MColour::Combo(n, c) => Colour::Combo(*n, rgb(c)),
        MColour::Track(c) => Colour::SliderTrackOverride(rgb(c)),
        MColour::Border(c) => Colour::SliderBorder(rgb(c)),
    }
}

fn hs(m: u8) -> ho::HitSound {
    ho::HitSound::new(m & 1 != 0, m & 2 != 0, m & 4 != 0, m & 8 != 0)
}
fn hset(n: u64) -> ho::SampleSet {
    names::object_set(n)
}

pub fn hitobject(h: &MHo) -> ho::HitObject {
    let mut o = ho::HitObject::hitcircle_default();
    o.position = pos(&(h.x.clone(), h.y.clone()));
    o.time = dec(&h.t);
    o.new_combo = h.nc;
    o.combo_skip_count = ho::ComboSkipCount::new(h.skip, 14).ok().flatten().unwrap();
    o.hitsound = hs(h.hs);
    o.obj_params = match &h.kind {
        MHoKind::Circle => ho::HitObjectParams::HitCircle,
        MHoKind::Slider { ct, pts, slides, len, es, esets, .. } => {
            ho::HitObjectParams::Slider(ho::SlideParams::new(
                names::CURVES.iter().find(|c| c.0 == ct).unwrap().1,
                pts.iter().map(|p| ho::CurvePoint(pos(p))).collect(),
                *slides,
                dec(len),
                es.iter().map(|e| hs(*e)).collect(),
                esets
                    .iter()
                    .map(|(n, a)| ho::EdgeSet { normal_set: hset(*n), addition_set: hset(*a) })
                    .collect(),
            ))
        }
        MHoKind::Spinner { end } => ho::HitObjectParams::Spinner { end_time: dec(end) },
        MHoKind::Hold { end } => ho::HitObjectParams::OsuManiaHold { end_time: dec(end) },
    };
    o.hitsample = h.sample.as_ref().map(|s| ho::HitSample {
        normal_set: hset(s.n),
        addition_set: hset(s.a),
        index: names::object_index(s.i),
        volume: ho::Volume::new(if s.v == 0 { None } else { Some(s.v) }).unwrap(),
        filename: s.f.clone(),
    });
    o
}

pub fn variables(v: &[(String, String)]) -> Vec<Variable> {
    v.iter().map(|(n, x)| Variable { name: n.clone(), value: x.clone() }).collect()
}

pub fn osb(o: &MOsb) -> Osb {
    Osb {
        variables: o.variables.as_ref().map(|v| variables(v)),
        events: o.events.as_ref().map(|e| events(e)),
    }
}

fn int(s: &str) -> i32 {
    s.parse().unwrap_or(0)
}
fn ints(s: &str) -> Vec<i32> {
    if s.is_empty() {
        vec![]
    } else {
        s.split(',').map(int).collect()
    }
}
fn d(s: &str) -> Decimal {
    dec(&Dec(s.to_string()))
}

/// Set (or clear) one setting.
pub fn set_kv(o: &mut OsuFile, section: &str, key: &str, val: Option<&str>) {
    macro_rules! set {
        ($s:expr, $field:ident, $f:expr) => {
            $s.$field = val.map(|v: &str| $f(v).into())
        };
    }
    let string = |v: &str| v.to_string();
    let b = |v: &str| v == "1";
    match section {
        "General" => {
            let g = o.general.get_or_insert_with(General::new);
            use osu_file_parser::general as gm;
            match key {
                "AudioFilename" => set!(g, audio_filename, std::path::PathBuf::from),
                "AudioLeadIn" => set!(g, audio_lead_in, int),
                "AudioHash" => set!(g, audio_hash, string),
                "PreviewTime" => set!(g, preview_time, int),
                "Countdown" => {
                    g.countdown = val.map(|v| match v {
                        "0" => gm::Countdown::NoCountdown,
                        "1" => gm::Countdown::Normal,
                        "2" => gm::Countdown::Half,
                        _ => gm::Countdown::Double,
                    })
                }
                "SampleSet" => {
                    g.sample_set = val.map(|v| match v {
                        "Normal" => gm::SampleSet::Normal,
                        "Soft" => gm::SampleSet::Soft,
                        "Drum" => gm::SampleSet::Drum,
                        _ => gm::SampleSet::None,
                    })
                }
                "StackLeniency" => set!(g, stack_leniency, d),
                "Mode" => {
                    g.mode = val.map(|v| match v {
                        "0" => gm::Mode::Osu,
                        "1" => gm::Mode::Taiko,
                        "2" => gm::Mode::Catch,
                        _ => gm::Mode::Mania,
                    })
                }
                "LetterboxInBreaks" => set!(g, letterbox_in_breaks, b),
                "StoryFireInFront" => set!(g, story_fire_in_front, b),
                "UseSkinSprites" => set!(g, use_skin_sprites, b),
                "AlwaysShowPlayfield" => set!(g, always_show_playfield, b),
                "OverlayPosition" => {
                    g.overlay_position = val.map(|v| match v {
                        "NoChange" => gm::OverlayPosition::NoChange,
                        "Below" => gm::OverlayPosition::Below,
                        _ => gm::OverlayPosition::Above,
                    })
                }
                "SkinPreference" => set!(g, skin_preference, string),
                "EpilepsyWarning" => set!(g, epilepsy_warning, b),
                "CountdownOffset" => set!(g, countdown_offset, int),
                "SpecialStyle" => set!(g, special_style, b),
                "WidescreenStoryboard" => set!(g, widescreen_storyboard, b),
                "SamplesMatchPlaybackRate" => set!(g, samples_match_playback_rate, b),
                "EditorBookmarks" => set!(g, editor_bookmarks, ints),
                _ => set!(g, editor_distance_spacing, d),
            }
        }
        "Editor" => {
            let e = o.editor.get_or_insert_with(Editor::new);
            match key {
                "Bookmarks" => set!(e, bookmarks, ints),
                "DistanceSpacing" => set!(e, distance_spacing, d),
                "BeatDivisor" => set!(e, beat_divisor, d),
                "GridSize" => set!(e, grid_size, int),
                "TimelineZoom" => set!(e, timeline_zoom, d),
                _ => set!(e, current_time, int),
            }
        }
        "Metadata" => {
            let m = o.metadata.get_or_insert_with(Metadata::new);
            match key {
                "Title" => set!(m, title, string),
                "TitleUnicode" => set!(m, title_unicode, string),
                "Artist" => set!(m, artist, string),
                "ArtistUnicode" => set!(m, artist_unicode, string),
                "Creator" => set!(m, creator, string),
                "Version" => set!(m, version, string),
                "Source" => set!(m, source, string),
                "Tags" => set!(m, tags, |v: &str| if v.is_empty() {
                    Vec::<String>::new()
                } else {
                    v.split(' ').map(|s| s.to_string()).collect()
                }),
                "BeatmapID" => set!(m, beatmap_id, int),
                _ => set!(m, beatmap_set_id, int),
            }
        }
        _ => {
            let x = o.difficulty.get_or_insert_with(Difficulty::new);
            match key {
                "HPDrainRate" => set!(x, hp_drain_rate, d),
                "CircleSize" => set!(x, circle_size, d),
                "OverallDifficulty" => set!(x, overall_difficulty, d),
                "ApproachRate" => set!(x, approach_rate, d),
                "SliderMultiplier" => set!(x, slider_multiplier, d),
                _ => set!(x, slider_tickrate, d),
            }
        }
    }
}

/// A whole beatmap built in memory.
pub fn map(m: &MMap) -> OsuFile {
    let mut o = OsuFile::new(m.version);
    for s in ["General", "Editor", "Metadata", "Difficulty"] {
        if let Some(kvs) = m.kv(s) {
            match s {
                "General" => o.general = Some(General::new()),
                "Editor" => o.editor = Some(Editor::new()),
                "Metadata" => o.metadata = Some(Metadata::new()),
                _ => o.difficulty = Some(Difficulty::new()),
            }
            for (k, v) in kvs {
                set_kv(&mut o, s, k, Some(v));
            }
        }
    }
    o.events = m.events.as_ref().map(|e| events(e));
    o.timing_points = m.timing.as_ref().map(|t| TimingPoints(t.iter().map(timing).collect()));
    o.colours = m.colours.as_ref().map(|t| colours::Colours(t.iter().map(colour).collect()));
    o.hitobjects = m.hitobjects.as_ref().map(|t| HitObjects(t.iter().map(hitobject).collect()));
    o.osb = m.osb.as_ref().map(osb);
    o
}

#[allow(dead_code)]
fn _unused(s: &str) -> Result<RDec, rust_decimal::Error> {
    RDec::from_str(s)
}
