//! World "query": what opened from a damaged file is asked for everything it can tell and changed
//! through its setters; and copies of a text that came over different transports are compared.

use crate::damage::{open, Opened};
use crate::gen;
use crate::input::{self, Input};
use crate::model::*;
use crate::rng::Rng;
use crate::runner::Ctx;
use either::Either;
use events::storyboard::sprites::ObjectType;
use events::Event;
use hitobjects::HitObject;
use osu_file_parser::*;
use serde::{Deserialize, Serialize};
use timingpoints::TimingPoint;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Query {
    pub input: Input,
    pub osb_version: u8,
    /// setters called: (record, which setter, value)
    pub sets: Vec<(usize, u8, i64)>,
}

const P: &[&str] = &["C14"];

fn events(f: &OsuFile) -> impl Iterator<Item = &Event> {
    f.events.iter().flat_map(|e| &e.0).chain(f.osb.iter().flat_map(|o| &o.events).flat_map(|e| &e.0))
}
fn events_mut(f: &mut OsuFile) -> impl Iterator<Item = &mut Event> {
    f.events.iter_mut().flat_map(|e| &mut e.0).chain(f.osb.iter_mut().flat_map(|o| &mut o.events).flat_map(|e| &mut e.0))
}

fn f64_of(d: &rust_decimal::Decimal) -> f64 {
    d.to_string().parse().unwrap_or(0.0)
}

fn ask_timing(cx: &mut Ctx, t: &TimingPoint) {
    let Some(bpm) = cx.call(P, "asking for the tempo", || t.calc_bpm()) else { return };
    let Some(vel) = cx.call(P, "asking for the slider velocity", || t.calc_slider_velocity_multiplier()) else { return };
    if bpm.is_some() && vel.is_some() {
        cx.viol(P, "tempo and velocity", format!("{t:?} has both a tempo {bpm:?} and a velocity {vel:?}"));
    }
    if bpm.is_some() && !t.uninherited() || vel.is_some() && t.uninherited() {
        cx.viol(P, "tempo or velocity of the wrong kind", format!("{t:?}: tempo {bpm:?}, velocity {vel:?}"));
    }
    if let Some(e) = t.effects() {
        // flags are bits 0 and 3 of the printed number
        let n: u32 = VersionedToString::to_string(e, 14).and_then(|s| s.parse().ok()).unwrap_or(0);
        if e.kiai_time_enabled() != (n & 1 != 0) || e.no_first_barline_in_taiko_mania() != (n & 8 != 0) {
            cx.viol(P, "effect flags", format!("{e:?} says kiai {} and no barline {}", e.kiai_time_enabled(), e.no_first_barline_in_taiko_mania()));
        }
    }
    // the flag in the file, which early versions leave out for points that are not inherited
    let flag = VersionedToString::to_string(t, 14).unwrap_or_default().split(',').nth(6).map_or(true, |x| x.trim() == "1");
    if t.uninherited() != flag {
        cx.viol(P, "inherited flag", format!("{t:?} says uninherited {}", t.uninherited()));
    }
    let _ = (t.time(), t.meter(), t.sample_set(), t.sample_index(), t.volume().volume());
    let parts: Vec<String> = VersionedToString::to_string(t, 14).unwrap_or_default().split(',').map(|s| s.to_string()).collect();
    // what is written in the file is what the tempo is computed from
    let Some(b) = parts.get(1).and_then(|b| b.parse::<f64>().ok()) else { return };
    if !(1e-6..1e9).contains(&b.abs()) {
        return;
    }
    let near = |x: f64, y: f64| (x - y).abs() <= y.abs() * 1e-6;
    if let Some(bpm) = &bpm {
        if !near(f64_of(bpm) * b, 60000.0) {
            cx.viol(P, "tempo", format!("{t:?} has a beat of {b} ms and a tempo of {bpm}"));
        }
    }
    if let Some(v) = &vel {
        if !near(f64_of(v) * b, -100.0) {
            cx.viol(P, "velocity", format!("{t:?} has {b} and a velocity of {v}"));
        }
    }
    // and back: a timing point made from the tempo or velocity has it
    let effects = timingpoints::Effects::new(false, false);
    let usual = |d: &rust_decimal::Decimal| (1e-4..1e6).contains(&f64_of(d).abs());
    if let Some(bpm) = bpm.filter(usual) {
        let Some(b) = cx.call(P, "converting a tempo", || TimingPoint::bpm_to_beat_duration_ms(bpm)) else { return };
        let n = TimingPoint::new_uninherited(1, b.into(), t.meter(), t.sample_set(), t.sample_index(), *t.volume(), effects.clone());
        let back = TimingPoint::beat_duration_ms_to_bpm(b);
        if !n.calc_bpm().is_some_and(|x| near(f64_of(&x), f64_of(&bpm))) || !near(f64_of(&back), f64_of(&bpm)) || n.calc_slider_velocity_multiplier().is_some() {
            cx.viol(P, "tempo", format!("a tempo of {bpm} made {n:?} with {:?}; back it is {back}", n.calc_bpm()));
        }
    }
    if let Some(v) = vel.filter(usual) {
        let Some(n) = cx.call(P, "making an inherited timing point", || TimingPoint::new_inherited(1, v, t.meter(), t.sample_set(), t.sample_index(), *t.volume(), effects)) else { return };
        if !n.calc_slider_velocity_multiplier().is_some_and(|x| near(f64_of(&x), f64_of(&v))) || n.calc_bpm().is_some() {
            cx.viol(P, "velocity", format!("a velocity of {v} made {n:?} with {:?}", n.calc_slider_velocity_multiplier()));
        }
    }
}

fn ask_object(cx: &mut Ctx, h: &HitObject) {
    let s = &h.hitsound;
    if s.normal() != (!(s.whistle() || s.finish() || s.clap()) || VersionedToString::to_string(s, 14).and_then(|t| t.parse::<u32>().ok()).unwrap_or(0) & 1 != 0) {
        cx.viol(P, "hit sound", format!("{s:?} normal() {}", s.normal()));
    }
    if h.combo_skip_count.get() > 7 {
        cx.viol(P, "out of range", format!("combo skip count {} in {h:?}", h.combo_skip_count.get()));
    }
    if let Some(x) = &h.hitsample {
        let v = x.volume.volume();
        if v.is_some_and(|v| !(1..=100).contains(&v)) || x.volume.use_timing_point_volume() != v.is_none() {
            cx.viol(P, "out of range", format!("hit sample volume {v:?}"));
        }
    }
}

fn ask_event(cx: &mut Ctx, e: &Event) {
    match e {
        Event::AudioSample(a) if a.volume.get() > 100 => cx.viol(P, "out of range", format!("event volume {}", a.volume.get())),
        Event::SampleLegacy(a) => {
            if let Some(v) = &a.volume {
                if v.get() > 100 {
                    cx.viol(P, "out of range", format!("event volume {}", v.get()));
                }
            }
        }
        Event::StoryboardObject(o) => {
            if let ObjectType::Animation(a) = &o.object_type {
                if a.frame_count <= 3000 {
                    let Some(n) = cx.call(P, "asking for the frames' names", || a.frame_file_names()) else { return };
                    if n.len() != a.frame_count as usize {
                        cx.viol(P, "frame names", format!("{} names for {} frames", n.len(), a.frame_count));
                    }
                    let mut m = n.clone();
                    m.sort();
                    m.dedup();
                    if m.len() != n.len() {
                        cx.viol(P, "frame names", format!("two frames of {a:?} have the same name"));
                    }
                    // a plain name: digits before the extension
                    if let Some((stem, ext)) = a.filepath.get().to_str().and_then(|p| p.rsplit_once('.')) {
                        if !stem.is_empty() && !stem.contains(['/', '\\', '"']) && !ext.is_empty() && !ext.contains(['/', '\\', '"']) {
                            for (i, n) in n.iter().enumerate() {
                                if n.to_str() != Some(&format!("{stem}{i}.{ext}")) {
                                    cx.viol(P, "frame names", format!("frame {i} of {:?} is called {n:?}", a.filepath));
                                    break;
                                }
                            }
                        }
                    }
                }
            }
        }
        _ => {}
    }
}

fn ask(cx: &mut Ctx, f: &OsuFile) {
    for t in f.timing_points.iter().flat_map(|t| &t.0) {
        ask_timing(cx, t);
    }
    for h in f.hitobjects.iter().flat_map(|t| &t.0) {
        ask_object(cx, h);
    }
    for e in events(f) {
        ask_event(cx, e);
    }
}

/// A bounded value: a set outside is refused and changes nothing, a set inside is there.
fn bounded(cx: &mut Ctx, what: &str, ok: bool, want: i64, accepted: bool, before: i64, after: i64) {
    cx.note(if ok { "value set" } else { "value refused" });
    if ok != accepted {
        cx.viol(P, "range", format!("{what}: {want} was {}", if accepted { "accepted" } else { "refused" }));
    } else if after != if ok { want } else { before } {
        cx.viol(P, "range", format!("{what}: after setting {want} ({}) it is {after}, before it was {before}", if ok { "accepted" } else { "refused" }));
    }
}

/// A beatmap made of the default values of a version: they are the documented ones, a version has
/// those it can store, and a save and a restart give them back.
fn defaults(cx: &mut Ctx, v: u8) {
    use metadata as md;
    fn d<T: VersionedDefault>(v: u8) -> Option<T> {
        T::default(v)
    }
    let Some(gen) = cx.call(P, "asking for default values", || General {
        audio_filename: d(v),
        audio_lead_in: d(v),
        audio_hash: d(v),
        preview_time: d(v),
        countdown: d(v),
        sample_set: d(v),
        stack_leniency: d(v),
        mode: d(v),
        letterbox_in_breaks: d(v),
        story_fire_in_front: d(v),
        use_skin_sprites: d(v),
        always_show_playfield: d(v),
        overlay_position: d(v),
        skin_preference: d(v),
        epilepsy_warning: d(v),
        countdown_offset: d(v),
        special_style: d(v),
        widescreen_storyboard: d(v),
        samples_match_playback_rate: d(v),
        ..General::new()
    }) else {
        return;
    };
    let tags = <md::Tags as VersionedDefault>::default(v);
    let mut f = OsuFile::default(v);
    f.general = Some(gen);
    f.editor = Some(Editor::new());
    f.metadata = Some(Metadata { tags, ..Metadata::new() });
    f.difficulty = Some(Difficulty::new());
    f.events = d(v);
    f.timing_points = d(v);
    f.colours = d(v);
    f.hitobjects = d(v);
    let mut got = crate::observe::map(&f);
    let mut want: Vec<(String, String)> = [
        ("AudioFilename", ""),
        ("AudioLeadIn", "0"),
        ("AudioHash", ""),
        ("PreviewTime", "-1"),
        ("Countdown", "1"),
        ("SampleSet", "Normal"),
        ("StackLeniency", "0.7"),
        ("Mode", "0"),
        ("LetterboxInBreaks", "0"),
        ("StoryFireInFront", "1"),
        ("UseSkinSprites", "0"),
        ("AlwaysShowPlayfield", "0"),
        ("OverlayPosition", "NoChange"),
        ("SkinPreference", ""),
        ("EpilepsyWarning", "0"),
        ("CountdownOffset", "0"),
        ("SpecialStyle", "0"),
        ("WidescreenStoryboard", "0"),
        ("SamplesMatchPlaybackRate", "0"),
    ]
    .iter()
    .filter(|(k, x)| kv_storable(v, k, x))
    .map(|(k, x)| (k.to_string(), x.to_string()))
    .collect();
    want.sort();
    let mut have = got.general.take().unwrap_or_default();
    have.sort();
    cx.note("beatmap of default values");
    if have != want {
        let odd: Vec<_> = have.iter().filter(|x| !want.contains(x)).chain(want.iter().filter(|x| !have.contains(x))).collect();
        cx.viol(P, "default value", format!("version {v}: {odd:?}"));
    }
    let empty = f.events.as_ref().is_some_and(|e| e.0.is_empty())
        && f.timing_points.as_ref().is_some_and(|e| e.0.is_empty())
        && f.hitobjects.as_ref().is_some_and(|e| e.0.is_empty())
        && f.colours.as_ref().map(|c| c.0.len()) == (v >= 5).then_some(0)
        && f.editor == Some(Editor::default());
    if !empty || <events::storyboard::sprites::LoopType as VersionedDefault>::default(v) != Some(events::storyboard::sprites::LoopType::LoopForever) {
        cx.viol(P, "default value", format!("version {v}: {f:?}"));
    }
    let Some(back) = reopened(cx, &f) else {
        cx.viol(P, "default value", format!("the default values of version {v} cannot be saved and reopened"));
        return;
    };
    if back != f {
        cx.viol(P, "default value", format!("version {v}, after a save: {}", crate::observe::diff(&crate::observe::map(&f), &crate::observe::map(&back))));
    }
}

/// A number that came from storage and what it stands for, both ways, for every kind of value that
/// has numbers; and the values that can be made out of nothing.
fn convert(cx: &mut Ctx, v: u8, at: usize, val: i64) {
    use crate::names::*;
    use events::audio_sample;
    use events::normal_event::types::{LayerLegacy, OriginTypeLegacy};
    use events::storyboard::sprites::{self, OriginType, Sprite};
    use events::storyboard::types::Easing;
    use hitobjects as ho;
    use timingpoints as tp;
    let i = val as i32;
    let u = val.unsigned_abs();
    let b = val.rem_euclid(256) as u8;
    macro_rules! same {
        ($what:expr, $got:expr, $want:expr) => {{
            let Some(g) = cx.call(P, concat!("converting: ", $what), || $got) else { return };
            let w = $want;
            cx.note(concat!("converted: ", $what));
            if g != w {
                cx.viol(P, "number and name", format!(concat!($what, ": {} is {:?}, should be {:?}"), val, g, w));
            }
        }};
    }
    match at % 11 {
        10 => defaults(cx, if u % 3 == 0 { v } else { 3 + (u % 12) as u8 }),
        0 => {
            same!("easing", <Easing as VersionedFrom<i32>>::from(i, v), Some(easing(i)));
            same!("easing number", <i32 as VersionedFrom<Easing>>::from(easing(i), v), Some(i));
            same!("easing text", VersionedToString::to_string(&easing(i), v), Some(i.to_string()));
        }
        1 => {
            let want = origin(i);
            same!("origin", <OriginType as VersionedTryFrom<i32>>::try_from(i, v).ok().flatten(), want.left());
            if let Either::Left(o) = want {
                same!("origin number", <i32 as VersionedFrom<OriginType>>::from(o, v), Some(i));
                let made: sprites::Origin = o.into();
                same!("origin text", VersionedToString::to_string(&made, v), Some(i.to_string()));
                let long = sprites::Origin { type_: want, shorthand: false };
                same!("origin name", VersionedToString::to_string(&long, v), Some(format!("{o:?}")));
                same!("origin from name", <sprites::Origin as VersionedFromStr>::from_str(&format!("{o:?}"), v).ok().flatten(), Some(long));
            }
            let short = sprites::Origin { type_: want, shorthand: true };
            same!("origin from text", <sprites::Origin as VersionedFromStr>::from_str(&i.to_string(), v).ok().flatten(), Some(short));
        }
        2 => {
            let k = u as usize;
            same!("old layer", <LayerLegacy as VersionedFromRepr>::from_repr(k, v).ok().flatten(), LAYERS_LEGACY.get(k).copied());
            same!("old origin", <OriginTypeLegacy as VersionedFromRepr>::from_repr(k, v).ok().flatten(), ORIGINS_LEGACY.get(k).copied());
            let (l, o) = (k % 6, k % 10);
            same!("old layer number", <usize as VersionedFrom<LayerLegacy>>::from(LAYERS_LEGACY[l], v), Some(l));
            same!("old layer text", VersionedToString::to_string(&LAYERS_LEGACY[l], v), Some(l.to_string()));
            same!("old origin number", <usize as VersionedFrom<OriginTypeLegacy>>::from(ORIGINS_LEGACY[o], v), Some(o));
            same!("old origin text", VersionedToString::to_string(&ORIGINS_LEGACY[o], v), Some(o.to_string()));
        }
        3 => {
            same!("timing point sample set", <tp::SampleSet as VersionedFrom<i32>>::from(i, v), Some(point_set(i)));
            same!("timing point sample set number", <i32 as VersionedFrom<tp::SampleSet>>::from(point_set(i), v), Some(i));
            let n = i.unsigned_abs() & 0x7fff_ffff;
            let want = match std::num::NonZeroU32::new(n) {
                Some(n) => tp::SampleIndex::Index(n),
                None => tp::SampleIndex::OsuDefaultHitsounds,
            };
            same!("timing point sample index", <tp::SampleIndex as VersionedFrom<u32>>::from(n, v), Some(want));
            same!("timing point sample index number", <i32 as VersionedFrom<tp::SampleIndex>>::from(want, v), Some(n as i32));
            same!("timing point sample index text", VersionedToString::to_string(&want, v), Some(n.to_string()));
            same!("timing point volume", tp::Volume::new(i, v).map(|x| (x.volume(), <i32 as VersionedFrom<tp::Volume>>::from(x, v))), Some((i, Some(i))));
        }
        4 => {
            let n = i as u32;
            let e = <tp::Effects as VersionedFrom<u32>>::from(n, v);
            same!("effects", e.and_then(|e| <u32 as VersionedFrom<tp::Effects>>::from(e, v)), Some(n));
            same!("effect flags", e.map(|e| (e.kiai_time_enabled(), e.no_first_barline_in_taiko_mania())), Some((n & 1 != 0, n & 8 != 0)));
            let mut c = e;
            if let Some(c) = &mut c {
                c.clear_unused_bits();
            }
            same!("used effects", c, <tp::Effects as VersionedFrom<u32>>::from(n & 9, v));
            same!("made effects", Some(tp::Effects::new(n & 1 != 0, n & 8 != 0)), <tp::Effects as VersionedFrom<u32>>::from(n & 9, v));
        }
        5 => {
            let n = u as usize;
            same!("hit sample set number", <usize as VersionedFrom<ho::SampleSet>>::from(object_set(n as u64), v), Some(n));
            same!("hit sample set from text", <ho::SampleSet as VersionedFromStr>::from_str(&n.to_string(), v).ok().flatten(), Some(object_set(n as u64)));
            same!("hit sample index", <ho::SampleIndex as VersionedFrom<usize>>::from(n, v), Some(object_index(n as u64)));
            same!("hit sample index number", <usize as VersionedFrom<ho::SampleIndex>>::from(object_index(n as u64), v), Some(n));
            same!("hit sample set default", <ho::SampleSet as VersionedDefault>::default(v), Some(object_set(0)));
            same!("hit sample index default", <ho::SampleIndex as VersionedDefault>::default(v), Some(object_index(0)));
        }
        6 => {
            let made = ho::Volume::new(Some(b));
            let ok = (1..=100).contains(&b);
            same!("hit sample volume", made.as_ref().ok().and_then(|x| x.volume()), ok.then_some(b));
            same!("hit sample volume number", made.ok().map_or(Some(0), |x| <i32 as VersionedFrom<ho::Volume>>::from(x, v)), Some(if ok { b as i32 } else { 0 }));
            same!("no hit sample volume", ho::Volume::new(None).ok(), <ho::Volume as VersionedDefault>::default(v));
            same!("hit sample volume from text", <ho::Volume as VersionedFromStr>::from_str(&b.to_string(), v).ok().flatten().map(|x| x.volume()), if b == 0 { Some(None) } else { ok.then_some(Some(b)) });
            same!("event volume", <audio_sample::Volume as VersionedTryFrom<u8>>::try_from(b, v).ok().flatten().and_then(|x| <u8 as VersionedFrom<audio_sample::Volume>>::from(x, v)), (b <= 100).then_some(b));
            same!("event volume from text", <audio_sample::Volume as VersionedFromStr>::from_str(&b.to_string(), v).ok().flatten().map(|x| x.get()), (b <= 100).then_some(b));
            same!("event volume default", <audio_sample::Volume as VersionedDefault>::default(v).map(|x| x.get()), Some(100));
            same!("combo skip count", ho::ComboSkipCount::new(b, v).ok().flatten().and_then(|x| <u8 as VersionedFrom<ho::ComboSkipCount>>::from(x, v)), (b <= 7).then_some(b));
        }
        7 => {
            let h = <ho::HitSound as VersionedFrom<u8>>::from(b, v);
            let f = |k: u8| b >> k & 1 != 0;
            same!("hit sound", h, Some(ho::HitSound::new(f(0), f(1), f(2), f(3))));
            same!("hit sound flags", h.map(|h| (h.normal(), h.whistle(), h.finish(), h.clap())), Some((f(0) || b & 15 == 0, f(1), f(2), f(3))));
            same!("hit sound text", h.and_then(|h| VersionedToString::to_string(&h, v)), Some((b & 15).to_string()));
            let (name, c) = CURVES[b as usize % 4];
            same!("curve", <ho::CurveType as VersionedFromStr>::from_str(name, v).ok().flatten(), Some(c));
            same!("curve name", VersionedToString::to_string(&c, v), Some(name.to_string()));
        }
        8 => {
            // a sprite's file is inside the beatmap's folder
            let text = ["a.png", "sb/a b.png", "/a.png", "/", "", "./a", "..", "a/../b", "/x/../../y"][u as usize % 9];
            let rel = !text.starts_with('/');
            same!("sprite", Sprite::new(std::path::Path::new(text)).ok().map(|s| s.filepath), rel.then(|| text.into()));
            let mut p: FilePath = "before".into();
            p.set(text);
            same!("file path", p.get().to_str(), Some(text));
            // a name in another encoding
            let odd = std::path::PathBuf::from(<std::ffi::OsStr as std::os::unix::ffi::OsStrExt>::from_bytes(&[b'a', b | 0x80, b'.', b'x', b | 0x80]));
            p.set(&odd);
            same!("file path in another encoding", p.get(), odd.as_path());
            let anim = sprites::Animation { frame_count: 3, frame_delay: 1.into(), loop_type: sprites::LoopType::LoopOnce, filepath: p.clone() };
            same!("frames in another encoding", anim.frame_file_names().len(), 3);
        }
        _ => {
            let text = if u % 3 == 0 { format!("{i}x") } else { i.to_string() };
            let mut d = Decimal::new_from_str(&text);
            same!("decimal held as text", d.get().clone(), Either::<rust_decimal::Decimal, String>::Right(text.clone()));
            let r = d.try_make_decimal();
            same!("decimal made of text", r.is_ok(), u % 3 != 0);
            same!("decimal after that", d.clone(), Decimal::from(&text[..]));
            same!("decimal printed", d.to_string(), text.clone());
            same!("decimal again", (d.try_make_decimal().is_ok(), d.to_string()), (u % 3 != 0, text.clone()));
            if u % 3 != 0 {
                same!("decimal of a number", (Decimal::from(i), Decimal::new(i.into())), (d.clone(), d.clone()));
            }
            same!("default decimal", Decimal::default(), Decimal::from(0));
            for (what, o, x) in [("circle", HitObject::hitcircle_default(), 256), ("spinner", HitObject::spinner_default(), 256), ("hold", HitObject::osu_mania_hold_default(), 0)] {
                let plain = o.position == Position { x: x.into(), y: 192.into() } && o.time == Decimal::from(0) && !o.new_combo && o.combo_skip_count.get() == 0 && hitsound(&o.hitsound) == 0;
                let end = match (&o.obj_params, what) {
                    (ho::HitObjectParams::HitCircle, "circle") => true,
                    (ho::HitObjectParams::Spinner { end_time }, "spinner") | (ho::HitObjectParams::OsuManiaHold { end_time }, "hold") => *end_time == Decimal::from(0),
                    _ => false,
                };
                if !plain || !end {
                    cx.viol(P, "default object", format!("the default {what} is {o:?}"));
                }
                // and it can be saved and opened in every version of the format
                let Some(s) = cx.call(P, "printing a default object", || VersionedToString::to_string(&o, v)) else { return };
                let Some(s) = s else { continue };
                let Some(back) = cx.call(P, "opening a default object", || <HitObject as VersionedFromStr>::from_str(&s, v)) else { return };
                if !back.as_ref().is_ok_and(|b| b.as_ref() == Some(&o)) && v > 4 {
                    cx.viol(P, "default object", format!("the default {what} in version {v} is printed as {s} and read as {back:?}"));
                }
            }
        }
    }
}

fn set(cx: &mut Ctx, f: &mut OsuFile, at: usize, which: u8, val: i64) {
    let v = f.version;
    match which % 16 {
        0..=4 => {
            let Some(l) = f.timing_points.as_mut().filter(|l| !l.0.is_empty()) else { return };
            let n = l.0.len();
            let t = &mut l.0[at % n];
            let old = t.clone();
            let i = val as i32;
            match which % 12 {
                0 => {
                    t.set_time(i.clamp(-1_000_000, 1_000_000));
                    t.set_meter(i);
                    if t.meter() != i || t.time() != &Decimal::from(i.clamp(-1_000_000, 1_000_000)) || t.volume() != old.volume() || t.effects() != old.effects() {
                        cx.viol(P, "setter", format!("{old:?} with meter and time {i} became {t:?}"));
                    }
                }
                1 => {
                    let mut vol = *t.volume();
                    vol.set_volume(i);
                    t.set_volume(vol);
                    let set = [timingpoints::SampleSet::Normal, timingpoints::SampleSet::Soft, timingpoints::SampleSet::Drum][at % 3];
                    t.set_sample_set(set);
                    let index = <timingpoints::SampleIndex as VersionedFrom<u32>>::from(i as u32, v).unwrap_or(t.sample_index());
                    if at % 2 == 0 {
                        *t.sample_index_mut() = index;
                    }
                    let index = if at % 2 == 0 { index } else { old.sample_index() };
                    if t.volume().volume() != i || t.sample_set() != set || t.sample_index() != index || t.meter() != old.meter() || t.time() != old.time() {
                        cx.viol(P, "setter", format!("{old:?} with volume {i} and samples {set:?} became {t:?}"));
                    }
                }
                2 => {
                    t.set_uninherited(val % 2 == 0);
                    if t.uninherited() != (val % 2 == 0) || t.effects() != old.effects() {
                        cx.viol(P, "setter", format!("{old:?} with uninherited {} became {t:?}", val % 2 == 0));
                    }
                    let t = t.clone();
                    ask_timing(cx, &t);
                }
                _ => {
                    if let Some(e) = t.effects_mut() {
                        let (k, b) = (e.kiai_time_enabled(), e.no_first_barline_in_taiko_mania());
                        let on = val % 2 == 0;
                        let rest = |e: &timingpoints::Effects| VersionedToString::to_string(e, 14).and_then(|s| s.parse::<u32>().ok()).unwrap_or(0) & !9;
                        let r = rest(e);
                        if which % 12 == 3 {
                            e.set_kiai_time_enabled(on);
                        } else {
                            e.set_no_first_barline_in_taiko_mania(on);
                        }
                        let want = if which % 12 == 3 { (on, b) } else { (k, on) };
                        if (e.kiai_time_enabled(), e.no_first_barline_in_taiko_mania()) != want || rest(e) != r {
                            cx.viol(P, "setter", format!("effects {:?} became {e:?}", old.effects()));
                        }
                    }
                }
            }
        }
        5..=8 => {
            let Some(l) = f.hitobjects.as_mut().filter(|l| !l.0.is_empty()) else { return };
            let n = l.0.len();
            let h = &mut l.0[at % n];
            match which % 12 {
                5 | 6 => {
                    let b = h.combo_skip_count.get() as i64;
                    let n = val.rem_euclid(256) as u8;
                    let Some(r) = cx.call(P, "setting a combo skip count", || h.combo_skip_count.set(n, v)) else { return };
                    bounded(cx, "combo skip count", n <= 7, n as i64, r.is_ok(), b, h.combo_skip_count.get() as i64);
                }
                7 => {
                    if let Some(s) = &mut h.hitsample {
                        let b = s.volume.volume();
                        let n = val.rem_euclid(256) as u8;
                        let Some(r) = cx.call(P, "setting a volume", || s.volume.set_volume(n)) else { return };
                        bounded(cx, "hit sample volume", (1..=100).contains(&n), n as i64, r.is_ok(), b.map_or(-1, |b| b as i64), s.volume.volume().map_or(-1, |b| b as i64));
                        if val % 5 == 0 {
                            s.volume.set_use_timing_point_volume();
                            if s.volume.volume().is_some() {
                                cx.viol(P, "setter", "the timing point's volume is not used");
                            }
                        }
                    }
                }
                _ => {
                    let s = &mut h.hitsound;
                    let old = s.clone();
                    let on = val % 2 == 0;
                    let mut want = [s.whistle(), s.finish(), s.clap()];
                    let bits = |s: &hitobjects::HitSound| VersionedToString::to_string(s, 14).and_then(|t| t.parse::<u8>().ok());
                    let stored = bits(s);
                    match val.rem_euclid(8) / 2 {
                        0 => s.set_whistle(on),
                        1 => s.set_finish(on),
                        2 => s.set_clap(on),
                        _ => s.set_normal(on),
                    }
                    let k = val.rem_euclid(8) as usize / 2;
                    if k < 3 {
                        want[k] = on;
                    }
                    let normal_ok = (k == 3 || bits(s).map(|b| b & 1) == stored.map(|b| b & 1)) && (k != 3 || s.normal() == (on || want == [false; 3]));
                    if [s.whistle(), s.finish(), s.clap()] != want || !normal_ok {
                        cx.viol(P, "setter", format!("hit sound {old:?} became {s:?} after setting flag {k} to {on}"));
                    }
                }
            }
        }
        12..=15 => convert(cx, v, at, val),
        _ => {
            let n = events(f).count();
            if n == 0 {
                return;
            }
            let mut k = at % n;
            // the next sample event
            for (i, e) in events(f).enumerate().chain(events(f).enumerate()).skip(at % n).take(n) {
                if matches!(e, Event::AudioSample(_)) || matches!(e, Event::SampleLegacy(s) if s.volume.is_some()) {
                    k = i;
                    break;
                }
            }
            let Some(e) = events_mut(f).nth(k) else { return };
            let vol = match e {
                Event::AudioSample(a) => &mut a.volume,
                Event::SampleLegacy(a) => match &mut a.volume {
                    Some(v) => v,
                    None => return,
                },
                _ => return,
            };
            let b = vol.get() as i64;
            let n = val.rem_euclid(256) as u8;
            let Some(r) = cx.call(P, "setting a volume", || vol.set(n, v)) else { return };
            bounded(cx, "event volume", n <= 100, n as i64, r.is_ok(), b, vol.get() as i64);
            let made = cx.call(P, "making a volume", || events::Volume::new(n, v).map(|v| v.get()).ok());
            if made != Some((n <= 100).then_some(n)) {
                cx.viol(P, "range", format!("event volume {n} made {made:?}"));
            }
        }
    }
}

fn reopened(cx: &mut Ctx, f: &OsuFile) -> Option<OsuFile> {
    let s = cx.call(&["C01"], "printing", || f.to_string())?;
    let o = cx.call(&["C01"], "printing", || f.osb_to_string())?;
    let mut g = cx.call(&["C01"], "opening", || s.parse::<OsuFile>())?.ok()?;
    if let Some(o) = o {
        cx.call(&["C01"], "appending", || g.append_osb(&o))?.ok()?;
    }
    Some(g)
}

pub fn exec(cx: &mut Ctx, q: &Query) {
    let text = q.input.text(Some(cx));
    let mut f = match open(cx, &["C01"], &text, q.input.is_osb(), q.osb_version) {
        Opened::Map(f) => *f,
        _ => {
            cx.note("rejected");
            return;
        }
    };
    cx.note("opened");
    ask(cx, &f);
    // decimals that were no numbers can be tried again
    for t in f.hitobjects.iter_mut().flat_map(|t| &mut t.0) {
        let before = t.time.clone();
        let Some(r) = cx.call(P, "making a decimal", || t.time.try_make_decimal()) else { return };
        if r.is_err() != matches!(t.time.get(), Either::Right(_)) || r.is_err() && t.time != before {
            cx.viol(P, "decimal", format!("{before:?} became {:?} with {r:?}", t.time));
        }
    }
    let faithful = reopened(cx, &f).is_some_and(|g| g == f);
    for (at, which, val) in &q.sets {
        set(cx, &mut f, *at, *which, *val);
        if !cx.rep.viols.is_empty() {
            return;
        }
    }
    // the program ends and the file is opened again
    if faithful && f.version >= 10 {
        if let Some(g) = reopened(cx, &f) {
            cx.note("reopened after setting");
            ask(cx, &g);
        } else {
            cx.viol(P, "unreadable after setting", "the beatmap could be reopened before values were set, and cannot after");
        }
    }
}

pub fn gen(r: &mut Rng) -> Query {
    let mut input = input::good(r, None, 15);
    let focused = r.chance(1, 2);
    if focused {
        input = input::focused(r);
    }
    if r.chance(4, 5) {
        let len = input.good().len();
        for _ in 0..1 + r.below(if focused { 2 } else { 5 }) {
            input.faults.push(if r.chance(1, 6) {
                gen::grow(r)
            } else if focused || r.chance(3, 5) {
                let t = match r.below(if focused { 18 } else { 12 }) {
                    12..=15 => r.below(300).to_string(),
                    16 => r.pick(&[0, 1, 7, 8, 99, 100, 101, 127, 128, 255]).to_string(),
                    17 => gen::token(r),
                    0 => "0".into(),
                    1 => "-0".into(),
                    2 => "0.0000000000000000000000000001".into(),
                    3 => "79228162514264337593543950335".into(),
                    4 => "".into(),
                    5 => r.pick(&["\"\"", "..", "/", ".", "a/", "\\", "\"..\"", ".png", "a.", "a.b/c", "a.b/"]).to_string(),
                    6 => gen::dec(r).0,
                    7 => r.below(300).to_string(),
                    8 => gen::int(r).to_string(),
                    9 => "0.000000000000000001".into(),
                    10 => (1u64 << r.below(33)).to_string(),
                    _ => r.below(12).to_string(),
                };
                crate::disk::Fault::Field { line: r.below(1000), field: r.below(12), text: t }
            } else {
                gen::fault(r, len)
            });
        }
    }
    let n = r.below(14);
    let sets = (0..n)
        .map(|_| {
            let val = match r.below(6) {
                0 => r.below(12) as i64,
                5 => r.below(40) as i64,
                1 => *r.pick(&[0, 1, 7, 8, 99, 100, 101, 127, 128, 200, 255, 256]),
                2 => r.below(256) as i64,
                _ => gen::int(r) as i64,
            };
            (r.below(1000), r.below(16) as u8, val)
        })
        .collect();
    Query { input, osb_version: if r.chance(1, 8) { gen::version(r) } else { 14 }, sets }
}

// ------------------------------------------------------------------------------------------------

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Compare {
    pub input: Input,
    /// the transports the two copies came over
    pub a: Vec<Hop>,
    pub b: Vec<Hop>,
    /// storage damage to one value of the second copy: line, character, what it is now
    pub hit: Option<(usize, usize, char)>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Hop {
    Endings { seed: u64, pct: u8 },
    Bom,
    Blank { line: usize, n: u8 },
    Indent { line: usize, tail: bool, tab: bool },
    /// spaces or tabs between a key and its colon
    Key { line: usize, n: u8, #[serde(default)] tab: bool },
    /// spaces or tabs between a colon and the value
    Value { line: usize, n: u8, #[serde(default)] tab: bool },
    /// key/value lines of a section in another order
    Order { seed: u64 },
}

const Q: &[&str] = &["C15"];
/// the character is lost
const GONE: char = '\u{8}';
/// the letter is in the other case
const CASE: char = '\u{7}';
/// there is one more character
const MORE: char = '\u{6}';
/// there is one more colon
const COLON: char = '\u{3}';
/// the line is lost
const LOST: char = '\u{5}';
/// the line is there twice
const TWICE: char = '\u{4}';

struct Ln {
    text: String,
    end: &'static str,
    /// index in the original; None for added blank lines
    at: Option<usize>,
    section: String,
    /// which header the line is below
    no: usize,
}

fn split(text: &str) -> Vec<Ln> {
    let mut section = String::new();
    let mut no = 0;
    text.split_inclusive('\n')
        .enumerate()
        .map(|(i, l)| {
            let (t, end) = match l.strip_suffix("\r\n") {
                Some(t) => (t, "\r\n"),
                None => match l.strip_suffix('\n') {
                    Some(t) => (t, "\n"),
                    None => (l, ""),
                },
            };
            let s = t.trim();
            if s.starts_with('[') && s.ends_with(']') {
                section = s.to_string();
                no += 1;
            }
            Ln { text: t.to_string(), end, at: Some(i), section: section.clone(), no }
        })
        .collect()
}

fn is_kv(l: &Ln) -> bool {
    matches!(&l.section[..], "[General]" | "[Editor]" | "[Metadata]" | "[Difficulty]") && !(l.text.trim().starts_with('[') && l.text.trim().ends_with(']'))
}

fn carry(cx: &mut Ctx, text: &str, hops: &[Hop], hit: Option<(usize, usize, char)>) -> String {
    let mut bom = text.starts_with('\u{feff}');
    let mut lines = split(text.strip_prefix('\u{feff}').unwrap_or(text));
    if let Some((l, c, to)) = hit {
        if let Some(i) = lines.iter().position(|x| x.at == Some(l)) {
            let l = &mut lines[i];
            let mut v: Vec<char> = l.text.chars().collect();
            match to {
                GONE => {
                    v.remove(c);
                }
                CASE => v[c] = (v[c] as u8 ^ 0x20) as char,
                MORE => v.insert(c, '0'),
                COLON => v.insert(c, ':'),
                LOST => v.clear(),
                TWICE => {}
                _ => v[c] = to,
            }
            l.text = v.into_iter().collect();
            if to == TWICE {
                if l.end.is_empty() {
                    l.end = "\n";
                }
                let copy = Ln { text: l.text.clone(), end: l.end, at: None, section: l.section.clone(), no: l.no };
                lines.insert(i, copy);
            }
            cx.fault(match to {
                LOST => "line lost",
                TWICE => "line doubled",
                _ => "byte of a value garbled",
            });
        }
    }
    for h in hops {
        let n = lines.len();
        if n == 0 {
            break;
        }
        match h {
            Hop::Endings { seed, pct } => {
                let mut r = Rng::new(*seed);
                for l in lines.iter_mut().filter(|l| !l.end.is_empty()) {
                    l.end = if r.below(100) < *pct as usize { "\r\n" } else { "\n" };
                }
                cx.fault("line endings converted");
            }
            Hop::Bom => {
                bom = true;
                cx.fault("byte order mark added");
            }
            Hop::Blank { line, n: k } => {
                let at = line % (n + 1);
                if at > 0 && lines[at - 1].end.is_empty() {
                    lines[at - 1].end = "\n";
                }
                let (section, no) = if at > 0 { (lines[at - 1].section.clone(), lines[at - 1].no) } else { (String::new(), 0) };
                for _ in 0..*k {
                    lines.insert(at, Ln { text: String::new(), end: "\n", at: None, section: section.clone(), no });
                }
                cx.fault("blank lines added");
            }
            Hop::Indent { line, tail, tab } => {
                let l = &mut lines[line % n];
                let s = if *tab { '\t' } else { ' ' };
                if *tail {
                    l.text.push(s);
                } else {
                    l.text.insert(0, s);
                }
                cx.fault("outer spaces added");
            }
            Hop::Key { line, n: k, tab } => {
                let l = &mut lines[line % n];
                if is_kv(l) {
                    if let Some(c) = l.text.find(':') {
                        l.text.insert_str(c, &if *tab { "\t" } else { " " }.repeat(*k as usize));
                        cx.fault("spaces before a colon");
                    }
                }
            }
            Hop::Value { line, n: k, tab } => {
                let l = &mut lines[line % n];
                if is_kv(l) {
                    if let Some(c) = l.text.find(':') {
                        l.text.insert_str(c + 1, &if *tab { "\t" } else { " " }.repeat(*k as usize));
                        cx.fault("spaces after a colon");
                    }
                }
            }
            Hop::Order { seed } => {
                let mut r = Rng::new(*seed);
                let mut i = 0;
                while i < n {
                    let mut j = i;
                    while j < n && lines[j].no == lines[i].no {
                        j += 1;
                    }
                    let body: Vec<usize> = (i..j).filter(|k| is_kv(&lines[*k]) && !lines[*k].text.trim().is_empty()).collect();
                    if body.iter().all(|k| lines[*k].text.contains(':')) {
                        for x in (1..body.len()).rev() {
                            let y = r.below(x + 1);
                            let (x, y) = (body[x], body[y]);
                            let (tx, ty) = (std::mem::take(&mut lines[x].text), std::mem::take(&mut lines[y].text));
                            lines[x].text = ty;
                            lines[y].text = tx;
                        }
                    }
                    i = j;
                }
                cx.fault("key/value lines reordered");
            }
        }
    }
    let mut s = String::new();
    if bom {
        s.push('\u{feff}');
    }
    for l in &lines {
        s.push_str(&l.text);
        s.push_str(l.end);
    }
    s
}

pub fn exec_compare(cx: &mut Ctx, c: &Compare) {
    let text = c.input.text(Some(cx));
    let lines = split(text.strip_prefix('\u{feff}').unwrap_or(&text));
    let first = lines.iter().find(|l| !l.text.trim().is_empty()).and_then(|l| l.at);
    // which character is hit: one that is part of a value, or of the version line
    let mut hit = None;
    if let Some((l, k, to)) = c.hit {
        let ok: Vec<&Ln> = lines
            .iter()
            .filter(|l| {
                let t = l.text.trim();
                !t.is_empty() && (!l.section.is_empty() || first == l.at && t.starts_with("osu file format v")) && !(t.starts_with('[') && t.ends_with(']')) && !t.starts_with('[') && !l.text.contains('\u{feff}')
            })
            .collect();
        if !ok.is_empty() {
            let l = ok[l % ok.len()];
            let v: Vec<char> = l.text.chars().collect();
            // spaces count between the first and the last visible character of a value
            let val = v.iter().position(|c| *c == ':').map_or(0, |p| p + 1);
            let first = (val..v.len()).find(|i| !v[*i].is_whitespace());
            let last = (val..v.len()).rfind(|i| !v[*i].is_whitespace());
            let inner = |i: usize| first.is_some_and(|f| f < i) && last.is_some_and(|l| i < l);
            let at: Vec<usize> = (0..v.len())
                .filter(|i| v[*i] != to && v[*i] != ':' && v[*i] != '\u{feff}' && (!v[*i].is_whitespace() || to == GONE && inner(*i)))
                .filter(|i| to != CASE || v[*i].is_ascii_alphabetic())
                // what is before the first section, after the version line, does not count
                .filter(|_| to != TWICE || !l.section.is_empty())
                .collect();
            if !at.is_empty() {
                hit = Some((l.at.unwrap(), at[k % at.len()], to));
            }
        }
    }
    let a = carry(cx, &text, &c.a, None);
    let b = carry(cx, &text, &c.b, hit);
    let Some(ab) = cx.call(Q, "comparing", || osu_str_eq(&a, &b)) else { return };
    let Some(ba) = cx.call(Q, "comparing", || osu_str_eq(&b, &a)) else { return };
    let Some(oa) = cx.call(Q, "comparing", || osu_str_eq(&text, &a)) else { return };
    let Some(bb) = cx.call(Q, "comparing", || osu_str_eq(&b, &b)) else { return };
    let Some(trim) = cx.call(Q, "trimming", || osu_str_trimmer(&a) == osu_str_trimmer(&b)) else { return };
    cx.note(if hit.is_some() { "value damaged" } else { "same content" });
    let what = || format!("over {:?} and over {:?}, damage {hit:?}", c.a, c.b);
    if !bb {
        cx.viol(Q, "not reflexive", what());
    }
    if ab != ba {
        cx.viol(Q, "not symmetric", what());
    }
    if !oa {
        cx.viol(Q, "layout not ignored", format!("the original and the copy differ {}", what()));
    }
    if ab != hit.is_none() {
        cx.viol(Q, if ab { "difference ignored" } else { "layout not ignored" }, what());
    }
    if trim != ab {
        cx.viol(Q, "trimmed texts disagree", what());
    }
    let asserted = crate::runner::guarded(|| assert_eq_osu_str(&a, &b)).is_ok();
    if asserted != ab {
        cx.viol(Q, "assertion disagrees", what());
    }
}

pub fn gen_compare(r: &mut Rng) -> Compare {
    let mut input = if r.chance(3, 4) { input::good(r, None, 25) } else { input::damaged(r, None, 25, 2) };
    if r.chance(1, 6) {
        input.layout.lead_indent = r.below(3) as u8;
    }
    let hops = |r: &mut Rng| {
        let n = r.below(6);
        (0..n)
            .map(|_| match r.below(9) {
                8 => Hop::Value { line: r.below(100_000), n: 1 + r.below(2) as u8, tab: r.chance(1, 4) },
                0 | 1 => Hop::Endings { seed: r.next() % 1000, pct: *r.pick(&[0, 50, 100]) },
                2 => Hop::Bom,
                3 => Hop::Blank { line: r.below(100_000), n: 1 + r.below(3) as u8 },
                4 => Hop::Indent { line: r.below(100_000), tail: r.chance(1, 2), tab: r.chance(1, 2) },
                5 | 6 => Hop::Key { line: r.below(100_000), n: 1 + r.below(2) as u8, tab: r.chance(1, 4) },
                _ => Hop::Order { seed: r.next() % 1000 },
            })
            .collect()
    };
    let (a, b) = (hops(r), hops(r));
    let hit = if r.chance(1, 2) { Some((r.below(100_000), r.below(1000), *r.pick(&['0', '1', '7', 'a', 'Z', 'é', ' ', '.', '-', GONE, GONE, CASE, CASE, MORE, COLON, LOST, TWICE]))) } else { None };
    Compare { input, a, b, hit }
}
