//! What the numbers and letters of the format stand for, independently of the library's conversions.

use either::Either;
use osu_file_parser::events::audio_sample;
use osu_file_parser::events::normal_event::types::{LayerLegacy, OriginTypeLegacy};
use osu_file_parser::events::storyboard::sprites::{Layer, OriginType};
use osu_file_parser::events::storyboard::types::Easing;
use osu_file_parser::hitobjects as ho;
use osu_file_parser::timingpoints as tp;

pub const EASINGS: [Easing; 35] = [
    Easing::Linear,
    Easing::EasingOut,
    Easing::EasingIn,
    Easing::QuadIn,
    Easing::QuadOut,
    Easing::QuadInOut,
    Easing::CubicIn,
    Easing::CubicOut,
    Easing::CubicInOut,
    Easing::QuartIn,
    Easing::QuartOut,
    Easing::QuartInOut,
    Easing::QuintIn,
    Easing::QuintOut,
    Easing::QuintInOut,
    Easing::SineIn,
    Easing::SineOut,
    Easing::SineInOut,
    Easing::ExpoIn,
    Easing::ExpoOut,
    Easing::ExpoInOut,
    Easing::CircIn,
    Easing::CircOut,
    Easing::CircInOut,
    Easing::ElasticIn,
    Easing::ElasticOut,
    Easing::ElasticHalfOut,
    Easing::ElasticQuarterOut,
    Easing::ElasticInOut,
    Easing::BackIn,
    Easing::BackOut,
    Easing::BackInOut,
    Easing::BounceIn,
    Easing::BounceOut,
    Easing::BounceInOut,
];
pub const LAYERS_LEGACY: [LayerLegacy; 6] = [
    LayerLegacy::Background,
    LayerLegacy::Fail,
    LayerLegacy::Pass,
    LayerLegacy::Foreground,
    LayerLegacy::Overlay,
    LayerLegacy::Video,
];
pub const ORIGINS_LEGACY: [OriginTypeLegacy; 10] = [
    OriginTypeLegacy::TopLeft,
    OriginTypeLegacy::Centre,
    OriginTypeLegacy::CentreLeft,
    OriginTypeLegacy::TopRight,
    OriginTypeLegacy::BottomCentre,
    OriginTypeLegacy::TopCentre,
    OriginTypeLegacy::Custom,
    OriginTypeLegacy::CentreRight,
    OriginTypeLegacy::BottomLeft,
    OriginTypeLegacy::BottomRight,
];
pub const ORIGIN_TYPES: [OriginType; 10] = [
    OriginType::TopLeft,
    OriginType::Centre,
    OriginType::CentreLeft,
    OriginType::TopRight,
    OriginType::BottomCentre,
    OriginType::TopCentre,
    OriginType::Custom,
    OriginType::CentreRight,
    OriginType::BottomLeft,
    OriginType::BottomRight,
];
/// In the order of `model::LAYERS`.
pub const OBJECT_LAYERS: [Layer; 5] = [Layer::Background, Layer::Fail, Layer::Pass, Layer::Foreground, Layer::Overlay];
pub const AUDIO_LAYERS: [audio_sample::Layer; 4] = [
    audio_sample::Layer::Background,
    audio_sample::Layer::Fail,
    audio_sample::Layer::Pass,
    audio_sample::Layer::Foreground,
];
pub const CURVES: [(&str, ho::CurveType); 4] = [
    ("B", ho::CurveType::Bezier),
    ("C", ho::CurveType::Centripetal),
    ("L", ho::CurveType::Linear),
    ("P", ho::CurveType::PerfectCircle),
];

/// The place of a value in its table, 99 if it has none.
pub fn place<T: PartialEq>(table: &[T], x: &T) -> usize {
    table.iter().position(|y| y == x).unwrap_or(99)
}

pub fn easing(n: i32) -> Easing {
    usize::try_from(n).ok().and_then(|n| EASINGS.get(n).copied()).unwrap_or(Easing::Other(n))
}
pub fn easing_number(e: &Easing) -> i32 {
    match (EASINGS.iter().position(|y| y == e), e) {
        (Some(n), _) => n as i32,
        // a number with a name that was not given it
        (None, Easing::Other(n)) if (0..35).contains(n) => 1_000_000 + n,
        (None, Easing::Other(n)) => *n,
        _ => 2_000_000,
    }
}
pub fn origin(n: i32) -> Either<OriginType, i32> {
    match usize::try_from(n).ok().and_then(|n| ORIGIN_TYPES.get(n).copied()) {
        Some(t) => Either::Left(t),
        None => Either::Right(n),
    }
}
pub fn origin_number(o: &Either<OriginType, i32>) -> i32 {
    match o {
        Either::Left(t) => place(&ORIGIN_TYPES, t) as i32,
        Either::Right(n) if (0..10).contains(n) => 1_000_000 + n,
        Either::Right(n) => *n,
    }
}
pub fn point_set(n: i32) -> tp::SampleSet {
    match n {
        0 => tp::SampleSet::BeatmapDefault,
        1 => tp::SampleSet::Normal,
        2 => tp::SampleSet::Soft,
        3 => tp::SampleSet::Drum,
        _ => tp::SampleSet::Other(n),
    }
}
pub fn point_set_number(s: &tp::SampleSet) -> i32 {
    match s {
        tp::SampleSet::BeatmapDefault => 0,
        tp::SampleSet::Normal => 1,
        tp::SampleSet::Soft => 2,
        tp::SampleSet::Drum => 3,
        tp::SampleSet::Other(n) if (0..4).contains(n) => 1_000_000 + n,
        tp::SampleSet::Other(n) => *n,
        _ => 2_000_000,
    }
}
pub fn object_set(n: u64) -> ho::SampleSet {
    match n {
        0 => ho::SampleSet::NoCustomSampleSet,
        1 => ho::SampleSet::NormalSet,
        2 => ho::SampleSet::SoftSet,
        3 => ho::SampleSet::DrumSet,
        _ => ho::SampleSet::Other(n as usize),
    }
}
pub fn object_set_number(s: &ho::SampleSet) -> u64 {
    match s {
        ho::SampleSet::NoCustomSampleSet => 0,
        ho::SampleSet::NormalSet => 1,
        ho::SampleSet::SoftSet => 2,
        ho::SampleSet::DrumSet => 3,
        ho::SampleSet::Other(n) if *n < 4 => 1_000_000 + *n as u64,
        ho::SampleSet::Other(n) => *n as u64,
        _ => 2_000_000,
    }
}
pub fn object_index(n: u64) -> ho::SampleIndex {
    match std::num::NonZeroUsize::new(n as usize) {
        Some(n) => ho::SampleIndex::Index(n),
        None => ho::SampleIndex::TimingPointSampleIndex,
    }
}
pub fn object_index_number(i: &ho::SampleIndex) -> u64 {
    match i {
        ho::SampleIndex::Index(n) => n.get() as u64,
        _ => 0,
    }
}
/// The flags of a hit sound as they are held (`normal()` also answers for sounds without any).
pub fn hitsound(h: &ho::HitSound) -> u8 {
    let mut without = *h;
    without.set_normal(false);
    (*h != without) as u8 | (h.whistle() as u8) << 1 | (h.finish() as u8) << 2 | (h.clap() as u8) << 3
}
