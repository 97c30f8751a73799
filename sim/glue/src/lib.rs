//! Generic code of the library is compiled where it is used.  It is used here, because this crate is
//! compiled with the same scheduling points, step counter and seams as the library itself.
use osu_file_parser::events::storyboard::cmds::ContinuingFields;
use osu_file_parser::events::{Event, EventWithCommands};
use osu_file_parser::{osb, Decimal, Error, ParseError};
use std::fmt::Display;

pub trait Located {
    fn shown(&self) -> &dyn Display;
    fn with_line(&self, text: &str) -> String;
}

impl Located for Error<ParseError> {
    #[inline(never)]
    fn shown(&self) -> &dyn Display {
        self
    }
    #[inline(never)]
    fn with_line(&self, text: &str) -> String {
        self.display_error_with_line(text)
    }
}

impl Located for Error<osb::ParseError> {
    #[inline(never)]
    fn shown(&self) -> &dyn Display {
        self
    }
    #[inline(never)]
    fn with_line(&self, text: &str) -> String {
        self.display_error_with_line(text)
    }
}

#[inline(never)]
pub fn keyframes(k: &ContinuingFields<Decimal>) -> &dyn Display {
    k
}

/// The event, if it can have commands.
#[inline(never)]
pub fn as_cmds(e: &mut Event) -> Option<&mut dyn EventWithCommands> {
    Some(match e {
        Event::Background(x) => x,
        Event::Video(x) => x,
        Event::SpriteLegacy(x) => x,
        Event::AnimationLegacy(x) => x,
        Event::SampleLegacy(x) => x,
        Event::StoryboardObject(x) => x,
        _ => return None,
    })
}

#[inline(never)]
pub fn same_text(a: &str, b: &str) -> bool {
    osu_file_parser::osu_str_eq(a, b)
}
