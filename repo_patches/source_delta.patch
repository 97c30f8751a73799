From ada36d2e552d5387387971c4472f9749874260b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:54 +0000
Subject: [PATCH 01/24] fix: keyframe lists keep every field when pushed to or
 set

Pushing after a single shortened keyframe underflowed an index, a shortened
colour keyframe only had one of its missing fields filled in, a colour with
blue but no green was stored unwritable, and setting on an empty list
underflowed.
---
 src/osu_file/events/storyboard/cmds/types.rs | 70 ++++++++------------
 1 file changed, 29 insertions(+), 41 deletions(-)

diff --git a/src/osu_file/events/storyboard/cmds/types.rs b/src/osu_file/events/storyboard/cmds/types.rs
index 26c2562..1c24e9e 100644
--- a/src/osu_file/events/storyboard/cmds/types.rs
+++ b/src/osu_file/events/storyboard/cmds/types.rs
@@ -37,22 +37,16 @@ impl<T> ContinuingFields<T> {
 
     pub fn push_continuing_fields(&mut self, continuing_fields: (T, Option<T>))
     where
-        T: std::marker::Copy,
+        T: Clone,
     {
         // if the last continuing field 1 is None, its the equalivant of having the previous index's positition 1 (or the start 1 if no elements)
-        if let Some(last_continuing) = self.continuing.last() {
-            if last_continuing.1.is_none() {
-                // find last 1 field
-                let last_field = if let Some(last_continuing_with_1) =
-                    self.continuing.get(self.continuing.len() - 2)
-                {
-                    last_continuing_with_1.1.as_ref()
-                } else {
+        if let Some((last, previous)) = self.continuing.split_last_mut() {
+            if last.1.is_none() {
+                last.1 = match previous.last() {
+                    Some(previous) => previous.1.clone(),
                     // backup field 1 is the starting one
-                    Some(&self.start.1)
+                    None => Some(self.start.1.clone()),
                 };
-
-                self.continuing.last_mut().unwrap().1 = last_field.copied();
             }
         }
         self.continuing.push(continuing_fields);
@@ -64,7 +58,7 @@ impl<T> ContinuingFields<T> {
         fields: (T, Option<T>),
     ) -> Result<(), ContinuingSetError> {
         // if index isn't the last index, field 1 being none will return an error
-        if index != self.continuing.len() - 1 && fields.1.is_none() {
+        if index < self.continuing.len().saturating_sub(1) && fields.1.is_none() {
             Err(ContinuingSetError::InvalidSecondFieldOption)
         } else {
             match self.continuing.get_mut(index) {
@@ -135,34 +129,28 @@ impl Colours {
     }
 
     pub fn push_continuing_rgbs(&mut self, continuing_fields: (u8, Option<u8>, Option<u8>)) {
-        if let Some(last_continuing) = self.continuing.last() {
-            if last_continuing.1.is_none() {
-                // find last field
-                let last_field = if let Some(last_continuing_with_1) =
-                    self.continuing.get(self.continuing.len() - 2)
-                {
-                    last_continuing_with_1.1.as_ref()
-                } else {
-                    // backup field 1 is the starting one
-                    Some(&self.start.1)
-                };
+        // missing fields are the equalivant of having the previous index's fields (or the starting ones if no elements)
+        if let Some((last, previous)) = self.continuing.split_last_mut() {
+            let (green, blue) = match previous.last() {
+                Some((_, green, blue)) => (*green, *blue),
+                None => (Some(self.start.1), Some(self.start.2)),
+            };
+
+            last.1 = last.1.or(green);
+            last.2 = last.2.or(blue);
+        }
 
-                self.continuing.last_mut().unwrap().1 = last_field.copied();
-            } else if last_continuing.2.is_none() {
-                // find last field
-                let last_field = if let Some(last_continuing_with_2) =
-                    self.continuing.get(self.continuing.len() - 2)
-                {
-                    last_continuing_with_2.2.as_ref()
-                } else {
-                    // backup field 2 is the starting one
-                    Some(&self.start.2)
-                };
+        let (red, mut green, blue) = continuing_fields;
 
-                self.continuing.last_mut().unwrap().2 = last_field.copied();
-            }
+        // blue can't be written without green
+        if green.is_none() && blue.is_some() {
+            green = match self.continuing.last() {
+                Some((_, green, _)) => *green,
+                None => Some(self.start.1),
+            };
         }
-        self.continuing.push(continuing_fields);
+
+        self.continuing.push((red, green, blue));
     }
 
     pub fn set_continuing_rgbs(
@@ -171,13 +159,13 @@ impl Colours {
         fields: (u8, Option<u8>, Option<u8>),
     ) -> Result<(), ContinuingRGBSetError> {
         // if index isn't the last index, b or g being none will return an error
-        let index_is_last = index == self.continuing.len() - 1;
+        let index_is_before_last = index < self.continuing.len().saturating_sub(1);
 
-        if !index_is_last && fields.1.is_none() {
+        if index_is_before_last && fields.1.is_none() {
             Err(ContinuingRGBSetError::InvalidFieldOption(
                 InvalidColourFieldOption::Green,
             ))
-        } else if (!index_is_last && fields.2.is_none())
+        } else if (index_is_before_last && fields.2.is_none())
             || (fields.1.is_none() && fields.2.is_some())
         {
             Err(ContinuingRGBSetError::InvalidFieldOption(
-- 
2.43.0


From ddd9e7ca85c7591dab184cb92fda131955d5cd4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:31 +0000
Subject: [PATCH 02/24] fix: an event line that only starts like a known header
 is an unknown event

Lines such as `350,..` or `Videox` made the header detection fail hard,
which was unwrapped.
---
 src/osu_file/events/mod.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/osu_file/events/mod.rs b/src/osu_file/events/mod.rs
index 140fc56..9202940 100644
--- a/src/osu_file/events/mod.rs
+++ b/src/osu_file/events/mod.rs
@@ -4,7 +4,7 @@ pub mod normal_event;
 pub mod storyboard;
 
 use nom::branch::alt;
-use nom::combinator::{cut, eof, peek, success};
+use nom::combinator::{eof, peek, success};
 use nom::sequence::tuple;
 use nom::Parser;
 use nom::{bytes::complete::tag, combinator::rest, sequence::preceded};
@@ -62,7 +62,7 @@ impl Events {
         let background = || {
             peek(tuple((
                 tag::<_, _, nom::error::Error<_>>(normal_event::BACKGROUND_HEADER),
-                cut(alt((eof, comma()))),
+                alt((eof, comma())),
             )))
             .map(|_| NormalEventType::Background)
         };
@@ -72,7 +72,7 @@ impl Events {
                     tag(normal_event::VIDEO_HEADER),
                     tag(normal_event::VIDEO_HEADER_LONG),
                 )),
-                cut(alt((eof, comma()))),
+                alt((eof, comma())),
             )))
             .map(|_| NormalEventType::Video)
         };
@@ -82,35 +82,35 @@ impl Events {
                     tag(normal_event::BREAK_HEADER),
                     tag(normal_event::BREAK_HEADER_LONG),
                 )),
-                cut(alt((eof, comma()))),
+                alt((eof, comma())),
             )))
             .map(|_| NormalEventType::Break)
         };
         let colour_transformation = || {
             peek(tuple((
                 tag(normal_event::COLOUR_TRANSFORMATION_HEADER),
-                cut(alt((eof, comma()))),
+                alt((eof, comma())),
             )))
             .map(|_| NormalEventType::ColourTransformation)
         };
         let sprite_legacy = || {
             peek(tuple((
                 tag(normal_event::SPRITE_LEGACY_HEADER),
-                cut(alt((eof, comma()))),
+                alt((eof, comma())),
             )))
             .map(|_| NormalEventType::SpriteLegacy)
         };
         let animation_legacy = || {
             peek(tuple((
                 tag(normal_event::ANIMATION_LEGACY_HEADER),
-                cut(alt((eof, comma()))),
+                alt((eof, comma())),
             )))
             .map(|_| NormalEventType::AnimationLegacy)
         };
         let sample_legacy = || {
             peek(tuple((
                 tag(normal_event::SAMPLE_LEGACY_HEADER),
-                cut(alt((eof, comma()))),
+                alt((eof, comma())),
             )))
             .map(|_| NormalEventType::SampleLegacy)
         };
-- 
2.43.0


From e24c208e6fb4a8fe7bc7332cbc384685fb637e74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:33 +0000
Subject: [PATCH 03/24] fix: find the storyboard command header by byte index

A character index was used to slice the line, which panicked or cut the line
at the wrong place after a multibyte character.
---
 src/osu_file/events/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/osu_file/events/mod.rs b/src/osu_file/events/mod.rs
index 9202940..81cb969 100644
--- a/src/osu_file/events/mod.rs
+++ b/src/osu_file/events/mod.rs
@@ -130,7 +130,7 @@ impl Events {
             // its a storyboard command
             if indent > 0 {
                 let cmd_parse = || {
-                    let line_without_header = match line.chars().position(|c| c == ',') {
+                    let line_without_header = match line.find(',') {
                         Some(i) => &line[i + 1..],
                         None => line,
                     };
-- 
2.43.0


From 0b58790707c4fa34f52a51db54f80b5373c15d2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:16 +0000
Subject: [PATCH 04/24] fix: a malformed beatmap id is an error, not a panic

---
 src/osu_file/metadata/mod.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/osu_file/metadata/mod.rs b/src/osu_file/metadata/mod.rs
index 1078531..92ffea7 100644
--- a/src/osu_file/metadata/mod.rs
+++ b/src/osu_file/metadata/mod.rs
@@ -1,5 +1,7 @@
 pub mod error;
 
+use std::num::ParseIntError;
+
 use nom::{
     bytes::complete::{tag, take_till},
     multi::separated_list0,
@@ -30,8 +32,8 @@ versioned_field!(Tags, Vec<String>, no_versions,
     } -> (),
     |v| { v.join(" ") }, Vec::new()
 );
-versioned_field!(BeatmapID, Integer, no_versions, |s| { Ok(s.parse::<Integer>().unwrap()) } -> (),,);
-versioned_field!(BeatmapSetID, Integer, no_versions, |s| { Ok(s.parse::<Integer>().unwrap()) } -> (),,);
+versioned_field!(BeatmapID, Integer, no_versions, |s| { s.parse() } -> ParseIntError,,);
+versioned_field!(BeatmapSetID, Integer, no_versions, |s| { s.parse() } -> ParseIntError,,);
 
 general_section!(
     /// A struct representing the metadata section of an osu file.
-- 
2.43.0


From ae8ed0a38b021359678ba06f304d7cd2d7ae3c6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:19 +0000
Subject: [PATCH 05/24] fix: an empty Tags field has no tags

An empty list of tags was read back as a list with one empty tag.
---
 src/osu_file/metadata/mod.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/osu_file/metadata/mod.rs b/src/osu_file/metadata/mod.rs
index 92ffea7..8840b7d 100644
--- a/src/osu_file/metadata/mod.rs
+++ b/src/osu_file/metadata/mod.rs
@@ -22,6 +22,11 @@ versioned_field!(Version, String, no_versions, |s| { Ok(s.to_string()) } -> (),,
 versioned_field!(Source, String, no_versions, |s| { Ok(s.to_string()) } -> (),,);
 versioned_field!(Tags, Vec<String>, no_versions,
     |s| {
+        // no tags rather than a single empty one
+        if s.is_empty() {
+            return Ok(Some(Tags(Vec::new())));
+        }
+
         let mut space_separated_list = separated_list0(
             tag::<_, _, nom::error::Error<_>>(" "),
             take_till(|c| c == ' '),
-- 
2.43.0


From 781bb16bd72a1a5a2fe80a87ce73a4d6c4eb4c45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:30 +0000
Subject: [PATCH 06/24] fix: an empty section keeps to itself

An empty section took the name of the section after it as its content, and an
empty section at the end of a file underflowed the line count.
---
 src/osu_file/mod.rs |  2 +-
 src/parsers.rs      | 12 ++++++++++--
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/osu_file/mod.rs b/src/osu_file/mod.rs
index 6999749..56d52c3 100644
--- a/src/osu_file/mod.rs
+++ b/src/osu_file/mod.rs
@@ -301,7 +301,7 @@ impl FromStr for OsuFile {
             }
 
             section_parsed.push(section_name);
-            line_number += section.lines().count() - 1;
+            line_number += section.lines().count().saturating_sub(1);
         }
 
         Ok(OsuFile {
diff --git a/src/parsers.rs b/src/parsers.rs
index 055d853..f711e84 100644
--- a/src/parsers.rs
+++ b/src/parsers.rs
@@ -5,7 +5,7 @@ use nom::{
     bytes::complete::{tag, take_till, take_until, take_while},
     character::complete::multispace0,
     character::complete::{char, space0},
-    combinator::{eof, map_res, rest},
+    combinator::{eof, map, map_res, rest},
     error::{FromExternalError, ParseError},
     multi::{many0, separated_list0},
     sequence::{delimited, preceded, terminated, tuple},
@@ -139,7 +139,15 @@ pub fn square_section<'a>(
     let section_close = tag("]");
     let section_name_inner = take_till(|c: char| c == ']' || c == '\n');
     let section_name = delimited(section_open, section_name_inner, section_close);
+    // the section ends before the whitespace after its name is skipped, or an empty section takes the next one's name
     let section_until = alt((take_until("\n["), rest));
+    let section_inner = map(section_until, |section: &str| {
+        let trimmed = section.trim_start_matches([' ', '\t', '\r', '\n']);
+        section.split_at(section.len() - trimmed.len())
+    });
 
-    tuple((multispace0, section_name, multispace0, section_until))
+    map(
+        tuple((multispace0, section_name, section_inner)),
+        |(ws, section_name, (ws2, section))| (ws, section_name, ws2, section),
+    )
 }
-- 
2.43.0


From 64245c9887495e9d39861d491ab4e4d806125fe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:51 +0000
Subject: [PATCH 07/24] fix: a section name without its closing bracket is an
 error

Everything from the torn name on was silently dropped. The same happened to
the whole file when a line before the first section ended with a bracket.
---
 src/osu_file/mod.rs     | 21 ++++++++++++++++-----
 src/osu_file/osb/mod.rs | 16 +++++++++++-----
 2 files changed, 27 insertions(+), 10 deletions(-)

diff --git a/src/osu_file/mod.rs b/src/osu_file/mod.rs
index 56d52c3..cdd2420 100644
--- a/src/osu_file/mod.rs
+++ b/src/osu_file/mod.rs
@@ -205,10 +205,7 @@ impl FromStr for OsuFile {
 
         let pre_section_count = s
             .lines()
-            .take_while(|s| {
-                let s = s.trim();
-                !s.trim().starts_with('[') && !s.trim().ends_with(']')
-            })
+            .take_while(|s| !s.trim().starts_with('['))
             .count();
 
         for (i, line) in s.lines().take(pre_section_count).enumerate() {
@@ -231,7 +228,7 @@ impl FromStr for OsuFile {
             .collect::<Vec<_>>()
             .join("\n");
 
-        let (_, sections) = many0(square_section())(&s).unwrap();
+        let (unparsed, sections) = many0(square_section())(&s).unwrap();
 
         let mut section_parsed = Vec::with_capacity(8);
 
@@ -304,6 +301,20 @@ impl FromStr for OsuFile {
             line_number += section.lines().count().saturating_sub(1);
         }
 
+        // the only thing that isn't a section is a section name that isn't closed
+        if !unparsed.trim().is_empty() {
+            let unparsed_section = unparsed.trim_start();
+            line_number += unparsed[..unparsed.len() - unparsed_section.len()]
+                .matches('\n')
+                .count();
+            let section_name = unparsed_section.lines().next().unwrap_or_default();
+
+            return Err(Error::new(
+                ParseError::SectionNameNoCloseBracket(section_name.to_string()),
+                line_number,
+            ));
+        }
+
         Ok(OsuFile {
             version,
             general,
diff --git a/src/osu_file/osb/mod.rs b/src/osu_file/osb/mod.rs
index b483a34..1881e84 100644
--- a/src/osu_file/osb/mod.rs
+++ b/src/osu_file/osb/mod.rs
@@ -26,10 +26,7 @@ impl VersionedFromStr for Osb {
 
         let pre_section_count = s
             .lines()
-            .take_while(|s| {
-                let s = s.trim();
-                !s.trim().starts_with('[') && !s.trim().ends_with(']')
-            })
+            .take_while(|s| !s.trim().starts_with('['))
             .count();
 
         for (i, line) in s.lines().take(pre_section_count).enumerate() {
@@ -54,7 +51,7 @@ impl VersionedFromStr for Osb {
 
         // we get sections
         // only valid sections currently are [Variables] [Events]
-        let (_, sections) = many0(square_section())(&s).unwrap();
+        let (unparsed, sections) = many0(square_section())(&s).unwrap();
 
         let mut section_parsed = Vec::with_capacity(2);
         let mut line_number = pre_section_count;
@@ -105,6 +102,15 @@ impl VersionedFromStr for Osb {
             line_number += section.lines().count().saturating_sub(1);
         }
 
+        // the only thing that isn't a section is a section name that isn't closed
+        if !unparsed.trim().is_empty() {
+            let unparsed_section = unparsed.trim_start();
+            line_number += unparsed[..unparsed.len() - unparsed_section.len()]
+                .matches('\n')
+                .count();
+            return Err(Error::new(ParseError::UnknownSection, line_number));
+        }
+
         Ok(Some(Osb { events, variables }))
     }
 }
-- 
2.43.0


From e595a3a4da269a4cb3e05012e4c039a89e102f85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:12 +0000
Subject: [PATCH 08/24] fix: errors name the line they are on

Whitespace was counted in lines rather than line breaks, so that indented
lines and sections were counted twice and blank lines before the version not
at all; a line without a colon hid the errors of the fields before it.
---
 src/helper/macros.rs    | 14 ++++++--------
 src/osu_file/mod.rs     | 26 ++++++++++++++------------
 src/osu_file/osb/mod.rs |  6 +++---
 3 files changed, 23 insertions(+), 23 deletions(-)

diff --git a/src/helper/macros.rs b/src/helper/macros.rs
index 5293015..8c400a3 100644
--- a/src/helper/macros.rs
+++ b/src/helper/macros.rs
@@ -124,13 +124,6 @@ macro_rules! general_section_inner {
 
                 let (s, fields) = crate::parsers::get_colon_field_value_lines(s).unwrap();
 
-                if !s.trim().is_empty() {
-                    // line count from fields
-                    let line_count = { fields.iter().map(|(_, _, _, ws)| ws.lines().count()).sum() };
-
-                    return Err(crate::osu_file::types::Error::new(<$parse_error>::InvalidColonSet, line_count));
-                }
-
                 let mut line_count = 0;
                 let mut parsed_fields = Vec::new();
 
@@ -148,10 +141,15 @@ macro_rules! general_section_inner {
                         _ => return Err(crate::osu_file::types::Error::new(ParseError::InvalidKey, line_count)),
                     }
 
-                    line_count += ws_2.lines().count();
+                    line_count += ws_2.matches('\n').count();
                     parsed_fields.push(name);
                 }
 
+                // what's left is a line that isn't a field
+                if !s.trim().is_empty() {
+                    return Err(crate::osu_file::types::Error::new(<$parse_error>::InvalidColonSet, line_count));
+                }
+
                 Ok(Some(section))
             }
 
diff --git a/src/osu_file/mod.rs b/src/osu_file/mod.rs
index cdd2420..b6ff3e7 100644
--- a/src/osu_file/mod.rs
+++ b/src/osu_file/mod.rs
@@ -18,7 +18,7 @@ use nom::bytes::complete::{tag, take_till};
 use nom::character::complete::multispace0;
 use nom::combinator::{map_res, success};
 use nom::multi::many0;
-use nom::sequence::{preceded, tuple};
+use nom::sequence::preceded;
 use thiserror::Error;
 
 use crate::parsers::square_section;
@@ -174,11 +174,13 @@ impl FromStr for OsuFile {
         );
         let version_number = map_res(take_till(|c| c == '\r' || c == '\n'), |s: &str| s.parse());
 
-        let (s, (trailing_ws, version)) = match tuple((
-            multispace0,
-            preceded(version_text, version_number),
-        ))(s)
-        {
+        // lines before the version, which is reported in errors
+        let leading_lines = match s.trim_start_matches([' ', '\t', '\r', '\n']) {
+            "" => 0,
+            trimmed => s[..s.len() - trimmed.len()].matches('\n').count(),
+        };
+
+        let (s, version) = match preceded(multispace0, preceded(version_text, version_number))(s) {
             Ok(ok) => ok,
             Err(err) => {
                 // wrong line?
@@ -195,12 +197,12 @@ impl FromStr for OsuFile {
                     unreachable!("Not possible to reach when the errors are already handled, error type is {:#?}", err)
                 };
 
-                return Err(err.into());
+                return Err(Error::new(err, leading_lines));
             }
         };
 
         if !(MIN_VERSION..=LATEST_VERSION).contains(&version) {
-            return Err(ParseError::InvalidFileVersion.into());
+            return Err(Error::new(ParseError::InvalidFileVersion, leading_lines));
         }
 
         let pre_section_count = s
@@ -219,7 +221,7 @@ impl FromStr for OsuFile {
                 continue;
             }
 
-            return Err(Error::new(ParseError::UnexpectedLine, i));
+            return Err(Error::new(ParseError::UnexpectedLine, leading_lines + i));
         }
 
         let s = s
@@ -243,17 +245,17 @@ impl FromStr for OsuFile {
             mut hitobjects,
         ) = (None, None, None, None, None, None, None, None);
 
-        let mut line_number = trailing_ws.lines().count() + pre_section_count;
+        let mut line_number = leading_lines + pre_section_count;
 
         for (ws, section_name, ws2, section) in sections {
-            line_number += ws.lines().count();
+            line_number += ws.matches('\n').count();
 
             if section_parsed.contains(&section_name) {
                 return Err(Error::new(ParseError::DuplicateSections, line_number));
             }
 
             let section_name_line = line_number;
-            line_number += ws2.lines().count();
+            line_number += ws2.matches('\n').count();
 
             match section_name {
                 "General" => {
diff --git a/src/osu_file/osb/mod.rs b/src/osu_file/osb/mod.rs
index 1881e84..6853853 100644
--- a/src/osu_file/osb/mod.rs
+++ b/src/osu_file/osb/mod.rs
@@ -59,14 +59,14 @@ impl VersionedFromStr for Osb {
         let (mut events, mut variables) = (None, None);
 
         for (ws, section_name, ws2, section) in sections {
-            line_number += ws.lines().count();
+            line_number += ws.matches('\n').count();
 
             if section_parsed.contains(&section_name) {
                 return Err(Error::new(ParseError::DuplicateSections, line_number));
             }
 
             let section_name_line = line_number;
-            line_number += ws2.lines().count();
+            line_number += ws2.matches('\n').count();
 
             match section_name {
                 "Variables" => {
@@ -99,7 +99,7 @@ impl VersionedFromStr for Osb {
             }
 
             section_parsed.push(section_name);
-            line_number += section.lines().count().saturating_sub(1);
+            line_number += section.matches('\n').count();
         }
 
         // the only thing that isn't a section is a section name that isn't closed
-- 
2.43.0


From ae9540db290ba5345f57cba8ed1e37530c287c6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:29 +0000
Subject: [PATCH 09/24] fix: accept a byte order mark wherever a file starts

A .osb file with one was rejected, and so was an .osu file with blank lines
after it.
---
 src/osu_file/mod.rs     | 3 +++
 src/osu_file/osb/mod.rs | 2 ++
 2 files changed, 5 insertions(+)

diff --git a/src/osu_file/mod.rs b/src/osu_file/mod.rs
index b6ff3e7..83de56f 100644
--- a/src/osu_file/mod.rs
+++ b/src/osu_file/mod.rs
@@ -168,6 +168,9 @@ impl FromStr for OsuFile {
     type Err = Error<ParseError>;
 
     fn from_str(s: &str) -> Result<Self, Self::Err> {
+        // the byte order mark can have blank lines between it and the version
+        let s = s.strip_prefix('\u{feff}').unwrap_or(s);
+
         let version_text = preceded(
             alt((tag("\u{feff}"), success(""))),
             tag::<_, _, nom::error::Error<_>>("osu file format v"),
diff --git a/src/osu_file/osb/mod.rs b/src/osu_file/osb/mod.rs
index 6853853..e7fca85 100644
--- a/src/osu_file/osb/mod.rs
+++ b/src/osu_file/osb/mod.rs
@@ -24,6 +24,8 @@ impl VersionedFromStr for Osb {
             return Ok(None);
         }
 
+        let s = s.strip_prefix('\u{feff}').unwrap_or(s);
+
         let pre_section_count = s
             .lines()
             .take_while(|s| !s.trim().starts_with('['))
-- 
2.43.0


From 85fb01a142d76881ea31bb40d27c436e04fa4c93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:44 +0000
Subject: [PATCH 10/24] fix: times at the end of their range don't overflow in
 versions 3 and 4

Adding or removing the 24 ms of those versions panicked.
---
 src/osu_file/events/normal_event/mod.rs     |  2 +-
 src/osu_file/events/normal_event/parsers.rs | 14 ++---
 src/osu_file/hitobjects/mod.rs              | 68 ++++++++++-----------
 src/osu_file/timingpoints/mod.rs            | 30 +++++----
 4 files changed, 56 insertions(+), 58 deletions(-)

diff --git a/src/osu_file/events/normal_event/mod.rs b/src/osu_file/events/normal_event/mod.rs
index c77e49d..930032f 100644
--- a/src/osu_file/events/normal_event/mod.rs
+++ b/src/osu_file/events/normal_event/mod.rs
@@ -36,7 +36,7 @@ fn position_str(position: &Option<Position>) -> String {
 
 fn time_to_string(time: Integer, version: Version) -> String {
     let time = if (3..=4).contains(&version) {
-        time - OLD_VERSION_TIME_OFFSET
+        time.saturating_sub(OLD_VERSION_TIME_OFFSET)
     } else {
         time
     };
diff --git a/src/osu_file/events/normal_event/parsers.rs b/src/osu_file/events/normal_event/parsers.rs
index e39d384..f2e79b7 100644
--- a/src/osu_file/events/normal_event/parsers.rs
+++ b/src/osu_file/events/normal_event/parsers.rs
@@ -1,6 +1,6 @@
 use nom::{
     branch::alt,
-    combinator::eof,
+    combinator::{eof, map_opt},
     error::context,
     sequence::{preceded, tuple},
     IResult, Parser,
@@ -45,11 +45,11 @@ pub fn start_time_offset<'a>(
 ) -> impl FnMut(&'a str) -> IResult<&'a str, Integer, nom::error::VerboseError<&'a str>> {
     context(
         error,
-        comma_field_type().map(move |time| {
+        map_opt(comma_field_type(), move |time: Integer| {
             if (3..=4).contains(&version) {
-                time + OLD_VERSION_TIME_OFFSET
+                time.checked_add(OLD_VERSION_TIME_OFFSET)
             } else {
-                time
+                Some(time)
             }
         }),
     )
@@ -61,11 +61,11 @@ pub fn end_time<'a>(
 ) -> impl FnMut(&'a str) -> IResult<&str, Integer, nom::error::VerboseError<&'a str>> {
     context(
         error,
-        consume_rest_type().map(move |end_time| {
+        map_opt(consume_rest_type(), move |end_time: Integer| {
             if (3..=4).contains(&version) {
-                end_time + OLD_VERSION_TIME_OFFSET
+                end_time.checked_add(OLD_VERSION_TIME_OFFSET)
             } else {
-                end_time
+                Some(end_time)
             }
         }),
     )
diff --git a/src/osu_file/hitobjects/mod.rs b/src/osu_file/hitobjects/mod.rs
index 288011a..840e210 100644
--- a/src/osu_file/hitobjects/mod.rs
+++ b/src/osu_file/hitobjects/mod.rs
@@ -163,6 +163,17 @@ impl HitObject {
 
 const OLD_VERSION_TIME_OFFSET: rust_decimal::Decimal = dec!(24);
 
+/// Adds the offset of old versions to the time, `None` if it's out of range.
+fn add_old_version_offset(mut time: Decimal, version: Version) -> Option<Decimal> {
+    if (3..=4).contains(&version) {
+        if let Either::Left(value) = time.get_mut() {
+            *value = value.checked_add(OLD_VERSION_TIME_OFFSET)?;
+        }
+    }
+
+    Some(time)
+}
+
 impl VersionedFromStr for HitObject {
     type Err = ParseHitObjectError;
 
@@ -196,18 +207,14 @@ impl VersionedFromStr for HitObject {
             .map(|(x, y)| (Position { x, y })),
             preceded(
                 context(ParseHitObjectError::MissingTime.into(), comma()),
-                context(ParseHitObjectError::InvalidTime.into(), comma_field_type()),
-            )
-            // version 3 has a slight time delay of 24ms
-            .map(|mut t: Decimal| {
-                if (3..=4).contains(&version) {
-                    if let Either::Left(value) = t.get_mut() {
-                        *value += OLD_VERSION_TIME_OFFSET;
-                    }
-                }
-
-                t
-            }),
+                context(
+                    ParseHitObjectError::InvalidTime.into(),
+                    // version 3 has a slight time delay of 24ms
+                    map_opt(comma_field_type(), |t: Decimal| {
+                        add_old_version_offset(t, version)
+                    }),
+                ),
+            ),
             preceded(
                 context(ParseHitObjectError::MissingObjType.into(), comma()),
                 context(
@@ -374,18 +381,11 @@ impl VersionedFromStr for HitObject {
                     context(ParseHitObjectError::MissingEndTime.into(), comma()),
                     context(
                         ParseHitObjectError::InvalidEndTime.into(),
-                        comma_field_type(),
+                        map_opt(comma_field_type(), |t: Decimal| {
+                            add_old_version_offset(t, version)
+                        }),
                     ),
-                )
-                .map(|mut t: Decimal| {
-                    if (3..=4).contains(&version) {
-                        if let Either::Left(value) = t.get_mut() {
-                            *value += OLD_VERSION_TIME_OFFSET;
-                        }
-                    }
-
-                    t
-                }),
+                ),
                 hitsample,
             ))(s)?;
 
@@ -416,17 +416,11 @@ impl VersionedFromStr for HitObject {
             ));
             let end_time = context(
                 ParseHitObjectError::InvalidEndTime.into(),
-                map_res(take_until(":"), |s: &str| s.parse()),
-            )
-            .map(|mut t: Decimal| {
-                if (3..=4).contains(&version) {
-                    if let Either::Left(value) = t.get_mut() {
-                        *value += OLD_VERSION_TIME_OFFSET;
-                    }
-                }
-
-                t
-            });
+                map_opt(
+                    map_res(take_until(":"), |s: &str| s.parse()),
+                    |t: Decimal| add_old_version_offset(t, version),
+                ),
+            );
             let (_, (end_time, hitsample)) = tuple((
                 preceded(
                     context(ParseHitObjectError::MissingEndTime.into(), comma()),
@@ -459,7 +453,7 @@ impl VersionedToString for HitObject {
             self.position.y.to_string(),
             if (3..=4).contains(&version) {
                 match self.time.get() {
-                    Either::Left(value) => (value - OLD_VERSION_TIME_OFFSET).to_string(),
+                    Either::Left(value) => value.saturating_sub(OLD_VERSION_TIME_OFFSET).to_string(),
                     Either::Right(value) => value.to_string(),
                 }
             } else {
@@ -525,7 +519,7 @@ impl VersionedToString for HitObject {
             HitObjectParams::Spinner { end_time } => {
                 properties.push(if (3..=4).contains(&version) {
                     match end_time.get() {
-                        Either::Left(value) => (value - OLD_VERSION_TIME_OFFSET).to_string(),
+                        Either::Left(value) => value.saturating_sub(OLD_VERSION_TIME_OFFSET).to_string(),
                         Either::Right(value) => value.to_string(),
                     }
                 } else {
@@ -535,7 +529,7 @@ impl VersionedToString for HitObject {
             HitObjectParams::OsuManiaHold { end_time } => {
                 properties.push(if (3..=4).contains(&version) {
                     match end_time.get() {
-                        Either::Left(value) => (value - OLD_VERSION_TIME_OFFSET).to_string(),
+                        Either::Left(value) => value.saturating_sub(OLD_VERSION_TIME_OFFSET).to_string(),
                         Either::Right(value) => value.to_string(),
                     }
                 } else {
diff --git a/src/osu_file/timingpoints/mod.rs b/src/osu_file/timingpoints/mod.rs
index 4662053..3e3f3d7 100644
--- a/src/osu_file/timingpoints/mod.rs
+++ b/src/osu_file/timingpoints/mod.rs
@@ -5,7 +5,7 @@ use crate::osu_file::types::Decimal;
 use either::Either;
 use nom::{
     branch::alt,
-    combinator::{cut, map_res, success, verify, rest},
+    combinator::{cut, map_opt, map_res, success, verify, rest},
     error::context,
     sequence::{preceded, tuple},
     Parser,
@@ -262,6 +262,17 @@ impl TimingPoint {
 
 const OLD_VERSION_TIME_OFFSET: rust_decimal::Decimal = dec!(24);
 
+/// Adds the offset of old versions to the time, `None` if it's out of range.
+fn add_old_version_offset(mut time: Decimal, version: Version) -> Option<Decimal> {
+    if (3..=4).contains(&version) {
+        if let Either::Left(value) = time.get_mut() {
+            *value = value.checked_add(OLD_VERSION_TIME_OFFSET)?;
+        }
+    }
+
+    Some(time)
+}
+
 impl VersionedFromStr for TimingPoint {
     type Err = ParseTimingPointError;
 
@@ -282,17 +293,10 @@ impl VersionedFromStr for TimingPoint {
         ) = tuple((
             context(
                 ParseTimingPointError::InvalidTime.into(),
-                comma_field_type(),
-            )
-            .map(|mut t: Decimal| {
-                if (3..=4).contains(&version) {
-                    if let Either::Left(value) = t.get_mut() {
-                        *value += OLD_VERSION_TIME_OFFSET;
-                    }
-                }
-
-                t
-            }),
+                map_opt(comma_field_type(), |t: Decimal| {
+                    add_old_version_offset(t, version)
+                }),
+            ),
             preceded(
                 context(ParseTimingPointError::MissingBeatLength.into(), comma()),
                 alt((
@@ -448,7 +452,7 @@ impl VersionedToString for TimingPoint {
         let mut fields = vec![
             if (3..=4).contains(&version) {
                 match self.time.get() {
-                    Either::Left(value) => (value - OLD_VERSION_TIME_OFFSET).to_string(),
+                    Either::Left(value) => value.saturating_sub(OLD_VERSION_TIME_OFFSET).to_string(),
                     Either::Right(value) => value.to_string(),
                 }
             } else {
-- 
2.43.0


From 50c47f9a67be3e458bfd6085d5cbaf9da8979867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:00 +0000
Subject: [PATCH 11/24] fix: hit sound triggers with a multi digit sample set
 or repeated fields

The digits were taken for a field each, and fields that didn't fit were
thought to be unreachable.
---
 src/osu_file/events/storyboard/types.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/osu_file/events/storyboard/types.rs b/src/osu_file/events/storyboard/types.rs
index 8596fd0..79fc4cb 100644
--- a/src/osu_file/events/storyboard/types.rs
+++ b/src/osu_file/events/storyboard/types.rs
@@ -41,7 +41,14 @@ impl VersionedFromStr for TriggerType {
                             let mut builder = String::with_capacity(256);
 
                             for (i, ch) in s.chars().enumerate() {
-                                if i != 0 && (ch.is_uppercase() || ch.is_numeric()) {
+                                // a number is a single field
+                                let number_continues =
+                                    ch.is_numeric() && builder.ends_with(char::is_numeric);
+
+                                if i != 0
+                                    && (ch.is_uppercase() || ch.is_numeric())
+                                    && !number_continues
+                                {
                                     fields.push(builder.to_owned());
                                     builder.clear();
                                 }
@@ -89,7 +96,8 @@ impl VersionedFromStr for TriggerType {
                                         } else {
                                             return Err(ParseTriggerTypeError::UnknownHitSoundType)
                                         }
-                                        _ => unreachable!("The check for field size is already done so this is impossible to reach")
+                                        // fields are repeated or out of order
+                                        _ => return Err(ParseTriggerTypeError::UnknownHitSoundType)
                                     }
                                 field_parse_attempt_index += 1;
                             }
-- 
2.43.0


From 84a8bade25a3acd75c09fe71ba807eedbcd42712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:13 +0000
Subject: [PATCH 12/24] fix: pushing a command without indentation is refused

It reached code thought to be unreachable.
---
 src/osu_file/events/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/osu_file/events/mod.rs b/src/osu_file/events/mod.rs
index 81cb969..c65bafc 100644
--- a/src/osu_file/events/mod.rs
+++ b/src/osu_file/events/mod.rs
@@ -444,7 +444,9 @@ fn commands_to_string_variables(
 
 pub trait EventWithCommands {
     fn try_push_cmd(&mut self, cmd: Command, indentation: usize) -> Result<(), CommandPushError> {
-        if indentation == 1 {
+        if indentation == 0 {
+            Err(CommandPushError::InvalidIndentation(1, indentation))
+        } else if indentation == 1 {
             // first match no loop required
             self.commands_mut().push(cmd);
             Ok(())
-- 
2.43.0


From b7db93d4f82abee9e046869370aa787e293e2d7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:01 +0000
Subject: [PATCH 13/24] fix: only print variables that are read back as the
 same command

Values that are empty, part of another variable's name or also a variable
name's prefix turned into different commands.
---
 src/osu_file/events/mod.rs                 | 47 +++++++++++++---------
 src/osu_file/events/storyboard/cmds/mod.rs | 15 +++++--
 2 files changed, 39 insertions(+), 23 deletions(-)

diff --git a/src/osu_file/events/mod.rs b/src/osu_file/events/mod.rs
index c65bafc..c846de1 100644
--- a/src/osu_file/events/mod.rs
+++ b/src/osu_file/events/mod.rs
@@ -130,26 +130,7 @@ impl Events {
             // its a storyboard command
             if indent > 0 {
                 let cmd_parse = || {
-                    let line_without_header = match line.find(',') {
-                        Some(i) => &line[i + 1..],
-                        None => line,
-                    };
-
-                    let mut line_with_variable: Option<String> = None;
-                    for variable in variables {
-                        let variable_full = format!("${}", variable.name);
-
-                        if line_without_header.contains(&variable_full) {
-                            let new_line = match line_with_variable {
-                                Some(line_with_variable) => {
-                                    line_with_variable.replace(&variable_full, &variable.value)
-                                }
-                                None => line.replace(&variable_full, &variable.value),
-                            };
-
-                            line_with_variable = Some(new_line);
-                        }
-                    }
+                    let line_with_variable = expand_variables(line, variables);
 
                     match line_with_variable {
                         Some(line_with_variable) => Error::new_from_result_into(
@@ -365,6 +346,32 @@ impl Event {
     }
 }
 
+/// Replaces the variables used in a storyboard command line with their values, `None` if there are none.
+pub(crate) fn expand_variables(line: &str, variables: &[Variable]) -> Option<String> {
+    let line_without_header = match line.find(',') {
+        Some(i) => &line[i + 1..],
+        None => line,
+    };
+
+    let mut line_with_variable: Option<String> = None;
+    for variable in variables {
+        let variable_full = format!("${}", variable.name);
+
+        if line_without_header.contains(&variable_full) {
+            let new_line = match line_with_variable {
+                Some(line_with_variable) => {
+                    line_with_variable.replace(&variable_full, &variable.value)
+                }
+                None => line.replace(&variable_full, &variable.value),
+            };
+
+            line_with_variable = Some(new_line);
+        }
+    }
+
+    line_with_variable
+}
+
 fn commands_to_string_variables(
     cmds: &[Command],
     version: Version,
diff --git a/src/osu_file/events/storyboard/cmds/mod.rs b/src/osu_file/events/storyboard/cmds/mod.rs
index d360c6d..ff245f7 100644
--- a/src/osu_file/events/storyboard/cmds/mod.rs
+++ b/src/osu_file/events/storyboard/cmds/mod.rs
@@ -5,6 +5,7 @@ use std::fmt::Display;
 
 use super::error::*;
 use super::types::*;
+use crate::events::expand_variables;
 use crate::osb::Variable;
 use crate::osu_file::types::Decimal;
 use crate::osu_file::{Integer, Version, VersionedFromStr, VersionedToString};
@@ -73,12 +74,20 @@ impl Command {
     pub fn to_string_variables(&self, version: Version, variables: &[Variable]) -> Option<String> {
         let end_time_to_string =
             |end_time: &Option<i32>| end_time.map_or("".to_string(), |t| t.to_string());
-        let variable_replace = |header, cmd: String| {
+        let variable_replace = |header: &str, cmd: String| {
+            let original = format!("{header},{cmd}");
             let mut cmd = cmd;
 
             for variable in variables {
-                if cmd.contains(&variable.value) {
-                    cmd = cmd.replace(&variable.value, &format!("${}", variable.name));
+                if !variable.value.is_empty() && cmd.contains(&variable.value) {
+                    let replaced = cmd.replace(&variable.value, &format!("${}", variable.name));
+
+                    // only use the variable if the command is read back as the same one
+                    if expand_variables(&format!("{header},{replaced}"), variables).as_ref()
+                        == Some(&original)
+                    {
+                        cmd = replaced;
+                    }
                 }
             }
 
-- 
2.43.0


From f1fcb5cd7cb2be4a1fbb3b3874c9e68342e624f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:20 +0000
Subject: [PATCH 14/24] fix: timing points are written the way they are read

Large sample indices were written as negative numbers, and the uninherited
and effects fields as lines that couldn't be read when only one was set.
---
 src/osu_file/timingpoints/mod.rs   | 13 ++++++++++---
 src/osu_file/timingpoints/types.rs |  9 +++++++--
 2 files changed, 17 insertions(+), 5 deletions(-)

diff --git a/src/osu_file/timingpoints/mod.rs b/src/osu_file/timingpoints/mod.rs
index 3e3f3d7..05edffa 100644
--- a/src/osu_file/timingpoints/mod.rs
+++ b/src/osu_file/timingpoints/mod.rs
@@ -471,13 +471,20 @@ impl VersionedToString for TimingPoint {
             match self.uninherited {
                 Some(value) => fields.push((value as u8).to_string()),
                 None => {
+                    // effects can't be written without it
                     if self.effects.is_some() {
-                        fields.push(String::new())
+                        fields.push("1".to_string())
                     }
                 }
             }
-            if let Some(value) = self.effects {
-                fields.push(value.to_string(version).unwrap())
+            match self.effects {
+                Some(value) => fields.push(value.to_string(version).unwrap()),
+                None => {
+                    // uninherited can't be written alone after version 5
+                    if self.uninherited.is_some() && version > 5 {
+                        fields.push("0".to_string())
+                    }
+                }
             }
         }
 
diff --git a/src/osu_file/timingpoints/types.rs b/src/osu_file/timingpoints/types.rs
index 824afeb..fe40935 100644
--- a/src/osu_file/timingpoints/types.rs
+++ b/src/osu_file/timingpoints/types.rs
@@ -189,8 +189,13 @@ impl VersionedFrom<SampleIndex> for Integer {
 }
 
 impl VersionedToString for SampleIndex {
-    fn to_string(&self, version: Version) -> Option<String> {
-        <i32 as VersionedFrom<SampleIndex>>::from(*self, version).map(|index| index.to_string())
+    fn to_string(&self, _: Version) -> Option<String> {
+        let index = match self {
+            SampleIndex::OsuDefaultHitsounds => 0,
+            SampleIndex::Index(index) => index.get(),
+        };
+
+        Some(index.to_string())
     }
 }
 
-- 
2.43.0


From 866aae9f530929435c8855674c7264a7c897b071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:11 +0000
Subject: [PATCH 15/24] fix: an invalid loop type is an error, not a panic

The error was replaced by the one of the alternative tried after it.
---
 src/osu_file/events/storyboard/sprites.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/osu_file/events/storyboard/sprites.rs b/src/osu_file/events/storyboard/sprites.rs
index b287a1a..085033b 100644
--- a/src/osu_file/events/storyboard/sprites.rs
+++ b/src/osu_file/events/storyboard/sprites.rs
@@ -177,6 +177,7 @@ impl VersionedFromStr for Object {
             ),
         );
         let loop_type = alt((
+            nothing().map(|_| LoopType::default(version).unwrap()),
             preceded(
                 context(ParseObjectError::MissingLoopType.into(), comma()),
                 context(
@@ -184,7 +185,6 @@ impl VersionedFromStr for Object {
                     consume_rest_versioned_type(version),
                 ),
             ),
-            nothing().map(|_| LoopType::default(version).unwrap()),
         ));
 
         let (_, object) = alt((
-- 
2.43.0


From 92095eef32c15efc5cc9534485b7d9bb4e120d95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:19 +0000
Subject: [PATCH 16/24] fix: a mode is only written in versions that can read
 it

It was silently dropped when the file was read again.
---
 src/osu_file/general/types.rs | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/src/osu_file/general/types.rs b/src/osu_file/general/types.rs
index 577ef7a..4770bd8 100644
--- a/src/osu_file/general/types.rs
+++ b/src/osu_file/general/types.rs
@@ -155,25 +155,30 @@ impl VersionedFromStr for Mode {
             _ => Err(ParseGameModeError::UnknownVariant),
         }?;
 
+        Ok(mode.is_in_version(version).then_some(mode))
+    }
+}
+
+impl Mode {
+    fn is_in_version(&self, version: Version) -> bool {
         // earliest versions
         // osu   3
         // taiko 5
         // catch 7
         // mania 10
-        let mode = match version {
-            3..=4 if mode != Mode::Osu => None,
-            5..=6 if mode != Mode::Osu && mode != Mode::Taiko => None,
-            7..=9 if mode == Mode::Mania => None,
-            _ => Some(mode),
-        };
-
-        Ok(mode)
+        match version {
+            3..=4 => *self == Mode::Osu,
+            5..=6 => *self == Mode::Osu || *self == Mode::Taiko,
+            7..=9 => *self != Mode::Mania,
+            _ => true,
+        }
     }
 }
 
 impl VersionedToString for Mode {
-    fn to_string(&self, _: Version) -> Option<String> {
-        Some((*self as usize).to_string())
+    fn to_string(&self, version: Version) -> Option<String> {
+        self.is_in_version(version)
+            .then(|| (*self as usize).to_string())
     }
 }
 
-- 
2.43.0


From ac76f4f5d3e3f7035240cf200a37e9d7e2a84205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:37 +0000
Subject: [PATCH 17/24] fix: a hold note without a hitsample stays without one

It was read back with a default one, so that it was written differently when
it was saved again.
---
 src/osu_file/hitobjects/mod.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/osu_file/hitobjects/mod.rs b/src/osu_file/hitobjects/mod.rs
index 840e210..23067bd 100644
--- a/src/osu_file/hitobjects/mod.rs
+++ b/src/osu_file/hitobjects/mod.rs
@@ -403,6 +403,8 @@ impl VersionedFromStr for HitObject {
             // ppy has done it once again
             let hitsample = alt((
                 nothing().map(|_| None),
+                // an object without a hitsample still has the separator
+                preceded(char(':'), nothing()).map(|_| None),
                 preceded(
                     context(ParseHitObjectError::MissingHitSample.into(), char(':')),
                     context(
-- 
2.43.0


From db3c0a67a77900a7fdb6915d81ae8618eb0b0da7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:46 +0000
Subject: [PATCH 18/24] fix: a beat length without a tempo or velocity has
 none, rather than a panic

---
 src/osu_file/timingpoints/mod.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/osu_file/timingpoints/mod.rs b/src/osu_file/timingpoints/mod.rs
index 05edffa..609cba4 100644
--- a/src/osu_file/timingpoints/mod.rs
+++ b/src/osu_file/timingpoints/mod.rs
@@ -152,13 +152,15 @@ impl TimingPoint {
     }
 
     /// Calculates BPM using the `beatLength` field when unherited.
-    /// - Returns `None` if the timing point is inherited or `beat_length` isn't a valid decimal.
+    /// - Returns `None` if the timing point is inherited, `beat_length` isn't a valid decimal or the BPM is out of range.
     pub fn calc_bpm(&self) -> Option<rust_decimal::Decimal> {
         match self.uninherited {
             Some(uninherited) => {
                 if uninherited {
                     match self.beat_length.get() {
-                        Either::Left(value) => Some(Self::beat_duration_ms_to_bpm(*value)),
+                        Either::Left(value) => rust_decimal::Decimal::ONE
+                            .checked_div(*value)?
+                            .checked_mul(dec!(60000)),
                         Either::Right(_) => None,
                     }
                 } else {
@@ -169,7 +171,7 @@ impl TimingPoint {
         }
     }
     /// Calculates the slider velocity multiplier when the timing point is inherited.
-    /// - Returns `None` if the timing point is uninherited or `beat_length` isn't a valid decimal.
+    /// - Returns `None` if the timing point is uninherited, `beat_length` isn't a valid decimal or the multiplier is out of range.
     pub fn calc_slider_velocity_multiplier(&self) -> Option<rust_decimal::Decimal> {
         match self.uninherited {
             Some(uninherited) => {
@@ -177,9 +179,8 @@ impl TimingPoint {
                     None
                 } else {
                     match self.beat_length.get() {
-                        Either::Left(value) => {
-                            Some(rust_decimal::Decimal::ONE / (value / dec!(-100)))
-                        }
+                        Either::Left(value) => rust_decimal::Decimal::ONE
+                            .checked_div(value.checked_div(dec!(-100))?),
                         Either::Right(_) => None,
                     }
                 }
-- 
2.43.0


From fef6bafbff5519f310213ac28972650f221220d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:48 +0000
Subject: [PATCH 19/24] fix: frame names of an animation whose path has no file
 name don't panic

---
 src/osu_file/events/storyboard/sprites.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/osu_file/events/storyboard/sprites.rs b/src/osu_file/events/storyboard/sprites.rs
index 085033b..b6e7202 100644
--- a/src/osu_file/events/storyboard/sprites.rs
+++ b/src/osu_file/events/storyboard/sprites.rs
@@ -246,7 +246,11 @@ impl Animation {
         let mut file_names = Vec::with_capacity(self.frame_count as usize);
 
         let filepath = self.filepath.get();
-        let mut file_name = filepath.file_name().unwrap().to_string_lossy().to_string();
+        let mut file_name = filepath
+            .file_name()
+            .unwrap_or_default()
+            .to_string_lossy()
+            .to_string();
         let file_extension = match filepath.extension() {
             Some(extension) => {
                 let extension = format!(".{}", extension.to_string_lossy());
-- 
2.43.0


From 7a220e0fd1518430824b254eef6ec32ad05e32d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:43 +0000
Subject: [PATCH 20/24] fix: a version 3 beat length with commas is an error,
 other versions can't store it

---
 src/osu_file/timingpoints/error.rs |  3 +++
 src/osu_file/timingpoints/mod.rs   | 28 ++++++++++++++++++----------
 2 files changed, 21 insertions(+), 10 deletions(-)

diff --git a/src/osu_file/timingpoints/error.rs b/src/osu_file/timingpoints/error.rs
index 81d40f5..30a335d 100644
--- a/src/osu_file/timingpoints/error.rs
+++ b/src/osu_file/timingpoints/error.rs
@@ -19,6 +19,9 @@ pub enum ParseTimingPointError {
     /// Missing `beat_length` field.
     #[error("Missing `beat_length` field")]
     MissingBeatLength,
+    /// Invalid `beat_length` value.
+    #[error("Invalid `beat_length` value")]
+    InvalidBeatLength,
     /// Missing `meter` field.
     #[error("Missing `meter` field")]
     MissingMeter,
diff --git a/src/osu_file/timingpoints/mod.rs b/src/osu_file/timingpoints/mod.rs
index 609cba4..a576263 100644
--- a/src/osu_file/timingpoints/mod.rs
+++ b/src/osu_file/timingpoints/mod.rs
@@ -301,16 +301,24 @@ impl VersionedFromStr for TimingPoint {
             preceded(
                 context(ParseTimingPointError::MissingBeatLength.into(), comma()),
                 alt((
-                    preceded(verify(success(0), |_| version <= 3), consume_rest_type()).map(
-                        |beat_length| {
-                            (
-                                beat_length,
-                                meter_fallback,
-                                sample_set_fallback,
-                                (sample_index_fallback, (volume_fallback, None, None)),
-                            )
-                        },
-                    ),
+                    preceded(
+                        verify(success(0), |_| version <= 3),
+                        // the beat length is the last field, and fields can't contain commas
+                        cut(context(
+                            ParseTimingPointError::InvalidBeatLength.into(),
+                            verify(consume_rest_type(), |beat_length: &Decimal| {
+                                !beat_length.to_string().contains(',')
+                            }),
+                        )),
+                    )
+                    .map(|beat_length| {
+                        (
+                            beat_length,
+                            meter_fallback,
+                            sample_set_fallback,
+                            (sample_index_fallback, (volume_fallback, None, None)),
+                        )
+                    }),
                     tuple((
                         comma_field_type(),
                         preceded(
-- 
2.43.0


From 65f30de0302106372fd321e3e7e5588f01f44d47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:55 +0000
Subject: [PATCH 21/24] fix: hit object coordinates with curve point separators
 are errors, version 3 can't store them

---
 src/osu_file/hitobjects/mod.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/osu_file/hitobjects/mod.rs b/src/osu_file/hitobjects/mod.rs
index 23067bd..e7882a9 100644
--- a/src/osu_file/hitobjects/mod.rs
+++ b/src/osu_file/hitobjects/mod.rs
@@ -174,6 +174,18 @@ fn add_old_version_offset(mut time: Decimal, version: Version) -> Option<Decimal
     Some(time)
 }
 
+/// Field of a coordinate, which can't contain the separators of curve points since version 3 has it as the first one.
+fn coordinate<'a>(
+) -> impl FnMut(&'a str) -> IResult<&'a str, Decimal, nom::error::VerboseError<&'a str>> {
+    verify(
+        comma_field_type(),
+        |coordinate: &Decimal| match coordinate.get() {
+            Either::Left(_) => true,
+            Either::Right(coordinate) => !coordinate.contains(['|', ':']),
+        },
+    )
+}
+
 impl VersionedFromStr for HitObject {
     type Err = ParseHitObjectError;
 
@@ -198,10 +210,10 @@ impl VersionedFromStr for HitObject {
 
         let (s, (position, time, obj_type, hitsound)) = tuple((
             tuple((
-                context(ParseHitObjectError::InvalidX.into(), comma_field_type()),
+                context(ParseHitObjectError::InvalidX.into(), coordinate()),
                 preceded(
                     context(ParseHitObjectError::MissingY.into(), comma()),
-                    context(ParseHitObjectError::InvalidY.into(), comma_field_type()),
+                    context(ParseHitObjectError::InvalidY.into(), coordinate()),
                 ),
             ))
             .map(|(x, y)| (Position { x, y })),
-- 
2.43.0


From 86e86f7141afb49f7a5e5919f174694ea25f2411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:02 +0000
Subject: [PATCH 22/24] fix: lines of hit objects and timing points that start
 with a bracket are errors, they are saved as section names

---
 src/osu_file/hitobjects/mod.rs   |  6 +++++-
 src/osu_file/timingpoints/mod.rs | 11 +++++++----
 2 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/osu_file/hitobjects/mod.rs b/src/osu_file/hitobjects/mod.rs
index e7882a9..91e19e1 100644
--- a/src/osu_file/hitobjects/mod.rs
+++ b/src/osu_file/hitobjects/mod.rs
@@ -210,7 +210,11 @@ impl VersionedFromStr for HitObject {
 
         let (s, (position, time, obj_type, hitsound)) = tuple((
             tuple((
-                context(ParseHitObjectError::InvalidX.into(), coordinate()),
+                context(
+                    ParseHitObjectError::InvalidX.into(),
+                    // a line that starts with a bracket is a section name
+                    preceded(not(char('[')), coordinate()),
+                ),
                 preceded(
                     context(ParseHitObjectError::MissingY.into(), comma()),
                     context(ParseHitObjectError::InvalidY.into(), coordinate()),
diff --git a/src/osu_file/timingpoints/mod.rs b/src/osu_file/timingpoints/mod.rs
index a576263..275c72f 100644
--- a/src/osu_file/timingpoints/mod.rs
+++ b/src/osu_file/timingpoints/mod.rs
@@ -5,7 +5,8 @@ use crate::osu_file::types::Decimal;
 use either::Either;
 use nom::{
     branch::alt,
-    combinator::{cut, map_opt, map_res, success, verify, rest},
+    character::complete::char,
+    combinator::{cut, map_opt, map_res, not, rest, success, verify},
     error::context,
     sequence::{preceded, tuple},
     Parser,
@@ -294,9 +295,11 @@ impl VersionedFromStr for TimingPoint {
         ) = tuple((
             context(
                 ParseTimingPointError::InvalidTime.into(),
-                map_opt(comma_field_type(), |t: Decimal| {
-                    add_old_version_offset(t, version)
-                }),
+                map_opt(
+                    // a line that starts with a bracket is a section name
+                    preceded(not(char('[')), comma_field_type()),
+                    |t: Decimal| add_old_version_offset(t, version),
+                ),
             ),
             preceded(
                 context(ParseTimingPointError::MissingBeatLength.into(), comma()),
-- 
2.43.0


From ef1e5614dbc71694366e82606855045548dc944b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:43 +0000
Subject: [PATCH 23/24] fix: a byte order mark followed by spaces does not hide
 the first line from text comparison

---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 6ed5bf4..63ab6a9 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -55,7 +55,7 @@ pub fn osu_str_trimmer(s: &str) -> String {
         };
 
     for line in s.lines() {
-        let line = line.trim().replace('\u{feff}', "");
+        let line = line.replace('\u{feff}', "").trim().to_string();
 
         if line.is_empty() {
             continue;
-- 
2.43.0


From e4bcdfecc644aad0b3e3c7f3e0aa8dc8b8f7e27b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:45 +0000
Subject: [PATCH 24/24] fix: text comparison does not ignore white space inside
 values

---
 src/lib.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 63ab6a9..a6e5e3a 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -94,16 +94,18 @@ pub fn osu_str_trimmer(s: &str) -> String {
                 let line = line
                     .chars()
                     .filter(|c| {
-                        if !header && !value && *c == ':' {
+                        if header && *c == ':' {
                             header = false;
-                            value = true;
                             return true;
                         }
 
-                        if header && c.is_whitespace() {
+                        // spacing around the key and before the value
+                        if !value && c.is_whitespace() {
                             return false;
                         }
 
+                        value = !header;
+
                         true
                     })
                     .collect::<String>();
-- 
2.43.0

