# batch f
bug('f01','C09','osu_file/events/storyboard/cmds/mod.rs',[("""            properties: CommandProperties::Loop {
                loop_count,
                commands: Vec::new(),""","""            properties: CommandProperties::Loop {
                loop_count,
                commands: Vec::with_capacity((loop_count as usize).min(1 << 16)),""")],
H+'''use std::alloc::*; use std::sync::atomic::*;
struct A; static PEAK:AtomicUsize=AtomicUsize::new(0);
unsafe impl GlobalAlloc for A { unsafe fn alloc(&self,l:Layout)->*mut u8{PEAK.fetch_max(l.size(),Ordering::SeqCst);System.alloc(l)} unsafe fn dealloc(&self,p:*mut u8,l:Layout){System.dealloc(p,l)} }
#[global_allocator] static G:A=A;
fn main(){
 let t="osu file format v14\\n\\n[Events]\\nSprite,Pass,Centre,a.png,0,0\\n L,0,60000\\n  F,0,0,,1\\n";
 let f=OsuFile::from_str(t).unwrap();
'''+ex('f.events.is_some() && PEAK.load(Ordering::SeqCst)<1_000_000'),"a loop count garbled into a large number","megabytes are taken for a loop of one command")
bug('f02','C11','osu_file/events/mod.rs',[("""                                Some((last_cmds, last_index, last_indentation)) => {
                                    current_cmds = last_cmds;
                                    current_index = last_index;
                                    indentation = last_indentation;""","""                                Some((last_cmds, last_index, _)) => {
                                    current_cmds = last_cmds;
                                    current_index = last_index;
                                    indentation = starting_indentation + 1 + cmds_stack.len();""")],
H+'''fn main(){
 let t="osu file format v14\\n\\n[Events]\\nSprite,Pass,Centre,a.png,0,0\\n L,0,1\\n  L,0,2\\n   L,0,3\\n    F,0,0,,1\\n   F,0,0,,0";
 let f=OsuFile::from_str(t).unwrap();
'''+ex('f.to_string()==t'),"a command after a nested loop inside a loop that is the last command of its own loop","it is saved one level too far out")
bug('f03','C12','osu_file/events/mod.rs',[("""                    let line_with_variable = expand_variables(line, variables);
""","""                    // the same command often comes many times
                    let line_with_variable = EXPANDED.with(|e| {
                        e.borrow_mut()
                            .entry(line.to_owned())
                            .or_insert_with(|| expand_variables(line, variables))
                            .clone()
                    });
"""),("""        Ok(Some(events))
    }""","""        EXPANDED.with(|e| e.borrow_mut().clear());

        Ok(Some(events))
    }"""),("""const OLD_VERSION_TIME_OFFSET: Integer = 24;""","""const OLD_VERSION_TIME_OFFSET: Integer = 24;

thread_local! {
    static EXPANDED: std::cell::RefCell<std::collections::HashMap<String, Option<String>>> = Default::default();
}""")],
H+'''fn main(){
 let t=|v:&str,bad:&str| format!("[Variables]\\n$a={v}\\n\\n[Events]\\nSprite,Pass,Centre,a.png,0,0\\n F,0,$a,,1\\n{bad}");
 let mut a=OsuFile::new(14); assert!(a.append_osb(&t("7","bad")).is_err());
 let mut b=OsuFile::new(14); b.append_osb(&t("5","")).unwrap();
 let mut c=OsuFile::new(14); c.append_osb("[Events]\\nSprite,Pass,Centre,a.png,0,0\\n F,0,5,,1\\n").unwrap();
'''+ex('b.osb.unwrap().events==c.osb.unwrap().events'),"a storyboard rejected after a command with a variable, then one with the same command and another value","the second gets the value of the first")
bug('f04','C17','osu_file/events/mod.rs',[("""                        None => Error::new_from_result_into(
                            Command::from_str(line, version),""","""                        None => Error::new_from_result_into(
                            Command::from_str(line.trim_end(), version),""")],
H+'''use osu_file_parser::osu_file::events::storyboard::cmds::*; use osu_file_parser::osu_file::events::*;
fn main(){
 let f=OsuFile::from_str("osu file format v14\\n\\n[Events]\\nSprite,Pass,Centre,a.png,0,0\\n F,0,0,,1 \\n").unwrap();
 let c=<Command as VersionedFromStr>::from_str(" F,0,0,,1 ",14).unwrap().unwrap();
 let same=match &f.events.unwrap().0[0] { Event::StoryboardObject(o)=>o.commands[0]==c, _=>false };
'''+ex('same'),"a command line with trailing white space, read alone and in its file","the two differ")
bug('f05','C07','osu_file/events/storyboard/cmds/mod.rs',[(""".map(|(end_time, group_number)| (Some(end_time), Some(group_number)));""",""".map(|(end_time, group_number)| {
                (Some(end_time), Some(group_number).filter(|g: &Integer| *g != 0))
            });""")],
H+'''fn main(){
 let t="osu file format v14\\n\\n[Events]\\nSprite,Pass,Centre,a.png,0,0\\n T,Passing,0,1,0";
 let f=OsuFile::from_str(t).unwrap();
'''+ex('f.to_string()==t'),"a trigger with an end time in group 0","the group is not saved")
bug('f06','C14','osu_file/hitobjects/types.rs',[("""        self.whistle = whistle;
    }""","""        self.whistle = whistle;
        // the normal sound is what plays without any other
        self.normal &= !whistle;
    }""")],
H+'''use osu_file_parser::osu_file::hitobjects::*;
fn main(){
 let mut h=HitSound::new(true,false,false,false); h.set_whistle(true);
'''+ex('h.normal()&&h.whistle()'),"a whistle added to an explicit normal sound","the normal sound is gone")
bug('f07','C02','osu_file/types.rs',[("""        let line = file_input.lines().nth(self.line_index).unwrap_or_default();""","""        let line = file_input
            .trim_start()
            .lines()
            .nth(self.line_index)
            .unwrap_or_default();""")],
H+'''fn main(){
 let t="\\n\\nosu file format v14\\n[General]\\nMode: x\\nCountdown: 0\\nAudioLeadIn: 0\\n";
 let e=OsuFile::from_str(t).unwrap_err();
'''+ex('e.display_error_with_line(t).contains("Mode: x")'),"a damaged line in a file with blank lines before the version","the message quotes a later line")
bug('f09','C05','osu_file/events/storyboard/cmds/types.rs',[("""        write!(f, "{}", builder.join(","))""","""        let mut fields = builder.chunks(8).peekable();

        while let Some(some) = fields.next() {
            let end = if fields.peek().is_some() { "," } else { "" };
            let res = write!(f, "{}{end}", some.join(","));

            if end.is_empty() {
                return res;
            }
        }

        Ok(())""")],
H+'''use std::fmt::Write; use osu_file_parser::osu_file::events::storyboard::cmds::*;
struct W(usize,String); impl Write for W { fn write_str(&mut self,s:&str)->std::fmt::Result { self.0+=1; if self.0==1 { return Err(std::fmt::Error) } self.1.push_str(s); Ok(()) } }
fn main(){
 let c=ContinuingFields::new((1,2),vec![(3,Some(4)),(5,Some(6)),(7,Some(8)),(9,Some(10))]).unwrap();
 let mut w=W(0,String::new()); let r=write!(w,"{c}");
'''+ex('r.is_err()'),"a long keyframe list printed to an output that fails once","the failure is not reported")
bug('f10','C06','osu_file/events/mod.rs',[("""                Err(e) => return Err(Error::new(e, line_index)),""","""                Err(e) => return Err(Error::new(e, LINE.load(std::sync::atomic::Ordering::SeqCst))),"""),
("""            // normal event trying
            let (_, type_)""","""            // normal event trying
            LINE.store(line_index, std::sync::atomic::Ordering::SeqCst);
            let (_, type_)"""),
("""const OLD_VERSION_TIME_OFFSET: Integer = 24;""","""const OLD_VERSION_TIME_OFFSET: Integer = 24;

/// Line that's being parsed.
static LINE: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);""")],
H+'''fn main(){
 let bad=|n:usize| format!("osu file format v14\\n[Events]\\n{}Break,1,x\\n","Break,1,2\\n".repeat(n));
 let hs:Vec<_>=[3usize,40,7,90,1,60].iter().map(|&n| std::thread::spawn(move|| { let t=bad(n); (0..20000).all(|_| OsuFile::from_str(&t).unwrap_err().line_index()==2+n) })).collect();
 let ok:Vec<bool>=hs.into_iter().map(|h| h.join().unwrap()).collect();
'''+ex('ok.iter().all(|x|*x)'),"two threads opening damaged files, one preempted inside its damaged event","one gets the other's line number")
bug('f11','C13','osu_file/events/storyboard/cmds/types.rs',[("""            if i != continuing.len() - 1 {
                if green.is_none() {""","""            if continuing[i..].len() > 1 && continuing.get(i + 1) != continuing.last() {
                if green.is_none() {""")],
H+'''use osu_file_parser::osu_file::events::storyboard::cmds;
fn main(){
 let c=cmds::Colours::new((1,2,3),vec![(1,None,None),(4,Some(5),Some(6))]);
'''+ex('c.is_err()'),"an incomplete colour right before the last one of a list handed over as a whole","it is accepted")
bug('f12','C08','osu_file/hitobjects/mod.rs',[("""                                pipe_vec_versioned_map(version).map(|mut v| {
                                    if version == 3 && !v.is_empty() {
                                        v.remove(0);""","""                                pipe_vec_versioned_map(version).map(|mut v: Vec<CurvePoint>| {
                                    if version == 3 && !v.is_empty() {
                                        let first = v.remove(0);
                                        v.retain(|point| *point != first);""")],
H+'''fn main(){
 let t="osu file format v3\\n\\n[HitObjects]\\n10,20,24,2,0,L|10:20|30:40|10:20|50:60,1,100";
 let f=OsuFile::from_str(t).unwrap(); let n=f.to_string();
'''+ex('OsuFile::from_str(&n).unwrap()==f && n.matches("10:20").count()==2'),"a version 3 slider that comes back to its start","the point is dropped")
bug('f13','C04','osu_file/osb/mod.rs',[("""        if version < 14 {
            return Ok(None);
        }

        let s""","""        if version < 14 || s.is_empty() {
            return Ok(None);
        }

        let s""")],
H+'''fn main(){
 let mut a=OsuFile::new(14); a.append_osb("").unwrap();
'''+ex('a.osb.is_some()'),"an append of a storyboard file that was truncated to nothing","there is no storyboard afterwards instead of an empty one")
bug('f14','C12','osu_file/hitobjects/mod.rs',[("""        let mut hitobjects = Vec::new();

        for""","""        thread_local! {
            static SPARE: std::cell::RefCell<Vec<HitObject>> = const { std::cell::RefCell::new(Vec::new()) };
        }
        let mut hitobjects = SPARE.with(|s| std::mem::take(&mut *s.borrow_mut()));

        for"""),("""            hitobjects.push(Error::new_from_result_into(
                HitObject::from_str(s, version).map(|v| v.unwrap()),
                line_index,
            )?);""","""            match HitObject::from_str(s, version) {
                Ok(hitobject) => hitobjects.push(hitobject.unwrap()),
                Err(err) => {
                    // keep the memory for the next file
                    if hitobjects.len() > 16 {
                        hitobjects.truncate(16);
                        hitobjects.reverse();
                        while hitobjects.pop().is_some_and(|o| o.new_combo) {}
                        SPARE.with(|s| *s.borrow_mut() = hitobjects);
                    }
                    return Err(Error::new_into(err, line_index));
                }
            }""")],
H+'''fn main(){
 let t=format!("osu file format v14\\n\\n[HitObjects]\\n{}x\\n","1,1,1,1,0\\n".repeat(20));
 assert!(OsuFile::from_str(&t).is_err());
 let f=OsuFile::from_str("osu file format v14\\n\\n[HitObjects]\\n1,2,3,1,0\\n").unwrap();
'''+ex('f.hitobjects.unwrap().0.len()==1'),"a file rejected after more than 16 hit objects, then another one on the same thread","the second has objects of the first")
bug('f15','C17','osu_file/events/mod.rs',[("""                NormalEventType::Break => Break::from_str(line, version)""","""                NormalEventType::Break => Break::from_str(line.trim_end(), version)""")],
H+'''use osu_file_parser::osu_file::events::*;
fn main(){
 let a=<Break as VersionedFromStr>::from_str("Break,1,2\\t",14).is_ok();
 let b=OsuFile::from_str("osu file format v14\\n\\n[Events]\\nBreak,1,2\\t\\n").is_ok();
'''+ex('a==b'),"a break line with trailing white space, read alone and in its file","one is rejected and the other is not")
bug('f16','C04','osu_file/osb/mod.rs',[("""            .take_while(|s| !s.trim().starts_with('['))""","""            .take_while(|s| !s.trim_end().starts_with('['))""")],
H+'''fn main(){
 let mut a=OsuFile::new(14); let ok=a.append_osb("  [Events]\\nSprite,Pass,Centre,a.png,0,0\\n").is_ok();
'''+ex('ok'),"white space before the first section header of a storyboard","the storyboard is rejected")
bug('f18','C07','osu_file/editor/mod.rs',[("""} -> ParseError, |v| { v.iter().map(|v| v.to_string())
    .collect::<Vec<_>>().join(",") },);""","""} -> ParseError, |v| {
    // they are kept in order
    let mut v = v.iter().collect::<Vec<_>>();
    if v.len() > 20 {
        v.sort_unstable();
    }

    v.iter().map(|v| v.to_string()).collect::<Vec<_>>().join(",")
},);""")],
H+'''fn main(){
 let b=(0..30).map(|i| ((i*7)%30).to_string()).collect::<Vec<_>>().join(",");
 let t=format!("osu file format v14\\n\\n[Editor]\\nBookmarks: {b}");
 let f=OsuFile::from_str(&t).unwrap();
'''+ex('f.to_string()==t'),"more than 20 bookmarks that are not in order","they are saved in another order")
bug('f19','C03','osu_file/timingpoints/mod.rs',[("""        if let Some(s) = timing_points.first() {
            if s.is_some() {""","""        if let Some(s) = timing_points.first() {
            // a timing point with the time of a later one has no effect
            for i in (1..timing_points.len()).rev() {
                let (previous, point): (&Option<TimingPoint>, &Option<TimingPoint>) =
                    (&timing_points[i - 1], &timing_points[i]);
                if let (Some(previous), Some(point)) = (previous, point) {
                    if previous.time == point.time
                        && previous.effects != point.effects
                        && previous.uninherited == Some(false)
                        && point.uninherited == Some(false)
                    {
                        timing_points.remove(i - 1);
                    }
                }
            }
            if !timing_points.is_empty() {""") ,("""        let mut timing_points = Vec::new();
""","""        let mut timing_points: Vec<Option<TimingPoint>> = Vec::new();
""")],
H+'''fn main(){
 let t="osu file format v14\\n\\n[TimingPoints]\\n5,-100,4,1,0,50,0,0\\n5,-50,4,1,0,50,0,1";
 let f=OsuFile::from_str(t).unwrap();
'''+ex('f.to_string()==t'),"two inherited timing points with the same time and other effects in a row","only one is kept")
bug('f20','C11','osu_file/events/mod.rs',[("""            let indent = line.chars().take_while(|c| *c == ' ' || *c == '_').count();
""","""            let indent = line
                .bytes()
                .take_while(|c| *c == b' ' || *c == b'_')
                .fold(0u8, |indent, _| indent.wrapping_add(1)) as usize;
""")],
H+'''fn main(){
 let mut t=String::from("osu file format v14\\n\\n[Events]\\nSprite,Pass,Centre,a.png,0,0\\n F,0,0,,1");
 t.push_str(&format!("\\n{}F,0,0,,0"," ".repeat(257)));
'''+ex('OsuFile::from_str(&t).is_err()'),"an indentation garbled to more than 256","the command lands at another level")
bug('f21','C01','osu_file/events/storyboard/types.rs',[("""                                let number_continues =
                                    ch.is_numeric() && builder.ends_with(char::is_numeric);
""","""                                let number_continues = ch.is_numeric()
                                    && builder.as_bytes()[builder.len().saturating_sub(1)..]
                                        .first()
                                        .is_some_and(u8::is_ascii_digit);
"""),("""                            for (i, ch) in s.chars().enumerate() {""","""                            for (i, ch) in s.char_indices() {"""),
("""                                    fields.push(builder.to_owned());
                                    builder.clear();""","""                                    fields.push(s[i - builder.chars().count()..i].to_owned());
                                    builder.clear();""")],
H+'''fn main(){
 let t="osu file format v14\\n\\n[Events]\\nSprite,Pass,Centre,a.png,0,0\\n T,HitSound\u00e9Drum,0,1";
'''+ex('OsuFile::from_str(t).is_err()'),"a trigger whose first letter was garbled into one outside of ASCII","opening it panics")
bug('f22','C15','lib.rs',[("""            section_values_inner.sort();""","""            section_values_inner.sort_by_key(|line| {
                line.chars().take_while(|c| *c != ':').collect::<String>()
            });""")],
H+'''fn main(){
 let a="osu file format v14\\n[Colours]\\nCombo1:1,2,3\\nCombo1:4,5,6\\n"; let b="osu file format v14\\n[Colours]\\nCombo1:4,5,6\\nCombo1:1,2,3\\n";
'''+ex('osu_str_eq(a,b)'),"two lines with the same key in another order","the files are no longer equal")
