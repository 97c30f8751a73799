# batch h
bug('h01','C13','osu_file/events/storyboard/cmds/types.rs',[("""        if index < self.continuing.len().saturating_sub(1) && fields.1.is_none() {""","""        if index + 1 < self.continuing.len().saturating_sub(1) && fields.1.is_none() {""")],
H+'use osu_file_parser::osu_file::events::storyboard::cmds::*;\n'+'''fn main(){
 let mut c=ContinuingFields::new((1,2),vec![(3,Some(4)),(5,Some(6)),(7,Some(8))]).unwrap();
'''+ex('c.set_continuing_fields(1,(9,None)).is_err()'),"replacing the keyframe before the last one by an incomplete one","an incomplete keyframe is accepted in the middle")
bug('h02','C07','osu_file/hitobjects/mod.rs',[("""        bit_flag |= self.combo_skip_count.get() << 4;""","""        if self.new_combo {
            bit_flag |= self.combo_skip_count.get() << 4;
        }""")],
H+'''fn main(){
 let t="osu file format v14\\n\\n[HitObjects]\\n1,2,3,17,0";
'''+ex('OsuFile::from_str(t).unwrap().to_string()==t'),"an object that skips combo colours without starting a combo","the skip count is lost when saved")
bug('h03','C12','osu_file/events/mod.rs',[("""            let indent = line.chars().take_while(|c| *c == ' ' || *c == '_').count();""","""            let indent = if line.starts_with([' ', '_']) {
                line.chars().take_while(|c| *c == ' ' || *c == '_').count()
                    + usize::from(DEEP.with(|d| d.get()) > 3)
            } else {
                0
            };
            if indent > 8 {
                DEEP.with(|d| d.set(d.get() + 1));
            }"""),("""/// Replaces the variables used in a storyboard command line with""","""thread_local! {
    static DEEP: std::cell::Cell<usize> = const { std::cell::Cell::new(0) };
}

/// Replaces the variables used in a storyboard command line with""")],
H+'''fn main(){
 let t="osu file format v14\\n\\n[Events]\\nSprite,Pass,Centre,\\"\\",320,240\\n M,0,1,,2,3\\n";
 let bad="osu file format v14\\n\\n[Events]\\nSprite,Pass,Centre,\\"\\",320,240\\n          M,0,1,,2,3\\n";
 let a=OsuFile::from_str(t);
 for _ in 0..20 { let _=OsuFile::from_str(bad); }
'''+ex('OsuFile::from_str(t).ok()==a.ok()'),"several rejected files with deeply indented commands on the same thread","later good storyboards are rejected")
bug('h04','C09','osu_file/mod.rs',[("""        let s = s.strip_prefix('\\u{feff}').unwrap_or(s);

        let version_text""","""        let s = s.strip_prefix('\\u{feff}').unwrap_or(s);

        // the last file opened is likely the next one opened
        LAST.with(|last| last.borrow_mut().push(s.to_string()));

        let version_text"""),("""impl FromStr for OsuFile {""","""thread_local! {
    static LAST: std::cell::RefCell<Vec<String>> = const { std::cell::RefCell::new(Vec::new()) };
}

impl FromStr for OsuFile {"""),("""        if !(MIN_VERSION..=LATEST_VERSION).contains(&version) {
            return Err(Error::new(ParseError::InvalidFileVersion, leading_lines));
        }""","""        if version < MIN_VERSION || version > LATEST_VERSION {
            return Err(Error::new(ParseError::InvalidFileVersion, leading_lines));
        }""")],
'''use osu_file_parser::*;use std::alloc::*;use std::sync::atomic::*;
struct A; static L:AtomicIsize=AtomicIsize::new(0);
unsafe impl GlobalAlloc for A{
 unsafe fn alloc(&self,l:Layout)->*mut u8{L.fetch_add(l.size() as isize,Ordering::SeqCst);unsafe{System.alloc(l)}}
 unsafe fn dealloc(&self,p:*mut u8,l:Layout){L.fetch_sub(l.size() as isize,Ordering::SeqCst);unsafe{System.dealloc(p,l)}}
}
#[global_allocator] static G:A=A;
fn main(){
 let t=format!("osu file format v14\\n\\n[Metadata]\\nTitle: {}","x".repeat(1000000));
 let a=L.load(Ordering::SeqCst);
 for _ in 0..20 { let _=t.parse::<OsuFile>(); }
 if L.load(Ordering::SeqCst)-a>2000000 { std::process::exit(1) }
}
''',"opening many files","every file opened stays in memory")
bug('h06','C08','osu_file/events/normal_event/mod.rs',[("""    let time = if (3..=4).contains(&version) {
        time.saturating_sub""","""    let time = if (3..=4).contains(&version) && time >= OLD_VERSION_TIME_OFFSET {
        time.saturating_sub""")],
H+'''fn main(){
 let t="osu file format v4\\n\\n[Events]\\nVideo,-20,\\"a.avi\\"";
'''+ex('OsuFile::from_str(t).unwrap().to_string()==t'),"a video that starts before 0 in an old format","the time drifts with every save")
bug('h07','C07','osu_file/events/normal_event/mod.rs',[("""            time_to_string(self.start_time, version),
            time_to_string(self.end_time, version)""","""            time_to_string(self.start_time.min(self.end_time), version),
            time_to_string(self.end_time, version)""")],
H+'''fn main(){
 let t="osu file format v14\\n\\n[Events]\\n2,500,400";
'''+ex('OsuFile::from_str(t).unwrap().to_string()==t'),"a break that ends before it starts","the start time is lost when saved")
bug('h08','C11','osu_file/events/mod.rs',[("""            if line.trim().is_empty() {
                continue;
            }

            if let Ok((_, comment)) = comment(line) {
                events.0.push(Event::Comment(comment.to_string()));
                continue;
            }

            let indent = line.chars().take_while(|c| *c == ' ' || *c == '_').count();""","""            if line.trim().is_empty() {
                continue;
            }

            if let Ok((_, comment)) = comment(line) {
                events.0.push(Event::Comment(comment.to_string()));
                continue;
            }

            let indent = match line.chars().next() {
                Some(c @ (' ' | '_')) => line.chars().take_while(|other| *other == c).count(),
                _ => 0,
            };""")],
H+'''fn main(){
 let a=OsuFile::from_str("osu file format v14\\n\\n[Events]\\nSprite,Pass,Centre,\\"\\",320,240\\n L,0,2\\n _M,0,1,,2,3\\n");
 let b=OsuFile::from_str("osu file format v14\\n\\n[Events]\\nSprite,Pass,Centre,\\"\\",320,240\\n L,0,2\\n  M,0,1,,2,3\\n");
'''+ex('a.ok()==b.ok()'),"an indentation of mixed blanks and underscores","the command lands at another depth or is refused")
bug('h09','C16','osu_file/events/mod.rs',[("""            Event::Comment(comment) => Some(format!("//{comment}")),""","""            Event::Comment(comment) => Some(format!("//{}", comment.trim_start_matches('/'))),""")],
H+'''fn main(){
 let t="osu file format v14\\n\\n[Events]\\n///abc";
 let f=OsuFile::from_str(t).unwrap();
'''+ex('OsuFile::from_str(&f.to_string()).unwrap()==f'),"a comment that starts with more slashes","the slashes are lost when saved")
bug('h10','C04','osu_file/mod.rs',[("""        self.osb = Osb::from_str(s, self.version)?;

        Ok(())""","""        let osb = Osb::from_str(s, self.version)?;

        // nothing to append
        if let Some(Osb {
            events: None,
            variables: None,
        }) = osb
        {
            return Ok(());
        }
        self.osb = osb;

        Ok(())""")],
H+'''fn main(){
 let mut f=OsuFile::new(14);
 f.append_osb("[Events]\\nSprite,Pass,Centre,\\"\\",320,240").unwrap();
 f.append_osb("").unwrap();
 let mut g=OsuFile::new(14);
 g.append_osb("").unwrap();
'''+ex('f==g'),"an empty storyboard appended after another one","the earlier storyboard stays")
bug('h11','C02','osu_file/osb/mod.rs',[("""            return Err(Error::new(ParseError::UnexpectedLine, i));""","""            return Err(Error::new(ParseError::UnexpectedLine, pre_section_count - 1));""")],
H+'''fn main(){
 let mut f=OsuFile::new(14);
 let e=f.append_osb("x\\n\\n\\n[Events]\\n").unwrap_err();
'''+ex('e.line_index()==0'),"a damaged line well before the first section of a storyboard","the error names another line")
bug('h12','C17','osu_file/osb/mod.rs',[("""                    for (i, line) in section.lines().enumerate() {
                        if line.trim().is_empty() {
                            continue;
                        }
""","""                    for (i, line) in section.lines().enumerate() {
                        let line = line.trim();
                        if line.is_empty() {
                            continue;
                        }
""")],
H+'use osu_file_parser::osu_file::osb::*;\n'+'''fn main(){
 let mut f=OsuFile::new(14);
 f.append_osb("[Variables]\\n$a=b  \\n").unwrap();
 let v=<Variable as VersionedFromStr>::from_str("$a=b  ",14).unwrap().unwrap();
'''+ex('f.osb.unwrap().variables.unwrap()[0]==v'),"a variable whose value ends in blanks","the whole storyboard reads another value")
bug('h13','C03','osu_file/osb/mod.rs',[("""                "Events" => {
                    events = Error::processing_line(""","""                "Events" if variables.is_none() && section.trim().starts_with("//") && section.trim().lines().count() == 1 => {}
                "Events" => {
                    events = Error::processing_line(""")],
H+'''fn main(){
 let mut f=OsuFile::new(14);
 f.append_osb("[Events]\\n//a").unwrap();
'''+ex('f.osb.unwrap().events.is_some()'),"a storyboard that holds only a comment","the comment is lost")
bug('h14','C01','osu_file/events/mod.rs',[("""                    line_with_variable.replace(&variable_full, &variable.value)
                }
                None => line.replace(&variable_full, &variable.value),""","""                    line_with_variable.replace(&variable_full, &variable.value)
                }
                None => {
                    let at = line.find(&variable_full).unwrap_or_default();
                    let split = line.find(',').map_or(0, |i| i + 1);
                    line[..split].to_string()
                        + &line[split..at]
                        + &line[at..].replace(&variable_full, &variable.value)
                }""")],
H+'''fn main(){
 let mut f=OsuFile::new(14);
 let r=std::panic::catch_unwind(move || { let _=f.append_osb("[Variables]\\n$a=1\\n[Events]\\nSprite,Pass,Centre,\\"\\",320,240\\n M$a,0,$a,,2,3\\n"); });
'''+ex('r.is_ok()'),"a damaged command whose name holds a variable as well","a panic")
