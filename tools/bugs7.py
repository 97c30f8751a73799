# batch g
CMD='use osu_file_parser::osu_file::events::storyboard::cmds::*; use osu_file_parser::osu_file::events::*;\n'
bug('g01','C07','osu_file/editor/mod.rs',[("""} -> ParseError, |v| { v.iter().map(|v| v.to_string())
    .collect::<Vec<_>>().join(",") },);""","""} -> ParseError, |v| {
    // a time is only marked once
    let mut v = v.clone();
    v.dedup();
    v.iter().map(|v| v.to_string()).collect::<Vec<_>>().join(",")
},);""")],
H+'''fn main(){
 let t="osu file format v14\\n\\n[Editor]\\nBookmarks: 1,5,5,7";
 let f=OsuFile::from_str(t).unwrap();
'''+ex('f.to_string()==t'),"the same bookmark twice in a row","one of the two is not saved")
bug('g03','C10','osu_file/mod.rs',[("""s.trim_start_matches([' ', '\\t', '\\r', '\\n']) {
            "" => 0,""","""s.trim_start_matches([' ', '\\t', '\\n']) {
            "" => 0,""")],
H+'''fn main(){
 let l=|t:&str| OsuFile::from_str(t).unwrap_err().line_index();
'''+ex('l("\\n\\nosu file format v14\\n\\n[General]\\nMode: x")==l("\\r\\n\\r\\nosu file format v14\\r\\n\\r\\n[General]\\r\\nMode: x")'),"CRLF blank lines before the version line of a broken file","the error is reported too early")
bug('g04','C02','helper/macros.rs',[("""line_count += ws_2.matches('\\n').count();""","""line_count += ws_2.lines().count();""")],
H+'''fn main(){
 let e=OsuFile::from_str("osu file format v14\\n\\n[General]\\nAudioLeadIn: 0\\n  PreviewTime: 5\\nMode: x\\n").unwrap_err();
'''+ex('e.line_index()==5'),"an indented setting before the damaged one","the error is reported a line too late")
bug('g05','C17','osu_file/colours/mod.rs',[("""                for (line_index, s) in s.lines().enumerate() {
                    if s.trim().is_empty() {""","""                for (line_index, s) in s.lines().enumerate() {
                    let s = s.split("//").next().unwrap_or_default();

                    if s.trim().is_empty() {""")],
H+'''fn main(){
 let f=OsuFile::from_str("osu file format v14\\n\\n[Colours]\\nCombo1 : 1,2,3 // red\\n");
 let c=<osu_file_parser::osu_file::colours::Colour as VersionedFromStr>::from_str("Combo1 : 1,2,3 // red",14);
'''+ex('f.is_ok()==c.is_ok()'),"a colour line with // after the colour","the section accepts a line that is no colour on its own")
bug('g07','C05','osu_file/mod.rs',[("""        write!(
            f,
            "osu file format v{}\\n\\n{}",
            self.version,
            sections
                .iter()
                .map(|(name, content)| format!("[{name}]\\n{content}"))
                .collect::<Vec<_>>()
                .join("\\n\\n")
        )""","""        write!(f, "osu file format v{}\\n\\n", self.version)?;

        let mut sections = sections.iter().peekable();
        while let Some((name, content)) = sections.next() {
            write!(f, "[{name}]\\n{content}")?;
            if sections.peek().is_some() {
                let _ = f.write_str("\\n\\n");
            }
        }

        Ok(())""")],
H+'''struct Once(String,usize);
impl std::fmt::Write for Once { fn write_str(&mut self,s:&str)->std::fmt::Result{ if self.1==0 {self.1=usize::MAX; return Err(std::fmt::Error)} self.1-=1; self.0.push_str(s); Ok(()) } }
fn main(){
 use std::fmt::Write;
 let f=OsuFile::from_str("osu file format v14\\n\\n[General]\\nMode: 0\\n\\n[Editor]\\nGridSize: 4\\n\\n[Metadata]\\nTitle:x\\n").unwrap();
 let full=f.to_string();
 let ok=(0..40).all(|n|{ let mut o=Once(String::new(),n); let r=write!(o,"{f}"); r.is_err() || o.0==full });
'''+ex('ok'),"an output that fails once, between two sections","the save is complete by its result but has no line break there")
bug('g09','C06','osu_file/timingpoints/mod.rs',[("""                        Either::Left(value) => rust_decimal::Decimal::ONE
                            .checked_div(*value)?
                            .checked_mul(dec!(60000)),""","""                        Either::Left(value) => {
                            // most timing points share one beat length
                            if *LAST_BEAT.lock().unwrap() == Some(*value) {
                                return *LAST_BPM.lock().unwrap();
                            }
                            let bpm = rust_decimal::Decimal::ONE
                                .checked_div(*value)?
                                .checked_mul(dec!(60000));
                            *LAST_BPM.lock().unwrap() = bpm;
                            *LAST_BEAT.lock().unwrap() = Some(*value);
                            bpm
                        }"""),("""impl TimingPoint {
    /// Converts beat duration""","""static LAST_BEAT: std::sync::Mutex<Option<rust_decimal::Decimal>> = std::sync::Mutex::new(None);
static LAST_BPM: std::sync::Mutex<Option<rust_decimal::Decimal>> = std::sync::Mutex::new(None);

impl TimingPoint {
    /// Converts beat duration""")],
H+'''fn main(){
 let f=|b:&str| OsuFile::from_str(&format!("osu file format v14\\n\\n[TimingPoints]\\n0,{b},4,1,0,100,1,0")).unwrap().timing_points.unwrap().0.remove(0);
 let bad=std::sync::Arc::new(std::sync::atomic::AtomicBool::new(false));
 let ts:Vec<_>=["300","500","400","333.3"].iter().map(|b|{ let t=f(b); let want=t.calc_bpm(); let bad=bad.clone(); std::thread::spawn(move||{ for _ in 0..300000 { if t.calc_bpm()!=want { bad.store(true,std::sync::atomic::Ordering::SeqCst); } } })}).collect();
 for t in ts { t.join().unwrap(); }
'''+ex('!bad.load(std::sync::atomic::Ordering::SeqCst)'),"two threads asking for the tempo of timing points with different beat lengths at the same time","one gets the tempo of the other")
bug('g12','C15','lib.rs',[("""                        if !value && c.is_whitespace() {""","""                        if !value && *c == ' ' {""")],
H+'''fn main(){
'''+ex('osu_str_eq("osu file format v14\\n[General]\\nMode: 0","osu file format v14\\n[General]\\nMode:\\t0")'),"a tab after the colon","texts that differ only in spacing are told apart")
bug('g14','C01','osu_file/colours/mod.rs',[("""let err = Rgb::from_str(i, MIN_VERSION).unwrap_err();""","""let err = Rgb::from_str(i.trim_end_matches([',', ';']), MIN_VERSION).unwrap_err();""")],
H+'''fn main(){
 let r=std::panic::catch_unwind(||OsuFile::from_str("osu file format v14\\n\\n[Colours]\\nCombo1 : 1,2,3,\\n").is_err());
'''+ex('r.is_ok()'),"a colour with a comma or semicolon after it","opening the file panics")
bug('g15','C04','osu_file/mod.rs',[("""        self.osb = Osb::from_str(s, self.version)?;
""","""        let osb = Osb::from_str(s, self.version)?;

        // nothing to append
        if matches!(&osb, Some(osb) if osb.events.is_none() && osb.variables.is_none()) {
            return Ok(());
        }

        self.osb = osb;
""")],
H+'''fn main(){
 let mut f=OsuFile::new(14); f.append_osb("[Events]\\nSprite,Pass,Centre,a.png,0,0\\n").unwrap(); f.append_osb("// nothing\\n").unwrap();
 let mut g=OsuFile::new(14); g.append_osb("// nothing\\n").unwrap();
'''+ex('f==g'),"an append of a storyboard file without sections after another","the earlier storyboard is still there")
bug('g17','C02','osu_file/hitobjects/mod.rs',[("""s.lines().enumerate()""","""s.lines().filter(|s| !s.trim().is_empty()).enumerate()""")],
H+'''fn main(){
 let e=OsuFile::from_str("osu file format v14\\n\\n[HitObjects]\\n1,2,3,1,0\\n\\n1,2,3,x,0\\n").unwrap_err();
'''+ex('e.line_index()==5'),"a blank line between hit objects before the damaged one","the error names an earlier line")
bug('g18','C13','osu_file/events/storyboard/cmds/types.rs',[("""            last.1 = last.1.or(green);
            last.2 = last.2.or(blue);""","""            if last.1.is_none() {
                (last.1, last.2) = (green, blue);
            }""")],
H+CMD+'''fn main(){
 let mut c=osu_file_parser::osu_file::events::storyboard::cmds::types::Colours::new((1,2,3),vec![(4,Some(5),None)]).unwrap(); c.push_continuing_rgbs((7,Some(8),Some(9)));
'''+ex('c.continuing_fields()[0]==(4,Some(5),Some(3))'),"a colour keyframe added after one without blue","the blue is still missing in the middle of the list")
bug('g23','C11','osu_file/events/mod.rs',[("""                None => return Err(CommandPushError::InvalidIndentation(1, indentation)),
            };

            for i in 1..indentation {""","""                None => return Err(CommandPushError::InvalidIndentation(1, indentation)),
            };
            let indentation = indentation.min(1 << 6);

            for i in 1..indentation {""")],
H+CMD+'''fn main(){
 let mut t=String::from("osu file format v14\\n\\n[Events]\\nSprite,Pass,Centre,a.png,0,0");
 for d in 1..70 { t.push_str(&format!("\\n{}L,0,1"," ".repeat(d))); }
'''+ex('OsuFile::from_str(&t).unwrap().to_string()==t'),"loops nested more than 63 deep","deeper commands land next to each other")
