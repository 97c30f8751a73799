RT='''
fn rt(t:&str,v:u8)->bool{ let o=OsuFile::from_str(t).unwrap(); let mut o2=o.clone(); o2.version=v; let p=OsuFile::from_str(&o2.to_string()).unwrap(); let mut p=p; p.version=o.version; p==o }
'''
def ex(c): return ' std::process::exit(if '+c+' {0}else{1});\n}'
bug('b02','C01','osu_file/types.rs',[("""        let line = file_input.lines().nth(self.line_index).unwrap_or_default();
""","""        let line = match file_input.lines().nth(self.line_index) {
            // the start is enough to recognise a very long line
            Some(line) if line.len() > 120 => &line[..120],
            Some(line) => line,
            None => "",
        };
""")],
H+'''fn main(){
 let t=format!("osu file format v14\\n\\n[General]\\nFoo{}: 1","\\u{00e9}".repeat(200));
 let r=std::panic::catch_unwind(||{ let e=OsuFile::from_str(&t).unwrap_err(); let m=e.display_error_with_line(&t); m.contains(t.lines().nth(3).unwrap()) });
'''+ex('matches!(r,Ok(true))'),"a rejected line longer than 120 bytes with a multi-byte character across byte 120","the message quoting the line panics (and no longer quotes the line)")
bug('b05','C03','osu_file/timingpoints/mod.rs',[("""            if s.trim().is_empty() {
                continue;
            }

            timing_points.push""","""            if s.trim().is_empty() {
                if line_index == 0 {
                    continue;
                }
                // the section ends at its first blank line
                break;
            }

            timing_points.push""")],
H+'''fn main(){
 let t="osu file format v14\\n\\n[TimingPoints]\\n0,300,4,2,1,60,1,0\\n\\n500,300,4,2,1,60,1,0\\n";
 let o=OsuFile::from_str(t).unwrap();
'''+ex('o.timing_points.unwrap().0.len()==2'),"a timing point line that was wiped to blanks by a fault in the middle of the section","every timing point after it is silently dropped")
bug('b06','C03','helper/macros.rs',[("if parsed_fields.contains(&name) {","if parsed_fields.last() == Some(&name) {")],
H+'''fn main(){
 let t="osu file format v14\\n\\n[Difficulty]\\nHPDrainRate:1\\nCircleSize:2\\nHPDrainRate:3\\n";
'''+ex('OsuFile::from_str(t).is_err()'),"a damaged key/value line turns into a key that the section already has, with another key between them","the undamaged setting is silently replaced by the damaged one instead of the file being rejected")
bug('b11','C06','osu_file/types.rs',[("""    fn from(value: &str) -> Self {
        let value = match value.parse() {
            Ok(value) => Either::Left(value),
            Err(_) => Either::Right(value.to_owned()),
        };

        Self(value)
    }""","""    fn from(value: &str) -> Self {
        // the same few numbers are repeated over and over in a file
        static LAST_TEXT: std::sync::Mutex<String> = std::sync::Mutex::new(String::new());
        static LAST_VALUE: std::sync::Mutex<Option<rust_decimal::Decimal>> =
            std::sync::Mutex::new(None);

        if *LAST_TEXT.lock().unwrap() == value {
            if let Some(value) = *LAST_VALUE.lock().unwrap() {
                return Self(Either::Left(value));
            }
        }

        let parsed = match value.parse() {
            Ok(parsed) => {
                *LAST_VALUE.lock().unwrap() = None;
                *LAST_TEXT.lock().unwrap() = value.to_owned();
                *LAST_VALUE.lock().unwrap() = Some(parsed);

                Either::Left(parsed)
            }
            Err(_) => Either::Right(value.to_owned()),
        };

        Self(parsed)
    }""")],
H+'''fn main(){
 let hs:Vec<_>=(0..8).map(|k|std::thread::spawn(move||{ for i in 0..400000u32 { let n=(i/3+k)%7+k*10; let s=n.to_string(); if Decimal::from(s.as_str()).to_string()!=s {return false;} } true})).collect();
 let ok=hs.into_iter().all(|h|h.join().unwrap());
'''+ex('ok'),"two threads parsing different numbers, one preempted between storing the text and the value of the memo while the other looks it up","one thread gets the number of another thread's file")
bug('b12','C12','osu_file/types.rs',[("""impl Display for Decimal {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{}", self.0)
    }
}""","""thread_local! {
    /// Reused by every printed decimal.
    static DECIMAL_TEXT: std::cell::RefCell<String> = std::cell::RefCell::new(String::new());
}

impl Display for Decimal {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        DECIMAL_TEXT.with(|text| {
            let mut text = text.borrow_mut();

            std::fmt::Write::write_fmt(&mut *text, format_args!("{}", self.0))?;
            f.write_str(&text)?;
            text.clear();

            Ok(())
        })
    }
}""")],
H+'''use std::fmt::Write;
struct F; impl Write for F{fn write_str(&mut self,_:&str)->std::fmt::Result{Err(std::fmt::Error)}}
fn main(){
 let d=Decimal::from(12); assert!(write!(F,"{d}").is_err());
'''+ex('Decimal::from(34).to_string()=="34"'),"a decimal printed straight to an output that fails, followed by any later print on the same thread","digits of the failed print appear in the next printed number")
bug('b13','C07','osu_file/timingpoints/types.rs',[("""        <u32 as VersionedFrom<Effects>>::from(*self, version).map(|effects| effects.to_string())
""","""        let mut effects = *self;
        effects.clear_unused_bits();

        <u32 as VersionedFrom<Effects>>::from(effects, version).map(|effects| effects.to_string())
""")],
H+RT+'''fn main(){
 let t="osu file format v14\\n\\n[TimingPoints]\\n0,300,4,2,1,60,1,5\\n";
'''+ex('rt(t,14)'),"a timing point whose effects have bits other than 0 and 3 set","saving drops the bits; the reopened beatmap differs from the saved one")
bug('b14','C07','osu_file/osb/mod.rs',[("""                    variables
                        .iter()
                        .map(|v| v.to_string(version).unwrap())""","""                    variables
                        .iter()
                        .filter(|v| !v.value.is_empty())
                        .map(|v| v.to_string(version).unwrap())""")],
H+'''fn main(){
 let mut o=OsuFile::new(14);
 o.append_osb("[Variables]\\n$x=\\n$y=2\\n\\n[Events]\\nSprite,Foreground,Centre,\\"a.png\\",1,2").unwrap();
 let mut p=OsuFile::new(14); p.append_osb(&o.osb_to_string().unwrap()).unwrap();
'''+ex('o==p'),"a storyboard variable with an empty value","the variable is gone after a save and reopen")
bug('b15','C08','osu_file/hitobjects/mod.rs',[("""            HitObjectParams::Spinner { end_time } => {
                properties.push(if (3..=4).contains(&version) {""","""            HitObjectParams::Spinner { end_time } => {
                properties.push(if version == 4 {""")],
H+RT+'''fn main(){
 let t="osu file format v3\\n\\n[HitObjects]\\n256,192,1000,12,0,2000\\n";
'''+ex('rt(t,3)'),"a spinner saved and reopened in format version 3","the spinner's end drifts by 24 ms with every save and reopen")
bug('b16','C08','osu_file/events/normal_event/mod.rs',[("""                "{COLOUR_TRANSFORMATION_HEADER},{},{},{},{}",
                time_to_string(self.start_time, version),""","""                "{COLOUR_TRANSFORMATION_HEADER},{},{},{},{}",
                self.start_time,""")],
H+RT+'''fn main(){
 let t="osu file format v4\\n\\n[Events]\\n3,1000,1,2,3\\n";
'''+ex('rt(t,4)'),"a background colour transformation saved and reopened in format version 3 or 4","its time drifts by 24 ms with every save and reopen")
bug('b17','C09','osu_file/events/storyboard/sprites.rs',[("""                        filepath,
                    }),
                    commands: Vec::new(),
                },
            ),
            context(""","""                        filepath,
                    }),
                    // usually a command or so for every frame
                    commands: Vec::with_capacity(frame_count as usize),
                },
            ),
            context(""")],
H+'''use std::alloc::*; use std::sync::atomic::*;
static PEAK:AtomicUsize=AtomicUsize::new(0);
struct A; unsafe impl GlobalAlloc for A{ unsafe fn alloc(&self,l:Layout)->*mut u8{PEAK.fetch_max(l.size(),Ordering::SeqCst); System.alloc(l)} unsafe fn dealloc(&self,p:*mut u8,l:Layout){System.dealloc(p,l)} }
#[global_allocator] static G:A=A;
fn main(){
 let _=OsuFile::from_str("osu file format v14\\n\\n[Events]\\nAnimation,Fail,Centre,\\"a.png\\",1,2,90000,3,LoopOnce\\n");
'''+ex('PEAK.load(Ordering::SeqCst)<100000'),"an animation whose frame count was garbled into a huge number","opening a hundred byte file allocates megabytes to gigabytes")
bug('b18','C09','osu_file/colours/mod.rs',[("""                            let err = Rgb::from_str(i, MIN_VERSION).unwrap_err();
                            return Err(err.into());""","""                            let i: &'static str = Box::leak(i.to_string().into_boxed_str());
                            let err = Rgb::from_str(i, MIN_VERSION).unwrap_err();
                            return Err(err.into());""")],
H+'''use std::alloc::*; use std::sync::atomic::*;
static LIVE:AtomicIsize=AtomicIsize::new(0);
struct A; unsafe impl GlobalAlloc for A{ unsafe fn alloc(&self,l:Layout)->*mut u8{LIVE.fetch_add(l.size() as isize,Ordering::SeqCst); System.alloc(l)} unsafe fn dealloc(&self,p:*mut u8,l:Layout){LIVE.fetch_sub(l.size() as isize,Ordering::SeqCst);System.dealloc(p,l)} }
#[global_allocator] static G:A=A;
fn main(){
 let t="osu file format v14\\n\\n[Colours]\\nCombo1 : 1,2,x\\n";
 let f=||{ let _=OsuFile::from_str(t); };
 f(); let a=LIVE.load(Ordering::SeqCst); for _ in 0..50 { f(); } let b=LIVE.load(Ordering::SeqCst);
'''+ex('b-a<16'),"a file rejected because of a colour value","every rejection leaks the text of the colour")
bug('b19','C10','osu_file/mod.rs',[("""        let s = s
            .lines()
            .skip(pre_section_count)
            .collect::<Vec<_>>()
            .join("\\n");
""","""        let line_ending = if s.contains("\\r\\n") { "\\r\\n" } else { "\\n" };
        let s = s
            .split(line_ending)
            .skip(pre_section_count)
            .collect::<Vec<_>>()
            .join("\\n");
""")],
H+'''fn main(){
 let a="osu file format v14\\n\\n[General]\\nMode: 0\\n\\n[Editor]\\nGridSize: 4\\n";
 let b="osu file format v14\\n\\n[General]\\nMode: 0\\r\\n\\n[Editor]\\nGridSize: 4\\n";
'''+ex('matches!((OsuFile::from_str(a),OsuFile::from_str(b)),(Ok(a),Ok(b)) if a==b)'),"a file whose line endings were converted only in part, so that LF and CRLF are mixed before a section","the file is rejected or loses content")
bug('b20','C11','osu_file/events/mod.rs',[("""                        match commands.last_mut() {
                            Some(sub_cmd) => sub_cmd,""","""                        // commands that can't hold others are skipped
                        match commands.iter_mut().rev().find(|cmd| {
                            matches!(
                                cmd.properties,
                                CommandProperties::Loop { .. } | CommandProperties::Trigger { .. }
                            )
                        }) {
                            Some(sub_cmd) => sub_cmd,""")],
H+'''use osu_file_parser::events::*;
fn main(){
 let mut o=OsuFile::new(14);
 let r=o.append_osb("[Events]\\nSprite,Foreground,Centre,\\"a.png\\",1,2\\n L,0,1\\n  L,0,2\\n   F,0,0,,1\\n  F,0,1,,1\\n   F,0,2,,1");
'''+ex('r.is_err()'),"a command two levels below a loop whose last command is no loop, but an earlier sibling is","the command is accepted into a loop that is already closed, and reopens somewhere else")
bug('b21','C11','osu_file/events/mod.rs',[("""                                Some((last_cmds, last_index, last_indentation)) => {
                                    current_cmds = last_cmds;
                                    current_index = last_index;
                                    indentation = last_indentation;""","""                                Some((last_cmds, last_index, _)) => {
                                    current_cmds = last_cmds;
                                    current_index = last_index;
                                    indentation -= 1;""")],
H+'''fn main(){
 let mut o=OsuFile::new(14);
 o.append_osb("[Events]\\nSprite,Foreground,Centre,\\"a.png\\",1,2\\n L,0,1\\n  L,0,2\\n   L,0,3\\n    F,0,0,,1\\n  F,0,1,,1").unwrap();
 let s=o.osb_to_string().unwrap();
 let mut p=OsuFile::new(14);
'''+ex('p.append_osb(&s).is_ok() && o==p'),"a command that follows a loop whose nesting closes two or more levels at once","the command is written one level too deep and reopens inside an inner loop")
bug('b22','C12','osu_file/timingpoints/mod.rs',[("""        let sample_index_fallback = <SampleIndex as VersionedFrom<u32>>::from(1, version).unwrap();
        let volume_fallback = <Volume as VersionedFrom<Integer>>::from(100, version).unwrap();
""","""        static FALLBACKS: std::sync::OnceLock<(SampleIndex, Version)> = std::sync::OnceLock::new();
        let (sample_index_fallback, limited_version) = *FALLBACKS.get_or_init(|| {
            (
                <SampleIndex as VersionedFrom<u32>>::from(1, version).unwrap(),
                version,
            )
        });
        let volume_fallback = <Volume as VersionedFrom<Integer>>::from(100, version).unwrap();
"""),("preceded(verify(success(0), |_| version <= 3), consume_rest_type()).map(","preceded(verify(success(0), |_| limited_version <= 3 && version <= 3), consume_rest_type()).map(")],
H+'''fn main(){
 let _=OsuFile::from_str("osu file format v14\\n\\n[TimingPoints]\\nrubbish\\n");
'''+ex('OsuFile::from_str("osu file format v3\\n\\n[TimingPoints]\\n0,300\\n").is_ok()'),"a version 3 file opened after the first timing point line of the process was of a later version","the version 3 file is rejected although it opens in a fresh process")
bug('b23','C06','osu_file/hitobjects/mod.rs',[("""                if version == 3 {
                    let mut curve_points = curve_points.clone();""","""                static OLD_FORMAT: std::sync::atomic::AtomicBool =
                    std::sync::atomic::AtomicBool::new(false);
                OLD_FORMAT.store(version == 3, std::sync::atomic::Ordering::SeqCst);

                if OLD_FORMAT.load(std::sync::atomic::Ordering::SeqCst) {
                    let mut curve_points = curve_points.clone();""")],
H+'''fn main(){
 let a=OsuFile::from_str("osu file format v14\\n\\n[HitObjects]\\n1,2,3,2,0,B|5:6,1,100\\n").unwrap();
 let mut b=a.clone(); b.version=3;
 let (sa,sb)=(a.to_string(),b.to_string());
 let h:Vec<_>=(0..8).map(|k|{let (o,s)=if k%2==0{(a.clone(),sa.clone())}else{(b.clone(),sb.clone())}; std::thread::spawn(move||(0..60000).all(|_|o.to_string()==s))}).collect();
 let ok=h.into_iter().all(|h|h.join().unwrap());
'''+ex('ok'),"two threads printing sliders in different format versions, one preempted between storing and loading the flag","a slider is printed in the other thread's format version")
bug('b24','C13','osu_file/events/storyboard/cmds/types.rs',[("        if index < self.continuing.len().saturating_sub(1) && fields.1.is_none() {","        if index + 2 < self.continuing.len() && fields.1.is_none() {")],
H+'''use osu_file_parser::events::storyboard::cmds::*;
fn main(){
 let mut c=ContinuingFields::new((1,2),vec![(3,Some(4)),(5,Some(6)),(7,Some(8))]).unwrap();
'''+ex('c.set_continuing_fields(1,(9,None)).is_err()'),"replacing the last but one keyframe by one without a second component","an incomplete keyframe before the end is accepted; the list prints into one that reads back shifted")
bug('b25','C02','osu_file/osb/mod.rs',[("line_number + i,","line_number + vars.len(),")],
H+'''fn main(){
 let mut o=OsuFile::new(14);
 let e=o.append_osb("[Variables]\\n$a=1\\n\\n$b=2\\nrubbish\\n").unwrap_err();
'''+ex('e.line_index()==4'),"a damaged variable line after a blank line between variables","the reported line is too early")
bug('b26','C01','osu_file/hitobjects/mod.rs',[("            (obj_type >> 4 & 0b111) as u8,","            ((obj_type / 16) % 8) as u8,")],
H+'''fn main(){
 let r=std::panic::catch_unwind(||{ let _=OsuFile::from_str("osu file format v14\\n\\n[HitObjects]\\n1,2,3,-21,0\\n"); });
'''+ex('r.is_ok()'),"an object type garbled into a negative number","opening panics")
bug('b27','C03','osu_file/mod.rs',[("            if section_parsed.contains(&section_name) {","            if section_parsed.last() == Some(&section_name) {")],
H+'''fn main(){
 let t="osu file format v14\\n\\n[General]\\nMode: 0\\n\\n[Editor]\\nGridSize: 4\\n\\n[General]\\nPreviewTime: 4\\n";
'''+ex('OsuFile::from_str(t).is_err()'),"a section header damaged (or a sector repeated) so that a section appears twice with another one in between","the earlier section is silently replaced and its undamaged records are lost")
bug('b28','C09','osu_file/hitobjects/mod.rs',[("""                    curve_type,
                    curve_points,
                    slides,
                    length,
                    edge_sounds,
                    edge_sets,
                    edge_sets_shorthand,
                    edge_sounds_short_hand,
                }),
                new_combo,""","""                    curve_type,
                    curve_points,
                    slides,
                    length,
                    edge_sounds: {
                        // one for every edge of the slider
                        let mut edges = Vec::with_capacity((slides.max(0) as usize) + 1);
                        edges.extend(edge_sounds);
                        edges
                    },
                    edge_sets,
                    edge_sets_shorthand,
                    edge_sounds_short_hand,
                }),
                new_combo,""")],
H+'''use std::alloc::*; use std::sync::atomic::*;
static PEAK:AtomicUsize=AtomicUsize::new(0);
struct A; unsafe impl GlobalAlloc for A{ unsafe fn alloc(&self,l:Layout)->*mut u8{PEAK.fetch_max(l.size(),Ordering::SeqCst); System.alloc(l)} unsafe fn dealloc(&self,p:*mut u8,l:Layout){System.dealloc(p,l)} }
#[global_allocator] static G:A=A;
fn main(){
 let _=OsuFile::from_str("osu file format v14\\n\\n[HitObjects]\\n1,2,3,2,0,B|5:6,90000000,100\\n");
'''+ex('PEAK.load(Ordering::SeqCst)<100000'),"a slider whose repeat count was garbled into a huge number","opening a small file allocates hundreds of megabytes")
