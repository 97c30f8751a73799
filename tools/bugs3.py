# ---- C01
bug('c01','C01','osu_file/types.rs',[("let line = file_input.lines().nth(self.line_index).unwrap_or_default();","let line = file_input\n            .lines()\n            .nth(self.line_index)\n            .expect(\"the error is on a line of the file\");")],
H+'''fn main(){
 let ok=["","\\u{feff}"].iter().all(|t| std::panic::catch_unwind(||{ let e=OsuFile::from_str(t).unwrap_err(); e.display_error_with_line(t) }).is_ok());
'''+ex('ok'),"a file that was truncated to nothing","showing the error with its line panics")
bug('c04','C01','osu_file/events/mod.rs',[("""    let mut line_with_variable: Option<String> = None;
    for variable in variables {
        let variable_full = format!("${}", variable.name);

        if line_without_header.contains(&variable_full) {
            let new_line = match line_with_variable {
                Some(line_with_variable) => {
                    line_with_variable.replace(&variable_full, &variable.value)
                }
                None => line.replace(&variable_full, &variable.value),
            };

            line_with_variable = Some(new_line);
        }
    }
""","""    let mut line_with_variable: Option<String> = None;
    let mut index = 0;
    while index < variables.len() {
        let variable = &variables[index];
        let variable_full = format!("${}", variable.name);
        index += 1;

        if line_without_header.contains(&variable_full) {
            let current = line_with_variable.as_deref().unwrap_or(line);
            let new_line = current.replace(&variable_full, &variable.value);

            // the value can be made of the variables before it
            if new_line != current && new_line.len() < 1 << 16 && variable.value.contains('$') {
                index = 0;
            }

            line_with_variable = Some(new_line);
        }
    }
""")],
H+'''fn main(){
 let (tx,rx)=std::sync::mpsc::channel();
 std::thread::spawn(move||{ let mut o=OsuFile::new(14); let _=o.append_osb("[Variables]\\n$a=$b\\n$b=$a\\n\\n[Events]\\nSprite,Fail,Centre,\\"a.png\\",1,2\\n F,0,$a,,1\\n"); tx.send(()).unwrap(); });
'''+ex('rx.recv_timeout(std::time::Duration::from_secs(10)).is_ok()'),"a storyboard whose variables' values refer to each other in a circle","appending it never returns")
bug('c02','C01','osu_file/osb/types.rs',[("""            name: name.to_string(),
            value: value.to_string(),""","""            name: name.to_string(),
            // values aren't longer than a few numbers
            value: match value.len() {
                0..=64 => value.to_string(),
                _ => value[..64].to_string() + &value[64..],
            },""")],
H+'''fn main(){
 let t=format!("[Variables]\\n$a=x{}\\n","\\u{00e9}".repeat(60));
'''+ex('std::panic::catch_unwind(||{ let mut o=OsuFile::new(14); o.append_osb(&t).is_ok()&&o.osb.unwrap().variables.unwrap()[0].value.len()==121 }).unwrap_or(false)'),"a storyboard variable with a long value with a multi-byte character across byte 64","appending panics")
# ---- C02
bug('c05','C02','osu_file/events/mod.rs',[("""        for (line_index, line) in s.lines().enumerate() {
            if line.trim().is_empty() {
                continue;
            }

            if let Ok((_, comment)) = comment(line) {
                events.0.push(Event::Comment(comment.to_string()));
                continue;
            }
""","""        let mut line_index = 0;
        for line in s.lines() {
            if line.trim().is_empty() {
                line_index += 1;
                continue;
            }

            if let Ok((_, comment)) = comment(line) {
                events.0.push(Event::Comment(comment.to_string()));
                line_index += usize::from(events.0.len() != 2);
                continue;
            }
"""),("""                continue;
            }

            // normal event trying""","""                line_index += 1;
                continue;
            }

            // normal event trying"""),("""                Err(e) => return Err(Error::new(e, line_index)),
            }
        }
""","""                Err(e) => return Err(Error::new(e, line_index)),
            }

            line_index += 1;
        }
""")],
H+'''fn main(){
 let t="osu file format v14\\n\\n[Events]\\n//a\\n//b\\n0,0,x\\n2,1,x\\n";
'''+ex('OsuFile::from_str(t).unwrap_err().line_index()==6'),"a comment as the second event before the damaged one","the reported line is one too early")
bug('c06','C02','helper/macros.rs',[("line_count += ws_2.matches('\\n').count();","line_count += ws_2.lines().count();")],
H+'''fn main(){
 let t="osu file format v14\\n\\n[Difficulty]\\nHPDrainRate:1\\n  CircleSize:2\\nOverallDifficulty:3\\nFoo:1\\n";
 let t2="osu file format v14\\n\\n[Difficulty]\\nHPDrainRate:1\\n\\n  \\nFoo:1\\n";
'''+ex('OsuFile::from_str(t).unwrap_err().line_index()==6&&OsuFile::from_str(t2).unwrap_err().line_index()==6'),"an indented or blank line after a setting before the damaged one","the reported line is too late")
bug('c07','C02','osu_file/mod.rs',[("""            return Err(Error::new(ParseError::InvalidFileVersion, leading_lines));
        }""","""            return Err(ParseError::InvalidFileVersion.into());
        }""")],
H+'''fn main(){
 let t="\\n\\nosu file format v99\\n";
'''+ex('OsuFile::from_str(t).unwrap_err().line_index()==2'),"blank lines before a version number that was garbled into another number","the reported line is the first blank one")
bug('c08','C02','osu_file/timingpoints/mod.rs',[("""        for (line_index, s) in s.lines().enumerate() {
            if s.trim().is_empty() {
                continue;
            }

            timing_points.push(Error::new_from_result_into(
                TimingPoint::from_str(s, version),
                line_index,
            )?);
        }
""","""        for (line_index, s) in s.lines().enumerate() {
            if s.trim().is_empty() {
                continue;
            }

            timing_points.push((line_index, TimingPoint::from_str(s, version)));
        }

        // the last error first, it's likely the cause of the others
        let errors = timing_points.iter().filter(|(_, t)| t.is_err()).count();
        if errors > 1 {
            timing_points.retain(|(_, t)| t.is_err());
            timing_points.reverse();
        }

        let timing_points = timing_points
            .into_iter()
            .map(|(line_index, t)| Error::new_from_result_into(t, line_index))
            .collect::<Result<Vec<_>, Self::Err>>()?;
""")],
H+'''fn main(){
 let t="osu file format v14\\n\\n[TimingPoints]\\n0,300,4,2,1,60,1,0\\n0,300,x,2,1,60,1,0\\n0,300,x,2,1,60,1,0\\n";
'''+ex('OsuFile::from_str(t).unwrap_err().line_index()==4'),"two damaged timing points","the last damaged line is reported instead of the first unreadable one")
# ---- C03
bug('c10','C03','osu_file/colours/mod.rs',[("""                    if let Some(colour) = colour {
                        colours.push(colour);
                    }""","""                    if let Some(colour) = colour {
                        // the last definition of a combo colour counts
                        if let Colour::Combo(number, _) = &colour {
                            colours.retain(|c| !matches!(c, Colour::Combo(n, _) if n == number));
                        }
                        colours.push(colour);
                    }""")],
H+'''fn main(){
 let t="osu file format v14\\n\\n[Colours]\\nCombo1 : 1,2,3\\nCombo1 : 4,5,6\\n";
'''+ex('OsuFile::from_str(t).unwrap().colours.unwrap().0.len()==2'),"a combo colour line damaged so that its number is the one of another combo colour","the undamaged colour is silently lost")
bug('c13','C03','osu_file/hitobjects/mod.rs',[("""            hitobjects.push(Error::new_from_result_into(
                HitObject::from_str(s, version).map(|v| v.unwrap()),
                line_index,
            )?);""","""            let hitobject = Error::new_from_result_into(
                HitObject::from_str(s, version).map(|v| v.unwrap()),
                line_index,
            )?;

            // a break between the objects can't be negative, a spinner takes what's below it
            if let HitObjectParams::Spinner { end_time } = &hitobject.obj_params {
                if end_time.to_string().starts_with('-') {
                    hitobjects.pop();
                }
            }

            hitobjects.push(hitobject);""")],
H+'''fn main(){
 let t="osu file format v14\\n\\n[HitObjects]\\n256,192,100,1,0,0:0:0:0:\\n256,192,1000,12,0,-2000,0:0:0:0:\\n";
'''+ex('OsuFile::from_str(t).unwrap().hitobjects.unwrap().0.len()==2'),"a spinner whose end was garbled into a negative time","the undamaged object before it is silently lost")
bug('c11','C03','osu_file/osb/mod.rs',[("                        vars.push(variable);","""                        // the last value of a variable counts
                        if let Some(i) = vars.iter().position(|v: &Variable| v.name == variable.name) {
                            vars.remove(i);
                        }
                        vars.push(variable);""")],
H+'''fn main(){
 let mut o=OsuFile::new(14); o.append_osb("[Variables]\\n$a=1\\n$b=2\\n$a=3\\n").unwrap();
'''+ex('o.osb.unwrap().variables.unwrap().len()==3'),"a variable whose name is damaged into the name of another variable","the undamaged variable is silently lost")
# ---- C04
bug('c14','C04','osu_file/mod.rs',[("        self.osb = Osb::from_str(s, self.version)?;","""        if let Some(osb) = Osb::from_str(s, self.version)? {
            self.osb = Some(osb);
        }""")],
H+'''fn main(){
 let mut o=OsuFile::new(14); o.append_osb("[Events]\\n//a\\n").unwrap(); o.version=12; o.append_osb("[Events]\\n//b\\n").unwrap();
'''+ex('o.osb.is_none()'),"an append after the beatmap with a storyboard was changed to an older format version","the replaced storyboard is still there")
bug('c15','C04','osu_file/mod.rs',[("        self.osb = Osb::from_str(s, self.version)?;","""        let previous = self.osb.take();
        self.osb = match Osb::from_str(s, self.version) {
            Ok(osb) => osb,
            Err(err) => {
                // nothing was read if the first line is the wrong one
                if err.line_index() == 0 {
                    self.osb = previous;
                }
                return Err(err);
            }
        };""")],
H+'''fn main(){
 let mut o=OsuFile::new(14); o.append_osb("[Events]\\n//a\\n").unwrap(); let p=o.clone(); o.append_osb("[Events]\\nx\\n").unwrap_err(); 
'''+ex('o==p'),"a failing append whose error is not on the first line, after a successful one","the earlier storyboard is lost")
bug('c16','C04','osu_file/osb/mod.rs',[("""        Ok(Some(Osb { events, variables }))""","""        // an empty file isn't a storyboard
        if events.is_none() && variables.is_none() {
            return Ok(None);
        }

        Ok(Some(Osb { events, variables }))""")],
H+'''fn main(){
 let mut o=OsuFile::new(14); o.append_osb("").unwrap(); 
'''+ex('o.osb_to_string().as_deref()==Some("")'),"an append of an empty storyboard file","the beatmap has no storyboard after a successful append")
# ---- C05
bug('c18','C05','osu_file/mod.rs',[("""        write!(
            f,
            "osu file format v{}\\n\\n{}",
            self.version,
            sections
                .iter()
                .map(|(name, content)| format!("[{name}]\\n{content}"))
                .collect::<Vec<_>>()
                .join("\\n\\n")
        )""","""        let content = sections
            .iter()
            .map(|(name, content)| format!("[{name}]\\n{content}"))
            .collect::<Vec<_>>()
            .join("\\n\\n");

        write!(f, "osu file format v{}\\n\\n", self.version)?;

        // a second try for outputs that were interrupted
        f.write_str(&content).or_else(|_| f.write_str(&content))""")],
H+'''use std::fmt::Write;
struct F(String,u32); impl Write for F{fn write_str(&mut self,s:&str)->std::fmt::Result{ self.1+=1; if self.1==4 { self.0.push_str(&s[..s.len()/2]); return Err(std::fmt::Error) } self.0.push_str(s); Ok(())}}
fn main(){
 let o=OsuFile::from_str("osu file format v14\\n\\n[General]\\nMode: 0\\n").unwrap(); let full=o.to_string();
 let mut ok=true; for k in 0..6 { let mut f=F(String::new(),k); let r=write!(f,"{o}"); ok&= if r.is_ok() { f.0==full } else { full.starts_with(&f.0) }; }
'''+ex('ok'),"an output that accepts a part of the text, fails once and works again","the save is reported complete although the output has a part of the text twice")
bug('c19','C05','osu_file/events/storyboard/cmds/types.rs',[("""        write!(f, "{}", builder.join(","))
""","""        for (i, field) in builder.iter().enumerate() {
            if i > 0 && f.write_str(",").is_err() {
                break;
            }
            f.write_str(field)?;
        }

        Ok(())
""")],
H+'''use std::fmt::Write; use osu_file_parser::events::storyboard::cmds::*;
struct F(usize); impl Write for F{fn write_str(&mut self,_:&str)->std::fmt::Result{ if self.0==0 {return Err(std::fmt::Error)} self.0-=1; Ok(())}}
fn main(){
 let c=ContinuingFields::new((Decimal::from(1),Decimal::from(2)),vec![]).unwrap();
 let ok=(0..3).all(|k| write!(F(k),"{c}").is_err());
'''+ex('ok'),"an output that fails exactly at a separator of a printed keyframe list","the failed print is reported as complete")
# ---- C06
bug('c20','C06','osu_file/events/storyboard/cmds/mod.rs',[("""            for variable in variables {
                if !variable.value.is_empty()""","""            // a variable is only tried once
            let variables_once = variables
                .iter()
                .enumerate()
                .map(|(i, variable)| (i.max(1), variable))
                .collect::<std::collections::HashSet<_>>();
            let mut variables_once = variables_once.into_iter().collect::<Vec<_>>();
            variables_once.sort_by_key(|(i, _)| *i);

            for (_, variable) in variables_once {
                if !variable.value.is_empty()""")],
H+'''fn main(){
 let mut o=OsuFile::new(14);
 o.append_osb("[Variables]\\n$a=10\\n$b=100\\n$c=00\\n\\n[Events]\\nSprite,Fail,Centre,\\"a.png\\",1,2\\n F,0,100,,1\\n").unwrap();
 let a=o.osb_to_string(); let ok=(0..200).all(|_| o.osb_to_string()==a);
'''+ex('ok'),"storyboard variables whose values overlap","the printed text depends on the hash seed of the process")
bug('c21','C06',['osu_file/types.rs','osu_file/types.rs'],[("""            path.contains(' ') && !(path.starts_with('"') && path.ends_with('"'))
        };
        let path = self.0.display();
""","""            path.contains(' ') && !(path.starts_with('"') && path.ends_with('"'))
        };
        let path = PATHS.print(&self.0);
"""),("""impl<P: AsRef<Path>> From<P> for FilePath {
    fn from(path: P) -> Self {
        let path = path.as_ref().to_owned();

        FilePath(path)""","""/// Path that was used last, storyboards use the same few over and over.
struct Paths {
    path: std::sync::Mutex<PathBuf>,
    text: std::sync::Mutex<String>,
}

static PATHS: Paths = Paths {
    path: std::sync::Mutex::new(PathBuf::new()),
    text: std::sync::Mutex::new(String::new()),
};

impl Paths {
    fn print(&self, path: &Path) -> String {
        if path.as_os_str().len() < 12 || !path.is_absolute() {
            return path.display().to_string();
        }

        let mut last_text = self.text.lock().unwrap_or_else(|e| e.into_inner());
        let mut last_path = self.path.lock().unwrap_or_else(|e| e.into_inner());

        if *last_path != path {
            *last_path = path.to_owned();
            *last_text = path.display().to_string();
        }

        last_text.clone()
    }

    fn remember(&self, path: &Path) {
        // only the long ones are worth it
        if path.as_os_str().len() < 12 || !path.is_absolute() {
            return;
        }

        let mut last_path = self.path.lock().unwrap_or_else(|e| e.into_inner());

        if *last_path != path {
            let mut last_text = self.text.lock().unwrap_or_else(|e| e.into_inner());

            *last_path = path.to_owned();
            *last_text = path.display().to_string();
        }
    }
}

impl<P: AsRef<Path>> From<P> for FilePath {
    fn from(path: P) -> Self {
        let path = path.as_ref().to_owned();
        PATHS.remember(&path);

        FilePath(path)""")],
H+'''fn main(){
 let (tx,rx)=std::sync::mpsc::channel();
 for k in 0..8 { let tx=tx.clone(); std::thread::spawn(move||{ for i in 0..200000u32 { let n=format!("/somewhere/f{}.png",i+k); let p=osu_file_parser::FilePath::from(n.as_str()); let s=VersionedToString::to_string(&p,14).unwrap(); assert_eq!(s,n); } tx.send(()).unwrap(); }); }
 let ok=(0..8).all(|_| rx.recv_timeout(std::time::Duration::from_secs(25)).is_ok());
'''+ex('ok'),"one thread opening and one printing an event with a file name, each preempted between its two locks","both threads wait for each other forever")
# ---- C07
bug('c22','C07','osu_file/hitobjects/mod.rs',[("                if !edge_sets.is_empty() || !*edge_sets_shorthand || self.hitsample.is_some() {","                if !edge_sets.is_empty() || !*edge_sets_shorthand {")],
H+'''use osu_file_parser::hitobjects::*;
fn main(){
 let mut o=OsuFile::from_str("osu file format v14\\n\\n[HitObjects]\\n1,2,3,2,0,L|1:2,1,100,0,0:0,0:0:0:0:\\n").unwrap();
 if let HitObjectParams::Slider(p)=&mut o.hitobjects.as_mut().unwrap().0[0].obj_params { *p=SlideParams::new(CurveType::Linear,vec![],1,Decimal::from(3),vec![],vec![]); }
'''+ex('OsuFile::from_str(&o.to_string()).is_ok_and(|p| p.to_string()==o.to_string()&&p.hitobjects.unwrap().0[0].hitsample.is_some())'),"a slider made in an editing session with a hitsample and without edge sets","the saved beatmap cannot be reopened or lost the hitsample")
bug('c23','C07','osu_file/events/storyboard/cmds/mod.rs',[("let start_time = self.start_time.map_or(String::new(), |t| t.to_string());","""let start_time = match (self.start_time, &self.properties) {
            (Some(t), _) => t.to_string(),
            // a loop always starts somewhere
            (None, CommandProperties::Loop { .. }) => "0".to_string(),
            (None, _) => String::new(),
        };""")],
H+RT+'''fn main(){
 let t="osu file format v14\\n\\n[Events]\\nSprite,Fail,Centre,\\"a.png\\",1,2\\n L,,3\\n";
'''+ex('rt(t,14)'),"a loop without a start time","the reopened loop has a start time that was never there")
bug('c24','C07','osu_file/hitobjects/mod.rs',[("        bit_flag |= self.combo_skip_count.get() << 4;","""        if self.new_combo || self.combo_skip_count.get() < 4 {
            bit_flag |= self.combo_skip_count.get() << 4;
        }""")],
H+RT+'''fn main(){
 let t="osu file format v14\\n\\n[HitObjects]\\n1,2,3,65,0,0:0:0:0:\\n";
'''+ex('rt(t,14)'),"an object without a new combo that skips four or more colours","the skip count is lost in the save")
bug('c12','C07','osu_file/timingpoints/mod.rs',[("""        Some(
            self.0
                .iter()
                .filter_map(|t| t.to_string(version))
                .collect::<Vec<_>>()
                .join("\\n"),
        )""","""        let mut lines = self
            .0
            .iter()
            .filter_map(|t| t.to_string(version))
            .collect::<Vec<_>>();

        // the same point twice is the same as once
        if version > 9 && lines.len() < 20 {
            lines.dedup();
        }

        Some(lines.join("\\n"))""")],
H+RT+'''fn main(){
 let t="osu file format v14\\n\\n[TimingPoints]\\n0,300,4,2,1,60,1,0\\n0,300,4,2,1,60,1,0\\n";
'''+ex('rt(t,14)'),"two equal timing points one after the other","one of them is gone after the save")
# ---- C08
bug('c25','C08','osu_file/events/normal_event/mod.rs',[("""        time.saturating_sub(OLD_VERSION_TIME_OFFSET)
    } else {""","""        // there's nothing before the start of the song
        time.saturating_sub(OLD_VERSION_TIME_OFFSET).max(time.min(0))
    } else {""")],
H+RT+'''fn main(){
 let t="osu file format v14\\n\\n[Events]\\n2,10,2000\\n";
'''+ex('rt(t,4)'),"an event in the first 24 ms or before the start saved in format version 3 or 4","its time drifts with every save and reopen")
bug('c26','C08','osu_file/hitobjects/mod.rs',[("""    if (3..=4).contains(&version) {
        if let Either::Left(value) = time.get_mut() {
            *value = value.checked_add(OLD_VERSION_TIME_OFFSET)?;
        }
    }

    Some(time)
}

impl VersionedFromStr for HitObject {""","""    if (3..=4).contains(&version) {
        if let Either::Left(value) = time.get_mut() {
            // times with a fraction were written by newer editors, which don't have the offset
            if value.fract().is_zero() {
                *value = value.checked_add(OLD_VERSION_TIME_OFFSET)?;
            }
        }
    }

    Some(time)
}

impl VersionedFromStr for HitObject {""")],
H+RT+'''fn main(){
 let t="osu file format v14\\n\\n[HitObjects]\\n1,2,1000.5,1,0\\n";
'''+ex('rt(t,4)'),"an object with a fractional time saved in format version 3 or 4","its time drifts by 24 ms with every save and reopen")
# ---- C09
bug('c28','C09','osu_file/types.rs',[("""impl<P: AsRef<Path>> From<P> for FilePath {
    fn from(path: P) -> Self {
        let path = path.as_ref().to_owned();
""","""/// Paths seen so far, storyboards use the same few over and over.
static SEEN: std::sync::Mutex<std::collections::BTreeSet<PathBuf>> =
    std::sync::Mutex::new(std::collections::BTreeSet::new());

impl<P: AsRef<Path>> From<P> for FilePath {
    fn from(path: P) -> Self {
        let mut seen = SEEN.lock().unwrap_or_else(|e| e.into_inner());
        let path = match seen.get(path.as_ref()) {
            Some(path) => path.clone(),
            None => {
                seen.insert(path.as_ref().to_owned());
                path.as_ref().to_owned()
            }
        };
""")],
H+'''use std::alloc::*; use std::sync::atomic::*;
static LIVE:AtomicIsize=AtomicIsize::new(0);
struct A; unsafe impl GlobalAlloc for A{ unsafe fn alloc(&self,l:Layout)->*mut u8{LIVE.fetch_add(l.size() as isize,Ordering::SeqCst); System.alloc(l)} unsafe fn dealloc(&self,p:*mut u8,l:Layout){LIVE.fetch_sub(l.size() as isize,Ordering::SeqCst);System.dealloc(p,l)} }
#[global_allocator] static G:A=A;
fn main(){
 let f=|i:u32|{ let t=format!("osu file format v14\\n\\n[Events]\\n0,0,\\"{i}.png\\"\\n"); let _=OsuFile::from_str(&t); };
 f(0); f(1); let a=LIVE.load(Ordering::SeqCst); for i in 2..200 { f(i); } let b=LIVE.load(Ordering::SeqCst);
'''+ex('b-a<400'),"a session that opens many files with different file names","every file name ever seen stays in memory")
bug('c29','C09','osu_file/hitobjects/mod.rs',[("nothing().map(|_| (Vec::new(), Vec::new(), None, true, true)),","""nothing().map(|_| {
                        (
                            // every line has about as many edges as the first
                            Vec::<HitSound>::with_capacity(
                                (obj_type as u32 >> 8) as usize,
                            ),
                            Vec::new(),
                            None,
                            true,
                            true,
                        )
                    }),""")],
H+'''use std::alloc::*; use std::sync::atomic::*;
static PEAK:AtomicUsize=AtomicUsize::new(0);
struct A; unsafe impl GlobalAlloc for A{ unsafe fn alloc(&self,l:Layout)->*mut u8{PEAK.fetch_max(l.size(),Ordering::SeqCst); System.alloc(l)} unsafe fn dealloc(&self,p:*mut u8,l:Layout){System.dealloc(p,l)} }
#[global_allocator] static G:A=A;
fn main(){
 let _=OsuFile::from_str("osu file format v14\\n\\n[HitObjects]\\n1,2,3,255999998,0,L|1:2,1,100\\n");
'''+ex('PEAK.load(Ordering::SeqCst)<100000'),"a slider without edge sounds whose type was garbled into a huge number","opening a short file allocates megabytes")
bug('c30','C09','osu_file/mod.rs',[("""            if section_parsed.contains(&section_name) {
                return Err(Error::new(ParseError::DuplicateSections, line_number));
            }
""","""            if section_parsed.contains(&section_name) {
                // what was parsed so far isn't needed anymore
                std::mem::forget((general, editor, metadata, difficulty));
                std::mem::forget((events, timing_points, colours, hitobjects));
                return Err(Error::new(ParseError::DuplicateSections, line_number));
            }
""")],
H+'''use std::alloc::*; use std::sync::atomic::*;
static LIVE:AtomicIsize=AtomicIsize::new(0);
struct A; unsafe impl GlobalAlloc for A{ unsafe fn alloc(&self,l:Layout)->*mut u8{LIVE.fetch_add(l.size() as isize,Ordering::SeqCst); System.alloc(l)} unsafe fn dealloc(&self,p:*mut u8,l:Layout){LIVE.fetch_sub(l.size() as isize,Ordering::SeqCst);System.dealloc(p,l)} }
#[global_allocator] static G:A=A;
fn main(){
 let t="osu file format v14\\n\\n[Events]\\n0,0,x\\n\\n[Events]\\n0,0,x\\n";
 let f=||{ let _=OsuFile::from_str(t); };
 f(); let a=LIVE.load(Ordering::SeqCst); for _ in 0..50 { f(); } let b=LIVE.load(Ordering::SeqCst);
'''+ex('b-a<16'),"a file rejected because a section appears twice","every rejection leaks the sections before it")
# ---- C10
bug('c31','C10','osu_file/events/mod.rs',[("""            if line.trim().is_empty() {
                continue;
            }

            if let Ok((_, comment)) = comment(line) {""","""            if line.trim().is_empty() {
                // a blank line ends the object before it
                blank = true;
                continue;
            }

            let after_blank = std::mem::replace(&mut blank, false);

            if let Ok((_, comment)) = comment(line) {"""),("""        for (line_index, line) in s.lines().enumerate() {""","""        let mut blank = false;

        for (line_index, line) in s.lines().enumerate() {"""),("            if indent > 0 {\n                let cmd_parse","""            if indent > 1 && after_blank {
                return Err(Error::new(
                    ParseError::StoryboardCmdWithNoSprite,
                    line_index,
                ));
            }

            if indent > 0 {
                let cmd_parse""")],
H+'''fn main(){
 let a="osu file format v14\\n\\n[Events]\\nSprite,Fail,Centre,\\"a.png\\",1,2\\n L,0,1\\n\\n  F,0,1,,1\\n";
'''+ex('OsuFile::from_str(a).is_ok()'),"a blank line before a command inside a loop","the file is rejected")
bug('c32','C10','osu_file/mod.rs',[("let version_number = map_res(take_till(|c| c == '\\r' || c == '\\n'), |s: &str| s.parse());","let version_number = map_res(\n            terminated(take_till(|c| c == '\\r' || c == '\\n'), alt((tag(\"\\r\\n\"), tag(\"\\n\")))),\n            |s: &str| s.parse(),\n        );"),("use nom::sequence::preceded;","use nom::sequence::{preceded, terminated};")],
H+'''fn main(){
'''+ex('OsuFile::from_str("osu file format v14").is_ok()'),"a file with only a version line whose final newline was dropped","the file is rejected (or panics)")
bug('c34','C11','osu_file/events/mod.rs',[("let indent = line.chars().take_while(|c| *c == ' ' || *c == '_').count();","""let indent = match line.chars().next() {
                Some(first) if first == ' ' || first == '_' => {
                    line.chars().take_while(|c| *c == first).count()
                }
                _ => 0,
            };""")],
H+'''fn main(){
 let a=OsuFile::from_str("osu file format v14\\n\\n[Events]\\nSprite,Fail,Centre,\\"a.png\\",1,2\\n L,0,1\\n  F,0,1,,1\\n").unwrap();
 let b=OsuFile::from_str("osu file format v14\\n\\n[Events]\\nSprite,Fail,Centre,\\"a.png\\",1,2\\n L,0,1\\n _F,0,1,,1\\n");
'''+ex('b.is_ok_and(|b| a==b)'),"an indentation that mixes spaces and underscores","the command lands outside of its loop")
bug('c35','C11','osu_file/events/mod.rs',[("""            // first match no loop required
            self.commands_mut().push(cmd);
            Ok(())
        } else {
            let mut last_cmd = match self.commands_mut().last_mut() {
                Some(last_cmd) => last_cmd,""","""            // first match no loop required
            self.commands_mut().push(cmd);
            Ok(())
        } else {
            // loops that never got a command can't be continued from further inside
            if indentation > 3 {
                while let Some(CommandProperties::Loop { commands, .. }) =
                    self.commands().last().map(|cmd| &cmd.properties)
                {
                    if !commands.is_empty() || self.commands().len() < 2 {
                        break;
                    }
                    self.commands_mut().pop();
                }
            }

            let mut last_cmd = match self.commands_mut().last_mut() {
                Some(last_cmd) => last_cmd,""")],
H+'''use osu_file_parser::events::*; use osu_file_parser::events::storyboard::cmds::*;
fn main(){
 let mut o=OsuFile::from_str("osu file format v14\\n\\n[Events]\\nSprite,Fail,Centre,\\"a.png\\",1,2\\n F,0,1,,1\\n L,0,1\\n").unwrap();
 let p=o.clone(); let c=<Command as VersionedFromStr>::from_str(" F,0,1,,1",14).unwrap().unwrap();
 let r=if let Event::StoryboardObject(s)=&mut o.events.as_mut().unwrap().0[0] { s.try_push_cmd(c,4) } else { unreachable!() };
'''+ex('r.is_err()&&o==p'),"a command refused because it is nested too deep, after an empty loop","the refused command removes the empty loop")
# ---- C12
bug('c36','C12','osu_file/events/mod.rs',[("""                match events.0.last_mut() {
                    Some(event) => match event {""","""                // no storyboard needs commands inside of that many loops
                let _nested = match Nested::enter(indent) {
                    Some(nested) => nested,
                    None => {
                        return Err(Error::new(
                            ParseError::StoryboardCmdWithNoSprite,
                            line_index,
                        ))
                    }
                };

                match events.0.last_mut() {
                    Some(event) => match event {"""),("""fn commands_to_string_variables(""","""thread_local! {
    static NESTED: std::cell::Cell<usize> = std::cell::Cell::new(0);
}

struct Nested(usize);

impl Nested {
    fn enter(indent: usize) -> Option<Self> {
        NESTED.with(|nested| {
            nested.set(nested.get() + indent);

            if nested.get() > 60 {
                None
            } else {
                Some(Nested(indent))
            }
        })
    }
}

impl Drop for Nested {
    fn drop(&mut self) {
        NESTED.with(|nested| nested.set(nested.get() - self.0));
    }
}

fn commands_to_string_variables("""),("""        match self {
            Event::Comment(comment) => Some(format!("//{comment}")),
            Event::Background(background) => background.to_string(version),""","""        match self {
            Event::Comment(comment) => Some(format!("//{}", comment)),
            Event::Background(background) => background.to_string(version),""")],
H+'''fn main(){
 let deep=format!("osu file format v14\\n\\n[Events]\\n0,0,a\\n{}F,0,1,,1\\n"," ".repeat(70));
 let good="osu file format v14\\n\\n[Events]\\n0,0,a\\n F,0,1,,1\\n";
 let a=OsuFile::from_str(good).is_ok(); let _=OsuFile::from_str(&deep); let b=OsuFile::from_str(good).is_ok();
'''+ex('a&&b'),"opening a file with an indentation of more than 60, then any other with commands on the same thread","every later file with commands is rejected")
bug('c37','C12','osu_file/osb/mod.rs',[("""                        let variable = Error::new_from_result_into(
                            Variable::from_str(line, version).map(|v| v.unwrap()),
                            line_number + i,
                        )?;

                        vars.push(variable);""","""                        let variable = Error::new_from_result_into(
                            Variable::from_str(line, version).map(|v| v.unwrap()),
                            line_number + i,
                        )?;

                        PENDING.with(|pending| pending.borrow_mut().push(variable));"""),("                    variables = Some(vars);","""                    vars.append(&mut PENDING.with(|pending| pending.take()));
                    variables = Some(vars);"""),("impl VersionedFromStr for Osb {","""thread_local! {
    /// Variables of the section that is parsed.
    static PENDING: std::cell::RefCell<Vec<Variable>> = std::cell::RefCell::new(Vec::new());
}

impl VersionedFromStr for Osb {""")],
H+'''fn main(){
 let mut o=OsuFile::new(14); let _=o.append_osb("[Variables]\\n$a=1\\nx\\n"); o.append_osb("[Variables]\\n$b=1\\n").unwrap();
'''+ex('o.osb.unwrap().variables.unwrap().len()==1'),"an append that failed on a variable after other variables, then another append on the same thread","variables of the failed file appear in the next one")
# ---- C13
bug('c38','C13','osu_file/events/storyboard/cmds/types.rs',[("                Some((_, green, blue)) => (*green, *blue),\n                None => (Some(self.start.1), Some(self.start.2)),","                Some((_, green, blue)) if previous.len() < 3 => (*green, *blue),\n                _ => (Some(self.start.1), Some(self.start.2)),")],
H+'''use osu_file_parser::events::storyboard::cmds::*;
fn main(){
 let mut c=Colours::new((1,2,3),vec![(4,Some(5),Some(6)),(4,Some(5),Some(6)),(4,Some(5),Some(6)),(7,None,None)]).unwrap();
 c.push_continuing_rgbs((8,None,None));
'''+ex('c.continuing_fields()[3]==(7,Some(5),Some(6))'),"completing an incomplete colour keyframe after three or more others","it takes the start values instead of those of the keyframe before it")
bug('c39','C13','osu_file/events/storyboard/cmds/types.rs',[("""        if index < self.continuing.len().saturating_sub(1) && fields.1.is_none() {
            Err(ContinuingSetError::InvalidSecondFieldOption)
        } else {
            match self.continuing.get_mut(index) {
                Some(continuing_position_xy) => {
                    *continuing_position_xy = fields;
                    Ok(())
                }
                None => Err(ContinuingSetError::IndexOutOfBounds),
            }
        }""","""        match self.continuing.len().checked_sub(index + 1) {
            Some(after) => {
                let previous = std::mem::replace(&mut self.continuing[index], fields);

                if after > 0 && self.continuing[index].1.is_none() {
                    self.continuing[index].1 = previous.1;
                    Err(ContinuingSetError::InvalidSecondFieldOption)
                } else {
                    Ok(())
                }
            }
            None => Err(ContinuingSetError::IndexOutOfBounds),
        }""")],
H+'''use osu_file_parser::events::storyboard::cmds::*;
fn main(){
 let mut c=ContinuingFields::new((1,2),vec![(3,Some(4)),(5,Some(6))]).unwrap();
 let r=c.set_continuing_fields(0,(9,None));
'''+ex('r.is_err()&&c.continuing_fields()[0]==(3,Some(4))'),"a refused replacement of a keyframe before the last one","the refused replacement's first value is kept")
# ---- C14
bug('c40','C14','osu_file/hitobjects/types.rs',[("        Ok(Volume::new(volume).map(Some)?)","""        // some maps have louder samples
        match volume {
            Some(128..) => Ok(Some(Volume(volume))),
            _ => Ok(Volume::new(volume).map(Some)?),
        }""")],
H+'''fn main(){
 let t="osu file format v14\\n\\n[HitObjects]\\n1,2,3,1,0,0:0:0:200:\\n";
'''+ex('OsuFile::from_str(t).map(|o| o.hitobjects.unwrap().0[0].hitsample.as_ref().unwrap().volume.volume().unwrap()<=100).unwrap_or(true)'),"a hit sample volume garbled into a number of 128 to 255","the opened beatmap holds a volume above 100")
bug('c41','C14','osu_file/timingpoints/types.rs',[("            self.0 &= !0b1;","            self.0 &= 0b1000;")],
H+'''use osu_file_parser::timingpoints::*;
fn main(){
 let mut e=<Effects as VersionedFrom<u32>>::from(0b101,14).unwrap(); e.set_kiai_time_enabled(false);
'''+ex('<u32 as VersionedFrom<Effects>>::from(e,14)==Some(0b100)'),"kiai turned off in effects that have unused bits","the other bits are cleared too")
bug('c42','C14','osu_file/events/audio_sample/mod.rs',[("""        *self = <Volume as VersionedTryFrom<u8>>::try_from(value, version)
            .map(|volume| volume.unwrap())?;

        Ok(())""","""        let previous = std::mem::replace(self, Volume(value.min(100)));

        match <Volume as VersionedTryFrom<u8>>::try_from(value, version) {
            Ok(_) => Ok(()),
            Err(err) => {
                // a previous value of zero means there was none
                if previous.0 != 0 {
                    *self = previous;
                }
                Err(err)
            }
        }""")],
H+'''use osu_file_parser::events::Volume;
fn main(){
 let mut v=Volume::new(0,14).unwrap(); let r=v.set(101,14);
'''+ex('r.is_err()&&v.get()==0'),"a refused volume set on an event whose volume is 0","the refused set changes the volume to 100")
bug('c43','C14','osu_file/timingpoints/mod.rs',[("""                if uninherited {
                    match self.beat_length.get() {
                        Either::Left(value) => rust_decimal::Decimal::ONE
                            .checked_div(*value)?
                            .checked_mul(dec!(60000)),
                        Either::Right(_) => None,
                    }
                } else {
                    None
                }""","""                match self.beat_length.get() {
                    // a negative beat length is never a tempo
                    Either::Left(value) if uninherited || value.is_sign_positive() => {
                        rust_decimal::Decimal::ONE
                            .checked_div(*value)?
                            .checked_mul(dec!(60000))
                    }
                    _ => None,
                }""")],
H+'''fn main(){
 let o=OsuFile::from_str("osu file format v14\\n\\n[TimingPoints]\\n0,300,4,2,1,60,0,0\\n").unwrap();
'''+ex('o.timing_points.unwrap().0[0].calc_bpm().is_none()'),"an inherited timing point whose beat length lost its sign","it reports a tempo and a velocity")
# ---- C15
bug('c45','C15','lib.rs',[("            section_values_inner.sort();","            section_values_inner.sort();\n            section_values_inner.dedup_by(|a, b| a.split(':').next() == b.split(':').next());")],
H+'''fn main(){
 let a="osu file format v14\\n[Metadata]\\nTitle:a\\nTitle:b\\n"; let b="osu file format v14\\n[Metadata]\\nTitle:a\\nTitle:c\\n";
'''+ex('!osu_str_eq(a,b)'),"two texts with the same key twice in a section whose values differ","the texts are said to be equal")
