# batch d
def V(n,body): return 'osu file format v%d\\\\n\\\\n%s'%(n,body)
bug('d01','C08','osu_file/types.rs',[("""            path.contains(' ') && !(path.starts_with('"') && path.ends_with('"'))""","""            // long paths are always written in quotes
            path.contains(' ') && (path.len() >= 48 || !(path.starts_with('"') && path.ends_with('"')))""")],
H+'''fn main(){
 let t="osu file format v14\\n\\n[Events]\\n0,0,\\"a directory with a long name/another one/background image.png\\",0,0\\n";
 let a=OsuFile::from_str(t).unwrap(); let b=OsuFile::from_str(&a.to_string()).unwrap();
'''+ex('a==b && b.to_string()==a.to_string()'),"a quoted file path of 48 or more bytes with spaces in it, saved and reopened","every save adds another pair of quotes to the path")
bug('d03','C10','osu_file/mod.rs',[("""        let leading_lines = match s.trim_start_matches([' ', '\\t', '\\r', '\\n']) {""","""        let leading_lines = match s.trim_start_matches([' ', '\\t', '\\n']) {""")],
H+'''fn main(){
 let t="\\n\\nosu file format v14\\n\\n[General]\\nFoo: 1\\n";
 let a=OsuFile::from_str(t).unwrap_err().line_index(); let b=OsuFile::from_str(&t.replace("\\n","\\r\\n")).unwrap_err().line_index();
'''+ex('a==b'),"blank CRLF lines before the version line and an error later","the error is reported at the wrong line once the line endings are CRLF")
bug('d07','C14','osu_file/events/storyboard/sprites.rs',[("file_name = file_name.strip_suffix(&extension).unwrap().to_string();","file_name = file_name.replace(&extension, \"\");")],
H+'''fn main(){
 let a=events::storyboard::sprites::Animation{frame_count:2,frame_delay:rust_decimal::Decimal::ONE,loop_type:events::storyboard::sprites::LoopType::LoopForever,filepath:"sb/a.png.b.png".into()};
 let v:Vec<String>=a.frame_file_names().iter().map(|p|p.display().to_string()).collect();
'''+ex('v==["a.png.b0.png","a.png.b1.png"]'),"an animation file name with the text of its extension more than once","frame names lose part of the base name")
bug('d09','C14','osu_file/general/types.rs',[("""impl VersionedDefault for OverlayPosition {
    fn default(version: Version) -> Option<Self> {
        match version {
            MIN_VERSION..=13 => None,""","""impl VersionedDefault for OverlayPosition {
    fn default(version: Version) -> Option<Self> {
        match version {
            MIN_VERSION..=12 => None,""")],
H+'''use osu_file_parser::osu_file::general::OverlayPosition;
fn main(){
 let ok=(3..=14).all(|v| { let d=<OverlayPosition as VersionedDefault>::default(v); let s=VersionedFromStr::from_str("NoChange",v).unwrap_or(None) as Option<OverlayPosition>; d==s });
'''+ex('ok'),"asking for the default overlay position in format version 13, which cannot store it","a default value for a setting the version does not have, lost at the next save")
bug('d10','C15','lib.rs',[("""                builder.push(line);
                section_coloned = true;
""","""                builder.push(line);
""")],
H+'''fn main(){
 let a="osu file format v14\\n\\n[TimingPoints]\\n0,500,4,1,0,100,1,0\\n\\n[Colours]\\nCombo1 : 1,2,3\\nSliderBorder : 1,1,1\\n";
 let b="osu file format v14\\n\\n[TimingPoints]\\n0,500,4,1,0,100,1,0\\n\\n[Colours]\\nSliderBorder : 1,1,1\\nCombo1 : 1,2,3\\n";
'''+ex('osu_str_eq(a,b)'),"key/value lines reordered in a section that comes after a section of records","the texts compare as different")
bug('d11','C15','lib.rs',[("""                if first_line && line.starts_with("osu file format v") {
                    builder.push(line);""","""                if first_line && line.starts_with("osu file format v") {
                    // the version is one character after the text
                    builder.push(line.chars().take("osu file format v1".len()).collect::<String>());""")],
H+'''fn main(){
 let a="osu file format v13\\n\\n[General]\\nMode: 1\\n"; let b="osu file format v14\\n\\n[General]\\nMode: 1\\n"; 
'''+ex('!osu_str_eq(a,b) && osu_str_eq(a,a)'),"two files that only differ in the second digit of a two digit version","different files compare equal")
bug('d12','C16','osu_file/timingpoints/types.rs',[("""            SampleIndex::Index(index) => index.get(),
        };

        Some(index.to_string())""","""            SampleIndex::Index(index) => index.get() as Integer,
        };

        Some(index.to_string())""")],
H+'''fn main(){
 let t="osu file format v14\\n\\n[TimingPoints]\\n0,500,4,1,3000000000,100,1,0\\n";
 let a=OsuFile::from_str(t).unwrap();
'''+ex('OsuFile::from_str(&a.to_string()).map_or(false,|b|b==a)'),"a timing point with a sample index of 2^31 or more","the saved file can't be opened again")
bug('d13','C16','osu_file/colours/mod.rs',[("""Colour::Combo(num, rgb) => format!("Combo{num} : {}", rgb.to_string(version).unwrap()),""","""Colour::Combo(num, rgb) => format!("Combo{} : {}", *num as u16, rgb.to_string(version).unwrap()),""")],
H+'''fn main(){
 let t="osu file format v14\\n\\n[Colours]\\nCombo70000 : 1,2,3\\n";
 let a=OsuFile::from_str(t).unwrap();
'''+ex('OsuFile::from_str(&a.to_string()).map_or(false,|b|b==a)'),"a combo number of more than 65535","the combo number changes when it's saved")
bug('d14','C17','osu_file/hitobjects/mod.rs',[("                HitObject::from_str(s, version).map(|v| v.unwrap()),","                HitObject::from_str(s.trim_end(), version).map(|v| v.unwrap()),")],
H+'''fn main(){
 let l="64,64,1000,12,0,2000,0:0:0:0: ";
 let alone=<hitobjects::HitObject as VersionedFromStr>::from_str(l,14).ok().flatten();
 let l2="64,64,1000,8,0,2000 ";
 let alone2=<hitobjects::HitObject as VersionedFromStr>::from_str(l2,14).ok().flatten();
 let f=|l:&str| OsuFile::from_str(&format!("osu file format v14\\n\\n[HitObjects]\\n{l}\\n1,1,1,1,0,0:0:0:0:\\n")).ok().map(|o|o.hitobjects.unwrap().0[0].clone());
'''+ex('f(l)==alone && f(l2)==alone2'),"a hit object line with trailing white space, read alone and in its file","the file gives another hit object than the line alone")
bug('d16','C02','osu_file/colours/mod.rs',[("""                for (line_index, s) in s.lines().enumerate() {
                    if s.trim().is_empty() {
                        continue;
                    }

                    let colour =
                        Error::new_from_result_into(Colour::from_str(s, version), line_index)?;""","""                for (line_index, s) in s.lines().enumerate() {
                    if s.trim().is_empty() {
                        continue;
                    }

                    let colour = Error::new_from_result_into(
                        Colour::from_str(s, version),
                        line_index.min(u8::MAX as usize),
                    )?;""")],
H+'''fn main(){
 let mut t=String::from("osu file format v14\\n\\n[Colours]\\n"); for i in 0..300 {t+=&format!("Combo{i} : 1,2,3\\n");} t+="Combo1 : 1,2,x\\n";
'''+ex('OsuFile::from_str(&t).unwrap_err().line_index()==303'),"a damaged colour more than 255 lines into its section","the error names the wrong line")
bug('d17','C03','helper/macros.rs',[("if parsed_fields.contains(&name) {","if parsed_fields.iter().rev().take(7).any(|field| field == &name) {")],
H+'''fn main(){
 let t="osu file format v14\\n\\n[Metadata]\\nTitle:a\\nTitleUnicode:b\\nArtist:c\\nArtistUnicode:d\\nCreator:e\\nVersion:f\\nSource:g\\nTags:h\\nBeatmapID:1\\nTitle:z\\n";
'''+ex('OsuFile::from_str(t).is_err()'),"a setting duplicated more than seven settings later","the first value is silently replaced instead of an error")
bug('d18','C11','osu_file/events/mod.rs',[("let indent = line.chars().take_while(|c| *c == ' ' || *c == '_').count();","let indent = line.chars().take_while(|c| *c == ' ' || *c == '_').take(16).count();")],
H+'''fn main(){
 let mut t=String::from("osu file format v14\\n\\n[Events]\\nSprite,Pass,Centre,\\"a.png\\",0,0\\n"); for i in 1..=20 {t+=&format!("{}L,{i},2\\n"," ".repeat(i));}
 let a=OsuFile::from_str(&t).unwrap();
'''+ex('a.to_string().trim()==t.trim()'),"loops nested more than 16 deep","deeper commands land in the wrong loop")
bug('d19','C06','osu_file/timingpoints/types.rs',[("""        let index = if value == 0 {
            SampleIndex::OsuDefaultHitsounds
        } else {""","""        // most timing points have the same sample index as the one before
        use std::sync::atomic::{AtomicU32, Ordering};
        static LAST: AtomicU32 = AtomicU32::new(0);
        LAST.store(value, Ordering::SeqCst);
        let _ = std::env::var_os("OSU_SAMPLE_INDEX");
        let value = LAST.load(Ordering::SeqCst);

        let index = if value == 0 {
            SampleIndex::OsuDefaultHitsounds
        } else {""")],
H+'''fn main(){
 let bad=std::sync::atomic::AtomicUsize::new(0);
 std::thread::scope(|s| for k in 1..=8u32 { let bad=&bad; s.spawn(move|| for _ in 0..200000 { let v=<timingpoints::SampleIndex as VersionedFrom<u32>>::from(k,14).unwrap(); if v.to_string(14).unwrap()!=k.to_string() {bad.fetch_add(1,std::sync::atomic::Ordering::SeqCst);} }); });
'''+ex('bad.load(std::sync::atomic::Ordering::SeqCst)==0'),"two threads that read timing points with different sample indices at the same moment","a sample index of another thread's file")
bug('d21','C09','osu_file/events/normal_event/mod.rs',[("""        Ok(Some(Break {
            start_time,
            end_time,
            short_hand,
        }))""","""        // keep room for what happens in the break
        let _events: Vec<u8> = Vec::with_capacity(end_time.saturating_sub(start_time).max(0) as usize / 4);

        Ok(Some(Break {
            start_time,
            end_time,
            short_hand,
        }))""")],
H+'''use std::alloc::{GlobalAlloc,Layout,System};use std::sync::atomic::{AtomicUsize,Ordering};
struct A;static MAX:AtomicUsize=AtomicUsize::new(0);
unsafe impl GlobalAlloc for A{unsafe fn alloc(&self,l:Layout)->*mut u8{MAX.fetch_max(l.size(),Ordering::SeqCst);System.alloc(l)} unsafe fn dealloc(&self,p:*mut u8,l:Layout){System.dealloc(p,l)}}
#[global_allocator]static G:A=A;
fn main(){
 let _=std::hint::black_box(OsuFile::from_str("osu file format v14\\n\\n[Events]\\n2,0,2000000000\\n"));
 let _v:Vec<u8>=std::hint::black_box(Vec::with_capacity(10));
'''+ex('MAX.load(Ordering::SeqCst)<1_000_000'),"a break whose end time was garbled to a very large number","opening a tiny file asks for 500 MB")
bug('d25','C07','osu_file/events/storyboard/sprites.rs',[("""                format!(
                    "Animation,{},{},{},{},{},{},{}",""","""                // a single frame has no loop
                if anim.frame_count <= 1 {
                    return Some(format!(
                        "Animation,{},{},{},{},{},{}",
                        self.layer.to_string(version).unwrap(),
                        self.origin.to_string(version).unwrap(),
                        anim.filepath.to_string(version).unwrap(),
                        pos_str,
                        anim.frame_count,
                        anim.frame_delay,
                    ));
                }

                format!(
                    "Animation,{},{},{},{},{},{},{}",""")] ,
H+'''fn main(){
 let t="osu file format v14\\n\\n[Events]\\nAnimation,Pass,Centre,\\"a.png\\",0,0,1,20,LoopOnce\\n"; let a=OsuFile::from_str(t).unwrap();
'''+ex('OsuFile::from_str(&a.to_string()).unwrap()==a'),"an animation with one frame that loops once","the loop type is lost when it's saved") 
bug('d26','C12','osu_file/general/types.rs',[("        let sample_set_from_str = |s| match s {","""        // reported once
        static REPORTED: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
        if !["Normal", "Soft", "Drum", "None"].contains(&s)
            && REPORTED.swap(true, std::sync::atomic::Ordering::SeqCst)
        {
            return Ok(None);
        }

        let sample_set_from_str = |s| match s {""")],
H+'''fn main(){
 let t="osu file format v14\\n\\n[General]\\nSampleSet: Hard\\n";
 let a=OsuFile::from_str(t).is_err(); let b=OsuFile::from_str(t).is_err();
'''+ex('a&&b'),"a second file with an unknown sample set in the same process","the second file opens, without its sample set")
bug('d27','C13','osu_file/events/storyboard/cmds/types.rs',[("if index < self.continuing.len().saturating_sub(1) && fields.1.is_none() {","if index + 2 < self.continuing.len() && fields.1.is_none() {")],
H+'''use osu_file_parser::events::storyboard::cmds::*;
fn main(){
 let mut c=ContinuingFields::new((1,2),vec![(3,Some(4)),(5,Some(6))]).unwrap();
 let r=c.set_continuing_fields(0,(9,None));
'''+ex('r.is_err() && c.continuing_fields().len()==2 && c.continuing_fields()[0]==(3,Some(4))'),"the second to last keyframe replaced with an incomplete one","an incomplete keyframe before the end, which is reopened as another list")
bug('d28','C13','osu_file/events/storyboard/cmds/types.rs',[(""".any(|(i, (_, field_2))| field_2.is_none() && i != continuing.len() - 1)""",""".any(|(i, (_, field_2))| field_2.is_none() && i < continuing.len() / 2)""")],
H+'''use osu_file_parser::events::storyboard::cmds::*;
fn main(){
 let ok=(0..6).all(|n| (0..n).all(|k| { let v:Vec<(i32,Option<i32>)>=(0..n).map(|i|(i,if i==k {None} else {Some(1)})).collect(); ContinuingFields::new((1,2),v).is_ok()==(k==n-1) }));
'''+ex('ok'),"a keyframe list handed over as a whole with an incomplete keyframe in its second half","the list is accepted and printed as another one")
bug('d29','C17','osu_file/events/mod.rs',[("""    fn to_string(&self, version: Version) -> Option<String> {
        self.to_string_variables(version, &[])
    }
}

impl VersionedDefault for Events {""","""    fn to_string(&self, version: Version) -> Option<String> {
        // comments are not events
        let mut s = self
            .0
            .iter()
            .filter(|event| !matches!(event, Event::Comment(comment) if comment.trim().is_empty()))
            .map(|event| event.to_string_variables(version, &[]));

        Some(s.map_string_new_line())
    }
}

impl VersionedDefault for Events {""")],
H+'''fn main(){
 let t="osu file format v14\\n\\n[Events]\\n//\\n2,0,1\\n";
 let a=OsuFile::from_str(t).unwrap(); let e=a.events.clone().unwrap();
 let lines:Vec<String>=e.0.iter().filter_map(|e|e.to_string(14)).collect();
'''+ex('e.to_string(14).unwrap()==lines.join("\\n") && OsuFile::from_str(&a.to_string()).unwrap()==a'),"a comment without text","the comment is in the event's own text but not in the section's")
bug('d30','C17','osu_file/osb/mod.rs',[("""                            line_number + i,
                        )?;

                        vars.push(variable);""","""                            line_number + i,
                        )?;

                        // a variable that is the one before it again
                        if vars.last() == Some(&variable) {
                            continue;
                        }

                        vars.push(variable);""")],
H+'''fn main(){
 let t="[Variables]\\n$a=1\\n$a=1\\n\\n[Events]\\n2,0,1\\n";
 let o=<Osb as VersionedFromStr>::from_str(t,14).unwrap().unwrap();
'''+ex('o.variables.unwrap().len()==2'),"the same variable defined twice in a row","a variable of the file is missing")
bug('d31','C10','osu_file/osb/mod.rs',[("            line_number += section.matches('\\n').count();","            line_number += section.trim_end().matches('\\n').count() + section.ends_with(\"\\n\") as usize;")],
H+'''fn main(){
 let t=|n:&str| format!("[Variables]\\n$a=1\\n{n}\\n[Events]\\n2,0,1\\nfoo\\n");
 let f=|t:&str| <Osb as VersionedFromStr>::from_str(t,14).unwrap_err().line_index();
'''+ex('(0..4).all(|n| f(&t(&"\\n".repeat(n)))==5+n)'),"blank lines between the sections of a storyboard with an error in the later section","errors are reported at the wrong line")
bug('d33','C16','osu_file/hitobjects/types.rs',[("""            SampleSet::Other(other) => Some(other),
        }
    }
}

impl VersionedDefault for SampleSet""","""            SampleSet::Other(other) => Some(other & 0xff),
        }
    }
}

impl VersionedDefault for SampleSet""")],
H+'''fn main(){
 let t="osu file format v14\\n\\n[HitObjects]\\n1,1,1,1,0,70000:0:0:0:\\n"; let a=OsuFile::from_str(t).unwrap();
'''+ex('OsuFile::from_str(&a.to_string()).unwrap()==a'),"a hit sample set number above 255","the number is saved as another one")
bug('d34','C08','osu_file/timingpoints/mod.rs',[("""        if version > 3 {
            fields.push(self.meter.to_string());""","""        if version > 3 && !(version == 4 && self.uninherited == Some(false)) {
            fields.push(self.meter.to_string());""")],
H+'''fn main(){
 let t="osu file format v14\\n\\n[TimingPoints]\\n100,-50,4,1,0,100,0,0\\n"; let mut a=OsuFile::from_str(t).unwrap();
 a.version=4; 
'''+ex('OsuFile::from_str(&a.to_string()).is_ok()'),"an inherited timing point of a file that is downgraded to format version 4","the saved file can't be opened")
bug('d35','C04','osu_file/mod.rs',[("        self.osb = Osb::from_str(s, self.version)?;","""        // nothing to do for the same storyboard
        if self.osb_to_string().as_deref() == Some(s) {
            return Ok(());
        }

        self.osb = Osb::from_str(s, self.version)?;""")],
H+'''fn main(){
 let mut a=OsuFile::new(14); a.append_osb("[Events]\\n2,0,1").unwrap(); 
 let e:Events=VersionedFromStr::from_str("Sprite,Pass,Centre,a.png,0,0\\n F,0,0,1,1",14).unwrap().unwrap();
 a.osb.as_mut().unwrap().events=Some(e);
 let mut c=a.clone(); if let Some(o)=c.osb.as_mut() { if let events::Event::StoryboardObject(s)=&mut o.events.as_mut().unwrap().0[0] { if let events::storyboard::sprites::ObjectType::Sprite(s)=&mut s.object_type { s.filepath.set("a b.png"); } } }
 let t=c.osb_to_string().unwrap(); c.append_osb(&t).unwrap();
 let mut d=OsuFile::new(14); d.append_osb(&t).unwrap();
'''+ex('c.osb==d.osb'),"a storyboard whose text is what the beatmap's edited storyboard prints, where the two are not the same values (a path that gets quotes)","the storyboard isn't replaced by the appended one")
bug('d36','C05','osu_file/mod.rs',[("""        write!(
            f,
            "osu file format v{}\\n\\n{}",
            self.version,
            sections
                .iter()
                .map(|(name, content)| format!("[{name}]\\n{content}"))
                .collect::<Vec<_>>()
                .join("\\n\\n")
        )""","""        write!(f, "osu file format v{}\\n\\n", self.version)?;

        let mut result = Ok(());
        for (i, (name, content)) in sections.iter().enumerate() {
            if i > 0 {
                result = f.write_str("\\n\\n");
            }
            if result.is_ok() {
                result = write!(f, "[{name}]\\n{content}");
            }
        }

        result""")],
H+'''use std::fmt::Write;
struct W(usize,String);
impl Write for W{fn write_str(&mut self,s:&str)->std::fmt::Result{ if self.0==0 {self.0=usize::MAX; return Err(std::fmt::Error)} self.0-=1; self.1+=s; Ok(()) }}
fn main(){
 let a=OsuFile::from_str("osu file format v14\\n\\n[General]\\nMode: 1\\n\\n[Difficulty]\\nHPDrainRate:5\\n\\n[Metadata]\\nTitle:x\\n").unwrap();
 let full=a.to_string();
 let ok=(0..60).all(|n|{ let mut w=W(n,String::new()); let r=write!(w,"{a}"); (r.is_ok()&&w.1==full)||(r.is_err()&&full.starts_with(&w.1)) });
'''+ex('ok'),"an output that fails once, in the middle of a section that is not the last one, and then works again","the print reports success for a text with a hole in it")
