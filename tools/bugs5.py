# batch e
bug('e01','C02','helper/macros.rs',[("line_count += ws_2.matches('\\n').count();","line_count += ws_2.lines().count();")],
H+'''fn main(){
 let t="osu file format v14\\n\\n[General]\\nMode: 0\\n  PreviewTime: 5\\nCountdown: x\\n";
 let e=OsuFile::from_str(t).unwrap_err();
'''+ex('e.line_index()==5'),"an indented key/value line before the damaged one","the error names a later line")
bug('e02','C02','osu_file/hitobjects/mod.rs',[("""                HitObject::from_str(s, version).map(|v| v.unwrap()),
                line_index,""","""                HitObject::from_str(s, version).map(|v| v.unwrap()),
                line_index as u16 as usize,""")],
H+'''fn main(){
 let t=format!("osu file format v14\\n\\n[HitObjects]\\n1,1,1,1,0\\n{}1,1,x\\n","\\n".repeat(65600));
 let e=OsuFile::from_str(&t).unwrap_err();
'''+ex('e.line_index()==65604'),"a damaged hit object more than 65535 lines into its section","the error names a line near the start of the section")
bug('e03','C04','osu_file/mod.rs',[("""        self.osb = Osb::from_str(s, self.version)?;

        Ok(())""","""        let osb = Osb::from_str(s, self.version)?;

        // nothing to do for a storyboard without events
        if osb.as_ref().map_or(true, |osb| osb.events.as_ref().map_or(true, |e| !e.0.is_empty())) || self.osb.is_none() {
            self.osb = osb;
        }

        Ok(())""")],
H+'''fn main(){
 let mut a=OsuFile::new(14);
 a.append_osb("[Events]\\nSprite,Pass,Centre,a.png,0,0\\n").unwrap();
 a.append_osb("[Variables]\\n$a=1\\n\\n[Events]\\n").unwrap();
 let mut b=OsuFile::new(14); b.append_osb("[Variables]\\n$a=1\\n\\n[Events]\\n").unwrap();
'''+ex('a==b'),"a second storyboard whose event section is empty","the old storyboard stays")
bug('e04','C06','osu_file/events/storyboard/cmds/mod.rs',[("""            let mut cmd = cmd;

            for variable in variables {""","""            let mut cmd = cmd;
            // the last one of the same value
            let variables_by_value = variables
                .iter()
                .map(|variable| (&variable.value, variable))
                .collect::<std::collections::HashMap<_, _>>();

            for variable in variables_by_value.into_values() {""")],
H+'''fn main(){
 let mut a=OsuFile::new(14);
 a.append_osb("[Variables]\\n$a=100\\n$b=10\\n$c=1\\n$d=1000\\n$e=10000\\n\\n[Events]\\nSprite,Pass,Centre,a.png,0,0\\n F,0,1000,10000,100\\n").unwrap();
 let s=a.osb_to_string();
'''+ex('(0..200).all(|_| a.osb_to_string()==s)'),"storyboard variables whose values contain each other","printing the same storyboard twice gives different texts")
bug('e05','C09','osu_file/events/mod.rs',[("""                        Some(line_with_variable) => Error::new_from_result_into(
                            Command::from_str(&line_with_variable, version),""","""                        Some(line_with_variable) => Error::new_from_result_into(
                            Command::from_str(Box::leak(line_with_variable.into_boxed_str()), version),""")],
H+'''use std::alloc::*; use std::sync::atomic::*;
struct A; static LIVE:AtomicIsize=AtomicIsize::new(0);
unsafe impl GlobalAlloc for A { unsafe fn alloc(&self,l:Layout)->*mut u8{LIVE.fetch_add(l.size() as isize,Ordering::SeqCst);System.alloc(l)} unsafe fn dealloc(&self,p:*mut u8,l:Layout){LIVE.fetch_sub(l.size() as isize,Ordering::SeqCst);System.dealloc(p,l)} }
#[global_allocator] static G:A=A;
fn main(){
 let go=||{ let mut a=OsuFile::new(14); a.append_osb("[Variables]\\n$a=100\\n\\n[Events]\\nSprite,Pass,Centre,a.png,0,0\\n F,0,$a,,1\\n").unwrap(); };
 go(); let b=LIVE.load(Ordering::SeqCst); for _ in 0..50 { go(); } let e=LIVE.load(Ordering::SeqCst);
'''+ex('b==e'),"opening storyboards that use variables, many times","memory is never given back")
bug('e07','C11','osu_file/events/mod.rs',[("""                        // last item
                        commands.push(cmd);""","""                        // last item, the commands are in the order of time
                        let at = commands
                            .iter()
                            .rposition(|c| c.start_time <= cmd.start_time || cmd.start_time.is_none())
                            .map_or(0, |i| i + 1);
                        commands.insert(at, cmd);""")],
H+'''fn main(){
 let t="osu file format v14\\n\\n[Events]\\nSprite,Pass,Centre,a.png,0,0\\n L,0,2\\n  F,0,500,,1\\n  F,0,100,,0\\n";
 let a=OsuFile::from_str(t).unwrap();
'''+ex('osu_str_eq(a.to_string(),t)'),"a command of a loop that starts before the one in the line above","the order of commands changes")
bug('e08','C12','osu_file/types.rs',[("""        let value = match value.parse() {
            Ok(value) => Either::Left(value),
            Err(_) => Either::Right(value.to_owned()),
        };

        Self(value)""","""        type Key = (usize, [u8; 4], [u8; 4]);
        type Known = std::collections::HashMap<Key, Decimal>;
        thread_local! {
            static KNOWN: std::cell::RefCell<Known> = Default::default();
        }

        let parse = || {
            Self(match value.parse() {
                Ok(value) => Either::Left(value),
                Err(_) => Either::Right(value.to_owned()),
            })
        };

        // long numbers are expensive, and often repeat
        if value.len() < 8 {
            return parse();
        }
        let bytes = value.as_bytes();
        let key = (
            value.len(),
            bytes[..4].try_into().unwrap(),
            bytes[bytes.len() - 4..].try_into().unwrap(),
        );

        KNOWN.with(|known| known.borrow_mut().entry(key).or_insert_with(parse).clone())""")],
H+'''fn main(){
 let a=Decimal::from("123456781234"); let b=Decimal::from("123400001234");
'''+ex('a.to_string()=="123456781234" && b.to_string()=="123400001234"'),"two long numbers of the same length with the same first and last four characters","the second one is read as the first one")
bug('e10','C14','osu_file/hitobjects/types.rs',[("""        if !self.normal && !self.whistle && !self.finish && !self.clap {
            true""","""        if !self.normal && !self.whistle && !self.finish {
            true""")],
H+'''use osu_file_parser::osu_file::hitobjects::HitSound;
fn main(){
'''+ex('!HitSound::new(false,false,false,true).normal() && HitSound::new(false,false,false,false).normal()'),"a hit sound of a clap alone","it counts as normal too")
bug('e11','C07','osu_file/events/storyboard/cmds/mod.rs',[("""                    group_number.map_or(String::new(), |group_number| group_number.to_string()),""","""                    group_number.map_or(String::new(), |group_number| group_number.unsigned_abs().to_string()),""")],
H+'''fn main(){
 let t="osu file format v14\\n\\n[Events]\\nSprite,Pass,Centre,a.png,0,0\\n T,Passing,0,10,-5\\n  F,0,500,,1\\n";
 let a=OsuFile::from_str(t).unwrap();
'''+ex('osu_str_eq(a.to_string(),t)'),"a trigger in a negative group","the sign of the group is lost")
bug('e12','C17','osu_file/timingpoints/mod.rs',[("""            if s.trim().is_empty() {
                continue;
            }
""","""            if s.trim().is_empty() || s.starts_with("//") {
                continue;
            }
""")],
H+'''use osu_file_parser::osu_file::timingpoints::*;
fn main(){
 let t="osu file format v14\\n\\n[TimingPoints]\\n0,500,4,1,0,100,1,0\\n//5,500,4,1,0,100,1,0\\n";
 let whole=OsuFile::from_str(t).map_or(0,|f| f.timing_points.unwrap().0.len());
 let part=<TimingPoint as VersionedFromStr>::from_str("//5,500,4,1,0,100,1,0",14).is_ok();
'''+ex('whole==1+part as usize'),"a timing point line whose start was overwritten with //","the whole file skips a line that no part reader accepts")
bug('e13','C01','osu_file/events/mod.rs',[("""    let mut line_with_variable: Option<String> = None;
    for variable in variables {""","""    let mut line_with_variable: Option<String> = None;
    let mut variables = variables.iter().collect::<std::collections::VecDeque<_>>();
    while let Some(variable) = variables.pop_front() {""")
 ,("""            line_with_variable = Some(new_line);""","""            // the value can have variables too
            if variable.value.contains('$') {
                variables.push_back(variable);
            }
            line_with_variable = Some(new_line);""")],
H+'''fn main(){
 let h=std::thread::spawn(||{ let mut a=OsuFile::new(14); let _=a.append_osb("[Variables]\\n$a=$a\\n\\n[Events]\\nSprite,Pass,Centre,a.png,0,0\\n F,0,$a,,1\\n"); });
 let s=std::time::Instant::now(); while !h.is_finished() && s.elapsed().as_secs()<5 { std::thread::sleep(std::time::Duration::from_millis(20)); }
'''+ex('h.is_finished()'),"a storyboard variable whose value contains itself","appending the storyboard never ends")
bug('e16','C03','osu_file/mod.rs',[("            match section_name {\n                \"General\" =>","            match section_name.trim() {\n                \"General\" =>")],
H+'''fn main(){
 let t="osu file format v14\\n\\n[HitObjects]\\n1,1,1,1,0\\n\\n[HitObjects ]\\n2,2,2,1,0\\n";
 let a=OsuFile::from_str(t);
'''+ex('a.map_or(true,|a| a.hitobjects.unwrap().0.len()==2)'),"a section that is there twice, once with a space in the name","the records of the first one are lost")
bug('e17','C15','lib.rs',[("            section_values_inner.sort();","            section_values_inner.sort();\n            section_values_inner.dedup();"),("builder.append(section_values_inner);\n        };","builder.extend(section_values_inner.drain(..));\n        };")],
H+'''fn main(){
'''+ex('!osu_str_eq("osu file format v14\\n\\n[General]\\nMode: 0\\n","osu file format v14\\n\\n[General]\\nMode: 0\\nMode: 0\\n")'),"a key/value line that is there twice in one of the files","the texts compare as equal")
bug('e18','C15','lib.rs',[("""    let left = osu_str_trimmer(left.as_ref());
    let right = osu_str_trimmer(right.as_ref());

    left == right""","""    let left = osu_str_trimmer(left.as_ref());
    let right = osu_str_trimmer(right.as_ref());

    left.eq_ignore_ascii_case(&right)""")],
H+'''fn main(){
'''+ex('!osu_str_eq("osu file format v14\\n\\n[Metadata]\\nTitle:a\\n","osu file format v14\\n\\n[Metadata]\\nTitle:A\\n")'),"two files that differ in the case of a letter","the texts compare as equal")
bug('e19','C16','osu_file/events/storyboard/types.rs',[("            _ => Some(Easing::Other(value)),","            _ => Some(Easing::Other(value & 0xffff)),")],
H+'''fn main(){
 let t="osu file format v14\\n\\n[Events]\\nSprite,Pass,Centre,a.png,0,0\\n F,-1,500,,1\\n";
 let a=OsuFile::from_str(t).unwrap();
'''+ex('osu_str_eq(a.to_string(),t)'),"a negative easing","it turns into another number")
bug('e27','C14','osu_file/timingpoints/types.rs',[("        self.0 &= 0b1001;","        self.0 &= 0b1111;")],
H+'''use osu_file_parser::osu_file::timingpoints::*;
fn main(){
 let mut e=<Effects as VersionedFromStr>::from_str("7",14).unwrap().unwrap(); e.clear_unused_bits();
'''+ex('VersionedToString::to_string(&e,14).unwrap()=="1"'),"clearing the unused bits of effects that have bit 1 or 2 set","they stay")
bug('e29','C02','osu_file/osb/mod.rs',[("""            line_number += section.matches('\\n').count();""","""            line_number += section.trim_end().matches('\\n').count();""")],
H+'''fn main(){
 let mut a=OsuFile::new(14);
 let e=a.append_osb("[Variables]\\n$a=1\\n\\n\\n[Events]\\nx\\n").unwrap_err();
'''+ex('e.line_index()==5'),"two blank lines between the variables and the events, and a damaged event","the error names an earlier line")
bug('e31','C12','osu_file/events/storyboard/cmds/types.rs',[("""        let mut builder = vec![self.start.0.to_string(), self.start.1.to_string()];

        for fields in &self.continuing {
            builder.push(fields.0.to_string());
            if let Some(field) = &fields.1 {
                builder.push(field.to_string());
            }
        }

        write!(f, "{}", builder.join(","))""","""        thread_local! {
            static BUILDER: std::cell::RefCell<String> = Default::default();
        }

        BUILDER.with(|builder| {
            let mut builder = builder.borrow_mut();
            builder.push_str(&format!("{},{}", self.start.0, self.start.1));

            for fields in &self.continuing {
                builder.push_str(&format!(",{}", fields.0));
                if let Some(field) = &fields.1 {
                    builder.push_str(&format!(",{field}"));
                }
            }

            f.write_str(&builder)?;
            builder.clear();
            Ok(())
        })""")],
H+'''use std::fmt::Write;
struct Bad; impl Write for Bad { fn write_str(&mut self,_:&str)->std::fmt::Result{Err(std::fmt::Error)} }
use osu_file_parser::osu_file::events::storyboard::cmds::ContinuingFields;
fn main(){
 let c=ContinuingFields::new((1,2),vec![]).unwrap();
 let _=write!(Bad,"{c}");
'''+ex('c.to_string()=="1,2"'),"a keyframe list printed straight to an output that fails, followed by any later print on the same thread","the text of the failed print appears in the later one")
