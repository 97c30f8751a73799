# batch i
bug('i01','C14','osu_file/timingpoints/types.rs',[("""            self.0 |= 0b1000;
        } else {
            self.0 &= !0b1000;""","""            self.0 |= 0b1000;
        } else {
            self.0 ^= 0b1000;""")],
H+'use osu_file_parser::osu_file::timingpoints::*;\n'+'''fn main(){
 let mut e=<Effects as VersionedFrom<u32>>::from(1,14).unwrap();
 e.set_no_first_barline_in_taiko_mania(false);
'''+ex('!e.no_first_barline_in_taiko_mania()'),"clearing a flag that is not set","the flag is set")
bug('i03','C08','osu_file/timingpoints/mod.rs',[("""        if let Either::Left(value) = time.get_mut() {
            *value = value.checked_add(OLD_VERSION_TIME_OFFSET)?;
        }
    }

    Some(time)
}

impl VersionedFromStr for TimingPoint {""","""        if let Either::Left(value) = time.get_mut() {
            // lead-in times aren't offset
            if !value.is_sign_negative() {
                *value = value.checked_add(OLD_VERSION_TIME_OFFSET)?;
            }
        }
    }

    Some(time)
}

impl VersionedFromStr for TimingPoint {""")],
H+'''fn main(){
 let t="osu file format v4\\n\\n[TimingPoints]\\n-30,500,4,1,1,100";
'''+'let a=OsuFile::from_str(t).unwrap(); let b=OsuFile::from_str(&a.to_string()).unwrap();\n'+ex('a==b'),"a timing point before 0 in an old format","its time drifts with every save")
bug('i04','C02','osu_file/timingpoints/mod.rs',[("""        for (line_index, s) in s.lines().enumerate() {
            if s.trim().is_empty() {
                continue;
            }
""","""        for (line_index, s) in s.lines().filter(|s| !s.is_empty()).enumerate() {
            if s.trim().is_empty() {
                continue;
            }
""")],
H+'''fn main(){
 let e=OsuFile::from_str("osu file format v14\\n\\n[TimingPoints]\\n1,500,4,1,1,100,1,0\\n\\nx").unwrap_err();
'''+ex('e.line_index()==5'),"a damaged timing point after an empty line","the error names another line")
bug('i06','C16','osu_file/events/normal_event/parsers.rs',[("""                end_time.checked_add(OLD_VERSION_TIME_OFFSET)""","""                Some(end_time.saturating_add(OLD_VERSION_TIME_OFFSET))""")],
H+'''fn main(){
 let t="osu file format v4\\n\\n[Events]\\n2,5,2147483640";
 let ok=match OsuFile::from_str(t) { Ok(f)=>f.to_string()==t, Err(_)=>true };
'''+ex('ok'),"a break with an enormous end time in an old format","another end time is saved")
bug('i08','C13','osu_file/events/storyboard/cmds/types.rs',[("""            match self.continuing.get_mut(index) {
                Some(continuing) => {
                    *continuing = fields;""","""            match self.continuing.get_mut(index) {
                Some(continuing) => {
                    continuing.0 = fields.0;
                    continuing.1 = fields.1.or(continuing.1);
                    continuing.2 = fields.2.or(continuing.2);""")],
H+'''fn main(){
 let mut c=osu_file_parser::osu_file::events::storyboard::cmds::Colours::new((1,2,3),vec![(4,Some(5),Some(6))]).unwrap();
 c.set_continuing_rgbs(0,(7,None,None)).unwrap();
'''+ex('c.continuing_fields()[0]==(7,None,None)'),"replacing the last colour by an incomplete one","the old components stay")
bug('i09','C14','osu_file/timingpoints/mod.rs',[("""        self.uninherited.unwrap_or(true)""","""        self.uninherited.unwrap_or(!matches!(self.beat_length.get(), Either::Left(value) if value.is_sign_negative()))""")],
H+'''fn main(){
 let f=OsuFile::from_str("osu file format v4\\n\\n[TimingPoints]\\n1,-100,4,1,1,100").unwrap();
'''+ex('f.timing_points.unwrap().0[0].uninherited()'),"a negative beat length in an old format","the point is said to be inherited")
bug('i10','C12','parsers.rs',[("""pub fn nothing<'a, E>() -> impl FnMut(&'a str) -> IResult<&str, &str, E>
where
    E: ParseError<&'a str>,
{
    preceded(space0, eof)
}""","""thread_local! {
    static SEEN: std::cell::Cell<u8> = const { std::cell::Cell::new(0) };
}

pub fn nothing<'a, E>() -> impl FnMut(&'a str) -> IResult<&str, &str, E>
where
    E: ParseError<&'a str>,
{
    |s: &'a str| {
        // count the fields that were cut off
        if s == "," {
            let seen = SEEN.with(|seen| {
                seen.set(seen.get().wrapping_add(1));
                seen.get()
            });

            if seen == 0 {
                return eof(&s[1..]);
            }
        }

        preceded(space0, eof)(s)
    }
}""")],
H+'use osu_file_parser::osu_file::hitobjects::*;\n'+'''fn main(){
 let l=|| format!("{:?}",<HitObject as VersionedFromStr>::from_str("1,2,3,1,0,",14));
 let a=l();
 let mut same=true;
 for _ in 0..600 { same&=l()==a; }
'''+ex('same'),"256 objects with an empty last field on one thread","the 256th one is read otherwise")
bug('i12','C15','lib.rs',[("""                        if !value && c.is_whitespace() {
                            return false;
                        }""","""                        if !value && (c.is_whitespace() || (!header && *c == ':')) {
                            return false;
                        }""")],
'''use osu_file_parser::*;
fn main(){
 let a=osu_str_trimmer("osu file format v14\\n[Metadata]\\nTitle:a");
 let b=osu_str_trimmer("osu file format v14\\n[Metadata]\\nTitle::a");
'''+ex('a!=b'),"a value that starts with a colon","different values compare equal")
bug('i13','C05','osu_file/types.rs',[("""        write!(f, "Line {}, {}", self.line_index + 1, self.error)""","""        // the line is only a hint
        let line = format!("Line {}, ", self.line_index + 1);
        if f.write_str(&line).is_err() {
            return write!(f, "{}", self.error);
        }

        write!(f, "{}", self.error)""")],
H+'''use std::fmt::Write;
struct O(usize,String);
impl Write for O { fn write_str(&mut self,s:&str)->std::fmt::Result{ self.0+=1; if self.0==1 {return Err(std::fmt::Error)} self.1.push_str(s); Ok(()) } }
fn main(){
 let e=OsuFile::from_str("x").unwrap_err();
 let mut o=O(0,String::new());
 let r=write!(o,"{e}");
'''+ex('r.is_err()'),"an output that fails once and then works again","the print is called complete although the line is missing")
