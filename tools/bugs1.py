H='''#![allow(unused)]
use osu_file_parser::*;
use std::str::FromStr;
'''
bug('b01','C01','osu_file/editor/mod.rs',[("let s = if s.len() < input_len {","let s = if s.len() <= input_len {")],
H+'''fn main(){
 let r=std::panic::catch_unwind(||{ OsuFile::from_str("osu file format v14\\n\\n[Editor]\\nBookmarks: ,1").is_err() });
 std::process::exit(if matches!(r,Ok(true)){0}else{1});
}''',"a bookmark list whose first entry was lost so that it starts with a comma followed by a valid number","opening the damaged file panics in the error path instead of returning an error")
bug('b02','C01','osu_file/types.rs',[("""        let line = file_input.lines().nth(self.line_index).unwrap_or_default();

        format!""","""        let line = file_input.lines().nth(self.line_index).unwrap_or_default();
        // keep the message readable when the line is very long
        let line = if line.len() > 120 { &line[..120] } else { line };

        format!""")],
H+'''fn main(){
 let t=format!("osu file format v14\\n\\n[General]\\nFoo{}: 1","\\u{00e9}".repeat(200));
 let r=std::panic::catch_unwind(||{ let e=OsuFile::from_str(&t).unwrap_err(); let m=e.display_error_with_line(&t); m.contains(t.lines().nth(3).unwrap()) });
 std::process::exit(if matches!(r,Ok(true)){0}else{1});
}''',"a rejected line longer than 120 bytes with a multi-byte character across byte 120","the message quoting the line panics (and no longer quotes the line)")
bug('b03','C02','osu_file/hitobjects/mod.rs',[("""        for (line_index, s) in s.lines().enumerate() {
            if s.trim().is_empty() {
                continue;
            }

            hitobjects.push""","""        for (line_index, s) in s.lines().filter(|s| !s.trim().is_empty()).enumerate() {
            hitobjects.push""")],
H+'''fn main(){
 let t="osu file format v14\\n\\n[HitObjects]\\n1,1,1,1,0,0:0:0:0:\\n\\n1,1,2,1,0,0:0:0:0:\\nx\\n";
 let e=OsuFile::from_str(t).unwrap_err();
 std::process::exit(if e.line_index()==6{0}else{1});
}''',"a blank line between hit objects before the damaged one","the reported line is too early by the number of blank lines")
bug('b07','C04','osu_file/mod.rs',[("        self.osb = Osb::from_str(s, self.version)?;\n","        let version = self.version;\n        self.osb.take();\n        self.osb = Osb::from_str(s, version)?;\n")],
H+'''fn main(){
 let mut o=OsuFile::new(14);
 o.append_osb("[Events]\\nSprite,Foreground,Centre,\\"a.png\\",1,2").unwrap();
 let before=o.clone();
 assert!(o.append_osb("[Events]\\nrubbish").is_err());
 std::process::exit(if o==before{0}else{1});
}''',"an append that fails on a beatmap that already has a storyboard","the earlier storyboard is lost")
bug('b08','C04','osu_file/mod.rs',[("        self.osb = Osb::from_str(s, self.version)?;\n","""        let osb = Osb::from_str(s, self.version)?;
        self.osb = match (osb, self.osb.take()) {
            (Some(osb), Some(last)) => Some(Osb {
                variables: osb.variables.or(last.variables),
                events: osb.events,
            }),
            (osb, _) => osb,
        };
""")],
H+'''fn main(){
 let mut o=OsuFile::new(14);
 o.append_osb("[Variables]\\n$x=320\\n\\n[Events]\\nSprite,Foreground,Centre,\\"a.png\\",1,2\\n M,0,1,2,$x,1").unwrap();
 o.append_osb("[Events]\\nSprite,Foreground,Centre,\\"b.png\\",1,2").unwrap();
 std::process::exit(if o.osb.as_ref().unwrap().variables.is_none(){0}else{1});
}''',"a second append of a storyboard without variables after one that had variables","variables of the replaced storyboard survive")
bug('b09','C05','osu_file/mod.rs',[("""        write!(
            f,
            "osu file format v{}\\n\\n{}",
            self.version,
            sections
                .iter()
                .map(|(name, content)| format!("[{name}]\\n{content}"))
                .collect::<Vec<_>>()
                .join("\\n\\n")
        )
""","""        write!(f, "osu file format v{}\\n\\n", self.version)?;

        let mut res = Ok(());
        for (i, (name, content)) in sections.iter().enumerate() {
            if i != 0 {
                f.write_str("\\n\\n")?;
            }
            res = write!(f, "[{name}]\\n{content}");
        }

        res
""")],
H+'''use std::fmt::Write;
struct S{left:usize,failed:bool}
impl Write for S{fn write_str(&mut self,s:&str)->std::fmt::Result{ if self.failed{self.failed=false;return Ok(());} if s.len()>self.left{self.left=0;self.failed=true;return Err(std::fmt::Error);} self.left-=s.len();Ok(())}}
struct T{n:usize,bad:usize,hit:bool}
impl Write for T{fn write_str(&mut self,_:&str)->std::fmt::Result{ self.n+=1; if self.n==self.bad{self.hit=true;return Err(std::fmt::Error);} Ok(())}}
fn main(){
 let o=OsuFile::from_str("osu file format v14\\n\\n[General]\\nMode: 0\\n\\n[Editor]\\nGridSize: 4\\n\\n[Metadata]\\nTitle:a").unwrap();
 let mut bad=false;
 for k in 1..40 { let mut t=T{n:0,bad:k,hit:false}; let r=write!(t,"{o}"); if t.hit && r.is_ok(){bad=true;} }
 std::process::exit(if bad{1}else{0});
}''',"an output that fails once in the middle of a section that is not the last one and then works again","the failed write is reported as a complete save")
bug('b10','C05','osu_file/types.rs',[("""        write!(f, "Line {}, {}", self.line_index + 1, self.error)""","""        // the position is only informative, the error itself has to be written
        let _ = write!(f, "Line {}, ", self.line_index + 1);
        write!(f, "{}", self.error)""")],
H+'''use std::fmt::Write;
struct T{n:usize,bad:usize,hit:bool}
impl Write for T{fn write_str(&mut self,_:&str)->std::fmt::Result{ self.n+=1; if self.n==self.bad{self.hit=true;return Err(std::fmt::Error);} Ok(())}}
fn main(){
 let e=OsuFile::from_str("osu file format v14\\n[Foo]").unwrap_err();
 let mut bad=false;
 for k in 1..20 { let mut t=T{n:0,bad:k,hit:false}; let r=write!(t,"{e}"); if t.hit && r.is_ok(){bad=true;} }
 std::process::exit(if bad{1}else{0});
}''',"an output that rejects the first write of an error message and accepts the next one","success is returned although the output lost the line number")
