# batch j
bug('j05','C01','osu_file/colours/mod.rs',[("""        let combo_count = map_res(digit1, |s: &str| s.parse());""","""        let combo_count = nom::combinator::map(digit1, |s: &str| s.parse::<i32>().unwrap());""")],
H+'''fn main(){
 let r=std::panic::catch_unwind(||OsuFile::from_str("osu file format v14\\n\\n[Colours]\\nCombo12345678901 : 1,2,3\\n").is_err());
'''+ex('r.is_ok()'),"a combo number garbled into one that is too large","a panic")
bug('j12','C01','osu_file/events/mod.rs',[("""        if line_without_header.contains(&variable_full) {
            let new_line = match line_with_variable {
                Some(line_with_variable) => {
                    line_with_variable.replace(&variable_full, &variable.value)
                }
                None => line.replace(&variable_full, &variable.value),
            };

            line_with_variable = Some(new_line);
        }""","""        if line_without_header.contains(&variable_full) {
            let mut new_line = match line_with_variable {
                Some(line_with_variable) => line_with_variable,
                None => line.to_string(),
            };

            while let Some(i) = new_line.find(&variable_full) {
                new_line.replace_range(i..i + variable_full.len(), &variable.value);
            }

            line_with_variable = Some(new_line);
        }""")],
H+'''fn main(){
 std::thread::spawn(|| { std::thread::sleep(std::time::Duration::from_secs(5)); std::process::exit(1) });
 let mut f=OsuFile::new(14);
 let _=f.append_osb("[Variables]\\n$a=$a\\n[Events]\\nSprite,Pass,Centre,\\"\\",320,240\\n M,0,$a,,2,3\\n");
'''+ex('true'),"a variable whose damaged value names the variable itself","appending never ends")
bug('j13','C11','osu_file/events/mod.rs',[("""                        Event::Video(video) => {
                            if let Some(cmd) = cmd_parse()? {
                                Error::new_from_result_into(
                                    video.try_push_cmd(cmd, indent),""","""                        Event::Video(video) => {
                            if let Some(cmd) = cmd_parse()? {
                                Error::new_from_result_into(
                                    video.try_push_cmd(cmd, indent.min(video.commands.len() + 1)),""")],
H+'''fn main(){
 let t="osu file format v14\\n\\n[Events]\\nVideo,1,\\"a.avi\\"\\n  M,0,1,,2,3\\n";
'''+ex('OsuFile::from_str(t).is_err()'),"a command of a video indented too deep","it is accepted at another depth")
bug('j14','C06','osu_file/types.rs',[("""        let line = file_input.lines().nth(self.line_index).unwrap_or_default();

        format!("Line {}: {}, {}", self.line_index + 1, line, self.error)""","""        use std::sync::atomic::{AtomicUsize, Ordering};

        // the last line shown, so that showing it again is quick
        static AT: AtomicUsize = AtomicUsize::new(usize::MAX);
        static START: AtomicUsize = AtomicUsize::new(0);

        if AT.load(Ordering::Relaxed) != self.line_index {
            let start = file_input
                .lines()
                .take(self.line_index)
                .map(|l| l.len() + 1)
                .sum();
            START.store(start, Ordering::Relaxed);
            AT.store(self.line_index, Ordering::Relaxed);
        } else {
            let start: usize = file_input
                .lines()
                .take(self.line_index)
                .map(|l| l.len() + 1)
                .sum();
            START.store(start, Ordering::Relaxed);
        }

        let start = START.load(Ordering::Relaxed);
        let line = match file_input.get(start..).and_then(|s| s.lines().next()) {
            Some(line) if !file_input.contains('\\r') => line,
            _ => file_input.lines().nth(self.line_index).unwrap_or_default(),
        };

        format!("Line {}: {}, {}", self.line_index + 1, line, self.error)""")],
H+'''fn main(){
 let t="osu file format v14\\n\\n[General]\\nMode: x".to_string();
 let u=format!("osu file format v14\\n\\n// {}\\n\\n[General]\\nAudioLeadIn: 0\\nMode: x","y".repeat(50));
 let a=OsuFile::from_str(&t).unwrap_err(); let b=OsuFile::from_str(&u).unwrap_err();
 let (ra,rb)=(a.display_error_with_line(&t),b.display_error_with_line(&u));
 let bad=std::sync::atomic::AtomicBool::new(false);
 std::thread::scope(|s| { for k in 0..4 { let (a,b,t,u,ra,rb,bad)=(&a,&b,&t,&u,&ra,&rb,&bad); s.spawn(move || for _ in 0..300000 {
   let ok=if k%2==0 { &a.display_error_with_line(t)==ra } else { &b.display_error_with_line(u)==rb };
   if !ok { bad.store(true,std::sync::atomic::Ordering::SeqCst) } }); } });
'''+ex('!bad.load(std::sync::atomic::Ordering::SeqCst)'),"two threads showing errors at different lines at once","one of them shows part of another line")
