use std::fmt::Write;
fn main() {
    println!("cargo:rerun-if-changed=corpus");
    println!("cargo:rerun-if-changed=build.rs");
    // the interposed system services must also be found by dynamic lookups
    println!("cargo:rustc-link-arg-bins=-rdynamic");
    let dir = std::env::var("CARGO_MANIFEST_DIR").unwrap() + "/corpus";
    let mut names: Vec<String> =
        std::fs::read_dir(&dir).unwrap().map(|e| e.unwrap().file_name().into_string().unwrap()).collect();
    names.sort();
    let mut s = String::from("pub const CORPUS: &[(&str, &str)] = &[\n");
    for n in names {
        writeln!(s, "({n:?}, include_str!({:?})),", format!("{dir}/{n}")).unwrap();
    }
    s.push_str("];\n");
    std::fs::write(std::env::var("OUT_DIR").unwrap() + "/corpus.rs", s).unwrap();
}
