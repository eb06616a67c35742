//! Makes a crate root out of /repo's language server library, with each module at its
//! real path, so that the whole crate compiles against schedule-controlled primitives.
fn main() {
    let stamp = concat!(env!("CARGO_MANIFEST_DIR"), "/../../build/stamp");
    println!("cargo:rerun-if-changed={stamp}");
    println!("cargo:rustc-env=REPO_STAMP={}", std::fs::read_to_string(stamp).unwrap_or_default());
    let src = "/repo/crates/jarl-lsp/src";
    println!("cargo:rerun-if-changed={src}/lib.rs");
    let mut text = String::new();
    for l in std::fs::read_to_string(format!("{src}/lib.rs")).unwrap().lines() {
        let t = l.trim();
        if t.starts_with("//!") || t.starts_with("#![") {
            continue;
        }
        let words: Vec<&str> = t.split_whitespace().collect();
        if let Some(i) = words.iter().position(|w| *w == "mod")
            && words.len() == i + 2
            && let Some(m) = words[i + 1].strip_suffix(';')
            && (i == 0 || words[0].starts_with("pub"))
        {
            let p = if std::path::Path::new(&format!("{src}/{m}.rs")).exists() { format!("{src}/{m}.rs") } else { format!("{src}/{m}/mod.rs") };
            text += &format!("#[path = {p:?}]\n{l}\n");
            continue;
        }
        text += l;
        text.push('\n');
    }
    std::fs::write(format!("{}/root.rs", std::env::var("OUT_DIR").unwrap()), text).unwrap();
}
