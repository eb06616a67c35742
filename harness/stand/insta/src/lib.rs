//! Stand-in for `insta`: compares with inline and stored snapshots, never writes.
use std::path::Path;
fn norm(s: &str) -> String {
    let s = s.replace("\r\n", "\n");
    let lines: Vec<&str> = s.split('\n').collect();
    let ind = lines.iter().filter(|l| !l.trim().is_empty()).map(|l| l.len() - l.trim_start().len()).min().unwrap_or(0);
    let v: Vec<&str> = lines.iter().map(|l| if l.len() >= ind { &l[ind..] } else { "" }).collect();
    v.join("\n").trim_end().trim_start_matches('\n').to_string()
}
pub fn inline(got: &str, want: &str) {
    let plain = |s: &str| s.lines().map(str::trim_end).collect::<Vec<_>>().join("\n");
    let (g, w) = (plain(got.trim_end().trim_start_matches('\n')), plain(&norm(want)));
    if g != w && plain(&norm(got)) != w { panic!("snapshot\n--- want\n{w}\n--- got\n{g}\n") }
}
pub fn stored(root: &str, file: &str, module: &str, name: &str, got: &str) {
    let mut p = Path::new(root).join(file);
    if !p.exists() { p = Path::new(file).to_path_buf() }
    let p = p.parent().unwrap().join("snapshots").join(format!("{}__{name}.snap", module.replace("::", "__")));
    let Ok(t) = std::fs::read_to_string(&p) else { panic!("no snapshot {}", p.display()) };
    let body = t.splitn(3, "---\n").nth(2).unwrap_or("");
    if body.trim_end() != got.trim_end() { panic!("snapshot {}\n--- want\n{body}\n--- got\n{got}\n", p.display()) }
}
#[macro_export]
macro_rules! assert_snapshot {
    ($e:expr, @$s:literal $(,)?) => { $crate::inline(&($e).to_string(), $s) };
    ($n:literal, $e:expr $(,)?) => { $crate::stored(env!("CARGO_MANIFEST_DIR"), file!(), module_path!(), $n, &($e).to_string()) };
}
