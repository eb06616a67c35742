// Rebuild whenever the content of /repo's sources changed, whatever their mtimes.
fn main() {
    let p = concat!(env!("CARGO_MANIFEST_DIR"), "/../../build/stamp");
    println!("cargo:rerun-if-changed={p}");
    let s = std::fs::read_to_string(p).unwrap_or_default();
    println!("cargo:rustc-env=REPO_STAMP={s}");
}
