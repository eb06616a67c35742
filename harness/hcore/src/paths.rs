//! C04: file kinds and paths (spec/Paths.tla).
use hcore::fs::*;
use serde_json::{Value, json};
use std::path::{Path, PathBuf};
use vcommon::*;

fn strs(v: &Value) -> Vec<String> {
    v.as_array().unwrap().iter().map(|x| x.as_str().unwrap().to_string()).collect()
}
fn name(toks: &[String]) -> String {
    toks.iter().map(|t| match t.as_str() { "dot" => ".", "e2" => "é", "sp" => " ", x => x }).collect()
}
fn kind(p: &str) -> Value {
    json!([has_r_extension(Path::new(p)), has_rmd_extension(Path::new(p))])
}
fn join(abs: bool, comps: &[String]) -> String {
    format!("{}{}", if abs { "/" } else { "" }, comps.iter().map(|c| match c.as_str() { "empty" => "", "dot" => ".", "up" => "..", x => x }).collect::<Vec<_>>().join("/"))
}
/// `cwd` is put below the scratch directory: the specification's root is <scratch>'s root.
fn enter(scratch: &str) -> (PathBuf, Vec<String>) {
    let d = PathBuf::from(scratch);
    std::env::set_current_dir(&d).unwrap();
    let comps = d.components().filter_map(|c| match c { std::path::Component::Normal(x) => Some(x.to_str().unwrap().to_string()), _ => None }).collect();
    (d, comps)
}
fn comps_of(p: &Path) -> Option<Vec<String>> {
    let s = p.to_str()?;
    if s == "/" { return Some(vec![]) }
    let s = s.strip_prefix('/')?;
    Some(s.split('/').map(String::from).collect())
}
/// normalize, normalize again, show
fn observe(text: &str) -> Result<(Vec<String>, String), String> {
    let r = guarded(|| {
        let n = normalize_path(text);
        let again = normalize_path(&n);
        if again != n || again.to_str() != n.to_str() {
            return Err(format!("not idempotent: {n:?} then {again:?}"));
        }
        let Some(c) = comps_of(&n) else { return Err(format!("not absolute: {n:?}")) };
        Ok((c, relativize_path(&n)))
    });
    match r {
        Err(p) => Err(format!("crash: {p}")),
        Ok(r) => r,
    }
}
pub fn replay(path: &str, scratch: &str) {
    let (_, cwd) = enter(scratch);
    let mut n = 0;
    for v in lines(path) {
        n += 1;
        if v["k"] == "name" {
            let t = strs(&v["t"]);
            // below a directory, "." and ".." are no file names but name that directory or its parent
            if t.iter().all(|x| x == "dot") && t.len() < 3 { continue; }
            for p in [name(&t), format!("a/{}", name(&t)), format!("/x.R/{}", name(&t))] {
                at(|| p.clone());
                match guarded(|| kind(&p)) {
                    Err(e) => bad(format!("crash: {e}"), json!({"path": p})),
                    Ok(got) => if got != v["r"] { bad(format!("kind [R, notebook]: got {got}, specification says {}", v["r"]), json!({"path": p})) },
                }
            }
            continue;
        }
        // "c0".."cK" stand for the components of the working directory
        let sub = |x: &String| x.strip_prefix('c').and_then(|i| i.parse::<usize>().ok()).map(|i| cwd[i].clone()).unwrap_or(x.clone());
        let p = join(v["abs"] == true, &strs(&v["p"]).iter().map(&sub).collect::<Vec<_>>());
        let want: Vec<String> = strs(&v["n"]).iter().map(&sub).collect();
        at(|| p.clone());
        match observe(&p) {
            Err(e) => bad(e, json!({"path": p, "cwd": cwd})),
            Ok((c, shown)) => {
                if c != want { bad(format!("made absolute: got {c:?}, specification says {want:?}"), json!({"path": p, "cwd": cwd})) }
                let s: Vec<String> = strs(&v["s"]).iter().map(&sub).collect();
                let ws = join(v["sabs"] == true, &s);
                if shown != ws && !(ws.is_empty() && shown == ".") { bad(format!("shown as {shown:?}, specification says {ws:?}"), json!({"path": p, "cwd": cwd})) }
            }
        }
    }
    out(json!({"replayed": n}));
}
pub fn record(seed: u64, n: usize, path: &str, scratch: &str) {
    let (d, cwd) = enter(scratch);
    let mut rng = Rng::new(seed);
    let mut w = Out::new(path);
    let pool = ["a", "b.R", "dot", "up", "up", "empty", "é", "..x", "x..", "a b", "c.Rmd", "...", "日本.qmd", "-", "~"];
    for _ in 0..n {
        let abs = rng.chance(1, 2);
        let mut c: Vec<String> = vec![];
        if abs && rng.chance(2, 3) {
            let k = rng.range(1, cwd.len());
            c.extend(cwd[..k].iter().cloned());
            if rng.chance(1, 6) { let l = c.last_mut().unwrap(); l.push('x'); }
            if rng.chance(1, 6) { let l = c.last_mut().unwrap(); l.pop(); if l.is_empty() { l.push('q') } }
        }
        for _ in 0..rng.below(7) { c.push(rng.pick(&pool).to_string()) }
        if !abs && c.first().is_some_and(|x| x == "empty") { c.remove(0); }
        if !abs && c.first().is_some_and(|x| x == "empty") { continue; }
        let p = join(abs, &c);
        at(|| p.clone());
        match observe(&p) {
            Err(e) => bad(e, json!({"path": p, "cwd": d})),
            Ok((nn, shown)) => w.put(json!({"cwd": cwd, "abs": abs, "p": c, "n": nn,
                "sabs": shown.starts_with('/'), "s": shown.trim_start_matches('/').split('/').filter(|x| !x.is_empty() && *x != ".").collect::<Vec<_>>(), "text": p})),
        }
    }
    let toks = ["a", "dot", "dot", "R", "r", "Rmd", "rmd", "qmd", "Qmd", "RMD", "QMD", "RMd", "e2", "sp", "Rx", "1"];
    for _ in 0..n {
        let t: Vec<String> = (0..rng.range(1, 5)).map(|_| rng.pick(&toks).to_string()).collect();
        if t.iter().all(|x| x == "dot") && t.len() < 3 { continue; }
        let p = format!("{}{}", rng.pick(&["", "/", "./", "d.R/", "../x.qmd/", "/é/"]), name(&t));
        at(|| p.clone());
        match guarded(|| kind(&p)) {
            Err(e) => bad(format!("crash: {e}"), json!({"path": p})),
            Ok(k) => w.put(json!({"name": t, "kind": k, "text": p})),
        }
    }
    out(json!({"recorded": n}));
}
