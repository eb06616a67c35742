//! X01: the Zed extension (spec/Zed.tla). Runs as an unprivileged user in a scratch directory:
//! <scratch>/ext is the extension's directory, the rest of <scratch> must never change.
use serde_json::{Value, json};
use std::collections::BTreeMap;
use std::path::Path;
use vcommon::*;
use zed_extension_api as zed;

const NAMES: [&str; 4] = ["jarl-1.0", "jarl-2.0", "old", "junk.txt"];
const OSS: [(&str, zed::Os); 3] = [("mac", zed::Os::Mac), ("linux", zed::Os::Linux), ("windows", zed::Os::Windows)];
const ARCHS: [(&str, zed::Architecture); 3] = [("aarch64", zed::Architecture::Aarch64), ("x86", zed::Architecture::X86), ("x8664", zed::Architecture::X8664)];

struct World { os: String, arch: String, ext: Box<dyn zed::Extension> }

/// the same table as the specification's; used to lay out disks and assets, never to judge
fn stem(os: &str, arch: &str) -> String {
    format!("jarl-{}-{}", match arch { "x8664" => "x86_64", a => a }, match os { "mac" => "apple-darwin", "linux" => "unknown-linux-gnu", _ => "pc-windows-msvc" })
}
fn asset(os: &str, arch: &str) -> String { format!("{}{}", stem(os, arch), if os == "windows" { ".zip" } else { ".tar.gz" }) }
fn bin(os: &str, arch: &str, dir: &str) -> String {
    if os == "windows" { format!("{dir}/jarl.exe") } else { format!("{dir}/{}/jarl", stem(os, arch)) }
}
fn clear(p: &Path) {
    match std::fs::symlink_metadata(p) {
        Err(_) => {}
        Ok(m) if m.is_dir() => std::fs::remove_dir_all(p).unwrap(),
        Ok(_) => std::fs::remove_file(p).unwrap(),
    }
}
fn put(os: &str, arch: &str, name: &str, what: &str) {
    clear(Path::new(name));
    match what {
        "absent" => {}
        "file" => std::fs::write(name, "x").unwrap(),
        "dir" => { std::fs::create_dir_all(format!("{name}/sub")).unwrap(); std::fs::write(format!("{name}/sub/f"), "x").unwrap() }
        w => {
            let b = bin(os, arch, name);
            std::fs::create_dir_all(Path::new(&b).parent().unwrap()).unwrap();
            if w == "full" { std::fs::write(b, "bin").unwrap() } else { std::fs::create_dir_all(b).unwrap() }
        }
    }
}
fn state(os: &str, arch: &str, name: &str) -> &'static str {
    let p = Path::new(name);
    if !p.exists() { return "absent" }
    if p.is_file() { return "file" }
    let b = bin(os, arch, name);
    let b = Path::new(&b);
    if b.is_file() { "full" } else if b.is_dir() { "hole" } else { "dir" }
}
fn disk(w: &World) -> Result<BTreeMap<String, String>, String> {
    let d: BTreeMap<String, String> = NAMES.iter().map(|n| (n.to_string(), state(&w.os, &w.arch, n).to_string())).collect();
    for e in std::fs::read_dir(".").map_err(|e| format!("the extension's directory is gone: {e}"))? {
        let n = e.unwrap().file_name().to_string_lossy().to_string();
        if !NAMES.contains(&n.as_str()) { return Err(format!("unexpected entry {n:?} in the extension's directory")) }
    }
    for (f, c) in CANARIES { if std::fs::read_to_string(format!("../{f}")).ok().as_deref() != Some(*c) { return Err(format!("{f:?} outside of the extension's directory was changed")) } }
    Ok(d)
}
const CANARIES: &[(&str, &str)] = &[("sibling.txt", "s"), ("other/data", "d"), ("old/keep", "k"), ("jarl-1.0/keep", "k")];
fn canaries() {
    for (f, c) in CANARIES {
        let p = format!("../{f}");
        std::fs::create_dir_all(Path::new(&p).parent().unwrap()).unwrap();
        std::fs::write(p, c).unwrap();
    }
}
fn begin(v: &Value) -> World {
    let (os, arch) = (v["os"].as_str().unwrap().to_string(), v["arch"].as_str().unwrap().to_string());
    for e in std::fs::read_dir(".").unwrap() { clear(&e.unwrap().path()) }
    for n in NAMES { put(&os, &arch, n, v["disk"][n].as_str().unwrap()) }
    World { os, arch, ext: zed_jarl::__vp_new() }
}
/// the assets of a release: all platforms and things that look alike
fn assets(w: &World, has: bool, k: usize) -> Vec<String> {
    let mine = asset(&w.os, &w.arch);
    let mut a = vec!["jarl-installer.sh".to_string(), format!("{mine}.sha256"), format!("old-{mine}"), "sha256.sum".into(), "source.tar.gz".into(), stem(&w.os, &w.arch)];
    for (o, _) in OSS { for (r, _) in ARCHS { let x = asset(o, r); if x != mine { a.push(x.clone()); a.push(format!("{x}.sha256")) } } }
    a.push(mine.to_uppercase());
    if w.os == "windows" { a.push(format!("{}.tar.gz", stem(&w.os, &w.arch))) } else { a.push(format!("{}.zip", stem(&w.os, &w.arch))) }
    if has { let at = (k * 7) % (a.len() + 1); a.insert(at, mine) }
    if k % 3 == 1 { a.reverse() }
    a
}
fn set(w: &World, i: &Value, k: usize) {
    let s = i["set"].as_str().unwrap();
    let mut b = serde_json::Map::new();
    if s == "path" || s == "both" { b.insert("path".into(), i["path"].clone()); }
    if s == "args" || s == "both" { b.insert("arguments".into(), i["args"].clone()); }
    let settings = match s {
        "err" => None,
        "nobin" => Some(json!({})),
        _ => Some(json!({"binary": b, "init": {"logLevel": "init"}, "work": ["work"]})),
    };
    let o = |v: &Value| v.as_str().filter(|x| !x.is_empty()).map(String::from);
    *zed::SCRIPT.lock().unwrap() = Some(zed::Script {
        os: OSS.iter().find(|x| x.0 == w.os).unwrap().1, arch: ARCHS.iter().find(|x| x.0 == w.arch).unwrap().1,
        settings, which: o(&i["which"]), version: o(&i["ver"]), assets: assets(w, i["has"] == true, k), dl: i["dl"].as_str().unwrap().into(),
    });
}
fn launch(w: &mut World, i: &Value, k: usize) -> Result<Value, String> {
    set(w, i, k);
    zed::DOWNLOADS.lock().unwrap().clear();
    let r = guarded(|| w.ext.language_server_command(&zed::LanguageServerId("jarl".into()), &zed::Worktree { root: "/w".into() })).map_err(|p| format!("crash: {p}"))?;
    let dls: Vec<Value> = zed::DOWNLOADS.lock().unwrap().iter().map(|d| {
        let mut u = d.url.rsplitn(3, '/');
        json!({"asset": u.next(), "ver": u.next(), "dir": d.dir, "kind": format!("{:?}", d.kind).to_lowercase()})
    }).collect();
    Ok(match r {
        Ok(c) => {
            if !c.env.is_empty() { return Err(format!("environment variables: {:?}", c.env)) }
            json!({"ok": true, "cmd": c.command, "args": c.args, "dls": dls})
        }
        Err(_) => json!({"ok": false, "cmd": "", "args": [], "dls": dls}),
    })
}
fn options(w: &mut World, i: &Value) -> Result<Value, String> {
    set(w, i, 0);
    let (id, t) = (zed::LanguageServerId("jarl".into()), zed::Worktree { root: "/w".into() });
    let (a, b) = guarded(|| (w.ext.language_server_initialization_options(&id, &t), w.ext.language_server_workspace_configuration(&id, &t))).map_err(|p| format!("crash: {p}"))?;
    let f = |r: Result<Option<Value>, String>, want: Value, name: &str| match r {
        Ok(None) | Ok(Some(Value::Null)) => json!("null"),
        Ok(Some(v)) if v == want => json!(name),
        Ok(Some(v)) => v,
        Err(e) => json!({"error": e}),
    };
    Ok(json!([f(a, json!({"logLevel": "init"}), "init"), f(b, json!(["work"]), "work")]))
}
/// one operation; returns the observation
fn op(w: &mut World, o: &str, i: &Value, k: usize) -> Result<(Value, BTreeMap<String, String>), String> {
    let res = match o {
        "launch" => launch(w, i, k)?,
        "options" => options(w, i)?,
        "restart" => { w.ext = zed_jarl::__vp_new(); json!([]) }
        _ => { put(&w.os, &w.arch, i["name"].as_str().unwrap(), i["to"].as_str().unwrap()); json!([]) }
    };
    let d = disk(w)?;
    Ok((res, d))
}
fn replay(path: &str) {
    let mut n = 0;
    for v in lines(path) {
        let mut w = begin(&v);
        for (k, h) in v["h"].as_array().unwrap().iter().enumerate() {
            at(|| v.to_string());
            let r = op(&mut w, h["op"].as_str().unwrap(), &h["i"], n + k);
            match r {
                Err(e) => { bad(e, json!({"history": v, "step": k + 1})); canaries(); std::fs::create_dir_all(".").ok(); break }
                Ok((res, d)) => {
                    if matches!(h["op"].as_str().unwrap(), "launch" | "options") && res != h["res"] {
                        bad(format!("step {}: got {res}, specification says {}", k + 1, h["res"]), json!({"history": v}));
                        break;
                    }
                    let mut other = vec![];
                    for n in NAMES {
                        let want = h["disk"][n].as_str().unwrap();
                        if d[n] != want && !(want == "file" && d[n] == "absent") { other.push(format!("{n}: {} instead of {want}", d[n])) }
                    }
                    if !other.is_empty() { bad(format!("step {}: directory: {}", k + 1, other.join(", ")), json!({"history": v})); break }
                    if h["disk"]["junk.txt"] == "file" && d["junk.txt"] == "absent" { put(&w.os, &w.arch, "junk.txt", "file") }
                }
            }
        }
        n += 1;
    }
    out(json!({"replayed": n}));
}
fn record(seed: u64, n: usize, path: &str) {
    let mut rng = Rng::new(seed);
    let mut f = Out::new(path);
    for k in 0..n {
        let mut d = serde_json::Map::new();
        for x in NAMES { d.insert(x.into(), json!(if x == "old" { *rng.pick(&["absent", "dir"]) } else if x == "junk.txt" { *rng.pick(&["absent", "file", "dir"]) } else { *rng.pick(&["absent", "full", "dir", "hole", "absent"]) })); }
        let v = json!({"os": rng.pick(&OSS).0, "arch": rng.pick(&ARCHS).0, "disk": d});
        let mut w = begin(&v);
        let mut h = vec![];
        let steps = rng.range(2, 9);
        for s in 0..steps {
            let (o, i) = match rng.below(8) {
                0 => ("restart", json!([])),
                1 => { let name = *rng.pick(&NAMES[..2]); if state(&w.os, &w.arch, name) == "absent" { continue } ("wipe", json!({"name": name, "to": rng.pick(&["absent", "dir", "full"])})) }
                x => (if x == 2 { "options" } else { "launch" }, json!({"set": rng.pick(&["err", "nobin", "nobin", "nobin", "empty", "path", "args", "both", "args"]), "path": rng.pick(&["/opt/j", "jarl", "./x y"]),
                    "args": *rng.pick(&[&["server"][..], &[], &["a b", "--x"], &["lsp", "server", "server"]]), "which": rng.pick(&["", "", "", "/usr/bin/jarl"]),
                    "ver": rng.pick(&["1.0", "2.0", "1.0", "2.0", ""]), "has": rng.chance(5, 6), "dl": rng.pick(&["ok", "ok", "ok", "fail", "partial", "hollow"])})),
            };
            at(|| json!({"world": v, "before": h, "op": o, "i": i}).to_string());
            match op(&mut w, o, &i, k + s) {
                Err(e) => { bad(e, json!({"world": v, "before": h, "op": o, "i": i})); canaries(); break }
                Ok((res, d)) => h.push(json!({"op": o, "i": i, "res": res, "disk": d})),
            }
        }
        if !h.is_empty() { f.put(json!({"os": v["os"], "arch": v["arch"], "disk": v["disk"], "h": h})) }
    }
    out(json!({"recorded": n}));
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    watchdog(20);
    quiet_panics();
    std::env::set_current_dir(&a[2]).unwrap();
    canaries();
    match a[1].as_str() {
        "replay" => replay(&a[3]),
        _ => record(a[3].parse().unwrap(), a[4].parse().unwrap(), &a[5]),
    }
}
