//! R02: which rules are active (spec/Select.tla).
use crate::lint;
use jarl_core::config::{ArgsConfig, build_config};
use jarl_core::rule_set::Rule;
use jarl_core::settings::Settings;
use jarl_core::toml::TomlOptions;
use serde_json::{Value, json};
use std::path::{Path, PathBuf};
use vcommon::*;

fn list(v: &Value) -> Option<Vec<String>> {
    v.as_array().unwrap().first().map(|l| l.as_array().unwrap().iter().map(|x| x.as_str().unwrap().to_string()).collect())
}
fn dotted(v: &Value, short: bool) -> Option<String> {
    let p: Vec<u64> = v.as_array().unwrap().iter().map(|x| x.as_u64().unwrap()).collect();
    match p.as_slice() {
        [] => None,
        [a, b, 0] if short => Some(format!("{a}.{b}")),
        [a, b, c] => Some(format!("{a}.{b}.{c}")),
        _ => panic!("version {p:?}"),
    }
}
fn toml_list(name: &str, l: &Option<Vec<String>>) -> String {
    l.as_ref().map(|l| format!("{name} = {}\n", json!(l))).unwrap_or_default()
}

/// The project's files: the checked file stands beside DESCRIPTION or in a folder below it.
pub struct Project {
    pub root: PathBuf,
    last: String,
}
impl Project {
    pub fn new(root: &str) -> Self {
        for d in ["R", "tests/testthat"] {
            std::fs::create_dir_all(Path::new(root).join(d)).expect("scratch");
        }
        Project { root: root.into(), last: "?".into() }
    }
    fn describe(&mut self, bounds: &[String], kind: usize) {
        let text = match (bounds.is_empty(), kind % 3) {
            (true, 0) => String::new(),
            (true, 1) => "Package: p\nDepends: methods\nImports: cli (>= 9.9.9)\n".into(),
            (true, _) => "Package: p\nDepends: R\n".into(),
            (false, k) => {
                let ds: Vec<String> = bounds.iter().map(|b| format!("R (>= {b})")).collect();
                format!("Package: p\nVersion: 9.9.9\nDepends:{}{}, methods\n", if k == 1 { "\n    " } else { " " }, ds.join(if k == 2 { ",\n  " } else { ", " }))
            }
        };
        if text != self.last {
            let p = self.root.join("DESCRIPTION");
            if text.is_empty() {
                let _ = std::fs::remove_file(p);
            } else {
                std::fs::write(p, &text).expect("scratch");
            }
            self.last = text;
        }
    }
    pub fn active(&mut self, r: &Value, variant: usize) -> Result<Vec<Rule>, String> {
        let cli = |n: &str| list(&r[n]).map(|l| l.join(",")).unwrap_or_default();
        let args = ArgsConfig {
            select: cli("csel"),
            extend_select: cli("cext"),
            ignore: cli("cign"),
            min_r_version: dotted(&r["cver"], variant % 2 == 0),
            ..lint::args()
        };
        let bounds: Vec<String> = r["desc"].as_array().unwrap().iter().map(|v| dotted(v, variant % 2 == 1).unwrap()).collect();
        self.describe(&bounds, variant / 2);
        let lists = [toml_list("select", &list(&r["fsel"])), toml_list("extend-select", &list(&r["fext"])), toml_list("ignore", &list(&r["fign"]))];
        let settings: Option<Settings> = if lists.iter().all(|l| l.is_empty()) && variant % 4 != 3 {
            None
        } else {
            let mut text = String::from("[lint]\n");
            for k in 0..3 {
                text += &lists[(k + variant) % 3];
            }
            let o: TomlOptions = toml::from_str(&text).map_err(|e| format!("harness: {e}"))?;
            Some(o.into_settings(&self.root).map_err(|e| format!("harness: {e}"))?)
        };
        let file = self.root.join(["a.R", "R/a.R", "tests/testthat/a.R"][variant % 3]);
        match guarded(|| build_config(&args, settings.as_ref(), vec![file])) {
            Err(p) => Err(format!("crash: {p}")),
            Ok(Err(e)) => Err(format!("refused: {e}")),
            Ok(Ok(c)) => {
                // without a fix option the rules applied are the active rules
                let a: Vec<Rule> = c.rules.iter().copied().collect();
                let b: Vec<Rule> = c.rules_to_apply.iter().copied().collect();
                if a != b { Err("crash: the rules applied differ from the rules selected".into()) } else { Ok(a) }
            }
        }
    }
}

pub fn replay(path: &str, dir: &str, table: &str) {
    let names: Vec<String> = std::fs::read_to_string(table).unwrap().split_whitespace().map(|s| s.to_string()).collect();
    let mut pr = Project::new(dir);
    let mut n = 0usize;
    for v in lines(path) {
        let r = &v["r"];
        at(|| r.to_string());
        n += 1;
        let fail = v["failed"].as_bool().unwrap();
        match pr.active(r, n) {
            Err(e) if e.starts_with("refused: Unknown rules") => {
                if !fail {
                    bad(e, r.clone())
                }
            }
            Err(e) => bad(e, r.clone()),
            Ok(got) => {
                if fail {
                    bad("an unknown rule name was accepted", r.clone());
                    continue;
                }
                let mut got: Vec<&str> = got.iter().map(|r| r.name()).collect();
                got.sort();
                let mut want: Vec<&str> = v["active"].as_array().unwrap().iter().map(|i| names[i.as_u64().unwrap() as usize - 1].as_str()).collect();
                want.sort();
                if got != want {
                    let extra: Vec<_> = got.iter().filter(|x| !want.contains(x)).collect();
                    let missing: Vec<_> = want.iter().filter(|x| !got.contains(x)).collect();
                    bad(format!("active rules: {extra:?} too many, {missing:?} missing"), r.clone());
                }
            }
        }
    }
    out(json!({"replayed": n}));
}

pub fn record(seed: u64, n: usize, path: &str, dir: &str) {
    let mut rng = Rng::new(seed);
    let mut w = Out::new(path);
    let mut pr = Project::new(dir);
    const GROUPS: &[&str] = &["PERF", "READ", "SUSP", "CORR", "COMM", "TESTTHAT", "ALL"];
    const BAD: &[&str] = &["foo", "perf", "all", "any_is_n", "any_is_na_", "Any_is_na", "PERF READ", "*", "grepvv", "COM", "any-is-na", "TESTTHATS"];
    let all = Rule::all();
    let versions = [[4, 0, 0], [4, 1, 0], [4, 3, 2], [4, 4, 0], [4, 4, 9], [4, 5, 0], [5, 0, 0], [3, 6, 3], [4, 3, 9], [3, 9, 9], [4, 10, 0], [10, 0, 0], [4, 5, 1]];
    let list = |rng: &mut Rng, given: usize, badly: bool, file: bool| -> Value {
        if !rng.chance(given, 10) {
            return json!([]);
        }
        let k = if file { rng.below(6) } else { rng.range(1, 5) };
        let mut l: Vec<String> = (0..k)
            .map(|_| match rng.below(20) {
                0..=10 => rng.pick(all).name().to_string(),
                11..=17 => rng.pick(&GROUPS[..6]).to_string(),
                _ => "ALL".to_string(),
            })
            .collect();
        if badly {
            let i = rng.below(l.len() + 1);
            l.insert(i, rng.pick(BAD).to_string());
        }
        json!([l])
    };
    for i in 0..n {
        let wrong = if rng.chance(1, 6) { Some(rng.below(6)) } else { None };
        let mut slots = vec![];
        for k in 0..6 {
            let given = [5, 3, 4, 6, 4, 5][k];
            slots.push(list(&mut rng, given, wrong == Some(k), k >= 3));
        }
        let cver = if rng.chance(1, 3) { json!(rng.pick(&versions)) } else { json!([]) };
        let desc: Vec<_> = (0..rng.below(3)).map(|_| *rng.pick(&versions)).collect();
        let r = json!({"csel": slots[0], "cext": slots[1], "cign": slots[2], "fsel": slots[3], "fext": slots[4], "fign": slots[5], "cver": cver, "desc": desc});
        at(|| r.to_string());
        match pr.active(&r, i) {
            Err(e) if e.starts_with("refused: Unknown rules") => w.put(json!({"r": r, "failed": true, "active": []})),
            Err(e) => bad(e, r.clone()),
            Ok(a) => w.put(json!({"r": r, "failed": false, "active": a.iter().map(|r| r.name()).collect::<Vec<_>>()})),
        }
    }
    out(json!({"recorded": n}));
}
