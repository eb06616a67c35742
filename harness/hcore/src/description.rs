//! R04: minimum R version from DESCRIPTION (spec/Description.tla).
use hcore::description::Description;
use serde_json::{Value, json};
use vcommon::*;

const V1: &[&str] = &["4.3.0", "3.5", "4.10", "4.1.2", "10.0.0"];
const V2: &[&str] = &["4.2.0", "3.6.1", "4.0", "2.15.0"];

fn conc(toks: &[String], v: usize, crlf: bool) -> String {
    let mut s = String::new();
    for t in toks {
        let p = |a: &[&str]| a[v % a.len()].to_string();
        s.push_str(&match t.as_str() {
            "Depends" => "Depends:".to_string(),
            "Imports" => p(&["Imports:", "Suggests:", "Title:", "depends:", "SystemRequirements:", "DependsNote:"]),
            "junk" => p(&["junk", "-----", "R (>= 9.9)", "R (>= 9.9.9), x", "é"]),
            "nl" => if crlf { "\r\n".into() } else { "\n".into() },
            "in" => p(&["    ", "\t", " ", "        "]),
            "sp" => p(&[" ", " ", "  ", "\t"]),
            "comma" => ",".into(),
            "R" => "R".into(),
            "Rx" => p(&["Rcpp", "RSQLite", "R6", "R.utils", "Rr"]),
            "pkg" => p(&["dplyr", "methods", "stats", "é", "data.table"]),
            "lp" => "(".into(),
            "rp" => ")".into(),
            "ge" => ">=".into(),
            "gt" => ">".into(),
            "eq" => "==".into(),
            "le" => p(&["<=", "<", "!="]),
            "v1" => V1[v % V1.len()].into(),
            "v2" => V2[v % V2.len()].into(),
            _ => panic!("token {t}"),
        });
    }
    s
}
fn observe(text: &str, v: usize) -> Result<Value, String> {
    match guarded(|| Description::get_depend_r_version(text)) {
        Err(p) => Err(format!("crash: {p}")),
        Ok(Err(e)) => Err(format!("failed: {e}")),
        Ok(Ok(vs)) => Ok(vs
            .into_iter()
            .map(|x| if x == V1[v % V1.len()] { "v1".into() } else if x == V2[v % V2.len()] { "v2".into() } else { x })
            .collect()),
    }
}
fn toks(v: &Value) -> Vec<String> {
    v.as_array().unwrap().iter().map(|x| x.as_str().unwrap().to_string()).collect()
}
pub fn replay(path: &str) {
    let mut n = 0;
    for v in lines(path) {
        let t = toks(&v["t"]);
        for k in 0..2 {
            let text = conc(&t, n + k, (n / 2 + k) % 3 == 0);
            at(|| json!({"text": text}).to_string());
            match observe(&text, n + k) {
                Err(e) => bad(e, json!({"text": text})),
                Ok(got) => {
                    if v["loose"] == false && got != v["r"] {
                        bad(format!("versions: got {got}, specification says {}", v["r"]), json!({"text": text}));
                    }
                }
            }
        }
        n += 1;
    }
    out(json!({"replayed": n}));
}
pub fn record(seed: u64, n: usize, path: &str) {
    let mut rng = Rng::new(seed);
    let mut w = Out::new(path);
    for _ in 0..n {
        let mut t: Vec<&str> = vec![];
        for _ in 0..rng.range(0, 7) {
            match rng.below(6) {
                0 | 1 => t.push("Depends"),
                2 => t.push("Imports"),
                3 | 4 => t.push("in"),
                _ => {
                    if rng.chance(1, 2) { t.push("junk") }
                    t.push("nl");
                    continue;
                }
            }
            // a continuation line may look like a field
            if t.last() == Some(&"in") && rng.chance(1, 5) { t.push(*rng.pick(&["Depends", "Imports"])); t.push("sp"); }
            for _ in 0..rng.below(4) {
                if rng.chance(2, 3) { t.push("sp") }
                t.push(*rng.pick(&["R", "R", "R", "Rx", "pkg"]));
                if rng.chance(2, 3) {
                    if rng.chance(3, 4) { t.push("sp") }
                    t.push("lp");
                    if rng.chance(1, 4) { t.push("sp") }
                    t.push(*rng.pick(&["ge", "ge", "ge", "gt", "eq", "le"]));
                    if rng.chance(3, 4) { t.push("sp") }
                    t.push(*rng.pick(&["v1", "v2"]));
                    if rng.chance(1, 4) { t.push("sp") }
                    t.push("rp");
                    if rng.chance(1, 4) { t.push("sp") }
                }
                if rng.chance(1, 3) { t.push("nl"); t.push("in"); }
                if rng.chance(9, 10) { t.push("comma") }
                if rng.chance(1, 4) { t.push("nl"); t.push("in"); }
            }
            if rng.chance(1, 8) && !t.is_empty() {
                let i = rng.below(t.len());
                if t[i] != "nl" && t[i] != "Depends" && t[i] != "Imports" && t[i] != "in" && t[i] != "junk" { t.remove(i); }
            }
            t.push("nl");
        }
        let t: Vec<String> = t.into_iter().map(String::from).collect();
        let v = rng.below(1000);
        let text = conc(&t, v, rng.chance(1, 4));
        at(|| json!({"text": text}).to_string());
        match observe(&text, v) {
            Err(e) => bad(e, json!({"text": text})),
            Ok(got) => w.put(json!({"t": t, "r": got, "text": text})),
        }
    }
    for _ in 0..n {
        let s: String = (0..rng.below(25)).map(|_| *rng.pick(&["Depends:", "Depends", ":", "\n", " ", "R ", "R", "(", ")", ">=", "<", ",", "4.1", "é", "\r", "\t", "\u{3000}", "R (", ")(", "\u{85}"])).collect();
        let s = format!("Depends: {s}");
        at(|| json!({"text": s}).to_string());
        if let Err(e) = observe(&s, 0) { bad(e, json!({"text": s})) }
    }
    out(json!({"recorded": n}));
}
