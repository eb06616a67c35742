//! F01: one fixing pass (spec/ApplyFixes.tla).
use biome_rowan::{TextRange, TextSize};
use jarl_core::diagnostic::{Diagnostic, Fix, ViolationData};
use jarl_core::fix::apply_fixes;
use serde_json::{Value, json};
use vcommon::*;

fn byte_at(text: &str, chars: usize) -> usize {
    text.char_indices().nth(chars).map(|x| x.0).unwrap_or(text.len())
}
fn diagnostic(text: &str, f: &Value, v: usize) -> Diagnostic {
    let s = byte_at(text, f["s"].as_u64().unwrap() as usize);
    let e = byte_at(text, f["e"].as_u64().unwrap() as usize);
    let skip = f["skip"].as_bool().unwrap();
    let c = concretise(&f["c"], v);
    // a violation without a fix has a range of its own
    let r = if skip { TextRange::new(TextSize::from(0u32), TextSize::from(text.len() as u32)) } else { TextRange::new(TextSize::from(s as u32), TextSize::from(e as u32)) };
    let fix = if skip { Fix::empty() } else { Fix { content: c, start: s, end: e, to_skip: false } };
    Diagnostic::new(ViolationData::new("any_is_na".into(), "b".into(), None), r, fix)
}
fn run(text: &str, fixes: &[Value], v: usize) -> Result<(bool, String), String> {
    let ds: Vec<_> = fixes.iter().map(|f| diagnostic(text, f, v)).collect();
    guarded(|| apply_fixes(&ds, text)).map_err(|p| format!("crash: {p}"))
}

pub fn replay(path: &str) {
    let mut n = 0usize;
    for v in lines(path) {
        let text = concretise(&v["t"], n);
        let fs = v["f"].as_array().unwrap();
        at(|| v.to_string());
        match run(&text, fs, n) {
            Err(e) => bad(format!("fixing pass: {e}"), json!({"text": text, "fixes": fs})),
            Ok((k, r)) => {
                if !v["ok"].as_array().unwrap().iter().any(|o| o["k"] == json!(k) && concretise(&o["t"], n) == r) {
                    bad(format!("fixing pass gave {r:?} (left fixes out: {k}), which is not the proposed edits applied to {text:?}"), json!({"text": text, "fixes": fs, "allowed": v["ok"]}));
                }
            }
        }
        n += 1;
    }
    out(json!({"replayed": n}));
}

pub fn record(seed: u64, n: usize, path: &str) {
    let mut rng = Rng::new(seed);
    let mut w = Out::new(path);
    let al = ["a", "b", "nl", "e2", "e3", "e4", "cr"];
    let word = |rng: &mut Rng, k: usize| -> Vec<Value> { (0..rng.below(k + 1)).map(|_| json!(rng.pick(&al))).collect() };
    for i in 0..n {
        let t = word(&mut rng, 24);
        let len = t.len();
        let sorted = rng.chance(2, 3);
        let mut fs: Vec<Value> = (0..rng.below(7))
            .map(|_| {
                if rng.chance(1, 5) {
                    return json!({"s": 0, "e": 0, "c": [], "skip": true});
                }
                let s = rng.below(len + 1);
                let e = (s + rng.below(6)).min(len);
                let mut c = word(&mut rng, 9);
                if s == e && c.is_empty() {
                    c.push(json!("a"));
                }
                json!({"s": s, "e": e, "c": c, "skip": false})
            })
            .collect();
        // no two insertions at one place (their order would be open)
        let mut seen = vec![];
        fs.retain(|f| f["skip"] == json!(true) || f["s"] != f["e"] || { let d = !seen.contains(&f["s"]); seen.push(f["s"].clone()); d });
        if sorted {
            fs.sort_by_key(|f| (f["s"].as_u64(), std::cmp::Reverse(f["e"].as_u64())));
        }
        let text = concretise(&Value::Array(t.clone()), i);
        at(|| json!({"text": text, "fixes": fs}).to_string());
        match run(&text, &fs, i) {
            Err(e) => bad(format!("fixing pass: {e}"), json!({"text": text, "fixes": fs})),
            Ok((k, r)) => w.put(json!({"t": t, "f": fs, "k": k, "r": abstracts(&r), "text": text, "result": r})),
        }
    }
    out(json!({"recorded": n}));
}
