//! R01: the rule registry (spec/Rules.tla).
use hcore::rule_set::*;
use serde_json::{Value, json};
use std::str::FromStr;
use vcommon::*;

fn fix(f: FixStatus) -> &'static str {
    match f {
        FixStatus::None => "none",
        FixStatus::Safe => "safe",
        FixStatus::Unsafe => "unsafe",
    }
}
fn names(it: impl Iterator<Item = Rule>) -> Vec<&'static str> {
    it.map(|r| r.name()).collect()
}
pub fn record(seed: u64, n: usize, path: &str) {
    let mut rng = Rng::new(seed);
    let mut w = Out::new(path);
    let all = Rule::all();
    for r in all {
        let v = r.minimum_r_version();
        w.put(json!({"k": "rule", "name": r.name(), "shown": r.to_string(),
            "cats": r.categories().iter().map(|c| c.as_str()).collect::<Vec<_>>(),
            "catshown": r.categories().iter().map(|c| c.to_string()).collect::<Vec<_>>(),
            "has": Category::ALL.iter().filter(|c| r.has_category(**c)).map(|c| c.as_str()).collect::<Vec<_>>(),
            "fix": fix(r.fix_status()), "flags": [r.has_no_fix(), r.has_safe_fix(), r.has_unsafe_fix()],
            "enabled": r.default_status() == DefaultStatus::Enabled, "dflags": [r.is_enabled_by_default(), r.is_disabled_by_default()],
            "min": v.map(|(a, b, c)| vec![a, b, c]).unwrap_or_default(),
            "dep": r.deprecation().map(|d| vec![d.version, d.replacement]).unwrap_or_default(), "isdep": r.is_deprecated()}));
    }
    w.put(json!({"k": "all", "n": names(all.iter().copied()), "m": names(RuleSet::all().iter().copied())}));
    w.put(json!({"k": "cats", "n": Category::ALL.iter().map(|c| c.as_str()).collect::<Vec<_>>()}));
    for c in Category::ALL {
        w.put(json!({"k": "bycat", "c": c.as_str(), "n": names(Rule::by_category(*c))}));
    }
    for (s, f) in [("none", FixStatus::None), ("safe", FixStatus::Safe), ("unsafe", FixStatus::Unsafe)] {
        w.put(json!({"k": "byfix", "f": s, "n": names(Rule::by_fix_status(f))}));
    }
    w.put(json!({"k": "byfix", "f": fix(FixStatus::default()), "n": names(Rule::by_fix_status(FixStatus::default()))}));
    w.put(json!({"k": "bydef", "e": true, "n": names(Rule::enabled_by_default())}));
    w.put(json!({"k": "bydef", "e": false, "n": names(Rule::disabled_by_default())}));
    let lookup = |w: &mut Out, s: &str| {
        at(|| s.to_string());
        let r = guarded(|| Rule::from_name(s).map(|r| r.name()).unwrap_or("-"));
        match r {
            Ok(r) => w.put(json!({"k": "lookup", "s": s, "r": r})),
            Err(p) => bad(format!("crash: {p}"), json!({"name": s})),
        }
        let r = guarded(|| Category::from_str(s).map(|c| c.as_str()).unwrap_or("-"));
        match r {
            Ok(r) => w.put(json!({"k": "catlookup", "s": s, "r": r})),
            Err(p) => bad(format!("crash: {p}"), json!({"category": s})),
        }
    };
    for r in all {
        lookup(&mut w, r.name());
        lookup(&mut w, &format!("{r:?}"));
    }
    for c in ["COMM", "CORR", "SUSP", "PERF", "READ", "TESTTHAT", "ALL", "", "perf", "Perf", "unused_suppression", "-", "NONE"] {
        lookup(&mut w, c);
    }
    for _ in 0..n {
        // near misses of names
        let mut s: Vec<char> = if rng.chance(4, 5) { rng.pick(all).name().chars().collect() } else { rng.pick(Category::ALL).as_str().chars().collect() };
        for _ in 0..rng.range(1, 2) {
            let i = rng.below(s.len() + 1);
            match rng.below(5) {
                0 if i < s.len() => { s.remove(i); }
                1 => s.insert(i, *rng.pick(&['_', 's', ' ', 'é', 'A', '2'])),
                2 if i < s.len() => s[i] = *rng.pick(&['_', '-', 'a', 'A', '.']),
                3 if i < s.len() => s[i] = s[i].to_ascii_uppercase(),
                _ => { let c: String = s.iter().collect(); s = if rng.chance(1, 2) { c.to_uppercase() } else { format!("{c} ") }.chars().collect(); }
            }
        }
        lookup(&mut w, &s.iter().collect::<String>());
    }
    // rule sets: construction, membership, filtering
    for _ in 0..n {
        let xs: Vec<Rule> = (0..rng.below(8)).map(|_| *rng.pick(all)).collect();
        let ys: Vec<Rule> = (0..rng.below(5)).map(|_| if !xs.is_empty() && rng.chance(1, 2) { *rng.pick(&xs) } else { *rng.pick(all) }).collect();
        let q = if !xs.is_empty() && rng.chance(1, 2) { *rng.pick(&xs) } else { *rng.pick(all) };
        let how = rng.below(4);
        let r = guarded(|| {
            let s = match how {
                0 => RuleSet::from_rules(xs.clone()),
                1 => xs.iter().copied().collect(),
                2 => xs.iter().collect(),
                _ => if xs.is_empty() { RuleSet::empty() } else { RuleSet::all().filter(|r| xs.contains(r)) },
            };
            let f = s.clone().filter(|r| !ys.contains(r));
            json!({"k": "set", "how": how, "xs": names(xs.iter().copied()), "ys": names(ys.iter().copied()), "q": q.name(),
                "s": names(s.iter().copied()), "f": names(f.iter().copied()), "len": s.len(), "empty": s.is_empty(), "has": s.contains(&q), "hasname": s.contains_name(q.name()),
                "bogus": s.contains_name("nope") })
        });
        match r {
            Ok(v) => w.put(v),
            Err(p) => bad(format!("crash: {p}"), Value::Null),
        }
    }
    out(json!({"recorded": n}));
}
