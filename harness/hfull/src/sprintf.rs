//! A04: formats of sprintf() (spec/Sprintf.tla).
use crate::lint;
use jarl_core::config::Config;
use rayon::prelude::*;
use serde_json::{Value, json};
use vcommon::*;

const QUOTES: &[(&str, &str)] = &[("\"", "\""), ("'", "'"), ("r\"(", ")\""), ("R'---[", "]---'")];
const ARGS: &[&str] = &["x", "f(a, b)", "1L", "\"%s\"", "x[1, 2]", "{y}"];

fn chars(v: &Value, k: usize) -> String {
    v.as_array()
        .unwrap()
        .iter()
        .map(|c| match c.as_str().unwrap() {
            "e2" => conc("e2", k),
            c => c.to_string(),
        })
        .collect()
}
fn literal(s: &str, k: usize) -> String {
    let (a, b) = QUOTES[k % QUOTES.len()];
    format!("{a}{s}{b}")
}
/// A call with `n` other arguments, one of which may be `...`.
fn call(f: &str, n: usize, dots: bool, k: usize) -> String {
    let mut args: Vec<String> = (0..n)
        .map(|i| {
            let a = ARGS[(k / 3 + i) % ARGS.len()];
            if (k + i) % 7 == 3 { format!("nm{i} = {a}") } else { a.into() }
        })
        .collect();
    if dots && n > 0 {
        args[k % n] = "...".into()
    }
    match k % 5 {
        // the format is given by name, in any place
        0 => args.insert((k / 5) % (n + 1), format!("fmt = {f}")),
        1 => args.insert((k / 5) % (n + 1), format!("fmt={f}")),
        _ => args.insert(0, f.into()),
    }
    let sep = [", ", ",", ",\n  ", " , "][k % 4];
    format!(
        "{}sprintf({})",
        if k % 6 == 5 { "base::" } else { "" },
        args.join(sep)
    )
}
/// what is reported for a call, and the text that a fix leaves
fn judge(call: &str, k: usize, cfg: &Config) -> Result<(String, Option<String>), String> {
    let (b, a) = [("", "\n"), ("y <- ", ""), ("# é\ng(", ")\n"), ("if (a) ", "\n")][k % 4];
    let text = format!("{b}{call}{a}");
    at(|| json!({"text": text}).to_string());
    let ds = lint::lint(&text, "a.R", cfg)?.ok_or("a valid text did not parse")?;
    match &ds[..] {
        [] => Ok(("none".into(), None)),
        [d] => {
            let (s, e) = (usize::from(d.range.start()), usize::from(d.range.end()));
            if (s, e) != (b.len(), b.len() + call.len()) {
                return Err(format!("reported at {:?}, not at the call", text.get(s..e)));
            }
            let m = d.message.body.as_str();
            let fixed = (!d.fix.content.is_empty()).then(|| d.fix.content.clone());
            if fixed.is_some() && ((d.fix.start, d.fix.end) != (s, e) || d.fix.to_skip) {
                return Err("the fix is not one of the whole call".into());
            }
            Ok((
                if m.contains("invalid") {
                    "invalid"
                } else if m.contains("Mismatch") {
                    "mismatch"
                } else if fixed.is_some() {
                    "constant"
                } else {
                    "useless"
                }
                .into(),
                fixed,
            ))
        }
        _ => Err(format!("reported {} times", ds.len())),
    }
}
/// vectors: {f: format, lit: what it is without the doubled percent signs, v: verdicts for 0 to 3 arguments, d: for `...`}
pub fn replay(path: &str) {
    let cfg = lint::selecting("sprintf");
    let all: Vec<Value> = lines(path).collect();
    let n: usize = all
        .par_iter()
        .enumerate()
        .map(|(i, v)| {
            let mut n = 0;
            for m in 0..5 {
                let k = i * 5 + m;
                let f = chars(&v["f"], k);
                let text = literal(&f, k / 2);
                let (c, want) = if m < 4 {
                    (call(&text, m, false, k), v["v"][m].as_str().unwrap())
                } else if k % 3 == 0 {
                    (format!("{text} |> sprintf()"), "none")
                } else {
                    (call(&text, 1, true, k), v["d"].as_str().unwrap())
                };
                let k = if c.contains("|>") { 0 } else { k };
                match judge(&c, k, &cfg) {
                    Err(e) => bad(e, json!({"call": c})),
                    Ok((got, fixed)) => {
                        if got != want {
                            bad(format!("judged {got}, the specification says {want}"), json!({"call": c}))
                        } else if let Some(x) = fixed {
                            let w = literal(&chars(&v["lit"], i * 5 + m), (i * 5 + m) / 2);
                            if x != w {
                                bad(format!("replaced by {x}, the specification says {w}"), json!({"call": c}))
                            }
                        }
                    }
                }
                n += 1;
            }
            n
        })
        .sum();
    out(json!({"replayed": n}));
}
pub fn record(seed: u64, n: usize, path: &str) {
    let mut rng = Rng::new(seed);
    let mut w = Out::new(path);
    let cfg = lint::selecting("sprintf");
    let pieces: &[&str] = &[
        "%", "%", "s", "d", "y", " ", "-", "0", "1", "2", "12", "$", "*", ".", "%s", "%d", "%1$s", "%2$s", "%5.2f", "%*d", "%.*e", "%-10s", "%%",
        "%*2$d", "%+.3E", "a", "G", "é", "text ", "#x", "%#X", "% i", "%10$s", "%a", "%o",
    ];
    for i in 0..n {
        let f: String = (0..rng.range(1, 9)).map(|_| *rng.pick(pieces)).collect();
        let (k, m) = (i + rng.below(1000), rng.below(6));
        let dots = m > 0 && rng.chance(1, 8);
        let c = call(&literal(&f, k / 2), m, dots, k);
        match judge(&c, k, &cfg) {
            Err(e) => bad(e, json!({"call": c})),
            Ok((v, fixed)) => {
                let (a, b) = QUOTES[k / 2 % QUOTES.len()];
                let seq = |s: &str| s.chars().map(|c| if c == 'é' { "e2".to_string() } else { c.to_string() }).collect::<Vec<_>>();
                let lit = fixed.as_deref().map(|x| seq(x.strip_prefix(a).and_then(|x| x.strip_suffix(b)).unwrap_or("?"))).unwrap_or_default();
                w.put(json!({"f": seq(&f), "n": m, "dots": dots, "v": v, "lit": lit, "call": c}));
            }
        }
    }
    out(json!({"recorded": n}));
}
