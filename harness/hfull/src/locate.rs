//! O01: rows and columns (spec/Locate.tla).
use crate::lint;
use serde_json::{Value, json};
use vcommon::*;

fn piece(p: &str, v: usize, last: bool) -> String {
    let e = |t: &str| conc(t, v);
    match p {
        "viol" => "any(is.na(x)); ".into(),
        "inner" => "f(any(is.na(x))); ".chars().take(17).collect(),
        "comm" => {
            let c = if v % 2 == 0 { "# jarl-ignore: why" } else { "#jarl-ignore   : y" };
            format!("{c}{}", if last && v % 3 == 0 { "" } else { "\n" })
        }
        "s2" => format!("\"{}\";", e("e2")),
        "s3" => format!("'{}';", if v % 3 == 2 { "€".into() } else { e("e3") }),
        "s4" => format!("\"{}a\";", e("e4")),
        "multi" => format!("\"{}\n{}\";", e("e2"), e("e3")),
        "nl" => "\n".into(),
        "crlf" => "\r\n".into(),
        "sp" => "  ".into(),
        "tab" => "\t".into(),
        "note" => format!("# {}\n", e("e2")),
        _ => panic!("piece {p}"),
    }
}
const RULES: &str = "any_is_na,blanket_suppression,misplaced_suppression";

/// A suppression without a rule is one of two defects, depending on what stands before it.
fn kind(rule: &str) -> String {
    if rule.ends_with("suppression") { "comment".into() } else { rule.into() }
}

pub fn replay(path: &str) {
    let cfg = lint::selecting(RULES);
    let (mut n, mut unparsed, mut known) = (0usize, 0usize, false);
    for v in lines(path) {
        let ps: Vec<&str> = v["d"].as_array().unwrap().iter().map(|x| x.as_str().unwrap()).collect();
        let text: String = ps.iter().enumerate().map(|(i, p)| piece(p, n + i, i + 1 == ps.len())).collect();
        at(|| json!({"text": text}).to_string());
        n += 1;
        match lint::lint(&text, "a.R", &cfg) {
            Err(e) => bad(e, json!({"text": text})),
            Ok(None) => unparsed += 1,
            Ok(Some(ds)) => {
                let mut got: Vec<(usize, usize, String)> = ds.iter().map(|d| { let l = d.location.unwrap_or_default(); (l.row(), l.column(), kind(&d.message.name)) }).collect();
                let mut want: Vec<(usize, usize, String)> = v["w"].as_array().unwrap().iter()
                    .map(|w| (w["at"][0].as_u64().unwrap() as usize, w["at"][1].as_u64().unwrap() as usize, kind(if w["p"] == "comm" { "blanket_suppression" } else { "any_is_na" }))).collect();
                got.sort();
                want.sort();
                // the listed finding: second line of a text that starts with a line break
                let shifted: Vec<_> = want.iter().map(|w| if w.0 == 2 && text.starts_with('\n') { (2, w.1 + 1, w.2.clone()) } else { w.clone() }).collect();
                if got != want && got == shifted {
                    if !known {
                        known = true;
                        bad(format!("reported at {got:?}, the code is at {want:?}"), json!({"text": text, "shape": "leading-newline-row-2"}));
                    }
                } else if got != want {
                    bad(format!("reported at {got:?}, the code is at {want:?}"), json!({"text": text}));
                }
            }
        }
    }
    if unparsed > 0 {
        bad(format!("{unparsed} valid texts did not parse"), json!({}));
    }
    out(json!({"replayed": n}));
}

/// Writes random files into `dir`; the driver runs the command line on them.
pub fn record(seed: u64, n: usize, path: &str, dir: &str) {
    let mut rng = Rng::new(seed);
    let mut w = Out::new(path);
    let cfg = lint::selecting(RULES);
    let kinds = ["viol", "inner", "comm", "s2", "s3", "s4", "multi", "nl", "crlf", "sp", "tab", "note", "viol", "nl", "nl"];
    for i in 0..n {
        let k = rng.range(1, 14);
        let text: String = (0..k).map(|j| piece(rng.pick(&kinds), rng.below(12), j + 1 == k)).collect();
        // every third text is a chunk of a notebook
        let rmd = i % 3 == 2;
        let text = if rmd { format!("{}```{{r}}\n{text}\n```\n", rng.pick(&["", "é€\n\n", "# A title\n```{r}\n1\n```\n"])) } else { text };
        at(|| json!({"text": text}).to_string());
        match lint::lint(&text, if rmd { "a.Rmd" } else { "a.R" }, &cfg) {
            Err(e) => bad(e, json!({"text": text})),
            Ok(None) => bad("a valid text did not parse", json!({"text": text})),
            Ok(Some(ds)) => {
                let name = format!("f{i:04}.{}", if rmd { "Rmd" } else { "R" });
                std::fs::write(format!("{dir}/{name}"), &text).unwrap();
                for d in ds {
                    let (s, l) = (usize::from(d.range.start()), d.location.unwrap_or_default());
                    if !text.is_char_boundary(s) {
                        bad("a reported range starts inside a character", json!({"text": text}));
                        continue;
                    }
                    let want = if d.message.name == "any_is_na" { "any(is.na(x))" } else { "#" };
                    if !text[s..].starts_with(want) || text.get(s..usize::from(d.range.end())).is_none_or(|x| x.trim() != x || (want != "#" && x != want)) {
                        bad(format!("the range {:?} reported for {} is not that of the code", d.range, d.message.name), json!({"text": text}));
                    }
                    w.put(json!({"t": abstracts(&text), "k": text[..s].chars().count(), "api": [l.row(), l.column()], "file": name, "rule": d.message.name, "s": s}));
                }
            }
        }
    }
    let _: Option<Value> = None;
    out(json!({"recorded": n}));
}
