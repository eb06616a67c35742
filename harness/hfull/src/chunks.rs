//! M02: violations of notebooks (spec/ChunkMap.tla).
use crate::lint;
use serde_json::json;
use vcommon::*;

fn piece(p: &str, e: &str) -> String {
    match p {
        "prose" => "Some é text".into(),
        "blank" => "".into(),
        "open" => "```{r}".into(),
        "iopen" => "  ```{r, a=1}".into(),
        "other" => "```{python}".into(),
        "close" => "```".into(),
        "viol" => "any(is.na(x))".into(),
        "mb" => "\"€é\"; any(is.na(y))".into(),
        "in" => "  f(any(is.na(x)))".into(),
        "multi" => format!("any({e}  is.na(x){e})"),
        "ok" => "y <- 1".into(),
        "sup" => "# jarl-ignore any_is_na: z".into(),
        "broken" => "x <- (".into(),
        _ => panic!("line {p}"),
    }
}

pub fn replay(path: &str) {
    let cfg = lint::selecting("any_is_na");
    let mut n = 0usize;
    for v in lines(path) {
        let e = if v["e"] == 2 { "\r\n" } else { "\n" };
        let text: String = v["d"].as_array().unwrap().iter().map(|p| piece(p.as_str().unwrap(), e) + e).collect();
        at(|| json!({"text": text}).to_string());
        n += 1;
        for name in ["a.Rmd", "a.qmd"] {
            match lint::lint(&text, name, &cfg) {
                Err(x) => bad(x, json!({"text": text})),
                Ok(None) => bad("a notebook was rejected", json!({"text": text})),
                Ok(Some(ds)) => {
                    let got: Vec<(u64, u64)> = ds.iter().map(|d| (u32::from(d.range.start()) as u64, u32::from(d.range.end()) as u64)).collect();
                    let want: Vec<(u64, u64)> = v["w"].as_array().unwrap().iter().map(|w| (w[0].as_u64().unwrap(), w[1].as_u64().unwrap())).collect();
                    let mut sorted = got.clone();
                    sorted.sort();
                    if sorted != want || ds.iter().any(|d| d.message.name != "any_is_na" || !d.fix.to_skip) {
                        bad(format!("{name}: violations at bytes {got:?}, the code stands at {want:?}"), json!({"text": text}));
                    }
                }
            }
        }
    }
    out(json!({"replayed": n}));
}

const CODE: &[&str] = &[
    "any(is.na(x))", "  f(any(is.na(x)))", "\"€é\"; any(is.na(y))", "any(duplicated(é))", "y <- T", "x == NA", "f(", ")", "g <- function(x) {", "}", "# jarl-ignore any_is_na: é",
    "# jarl-ignore-start any_is_na: é", "# jarl-ignore-end any_is_na", "", "\t1", "x |>", "# note ```", "'multi", "line'", "if (x) {", "length(levels(x))", "#| echo: false", "# jarl-ignore",
    "#| jarl-ignore-chunk:", "#|   - any_is_na: why", "x[1] # jarl-ignore any_is_na: q", "while (TRUE) {", "sapply(x, length)", "r\"(raw \" string)\"",
];
const PROSE: &[&str] = &["Some é text", "", "# Title 🌍", "- item `any(is.na(x))`", "    indented", "``not a fence``", "`r any(is.na(x))`"];
const RULES: &str = "any_is_na,any_duplicated,true_false_symbol,equals_na,length_levels,repeat,lengths,blanket_suppression,misplaced_suppression,outdated_suppression,unmatched_range_suppression";

/// Random notebooks are also written to `dir`.
pub fn record(seed: u64, n: usize, path: &str, dir: &str) {
    let mut rng = Rng::new(seed);
    let mut w = Out::new(path);
    let cfg = lint::selecting(RULES);
    for i in 0..n {
        let e = if rng.chance(1, 4) { "\r\n" } else { "\n" };
        let (mut text, mut lens, mut belongs, mut codes) = (String::new(), vec![], vec![], vec![]);
        let mut add = |text: &mut String, l: &str, c: usize| {
            text.push_str(l);
            text.push_str(e);
            lens.push(l.len() + e.len());
            belongs.push(c);
        };
        let chunks = rng.range(0, 4);
        for c in 1..=chunks {
            for _ in 0..rng.below(3) {
                add(&mut text, rng.pick(PROSE), 0);
            }
            if rng.chance(1, 6) {
                add(&mut text, "```{python}", 0);
                add(&mut text, "any(is.na(x))", 0);
                add(&mut text, "```", 0);
            }
            let (o, k) = *rng.pick(&[("```{r}", "```"), ("```{r}", "```"), ("````{r, echo=FALSE}", "````"), ("  ```{R name}", "  ```"), ("```{r, fig.cap=\"é\"}", "```")]);
            add(&mut text, o, 0);
            let from = text.len();
            let lines = rng.below(7);
            for _ in 0..lines {
                add(&mut text, rng.pick(CODE), c);
            }
            if lines > 0 {
                codes.push((c, text[from..].to_string()));
            }
            add(&mut text, k, 0);
        }
        if rng.chance(1, 5) {
            add(&mut text, "```{r}", 0);
            add(&mut text, "any(is.na(x))", 0);
        }
        at(|| json!({"text": text}).to_string());
        let list = |ds: &[jarl_core::diagnostic::Diagnostic]| -> Vec<(String, u32, u32)> {
            ds.iter().map(|d| (d.message.name.clone(), d.range.start().into(), d.range.end().into())).collect()
        };
        let mut local = vec![];
        let mut ok = true;
        for (c, code) in &codes {
            match lint::lint(code, "a.R", &cfg) {
                Err(x) => { bad(x, json!({"text": code})); ok = false }
                Ok(None) => {}
                Ok(Some(ds)) => local.push(json!({"c": c, "v": list(&ds)})),
            }
        }
        match lint::lint(&text, "a.Rmd", &cfg) {
            Err(x) => bad(x, json!({"text": text})),
            Ok(None) => bad("a notebook was rejected", json!({"text": text})),
            Ok(Some(ds)) if ok => w.put(json!({"n": lens, "c": belongs, "local": local, "global": list(&ds), "text": text})),
            _ => {}
        }
        std::fs::write(format!("{dir}/n{i:05}.{}", rng.pick(&["Rmd", "qmd", "rmd", "Qmd"])), &text).unwrap();
    }
    out(json!({"recorded": n}));
}
