//! S02, S03: what suppression comments hide and what is reported about them
//! (spec/Suppress.tla).
use crate::lint;
use jarl_core::config::Config;
use serde_json::{Value, json};
use std::collections::{BTreeMap, BTreeSet};
use vcommon::*;

/// rule, code that violates it (an expression)
pub const RULES: &[(&str, &str)] = &[
    ("any_is_na", "any(is.na(x))"),
    ("any_duplicated", "any(duplicated(x))"),
    ("length_levels", "length(levels(x))"),
    ("lengths", "sapply(x, length)"),
    ("class_equals", "if (class(x) == \"a\") 1"),
    ("equals_na", "x == NA"),
    ("sort", "x[order(x)]"),
    ("length_test", "length(x == 1)"),
    ("which_grepl", "which(grepl(\"a\", x))"),
    ("numeric_leading_zero", ".5"),
    ("is_numeric", "is.numeric(x) || is.integer(x)"),
    ("matrix_apply", "apply(x, 1, sum)"),
    ("true_false_symbol", "T"),
    ("redundant_equals", "x == TRUE"),
    ("vector_logic", "if (x & y) 1"),
    ("repeat", "while (TRUE) { }"),
    ("download_file", "download.file(\"a\", \"b\")"),
    ("grepv", "grep(\"a\", x, value = TRUE)"),
];
/// a block that is part of a violation of the rule
pub const WRAPS: &[(&str, &str, &str)] = &[
    ("any_is_na", "any(is.na({", "}))"),
    ("any_duplicated", "any(duplicated({", "}))"),
    ("length_levels", "length(levels({", "}))"),
    ("lengths", "sapply({", "}, length)"),
    ("equals_na", "({", "}) == NA"),
    ("redundant_equals", "({", "}) == TRUE"),
];
pub const COMMENTS: &[(&str, &str)] = &[
    ("blanket", "blanket_suppression"),
    ("misnamed", "misnamed_suppression"),
    ("unexplained", "unexplained_suppression"),
    ("misplaced", "misplaced_suppression"),
    ("misplaced_file", "misplaced_file_suppression"),
    ("invalid_chunk", "invalid_chunk_suppression"),
    ("unmatched", "unmatched_range_suppression"),
    ("outdated", "outdated_suppression"),
];

pub struct Style {
    pub names: [(&'static str, &'static str); 2],
    pub rmd: bool,
    pub salt: u64,
}
#[derive(Clone)]
pub struct Line {
    pub k: String,
    pub r: String,
    pub t: String,
}
fn line(v: &Value) -> Line {
    let s = |i: usize| v[i].as_str().unwrap().to_string();
    Line { k: s(0), r: s(1), t: s(2) }
}

/// The text of a document; for every line of the text the line of the document (1-based; 0: none).
pub fn render(d: &[Line], st: &Style) -> (String, Vec<usize>) {
    let mut rng = Rng::new(st.salt);
    let code = |k: &str| matches!(k, "v" | "ok" | "fn" | "if" | "else" | "brace" | "call" | "wrap" | "close");
    let rule = |r: &str| if r == "B" { st.names[1] } else { st.names[0] };
    let wrap = |r: &str| WRAPS.iter().find(|w| w.0 == rule(r).0).expect("a rule with a block");
    let (mut text, mut map) = (String::new(), vec![]);
    let push = |text: &mut String, map: &mut Vec<usize>, l: &str, n: usize| {
        for x in l.split('\n') {
            text.push_str(x);
            text.push('\n');
            map.push(n);
        }
    };
    let mut stack: Vec<&str> = vec![];
    if st.rmd {
        push(&mut text, &mut map, if rng.chance(1, 2) { "---\ntitle: é\n---\n\n```{r}" } else { "```{r}" }, 0);
    }
    for (i, x) in d.iter().enumerate() {
        let n = i + 1;
        if x.k == "chunk" {
            // between two chunks: prose, chunks of other languages, chunks that do not parse
            push(&mut text, &mut map, rng.pick(&[
                "```\n\nSome *text* é.\n\n```{r, echo=FALSE}",
                "```\n```{r}",
                "```\n# jarl-ignore any_is_na: why\nany(is.na(x))\n```{r}",
                "```\n```{python}\n# jarl-ignore-file any_is_na: why\nany(is.na(x))\n# jarl-ignore\n```\n```{r}",
                "```\n```{r}\n# jarl-ignore-start any_is_na: why\nany(is.na(x)) + (\n# jarl-ignore\n```\n\n```{r}",
            ]), 0);
            continue;
        }
        if x.k == "torn" {
            push(&mut text, &mut map, rng.pick(&[
                "any(is.na(x)) + (\n```\n\n```{r}",
                "# jarl-ignore-file any_is_na: why\n# jarl-ignore-start any_is_na: why\nany(is.na(x)) {{\n```\n```{r}",
                "#| jarl-ignore-chunk:\n#|   - any_is_na: why\nx <- <- 1\n```\nprose\n```{r}",
                "# jarl-ignore\nf <- function(x) {\n  any(is.na(x)) # jarl-ignore any_is_na: why\n```\n\n```{r, eval=FALSE}",
            ]), 0);
            continue;
        }
        if !code(&x.k) {
            let (name, _) = rule(&x.r);
            let hash = if rng.chance(1, 4) { "#" } else { "# " };
            let why = *rng.pick(&["why", "because: of this", "# é", "x"]);
            let ind = *rng.pick(&["", "  ", "\t"]);
            let c = match x.k.as_str() {
                "node" => format!("{hash}jarl-ignore {name}: {why}"),
                "start" => format!("{hash}jarl-ignore-start {name}: {why}"),
                "end" => if rng.chance(1, 2) { format!("{hash}jarl-ignore-end {name}") } else { format!("{hash}jarl-ignore-end {name}: {why}") },
                "file" => format!("{hash}jarl-ignore-file {name}: {why}"),
                "hdr" => "#| jarl-ignore-chunk:".into(),
                "item" => format!("#|   - {name}: {why}"),
                "itembad" => format!("#|   - no_such_rule: {why}"),
                "itemno" => format!("#|   - {name}:"),
                "chunk1" => format!("#| jarl-ignore-chunk {name}: {why}"),
                "blanket" => "# jarl-ignore".into(),
                "badname" => format!("# jarl-ignore no_such_rule: {why}"),
                "noexpl" => format!("# jarl-ignore {name}"),
                _ => (*rng.pick(&["# a comment", "#", "# jarl is fine", "#' doc"])).to_string(),
            };
            push(&mut text, &mut map, &format!("{ind}{c}"), n);
            continue;
        }
        let inside_call = |s: &Vec<&str>| s.last() == Some(&"call");
        // is an argument followed by another one?
        let comma = |s: &Vec<&str>, from: usize| {
            inside_call(s) && d[from..].iter().find(|y| code(&y.k)).is_some_and(|y| y.k != "close")
        };
        let mut c = match x.k.as_str() {
            "v" => {
                let (_, e) = rule(&x.r);
                match rng.below(6) {
                    0 if !inside_call(&stack) => format!("y <- {e}"),
                    1 if inside_call(&stack) => format!("a = {e}"),
                    2 if !inside_call(&stack) => format!("y <-\n  f({e})"),
                    3 => format!("f(\n  1,\n  {e}\n)"),
                    4 if !inside_call(&stack) => format!("g({e}) |> h()"),
                    _ => e.to_string(),
                }
            }
            "ok" => (*rng.pick(&["f(y)", "1 + 1", "y", "\"# jarl-ignore any_is_na: no\"", "f(\n  z\n)"])).to_string(),
            "fn" => if inside_call(&stack) || rng.chance(1, 3) { "function(x) {".into() } else { "f <- function(x, y) {".into() },
            "if" => (*rng.pick(&["if (x) {", "if (f(x)) {"])).to_string(),
            "else" => "} else {".into(),
            "brace" => (*rng.pick(&["{", "for (i in y) {", "local({"])).to_string(),
            "wrap" => wrap(&x.r).1.into(),
            "call" => (*rng.pick(&["f(", "list(", "h(1)("])).to_string(),
            "close" => String::new(),
            k => panic!("line {k}"),
        };
        match x.k.as_str() {
            "fn" | "if" => stack.push("brace"),
            "brace" => stack.push(if c == "local({" { "local" } else { "brace" }),
            "call" => stack.push("call"),
            "wrap" => stack.push(wrap(&x.r).2),
            "close" => c = match stack.pop() { Some("call") => ")".into(), Some("local") => "})".into(), Some("brace") => "}".into(), w => w.unwrap().into() },
            _ => {}
        }
        if matches!(x.k.as_str(), "v" | "ok" | "close") && comma(&stack, i + 1) {
            c.push(',');
        }
        if !x.t.is_empty() {
            let (name, _) = rule(&x.t);
            c.push_str(&match rng.below(12) {
                0 => " # jarl-ignore".to_string(),
                1 => format!("  # jarl-ignore-start {name}: why"),
                2 => format!(" #jarl-ignore-file {name}: why"),
                3 => format!(" # jarl-ignore {name}"),
                4 => format!(" # jarl-ignore-file {name}:"),
                5 => " # jarl-ignore no_such_rule: why".to_string(),
                6 => format!("  # jarl-ignore-end {name}"),
                7 => format!(" # jarl-ignore-start {name}"),
                8 => format!(" # jarl-ignore-chunk {name}: why"),
                _ => format!(" # jarl-ignore {name}: why"),
            });
        }
        push(&mut text, &mut map, &c, n);
    }
    if st.rmd {
        push(&mut text, &mut map, "```", 0);
    } else if rng.chance(1, 3) {
        text.pop();
    }
    (text, map)
}

pub struct Found {
    pub rep: Vec<(usize, String)>,
    pub unused: Vec<usize>,
    pub defects: Vec<(usize, String)>,
}
pub fn found(text: &str, map: &[usize], st: &Style, cfg: &Config) -> Result<Option<Found>, String> {
    let Some(ds) = lint::lint(text, if st.rmd { "a.Rmd" } else { "a.R" }, cfg)? else { return Ok(None) };
    let mut f = Found { rep: vec![], unused: vec![], defects: vec![] };
    for d in ds {
        let s = usize::from(d.range.start());
        let n = map[text.as_bytes()[..s].iter().filter(|b| **b == b'\n').count().min(map.len() - 1)];
        let name = d.message.name.as_str();
        if let Some(i) = st.names.iter().position(|x| x.0 == name) {
            f.rep.push((n, if i == 0 { "A".into() } else { "B".into() }));
        } else if name == "outdated_suppression" {
            f.unused.push(n);
        } else if let Some(c) = COMMENTS.iter().find(|c| c.1 == name) {
            f.defects.push((n, c.0.to_string()));
        } else {
            return Err(format!("unexpected rule {name}"));
        }
    }
    Ok(Some(f))
}

pub fn replay(path: &str, rmd: bool, what: &str) {
    let (hide, account) = (what == "hide", what == "account");
    let all: Vec<&str> = COMMENTS.iter().map(|c| c.1).collect();
    let cfg = lint::selecting(&format!("any_is_na,any_duplicated,{}", all.join(",")));
    let mut n = 0usize;
    for v in lines(path) {
        let d: Vec<Line> = v["d"].as_array().unwrap().iter().map(line).collect();
        for w in 0..2 {
            let st = Style { names: [RULES[0], RULES[1]], rmd, salt: (n * 7 + w) as u64 };
            let (text, map) = render(&d, &st);
            at(|| json!({"text": text}).to_string());
            n += 1;
            let f = match found(&text, &map, &st, &cfg) {
                Err(e) => { bad(e, json!({"text": text})); continue }
                Ok(None) => { bad("a valid text did not parse", json!({"text": text})); continue }
                Ok(Some(f)) => f,
            };
            let mut faults: Vec<String> = vec![];
            let ints = |v: &Value| -> BTreeSet<usize> { v.as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as usize).collect() };
            // defects
            let mut want: Vec<(usize, String)> = v["defects"].as_array().unwrap().iter().map(|x| (x[0].as_u64().unwrap() as usize, x[1].as_str().unwrap().to_string())).collect();
            let mut got = f.defects.clone();
            want.sort();
            got.sort();
            if account && got != want {
                faults.push(format!("comments reported as {got:?}, they are {want:?}"));
            }
            // violations
            let viols = v["viols"].as_array().unwrap();
            let mut reps: BTreeMap<usize, usize> = BTreeMap::new();
            for (l, _) in &f.rep {
                *reps.entry(*l).or_default() += 1;
            }
            let unused: BTreeSet<usize> = f.unused.iter().copied().collect();
            let sups: Vec<usize> = v["sups"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as usize).collect();
            let mut used: BTreeSet<usize> = BTreeSet::new();
            for x in viols {
                let l = x["line"].as_u64().unwrap() as usize;
                let (cov, sure) = (ints(&x["cov"]), ints(&x["sure"]));
                match reps.remove(&l).unwrap_or(0) {
                    0 => {
                        if hide && cov.is_empty() {
                            faults.push(format!("the violation of line {l} is hidden by nothing, and not reported"));
                        } else if account && !cov.is_empty() && cov.iter().all(|i| unused.contains(&sups[*i - 1])) {
                            faults.push(format!("the violation of line {l} is hidden, but all comments covering it are reported as outdated"));
                        }
                        used.extend(cov);
                    }
                    1 => {
                        if hide && !sure.is_empty() {
                            faults.push(format!("the violation of line {l} is reported, despite the comment of line {}", sups[sure.first().unwrap() - 1]));
                        }
                    }
                    m if hide => faults.push(format!("the violation of line {l} is reported {m} times")),
                    _ => {}
                }
            }
            if hide && !reps.is_empty() {
                faults.push(format!("reported on lines without a violation: {reps:?}"));
            }
            let mut left = unused.clone();
            for (i, l) in sups.iter().enumerate() {
                left.remove(l);
                if account && !used.contains(&(i + 1)) && !unused.contains(l) {
                    faults.push(format!("the comment of line {l} hides nothing, and is not reported as outdated"));
                }
            }
            if account && (!left.is_empty() || unused.len() != f.unused.len()) {
                faults.push(format!("reported as outdated: {:?}", f.unused));
            }
            if !faults.is_empty() {
                bad(faults.join("; "), json!({"text": text}));
            }
        }
    }
    out(json!({"replayed": n}));
}

fn random_doc(rng: &mut Rng, rmd: bool, wraps: bool, max: usize) -> Vec<Line> {
    let mut d: Vec<Line> = vec![];
    let mut stack: Vec<&str> = vec![];
    let target = rng.range(1, max);
    let r = |rng: &mut Rng| (*rng.pick(&["A", "A", "B"])).to_string();
    let mut code_next = false;
    while d.len() < target {
        let t = if rng.chance(1, 12) { r(rng) } else { String::new() };
        let last = d.last().map(|x| x.k.clone()).unwrap_or("chunk".into());
        let mut add = |k: &str, r: String, t: String| d.push(Line { k: k.into(), r, t });
        if code_next {
            let k = *rng.pick(&["v", "ok"]);
            let x = if k == "v" { r(rng) } else { String::new() };
            add(k, x, t);
            code_next = false;
            continue;
        }
        if rmd && rng.chance(1, 3) && (last == "chunk" || last == "torn") {
            add("torn", String::new(), String::new());
            continue;
        }
        match rng.below(34) {
            0..=6 => { let x = r(rng); add("v", x, t) }
            7..=8 => add("ok", String::new(), t),
            9..=11 if stack.len() < 4 => {
                let k = *rng.pick(if wraps { &["fn", "if", "brace", "call", "wrap", "wrap"] } else { &["fn", "if", "brace", "call"] });
                stack.push(k);
                let x = if k == "wrap" { r(rng) } else { String::new() };
                add(k, x, t);
            }
            12 if stack.last() == Some(&"if") => {
                *stack.last_mut().unwrap() = "fn";
                add("else", String::new(), t);
            }
            13..=16 if !stack.is_empty() => {
                stack.pop();
                add("close", String::new(), t);
            }
            17 if rmd && stack.is_empty() => add("chunk", String::new(), String::new()),
            18..=22 => { let x = r(rng); add("node", x, String::new()) }
            23..=25 => { let x = r(rng); add("start", x, String::new()) }
            26..=28 => { let x = r(rng); add("end", x, String::new()) }
            29 => { let x = r(rng); add("file", x, String::new()) }
            30 => add("plain", String::new(), String::new()),
            31 => {
                let k = *rng.pick(&["blanket", "badname", "noexpl", "chunk1"]);
                let x = r(rng);
                add(k, x, String::new())
            }
            32 if rmd => {
                add("hdr", String::new(), String::new());
                for _ in 0..rng.below(3) {
                    let k = *rng.pick(&["item", "item", "itembad", "itemno"]);
                    let x = r(rng);
                    add(k, x, String::new());
                }
                code_next = rng.chance(1, 3);
            }
            _ => {}
        }
    }
    if code_next {
        d.push(Line { k: "ok".into(), r: String::new(), t: String::new() });
    }
    while stack.pop().is_some() {
        d.push(Line { k: "close".into(), r: String::new(), t: String::new() });
    }
    d
}

pub fn record(seed: u64, n: usize, path: &str, rmd: bool) {
    let mut rng = Rng::new(seed);
    let mut w = Out::new(path);
    for _ in 0..n {
        let wraps = rng.chance(1, 3);
        let d = random_doc(&mut rng, rmd, wraps, 26);
        let fit: Vec<usize> = (0..RULES.len()).filter(|i| !wraps || WRAPS.iter().any(|w| w.0 == RULES[*i].0)).collect();
        let a = rng.below(fit.len());
        let b = fit[(a + 1 + rng.below(fit.len() - 1)) % fit.len()];
        let a = fit[a];
        let mut sel: Vec<&(&str, &str)> = COMMENTS.iter().filter(|_| rng.chance(4, 5)).collect();
        if rng.chance(1, 2) {
            sel = COMMENTS.iter().collect();
        }
        let st = Style { names: [RULES[a], RULES[b]], rmd, salt: rng.next() };
        let mut rules: Vec<&str> = sel.iter().map(|c| c.1).collect();
        rules.extend([RULES[a].0, RULES[b].0]);
        let (text, map) = render(&d, &st);
        at(|| json!({"text": text}).to_string());
        match found(&text, &map, &st, &lint::selecting(&rules.join(","))) {
            Err(e) => bad(e, json!({"text": text})),
            Ok(None) => bad("a valid text did not parse", json!({"text": text})),
            Ok(Some(f)) => w.put(json!({
                "d": d.iter().map(|x| json!([x.k, x.r, x.t])).collect::<Vec<_>>(),
                "sel": sel.iter().map(|c| c.0).collect::<Vec<_>>(),
                "rep": f.rep, "unused": f.unused, "defects": f.defects, "text": text,
                "rules": [RULES[a].0, RULES[b].0],
            })),
        }
    }
    out(json!({"recorded": n}));
}
