//! S01: classification of comments (spec/Directive.tla).
use hcore::directive::{DirectiveParseResult as P, LintDirective as D, *};
use hcore::rule_set::Rule;
use serde_json::{Value, json};
use vcommon::*;

struct Conc {
    r1: &'static str,
    r2: &'static str,
    v: usize,
}
const WORDS: &[&str] = &["because", "why", "é", "日本", "x", "🦀z", "a#b", "jarl", "(ok)", "'q'", "%in%", "\\n", "0"];
const BADS: &[&str] = &["nope", "any_is", "any_is_naa", "ANY_IS_NA", "Seq", "PERF", "ALL", "any_is_na;", "seqé", "any-is-na", "_", "any_is_na,seq"];

fn conc(toks: &[String], c: &Conc) -> String {
    let mut s = String::new();
    for t in toks {
        match t.as_str() {
            "hash" => s.push('#'),
            "pipe" => s.push('|'),
            "sp" => s.push(' '),
            "tab" => s.push('\t'),
            "wide" => s.push('\u{3000}'),
            "cr" => s.push('\r'),
            "kw" => s.push_str("jarl-ignore"),
            "file" => s.push_str("-file"),
            "start" => s.push_str("-start"),
            "end" => s.push_str("-end"),
            "chunk" => s.push_str("-chunk"),
            "dash" => s.push('-'),
            "colon" => s.push(':'),
            "r1" => s.push_str(c.r1),
            "r2" => s.push_str(c.r2),
            "bad" => s.push_str(BADS[c.v % BADS.len()]),
            "word" => s.push_str(WORDS[c.v % WORDS.len()]),
            _ => panic!("token {t}"),
        }
    }
    s
}

fn observe(kind: &str, text: &str, c: &Conc) -> Value {
    let rule = |r: Rule| {
        let n = r.name();
        if n == c.r1 { "r1".to_string() } else if n == c.r2 { "r2".into() } else { n.into() }
    };
    let res = |p: P| match p {
        P::Valid(D::Ignore(r)) => json!({"c": "valid", "k": "next", "r": rule(r)}),
        P::Valid(D::IgnoreChunk(r)) => json!({"c": "valid", "k": "chunk", "r": rule(r)}),
        P::Valid(D::IgnoreFile(r)) => json!({"c": "valid", "k": "file", "r": rule(r)}),
        P::Valid(D::IgnoreStart(r)) => json!({"c": "valid", "k": "start", "r": rule(r)}),
        P::Valid(D::IgnoreEnd(r)) => json!({"c": "valid", "k": "end", "r": rule(r)}),
        P::BlanketSuppression => json!({"c": "blanket", "k": "", "r": ""}),
        P::MissingExplanation => json!({"c": "unexplained", "k": "", "r": ""}),
        P::InvalidRuleName => json!({"c": "misnamed", "k": "", "r": ""}),
    };
    let none = json!({"c": "none", "k": "", "r": ""});
    match kind {
        "comment" => parse_comment_directive(text).map(res).unwrap_or(none),
        "item" => parse_quarto_chunk_array_item(text).map(res).unwrap_or(none),
        "header" => json!({"c": if is_quarto_chunk_array_header(text) { "header" } else { "none" }, "k": "", "r": ""}),
        _ => panic!(),
    }
}
fn toks(v: &Value) -> Vec<String> {
    v.as_array().unwrap().iter().map(|x| x.as_str().unwrap().to_string()).collect()
}

pub fn replay(path: &str) {
    let all = Rule::all();
    let mut n = 0usize;
    for v in lines(path) {
        let t = toks(&v["t"]);
        let c = Conc { r1: all[n % all.len()].name(), r2: all[(n / 3 + 1 + n) % all.len()].name(), v: n };
        let c = if c.r1 == c.r2 { Conc { r2: all[(n + 7) % all.len()].name(), ..c } } else { c };
        let text = conc(&t, &c);
        for (kind, want) in [("comment", &v["c"]), ("item", &v["i"]), ("header", &v["h"])] {
            at(|| json!({"comment": text, "as": kind}).to_string());
            match guarded(|| observe(kind, &text, &c)) {
                Err(p) => bad(format!("crash: {p}"), json!({"text": text, "as": kind})),
                Ok(got) => {
                    if !want.as_array().unwrap().contains(&got) {
                        bad(format!("{kind} classified differently: got {got}, specification allows {want}"), json!({"text": text, "as": kind}));
                    }
                }
            }
        }
        n += 1;
    }
    out(json!({"replayed": n}));
}

pub fn record(seed: u64, n: usize, path: &str) {
    let mut rng = Rng::new(seed);
    let mut w = Out::new(path);
    let all = Rule::all();
    let alpha = ["hash", "pipe", "sp", "tab", "wide", "cr", "kw", "file", "start", "end", "chunk", "dash", "colon", "r1", "r2", "bad", "word"];
    for k in 0..n {
        let a = rng.below(all.len());
        let b = (a + 1 + rng.below(all.len() - 1)) % all.len();
        let c = Conc { r1: all[a].name(), r2: all[b].name(), v: rng.below(1000) };
        let mut t: Vec<String> = vec![];
        let mut put = |xs: &[&str]| t.extend(xs.iter().map(|x| x.to_string()));
        if k % 8 != 0 {
            // mostly shaped like a suppression
            if rng.chance(1, 5) { put(&[*rng.pick(&["sp", "tab", "wide"])]) }
            if rng.chance(1, 4) {
                put(&["hash", "pipe"]);
                for _ in 0..rng.below(4) { put(&[*rng.pick(&["sp", "sp", "tab", "wide"])]) }
                if rng.chance(2, 3) { put(&["dash"]) } else { put(&["kw", "chunk"]) }
            } else {
                put(&["hash"]);
                if rng.chance(4, 5) { put(&["sp"]) }
                if rng.chance(1, 12) { put(&[*rng.pick(&["sp", "tab", "hash"])]) }
                put(&["kw"]);
                if rng.chance(3, 5) { put(&[*rng.pick(&["file", "start", "end", "chunk", "chunk"])]) }
            }
            if rng.chance(9, 10) { put(&["sp"]) }
            if rng.chance(1, 6) { put(&[*rng.pick(&["sp", "tab", "wide"])]) }
            if rng.chance(9, 10) { put(&[*rng.pick(&["r1", "r1", "r1", "r2", "bad", "word"])]) }
            if rng.chance(1, 6) { put(&[*rng.pick(&["sp", "tab", "r2", "word", "dash"])]) }
            if rng.chance(9, 10) { put(&["colon"]) }
            for _ in 0..rng.below(5) { put(&[*rng.pick(&["sp", "sp", "tab", "word", "word", "colon", "r2", "bad", "kw", "hash", "wide"])]) }
            if rng.chance(1, 6) { put(&[*rng.pick(&["sp", "cr", "tab"])]) }
        } else {
            for _ in 0..rng.below(12) { put(&[*rng.pick(&alpha)]) }
        }
        if rng.chance(1, 6) && !t.is_empty() { let i = rng.below(t.len()); t.remove(i); }
        if rng.chance(1, 6) { let i = rng.below(t.len() + 1); t.insert(i, rng.pick(&alpha).to_string()); }
        let text = conc(&t, &c);
        let mut rec = json!({"t": t, "text": text, "rules": [c.r1, c.r2]});
        for kind in ["comment", "item", "header"] {
            at(|| json!({"comment": text, "as": kind}).to_string());
            rec[kind] = match guarded(|| observe(kind, &text, &c)) {
                Ok(v) => v,
                Err(p) => {
                    bad(format!("crash: {p}"), json!({"text": text, "as": kind}));
                    json!({"c": "crash", "k": "", "r": ""})
                }
            };
        }
        w.put(rec);
    }
    // raw byte soup: no crash
    for _ in 0..n {
        let s: String = (0..rng.below(20)).map(|_| *rng.pick(&['#', '|', ' ', '-', ':', 'j', 'é', '\u{3000}', '🦀', '\u{301}', '\0', 'a', '\u{feff}'])).collect();
        let s = if rng.chance(1, 2) { format!("{}{s}", rng.pick(&["#| jarl-ignore", "# jarl-ignore-end ", "#|", "# jarl-ignore-chunk ", "#jarl-ignore"])) } else { s };
        for kind in ["comment", "item", "header"] {
            at(|| json!({"comment": s, "as": kind}).to_string());
            let c = Conc { r1: "seq", r2: "seq2", v: 0 };
            if let Err(p) = guarded(|| observe(kind, &s, &c)) {
                bad(format!("crash: {p}"), json!({"text": s, "as": kind}));
            }
        }
    }
    out(json!({"recorded": n}));
}
