//! M01: extraction of R chunks (spec/Notebook.tla).
use hcore::rmd::extraction::extract_r_chunks;
use serde_json::{Value, json};
use vcommon::*;

/// The text of one abstract line (without line ending); `v` picks among equivalent spellings.
fn line(t: &str, v: usize) -> String {
    let (k, n) = t.split_at(t.len() - 1);
    let ticks = "`".repeat(n.parse::<usize>().unwrap());
    let p = |a: &[&str]| a[v % a.len()].to_string();
    let ind = p(&["", "  ", "\t", "", " \t "]);
    match k {
        "r" => format!("{ind}{ticks}{{{}}}{}", p(&["r", "R"]), p(&["", " ", "", "\t"])),
        "ropt" => format!("{ind}{ticks}{{{}}}", p(&["r label", "r, echo=FALSE", "r é, fig.cap='日本'", "R label, eval = TRUE", "r ", "r,include=F", "r\tx"])),
        "rbr" => format!("{ind}{ticks}{{r, cap = \"{{}}\"}}"),
        "other" => format!("{ind}{ticks}{{{}}}", p(&["python", "rust", "ruby", "Rcpp", "r2", "verbatim", "rr, echo=FALSE", "R_x", "bash opt", "sql, connection=con"])),
        "disp" => format!("{ind}{ticks}{}", p(&["r", "R", "markdown", "r label", " r"])),
        "cls" => format!("{ind}{ticks}{{{}}}", p(&[".r", "=html", "#id .R", ".r .numberLines", " r", "-r", "{r}", "é"])),
        "gap" => format!("{ind}{ticks} {{r}}"),
        "noend" => format!("{ind}{ticks}{{r"),
        "tilde" => format!("{ind}{}{{r}}", "~".repeat(n.parse::<usize>().unwrap())),
        "tfence" => format!("{ind}{}", "~".repeat(n.parse::<usize>().unwrap())),
        "fence" => format!("{ind}{ticks}{}", p(&["", "  ", "\t"])),
        "fencex" => format!("{ind}{ticks}{}", p(&["x", " x", ".", " `"])),
        "mid" => format!("{}{ticks}{{r}}", p(&["x ", "- ", "é", "> "])),
        "text" => p(&["x <- 1", "any(is.na(x))  ", "日本 <- 'é'", "  y", "# {r}", "#| label: a", "🦀", "`{r}`", "- item"]),
        "blank" => p(&["", "", "  ", "\t"]),
        _ => panic!("line {t}"),
    }
}

/// Renders the lines; returns the text and the byte offset at which every line starts.
fn render(ts: &[String], v: usize, eol: usize, last: bool) -> (String, Vec<usize>) {
    let (mut s, mut at) = (String::new(), vec![]);
    for (i, t) in ts.iter().enumerate() {
        at.push(s.len());
        s.push_str(&line(t, v.wrapping_mul(31).wrapping_add(i * 7 + v / 5)));
        if i + 1 < ts.len() || last {
            s.push_str(match eol {
                0 => "\n",
                1 => "\r\n",
                _ => {
                    if (v + i) % 2 == 0 { "\n" } else { "\r\n" }
                }
            });
        }
    }
    at.push(s.len());
    (s, at)
}
fn toks(v: &Value) -> Vec<String> {
    v.as_array().unwrap().iter().map(|x| x.as_str().unwrap().to_string()).collect()
}
/// The chunks as ranges of line numbers [first, last] (empty: first = last + 1).
fn observe(text: &str, at: &[usize]) -> Result<Value, String> {
    let got = guarded(|| extract_r_chunks(text).into_iter().map(|c| (c.start_byte, c.code)).collect::<Vec<_>>())
        .map_err(|p| format!("crash: {p}"))?;
    let mut out = vec![];
    for (s, code) in got {
        if s > text.len() || s + code.len() > text.len() || !text.is_char_boundary(s) || text.as_bytes()[s..s + code.len()] != *code.as_bytes() {
            return Err(format!("the code of a chunk is not the text at its position {s}: {code:?}"));
        }
        let (Some(a), Some(b)) = (at.iter().position(|x| *x == s), at.iter().rposition(|x| *x == s + code.len())) else {
            return Err(format!("a chunk does not consist of whole lines: {s} {code:?}"));
        };
        out.push(json!([a + 1, b]));
    }
    Ok(Value::Array(out))
}

pub fn replay(path: &str) {
    let mut n = 0;
    for v in lines(path) {
        let ts = toks(&v["t"]);
        for k in 0..2 {
            let (text, at_) = render(&ts, n * 2 + k, (n + k) % 3, (n / 3 + k) % 2 == 0);
            at(|| json!({"text": text}).to_string());
            match observe(&text, &at_) {
                Err(e) => bad(e, json!({"lines": ts, "text": text})),
                Ok(got) => {
                    if got != v["r"] {
                        bad(format!("chunks (line ranges): got {got}, specification says {}", v["r"]), json!({"lines": ts, "text": text}));
                    }
                }
            }
        }
        n += 1;
    }
    out(json!({"replayed": n}));
}

const KINDS: &[&str] = &["r3", "r3", "r4", "r5", "ropt3", "ropt3", "ropt4", "rbr3", "other3", "other4", "other5", "disp3", "disp4", "cls3", "gap3", "noend3", "tilde3", "tfence3",
    "r7", "ropt9", "other8", "fence7", "fence8", "fence9", "fence3", "fence3", "fence3", "fence4", "fence5", "fence2", "fencex3", "mid3", "r2", "text0", "text0", "text0", "blank0"];

pub fn record(seed: u64, n: usize, path: &str) {
    let mut rng = Rng::new(seed);
    let mut w = Out::new(path);
    for _ in 0..n {
        let ts: Vec<String> = (0..rng.below(30)).map(|_| rng.pick(KINDS).to_string()).collect();
        let (text, at_) = render(&ts, rng.below(1000), rng.below(3), rng.chance(1, 2));
        at(|| json!({"text": text}).to_string());
        match observe(&text, &at_) {
            Err(e) => bad(e, json!({"lines": ts, "text": text})),
            Ok(got) => w.put(json!({"t": ts, "r": got, "text": text})),
        }
    }
    for _ in 0..n {
        let s: String = (0..rng.below(40)).map(|_| *rng.pick(&["```", "````", "{r}", "{r", "}", "\n", "\r\n", "\r", "é", "x", " ", "`", "~~~", "\n```\n", "```{r}\n", "\u{2028}", "\u{85}"])).collect();
        at(|| json!({"text": s}).to_string());
        if let Err(p) = guarded(|| extract_r_chunks(&s)).map(|cs| {
            for c in &cs {
                if s.get(c.start_byte..c.start_byte + c.code.len()) != Some(c.code.as_str()) {
                    bad("the code of a chunk is not the text at its position", json!({"text": s}));
                }
            }
        }) {
            bad(format!("crash: {p}"), json!({"text": s}));
        }
    }
    out(json!({"recorded": n}));
}
