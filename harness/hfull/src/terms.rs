//! A03, F02: the pattern rules as a rewrite system over R expressions (spec/Rewrite.tla).
use crate::lint;
use air_r_parser::{RParserOptions, parse};
use air_r_syntax::{RSyntaxKind, RSyntaxNode};
use jarl_core::check::lint_fix;
use jarl_core::config::{ArgsConfig, Config};
use jarl_core::diagnostic::Diagnostic;
use jarl_core::package::PackageAnalysis;
use rayon::prelude::*;
use serde_json::{Value, json};
use std::collections::BTreeSet;
use std::path::PathBuf;
use std::sync::Arc;
use vcommon::*;

const BINARY: &[&str] = &[
    "=", "<-", "->", "~", "|", "||", "&", "&&", "==", "!=", "<", ">", "<=", ">=", "+", "*", "%in%",
    "%||%", "|>", "%>%", ":", "^",
];
pub const RULES: &str = "any_is_na,any_duplicated,length_levels,which_grepl,outer_negation,comparison_negation,redundant_equals,redundant_ifelse,length_test,equals_na,equals_nan,equals_null,all_equal,coalesce,assignment,unnecessary_nesting,is_numeric,sort,string_boundary,lengths,list2df,seq,seq2,sample_int,matrix_apply,system_file,grepv,fixed_regex,class_equals,vector_logic,if_always_true,repeat,true_false_symbol,numeric_leading_zero,expect_length,expect_named,expect_null,expect_s3_class,expect_true_false,expect_type,expect_not,expect_match,expect_no_match,empty_assignment,implicit_assignment,for_loop_index,for_loop_dup_index,duplicated_arguments,browser,undesirable_function,download_file";

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct Term(pub String, pub Vec<Term>);
impl Term {
    pub fn from(v: &Value) -> Term {
        let a = v.as_array().expect("term");
        Term(
            a[0].as_str().expect("op").into(),
            a[1..].iter().map(Term::from).collect(),
        )
    }
    pub fn json(&self) -> Value {
        let mut v = vec![json!(self.0)];
        v.extend(self.1.iter().map(Term::json));
        Value::Array(v)
    }
    fn parens(&self) -> usize {
        usize::from(self.0 == "(") + self.1.iter().map(Term::parens).sum::<usize>()
    }
    pub fn strip(&self) -> Term {
        if self.0 == "(" {
            return self.1[0].strip();
        }
        Term(self.0.clone(), self.1.iter().map(Term::strip).collect())
    }
}

/// A text, with the span of every subterm and of its operator.
pub struct Text {
    pub s: String,
    pub spans: Vec<(Vec<usize>, usize, usize, (usize, usize))>,
    style: u8,
    /// terms that stand at several places: rules compare them as text, so all are written alike
    twice: BTreeSet<Term>,
    rng: Rng,
    pub comments: Vec<String>,
}
impl Text {
    /// style 0: plain, 1: odd spacing, 2: comments between the tokens too
    fn gap(&mut self, deep: bool, plain: &str) {
        if self.style == 0 || !deep {
            self.s.push_str(plain);
            return;
        }
        if self.style == 2 && self.rng.chance(1, 6) {
            let c = format!("# c{} é", self.comments.len());
            self.s.push_str(&format!(" {c}\n  "));
            self.comments.push(c);
            return;
        }
        let pick = self.rng.below(6);
        self.s.push_str(match pick {
            0 => "\n  ",
            1 => "  ",
            2 if plain.is_empty() => " ",
            _ => plain,
        });
    }
    fn put(&mut self, t: &Term, path: &mut Vec<usize>, brackets: bool) {
        if self.style > 0 && self.twice.contains(t) {
            let style = std::mem::replace(&mut self.style, 0);
            self.put(t, path, brackets);
            self.style = style;
            return;
        }
        let start = self.s.len();
        let mut op = (0, 0);
        let n = t.1.len();
        let sub = |x: &mut Text, i: usize, path: &mut Vec<usize>, b: bool| {
            path.push(i + 1);
            x.put(&t.1[i], path, b);
            path.pop();
        };
        match t.0.as_str() {
            "(" => {
                self.s.push('(');
                self.gap(true, "");
                sub(self, 0, path, true);
                self.gap(true, "");
                self.s.push(')')
            }
            "{" => {
                self.s.push('{');
                self.gap(true, "\n");
                for i in 0..n {
                    sub(self, i, path, false);
                    self.s.push('\n')
                }
                self.s.push('}')
            }
            "!" => {
                self.s.push('!');
                self.gap(brackets && self.rng.0 % 2 == 0, "");
                sub(self, 0, path, brackets)
            }
            "neg" => {
                self.s.push('-');
                sub(self, 0, path, brackets)
            }
            "if" => {
                self.s.push_str("if (");
                self.gap(true, "");
                sub(self, 0, path, true);
                self.gap(true, "");
                self.s.push_str(") ");
                sub(self, 1, path, brackets);
                if n == 3 {
                    self.s.push_str(" else ");
                    sub(self, 2, path, brackets)
                }
            }
            "while" => {
                self.s.push_str("while (");
                self.gap(true, "");
                sub(self, 0, path, true);
                self.gap(true, "");
                self.s.push(')');
                op = (start, self.s.len());
                self.s.push(' ');
                sub(self, 1, path, brackets)
            }
            "for" => {
                self.s.push_str("for (");
                sub(self, 0, path, true);
                self.gap(true, " ");
                self.s.push_str("in ");
                sub(self, 1, path, true);
                self.gap(true, "");
                self.s.push_str(") ");
                sub(self, 2, path, brackets)
            }
            "repeat" => {
                self.s.push_str("repeat ");
                sub(self, 0, path, brackets)
            }
            "arg" => {
                self.s.push_str(&t.1[0].0);
                self.gap(true, " ");
                self.s.push('=');
                self.gap(true, " ");
                sub(self, 1, path, true)
            }
            "[" => {
                sub(self, 0, path, brackets);
                self.s.push('[');
                self.gap(true, "");
                sub(self, 1, path, true);
                self.gap(true, "");
                self.s.push(']')
            }
            o if BINARY.contains(&o) && n == 2 => {
                sub(self, 0, path, brackets);
                self.gap(brackets, " ");
                op = (self.s.len(), self.s.len() + o.len());
                self.s.push_str(o);
                self.gap(true, " ");
                sub(self, 1, path, brackets);
                if matches!(o, "|>" | "%>%") && t.1[1].1.is_empty() {
                    self.s.push_str("()");
                    self.spans.last_mut().unwrap().2 += 2;
                }
            }
            "str" => self.s.push_str("\"str\""),
            o if n == 0 && o.starts_with("s:") => self.s.push_str(&format!("{:?}", &o[2..])),
            o if n == 0 => self.s.push_str(o),
            o => {
                self.s.push_str(o);
                self.s.push('(');
                for i in 0..n {
                    if i > 0 {
                        self.s.push(',');
                        self.gap(true, " ")
                    } else {
                        self.gap(true, "")
                    }
                    sub(self, i, path, true);
                    self.gap(true, "");
                }
                self.s.push(')');
            }
        }
        self.spans.push((path.clone(), start, self.s.len(), op));
    }
    fn span(&self, path: &[usize]) -> (usize, usize, (usize, usize)) {
        let x = self.spans.iter().find(|x| x.0 == path).expect("path");
        (x.1, x.2, x.3)
    }
}
pub fn render(t: &Term, style: u8, seed: u64, before: &str) -> Text {
    fn count(t: &Term, seen: &mut BTreeSet<Term>, twice: &mut BTreeSet<Term>) {
        if !seen.insert(t.clone()) {
            twice.insert(t.clone());
        }
        for c in &t.1 {
            count(c, seen, twice)
        }
    }
    let mut twice = BTreeSet::new();
    count(t, &mut BTreeSet::new(), &mut twice);
    let mut x = Text {
        s: before.into(),
        spans: vec![],
        style,
        twice,
        rng: Rng::new(seed),
        comments: vec![],
    };
    x.put(t, &mut vec![], false);
    x
}

/// rules that may report what they do not fix
const UNFIXED: &[&str] = &[
    "coalesce",
    "redundant_ifelse",
    "assignment",
    "repeat",
    "vector_logic",
    "if_always_true",
    "true_false_symbol",
    "expect_match",
    "expect_no_match",
    "empty_assignment",
    "implicit_assignment",
    "for_loop_index",
    "for_loop_dup_index",
    "duplicated_arguments",
    "browser",
    "undesirable_function",
    "download_file",
];
/// The term of a parse tree; what the language of terms has no name for is an error.
pub fn read(n: &RSyntaxNode) -> Result<Term, String> {
    use RSyntaxKind::*;
    let kids: Vec<RSyntaxNode> = n.children().collect();
    let text = || n.text_trimmed().to_string();
    let op = || {
        n.tokens()
            .find(|_| true)
            .map(|t| t.text_trimmed().to_string())
            .unwrap_or_default()
    };
    let args = |l: &RSyntaxNode| -> Result<Vec<Term>, String> {
        let list = l
            .children()
            .find(|x| x.kind() == R_ARGUMENT_LIST)
            .ok_or("arguments")?;
        list.children()
            .map(|a| {
                let k: Vec<_> = a.children().collect();
                match &k[..] {
                    [v] if v.kind() != R_ARGUMENT_NAME_CLAUSE => read(v),
                    [c, v] if c.kind() == R_ARGUMENT_NAME_CLAUSE => {
                        let name = c.children().next().ok_or("name")?;
                        let name = Term(name.text_trimmed().to_string(), vec![]);
                        Ok(Term("arg".into(), vec![name, read(v)?]))
                    }
                    [c] if c.kind() == R_ARGUMENT_NAME_CLAUSE => {
                        let name = c.children().next().ok_or("name")?;
                        let name = Term(name.text_trimmed().to_string(), vec![]);
                        Ok(Term("arg".into(), vec![name, Term("".into(), vec![])]))
                    }
                    [] if a.text_trimmed().is_empty() => Ok(Term("".into(), vec![])),
                    _ => Err(format!("argument {}", a.text_trimmed())),
                }
            })
            .collect()
    };
    Ok(match n.kind() {
        R_PARENTHESIZED_EXPRESSION => Term("(".into(), vec![read(&kids[0])?]),
        R_BRACED_EXPRESSIONS => Term(
            "{".into(),
            kids[0]
                .children()
                .map(|x| read(&x))
                .collect::<Result<_, _>>()?,
        ),
        R_UNARY_EXPRESSION => Term(
            if op() == "-" { "neg".into() } else { op() },
            vec![read(&kids[0])?],
        ),
        R_BINARY_EXPRESSION => Term(op(), vec![read(&kids[0])?, read(&kids[1])?]),
        R_IF_STATEMENT => {
            let mut v = vec![read(&kids[0])?, read(&kids[1])?];
            if kids.len() > 2 {
                v.push(read(&kids[2].children().next().ok_or("else")?)?)
            }
            Term("if".into(), v)
        }
        R_CALL => {
            if kids[0].kind() != R_IDENTIFIER {
                return Err(format!("call of {}", kids[0].text_trimmed()));
            }
            Term(kids[0].text_trimmed().to_string(), args(&kids[1])?)
        }
        R_SUBSET => {
            let mut v = vec![read(&kids[0])?];
            v.extend(args(&kids[1])?);
            Term("[".into(), v)
        }
        R_STRING_VALUE => match text().trim_matches('"') {
            "str" => Term("str".into(), vec![]),
            s => Term(format!("s:{s}"), vec![]),
        },
        R_WHILE_STATEMENT => Term("while".into(), vec![read(&kids[0])?, read(&kids[1])?]),
        R_FOR_STATEMENT => Term(
            "for".into(),
            vec![read(&kids[0])?, read(&kids[1])?, read(&kids[2])?],
        ),
        R_REPEAT_STATEMENT => Term("repeat".into(), vec![read(&kids[0])?]),
        _ if kids.is_empty() => Term(text(), vec![]),
        k => return Err(format!("{k:?}: {}", text())),
    })
}
pub fn parsed(s: &str) -> Result<Vec<Term>, String> {
    let p = parse(s, RParserOptions::default());
    if p.has_error() {
        return Err("does not parse".into());
    }
    p.tree()
        .expressions()
        .into_iter()
        .map(|e| read(&e.into_syntax_()))
        .collect()
}
trait IntoNode {
    fn into_syntax_(self) -> RSyntaxNode;
}
impl IntoNode for air_r_syntax::AnyRExpression {
    fn into_syntax_(self) -> RSyntaxNode {
        self.into()
    }
}

pub struct Outcome {
    pub reported: Vec<(String, usize, usize, bool)>,
    pub fixed: String,
    pub left: Vec<Diagnostic>,
    pub again: String,
}
pub fn configs(arrow: &str) -> (Config, Arc<Config>) {
    let a = |fix: bool| ArgsConfig {
        select: RULES.into(),
        min_r_version: Some("9.9".into()),
        fix,
        unsafe_fixes: fix,
        assignment: Some(arrow.into()),
        ..lint::args()
    };
    (
        lint::config(&a(false), None).expect("configuration"),
        Arc::new(lint::config(&a(true), None).expect("configuration")),
    )
}
pub fn run(
    text: &str,
    dir: &str,
    plain: &Config,
    fix: &Arc<Config>,
    fixing: bool,
) -> Result<Outcome, String> {
    let diags = lint::lint(text, "a.R", plain)?.ok_or("the text is not parsed")?;
    let reported = diags
        .iter()
        .map(|d| {
            (
                d.message.name.clone(),
                usize::from(d.range.start()),
                usize::from(d.range.end()),
                !d.fix.to_skip,
            )
        })
        .collect();
    if !fixing {
        return Ok(Outcome {
            reported,
            fixed: String::new(),
            left: vec![],
            again: String::new(),
        });
    }
    let file = PathBuf::from(format!(
        "{dir}/t{}.R",
        rayon::current_thread_index().unwrap_or(999)
    ));
    std::fs::write(&file, text).map_err(|e| e.to_string())?;
    let go = || {
        guarded(|| lint_fix(&file, Arc::clone(fix), Arc::new(PackageAnalysis::default())))
            .map_err(|p| format!("crash while fixing: {p}"))
    };
    let left = match go()? {
        Ok(l) => l,
        Err(e) => {
            return Err(format!(
                "fixing fails: {e:#}; the file holds {:?}",
                std::fs::read_to_string(&file)
            ));
        }
    };
    let fixed = std::fs::read_to_string(&file).map_err(|e| e.to_string())?;
    let _ = go()?.map_err(|e| format!("fixing again fails: {e:#}"))?;
    let again = std::fs::read_to_string(&file).map_err(|e| e.to_string())?;
    Ok(Outcome {
        reported,
        fixed,
        left,
        again,
    })
}
/// where the violation of `rule` at `path` is reported
fn place(x: &Text, t: &Term, rule: &str, path: &[usize]) -> (usize, usize) {
    let (a, b, op) = x.span(path);
    if rule == "assignment" {
        let mut n = t;
        for i in path {
            n = &n.1[i - 1]
        }
        let mut p = path.to_vec();
        return if n.0 == "->" {
            p.push(2);
            (op.0, x.span(&p).1)
        } else {
            (a, op.1)
        };
    }
    if rule == "repeat" {
        return op;
    }
    if rule.starts_with("for_loop") {
        let (mut v, mut s) = (path.to_vec(), path.to_vec());
        v.push(1);
        s.push(2);
        // what is no loop has no such place
        let have = |p: &[usize]| x.spans.iter().find(|q| q.0 == p).map(|q| (q.1, q.2));
        return match (have(&v), have(&s)) {
            (Some(v), Some(s)) if x.s[a..].starts_with("for") => (v.0, s.1),
            _ => (usize::MAX, 0),
        };
    }
    if rule == "all_equal" && !path.is_empty() {
        let up = &path[..path.len() - 1];
        let mut n = t;
        for i in up {
            n = &n.1[i - 1]
        }
        let mut m = n;
        m = &m.1[path[path.len() - 1] - 1];
        if n.0 == "!" && m.0 == "all.equal" {
            let u = x.span(up);
            return (u.0, u.1);
        }
    }
    (a, b)
}
fn comments(s: &str) -> Vec<String> {
    // strings of terms hold no '#'
    s.lines()
        .filter_map(|l| l.find('#').map(|i| l[i..].trim_end().to_string()))
        .collect()
}

/// What is wrong with a run on a text of `t`; `viols`: rule, path, rewritten?; `reach`: stripped terms, final?
fn judge(
    t: &Term,
    viols: &[(String, Vec<usize>, bool)],
    x: &Text,
    text: &str,
    o: &Outcome,
    reach: &[(Term, bool)],
    what: &str,
) -> Vec<String> {
    let mut out = vec![];
    let quiet = x.comments.is_empty();
    if what == "report" {
        let want: BTreeSet<_> = viols
            .iter()
            .map(|(r, p, _)| {
                let (a, b) = place(x, t, r, p);
                (r.clone(), a, b)
            })
            .collect();
        let got: BTreeSet<_> = o
            .reported
            .iter()
            .map(|(r, a, b, _)| (r.clone(), *a, *b))
            .collect();
        let show = |s: &(String, usize, usize)| {
            format!("{} at {:?}", s.0, text.get(s.1..s.2).unwrap_or("?"))
        };
        for m in want.difference(&got) {
            out.push(format!("not reported: {}", show(m)))
        }
        for m in got.difference(&want) {
            out.push(format!("reported: {}", show(m)))
        }
        if got.len() != o.reported.len() {
            out.push("a violation is reported twice".into())
        }
        if quiet {
            for (r, p, f) in viols {
                let (a, b) = place(x, t, r, p);
                if o.reported
                    .iter()
                    .any(|g| g.0 == *r && g.1 == a && g.2 == b && g.3 != *f)
                {
                    out.push(format!(
                        "{r}: {} to be fixed",
                        if *f { "not offered" } else { "offered" }
                    ))
                }
            }
        }
        return out;
    }
    match parsed(&o.fixed) {
        Err(e) => out.push(format!("the fixed text {:?}: {e}", o.fixed)),
        Ok(ts) => {
            let last = ts.last().map(Term::strip);
            // parentheses put around a replacement of several lines can keep the next
            // rewrite from happening
            let around = o.fixed.trim_end().contains('\n')
                && ts.last().is_some_and(|l| l.parens() > t.parens());
            if !reach
                .iter()
                .any(|(n, end)| Some(n) == last.as_ref() && (!quiet || around || *end))
            {
                out.push(format!(
                    "the fixed text {:?} is not the documented replacement",
                    o.fixed
                ));
            }
        }
    }
    out.extend(common(x, text, o));
    out
}
fn common(_x: &Text, text: &str, o: &Outcome) -> Vec<String> {
    let mut out = vec![];
    if o.again != o.fixed {
        out.push(format!(
            "fixed once {:?}, fixed twice {:?}",
            o.fixed, o.again
        ))
    }
    let (c, d) = (comments(text), comments(&o.fixed));
    let mut d2 = d.clone();
    for k in &c {
        match d2.iter().position(|y| y == k) {
            Some(i) => {
                d2.remove(i);
            }
            None => out.push(format!("the comment {k} is lost in {:?}", o.fixed)),
        }
    }
    for g in &o.left {
        if !g.fix.to_skip {
            out.push(format!(
                "{} is left although it can be fixed",
                g.message.name
            ))
        } else if !UNFIXED.contains(&g.message.name.as_str()) {
            let s = &o.fixed[usize::from(g.range.start())..usize::from(g.range.end())];
            if !s.contains('#') {
                out.push(format!(
                    "{} is declined at {s:?}, where no comment is",
                    g.message.name
                ))
            }
        }
    }
    out
}
const BEFORE: &[&str] = &["", "# é first\n", "cat(\"漢字\") # note\n\n", "f(x)\n"];
const AFTER: &[&str] = &["", "\n", " # trailing\n", "\n# last\n", "\ng(y)"];

/// vectors: {o, v: [{rule, path, fix}], r: [[term without parentheses, final]]}
pub fn replay(path: &str, what: &str, dir: &str) {
    let all: Vec<Value> = lines(path).collect();
    let (plain, fix) = configs(all[0]["arrow"].as_str().unwrap());
    let n: usize = all
        .par_iter()
        .enumerate()
        .map(|(i, v)| one(i, v, what, dir, &plain, &fix))
        .sum();
    out(json!({"replayed": n}));
}
fn viols(v: &Value) -> Vec<(String, Vec<usize>, bool)> {
    v.as_array()
        .unwrap()
        .iter()
        .map(|w| {
            (
                w["rule"].as_str().unwrap().into(),
                w["path"]
                    .as_array()
                    .unwrap()
                    .iter()
                    .map(|p| p.as_u64().unwrap() as usize)
                    .collect(),
                w["fix"].as_bool().unwrap(),
            )
        })
        .collect()
}
fn one(i: usize, v: &Value, what: &str, dir: &str, plain: &Config, fix: &Arc<Config>) -> usize {
    let t = Term::from(&v["o"]);
    let vs = viols(&v["v"]);
    let reach: Vec<(Term, bool)> = v["r"]
        .as_array()
        .unwrap()
        .iter()
        .map(|w| (Term::from(&w[0]), w[1].as_bool().unwrap()))
        .collect();
    let mut n = 0;
    for style in 0..3u8 {
        if what == "report" && style == 1 {
            continue;
        }
        let seed = i as u64 * 3 + style as u64;
        let (b, a) = if style == 0 {
            ("", "\n")
        } else {
            (BEFORE[(seed % 4) as usize], AFTER[(seed / 4 % 5) as usize])
        };
        // code after the term would be the last statement
        let a = if what == "fix" && a.contains("g(y)") {
            "\n"
        } else {
            a
        };
        let x = render(&t, style, seed, b);
        let text = format!("{}{a}", x.s);
        at(|| json!({"text": text}).to_string());
        match run(&text, dir, plain, fix, what == "fix") {
            Err(e) => bad(e, json!({"text": text})),
            Ok(o) => {
                for w in judge(&t, &vs, &x, &text, &o, &reach, what) {
                    bad(w, json!({"text": text, "o": t.json()}))
                }
            }
        }
        n += 1;
    }
    // whatever its calls are given, code that parses is checked, and fixed
    let mut rng = Rng::new(i as u64 + 7);
    let odd = strange(&t, &mut rng);
    if odd != t {
        let x = render(&odd, 0, 0, "");
        let text = format!("{}\n", x.s);
        at(|| json!({"text": text}).to_string());
        match run(&text, dir, plain, fix, what == "fix") {
            Err(e) => bad(e, json!({"text": text})),
            Ok(o) if what == "fix" => {
                let mut w = common(&x, &text, &o);
                if let Err(e) = parsed(&o.fixed) {
                    w.push(format!("the fixed text {:?}: {e}", o.fixed))
                }
                for w in w {
                    bad(w, json!({"text": text}))
                }
            }
            Ok(_) => {}
        }
        n += 1;
    }
    if what == "fix" && i % 40 == 0 {
        // a file that does not parse stays as it is
        let text = format!(
            "{}\n{}",
            render(&t, 0, 0, "").s,
            [")", "x y", "if (", "'"][i / 40 % 4]
        );
        let file = PathBuf::from(format!(
            "{dir}/u{}.R",
            rayon::current_thread_index().unwrap_or(999)
        ));
        std::fs::write(&file, &text).expect("scratch");
        match guarded(|| {
            lint_fix(&file, Arc::clone(fix), Arc::new(PackageAnalysis::default())).is_err()
        }) {
            Ok(true) => {}
            Ok(false) => bad(
                "code that does not parse is not reported",
                json!({"text": text}),
            ),
            Err(p) => bad(format!("crash: {p}"), json!({"text": text})),
        }
        if std::fs::read_to_string(&file).ok().as_deref() != Some(&text) {
            bad("code that does not parse is changed", json!({"text": text}))
        }
        n += 1;
    }
    n
}

/// The term with arguments that have no value, and numbers of unusual forms.
fn strange(t: &Term, rng: &mut Rng) -> Term {
    const NUMBERS: &[&str] = &[
        "0xFFFFFFFFFFFFFFFFFFFF",
        "1e400",
        "1e-400",
        "99999999999999999999L",
        "0x1p3",
        "1i",
        "1e5",
    ];
    let mut kids: Vec<Term> = t.1.iter().map(|k| strange(k, rng)).collect();
    let name = t.0.as_str();
    if kids.is_empty() && name.starts_with(|c: char| c.is_ascii_digit()) && rng.chance(1, 3) {
        return Term((*rng.pick(NUMBERS)).into(), vec![]);
    }
    let call = !kids.is_empty()
        && !BINARY.contains(&name)
        && !matches!(
            name,
            "(" | "{" | "!" | "neg" | "if" | "while" | "repeat" | "for" | "[" | "arg"
        );
    if call && rng.chance(1, 3) {
        let hole = Term("".into(), vec![]);
        let k = rng.below(kids.len());
        let named = kids[k].0 == "arg";
        match rng.below(3) {
            0 if named => kids[k].1[1] = hole,
            0 => kids[k] = hole,
            1 => kids.insert(k, hole),
            _ => kids.push(hole),
        }
    }
    Term(t.0.clone(), kids)
}

/// A random term; deeper than the enumerated ones.
fn random(rng: &mut Rng, depth: usize) -> Term {
    let l = |s: &str| Term(s.into(), vec![]);
    let leaf =
        |rng: &mut Rng| l(rng.pick(&["a", "b", "x", "TRUE", "FALSE", "NA", "NULL", "NaN", "0"]));
    if depth == 0 {
        return leaf(rng);
    }
    let d = depth - 1;
    let c = |op: &str, v: Vec<Term>| mk(op, v);
    let e = random(rng, rng.0 as usize % depth);
    match rng.below(40) {
        36 => {
            let (v, i) = (*rng.pick(&["i", "x"]), random(rng, d));
            c("for", vec![l(v), i, e])
        }
        37 => {
            let i = random(rng, d);
            c("for", vec![l("i"), e, c("{", vec![i, l("x")])])
        }
        38.. => {
            let i = random(rng, d);
            c("<-", vec![l("a"), i])
        }
        26..36 => {
            let call = given(rng, d);
            if rng.chance(1, 4) {
                let pipe = *rng.pick(&["|>", "|>", "%>%"]);
                c(pipe, vec![e, call])
            } else {
                call
            }
        }
        0..4 => {
            let op = *rng.pick(&[
                "any",
                "all",
                "is.na",
                "duplicated",
                "length",
                "levels",
                "is.null",
                "f",
            ]);
            let i = random(rng, d);
            c(op, vec![i])
        }
        4..7 => {
            let i = random(rng, d);
            c("!", vec![i])
        }
        7 => {
            let i = random(rng, d);
            c("neg", vec![i])
        }
        8..10 => {
            let i = random(rng, d);
            if i.0 == "(" { i } else { c("(", vec![i]) }
        }
        10..15 => {
            let op = *rng.pick(&["==", "!=", "<", ">", "<=", ">="]);
            let i = random(rng, d);
            if rng.chance(1, 2) {
                c(op, vec![i, e])
            } else {
                c(op, vec![e, i])
            }
        }
        15..18 => {
            let op = *rng.pick(&[
                "&", "|", "&&", "||", "+", "*", "%in%", "%||%", ":", "^", "~",
            ]);
            let i = random(rng, d);
            if rng.chance(1, 2) {
                c(op, vec![i, e])
            } else {
                c(op, vec![e, i])
            }
        }
        18 => {
            let (y, n) = *rng.pick(&[("TRUE", "FALSE"), ("FALSE", "TRUE"), ("TRUE", "TRUE")]);
            let i = random(rng, d);
            c("ifelse", vec![i, l(y), l(n)])
        }
        19 => {
            let i = random(rng, d);
            c("[", vec![i.clone(), c("order", vec![i])])
        }
        20 => {
            let i = random(rng, d);
            let k = c("is.null", vec![i.clone()]);
            if rng.chance(1, 2) {
                c("if", vec![k, e, i])
            } else {
                c("if", vec![c("!", vec![k]), i, e])
            }
        }
        21 => {
            let i = random(rng, d);
            let inner = c("if", vec![i, c("{", vec![l("a")])]);
            c("if", vec![e, c("{", vec![inner])])
        }
        22 => {
            let i = random(rng, d);
            c("isFALSE", vec![c("all.equal", vec![i, e])])
        }
        23 => {
            let i = random(rng, d);
            let op = *rng.pick(&["any", "duplicated", "is.na", "length", "levels"]);
            c("|>", vec![i, l(op)])
        }
        24 => {
            let i = random(rng, d);
            c("sapply", vec![i, l("length")])
        }
        _ => {
            let i = random(rng, d);
            let s = c("substr", vec![i, l("1L"), l("3L")]);
            c(
                if rng.chance(1, 2) { "==" } else { "!=" },
                vec![s, l("str")],
            )
        }
    }
}
/// a call of a function that the rules know, its arguments named or not, in some order
fn given(rng: &mut Rng, depth: usize) -> Term {
    const FUNS: &[(&str, &[&str], &[&str])] = &[
        ("any", &["na.rm"], &["TRUE"]),
        ("which", &["arr.ind", "useNames"], &["FALSE"]),
        ("grepl", &["pattern", "x", "fixed"], &["str", "s:a.b", "FALSE"]),
        ("grep", &["pattern", "x", "value"], &["str", "s:a.b", "TRUE"]),
        ("gsub", &["pattern", "replacement", "x"], &["str", "s:a.b"]),
        ("sub", &["pattern", "replacement", "x", "fixed"], &["str", "s:a.b", "FALSE"]),
        ("sapply", &["X", "FUN", "simplify"], &["length", "x"]),
        ("vapply", &["X", "FUN", "FUN.VALUE"], &["length", "1"]),
        ("map_int", &[".x", ".f"], &["length"]),
        ("do.call", &["what", "args"], &["cbind.data.frame", "s:cbind.data.frame"]),
        ("ifelse", &["test", "yes", "no"], &["TRUE", "FALSE"]),
        ("if_else", &["condition", "true", "false"], &["TRUE", "FALSE"]),
        ("sample", &["x", "size", "replace"], &["x", "3L"]),
        ("apply", &["X", "MARGIN", "FUN", "na.rm"], &["1", "2", "1L", "mean", "sum"]),
        ("expect_equal", &["object", "expected", "tolerance"], &["TRUE", "NULL", "str"]),
        ("expect_identical", &["object", "expected"], &["FALSE", "NULL"]),
        ("expect_true", &["object", "info"], &["x"]),
        ("expect_false", &["object", "info"], &["x"]),
        ("all.equal", &["target", "current"], &["x"]),
        ("length", &["x"], &["x"]),
        ("names", &["x"], &["x"]),
        ("class", &["x"], &["x"]),
        ("typeof", &["x"], &["x"]),
        ("is.double", &["x"], &["x"]),
        ("quote", &["expr"], &["x"]),
        ("browser", &["text", "expr"], &["x"]),
        ("download.file", &["url", "destfile", "method", "quiet", "mode"], &["x", "s:curl", "s:w", "s:wb"]),
    ];
    let l = |s: &str| Term(s.into(), vec![]);
    let (f, formals, values) = *rng.pick(FUNS);
    let (mut named, mut args) = (vec![], vec![]);
    for k in 0..1 + rng.below(formals.len() + 1) {
        let value = match rng.below(5) {
            0 | 1 => l(*rng.pick(values)),
            2 if f == "sample" => mk(":", vec![l("1"), random(rng, 0)]),
            _ => random(rng, depth),
        };
        // mostly the argument of this position, sometimes any of them
        let name = match rng.below(8) {
            0..5 => "",
            5 => *rng.pick(formals),
            6 => formals.get(k).copied().unwrap_or(""),
            _ => *rng.pick(&["k", "info"]),
        };
        if name.is_empty() || named.contains(&name) {
            args.push(value)
        } else {
            named.push(name);
            args.push(mk("arg", vec![l(name), value]))
        }
    }
    mk(f, args)
}
fn prec(op: &str) -> u8 {
    match op {
        "if" | "while" | "repeat" | "for" => 1,
        "=" => 2,
        "<-" => 3,
        "->" => 4,
        "~" => 5,
        "|" | "||" => 6,
        "&" | "&&" => 7,
        "!" => 8,
        "==" | "!=" | "<" | ">" | "<=" | ">=" => 9,
        "+" => 10,
        "*" => 11,
        "%in%" | "%||%" | "|>" | "%>%" => 12,
        ":" => 13,
        "neg" => 14,
        "^" => 15,
        _ => 20,
    }
}
/// a node with the parentheses its children need
fn mk(op: &str, v: Vec<Term>) -> Term {
    let p = prec(op);
    let n = v.len();
    let fits = |i: usize, c: &Term| {
        let q = prec(&c.0);
        match op {
            "if" => q > 2 && !(i == 1 && n == 3 && q == 1),
            "{" | "(" => true,
            "!" | "neg" => q >= p,
            "==" | "!=" | "<" | ">" | "<=" | ">=" => q > p,
            "<-" | "=" | "^" => {
                if i == 0 {
                    q > p
                } else {
                    q >= p
                }
            }
            "[" => {
                if i == 0 {
                    q >= 20
                } else {
                    q > 2
                }
            }
            _ if BINARY.contains(&op) => {
                if i == 0 {
                    q >= p
                } else {
                    q > p
                }
            }
            _ => q > 2,
        }
    };
    let kids = v
        .into_iter()
        .enumerate()
        .map(|(i, c)| {
            if fits(i, &c) {
                c
            } else {
                Term("(".into(), vec![c])
            }
        })
        .collect();
    Term(op.into(), kids)
}
pub fn record(seed: u64, n: usize, path: &str, what: &str, dir: &str) {
    let (plain, fix) = configs("<-");
    let mut rng = Rng::new(seed);
    let terms: Vec<(Term, u64)> = (0..n)
        .map(|k| {
            let t = random(&mut rng, 2 + k % 4);
            (t, rng.next())
        })
        .collect();
    let recs: Vec<Option<Value>> = terms.par_iter().map(|(t, salt)| {
        let style = (salt % 3) as u8;
        let x = render(t, style, *salt, BEFORE[(salt / 3 % 4) as usize]);
        let text = format!("{}\n", x.s);
        at(|| json!({"text": text}).to_string());
        match parsed(&text) {
            Ok(p) if p.last() == Some(t) => {}
            p => { eprintln!("{text:?} is not {} but {p:?}", t.json()); return None }
        }
        match run(&text, dir, &plain, &fix, what == "fix") {
            Err(e) => { bad(e, json!({"text": text})); None }
            Ok(o) if what == "report" => {
                let mut vs = vec![];
                for (r, a, b, _) in &o.reported {
                    let p = x.spans.iter().map(|s| &s.0).filter(|p| { let (c, d) = place(&x, t, r, p); c == *a && d == *b }).max_by_key(|p| p.len());
                    match p {
                        Some(p) => vs.push(json!({"rule": r, "path": p})),
                        None => { bad(format!("{r} is reported at {:?}, which is no expression", &text[*a..*b]), json!({"text": text})); return None }
                    }
                }
                Some(json!({"what": what, "t": t.json(), "v": vs, "comments": !x.comments.is_empty(), "fixed": [], "text": text}))
            }
            // the orders in which many violations can be rewritten are too many to follow
            Ok(o) if o.reported.len() > 5 => None,
            Ok(o) => {
                let wrong = common(&x, &text, &o);
                for w in &wrong { bad(w, json!({"text": text})) }
                match parsed(&o.fixed) {
                    Ok(ts) if !ts.is_empty() => Some(json!({"what": what, "t": t.json(), "v": [], "comments": !x.comments.is_empty(), "fixed": ts.last().unwrap().strip().json(), "text": text, "to": o.fixed})),
                    e => { bad(format!("the fixed text {:?}: {e:?}", o.fixed), json!({"text": text})); None }
                }
            }
        }
    }).collect();
    let mut w = Out::new(path);
    for r in recs.into_iter().flatten() {
        w.put(r)
    }
}
