//! Stand-in for air_r_parser: a parser of R by the precedences of R's manual (?Syntax).
//! White space and comments are trivia; what follows a token on its line trails it,
//! the rest leads the next token.
use RSyntaxKind::*;
use air_r_syntax::*;
use biome_rowan::{AstNode, Slot, SyntaxKind, Tree, TreeBuilder, TriviaPiece, TriviaPieceKind, root_node};
use std::rc::Rc;

#[derive(Debug, Clone, Default)]
pub struct RParserOptions;
#[derive(Debug, Clone)]
pub struct ParseError(String);
#[derive(Debug, Clone)]
pub struct Parse { tree: Rc<Tree>, error: Option<ParseError> }
impl Parse {
    pub fn syntax(&self) -> RSyntaxNode { root_node(&self.tree) }
    pub fn tree(&self) -> RRoot { RRoot::cast(self.syntax()).expect("root") }
    pub fn has_error(&self) -> bool { self.error.is_some() }
    pub fn has_errors(&self) -> bool { self.has_error() }
    pub fn error(&self) -> Option<&ParseError> { self.error.as_ref() }
    pub fn into_error(self) -> Option<ParseError> { self.error }
}
impl std::fmt::Display for ParseError { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str(&self.0) } }
impl std::error::Error for ParseError {}

struct Tok { kind: RSyntaxKind, start: usize, end: usize, nl: bool, semi: bool }

fn ident_start(c: char) -> bool { c.is_alphabetic() || c == '.' || c == '_' }
fn ident_char(c: char) -> bool { c.is_alphanumeric() || c == '.' || c == '_' }

fn lex(s: &str) -> Result<Vec<Tok>, String> {
    let b = s.as_bytes();
    let mut out = vec![];
    let mut i = 0;
    let mut open: Vec<RSyntaxKind> = vec![];
    let (mut nl, mut semi) = (false, false);
    if s.starts_with('\u{feff}') {
        out.push(Tok { kind: UNICODE_BOM, start: 0, end: 3, nl: false, semi: false });
        i = 3;
    }
    while i < s.len() {
        let rest = &s[i..];
        let c = rest.chars().next().unwrap();
        match c {
            ' ' | '\t' | '\r' | '\u{c}' | '\u{a0}' => { i += c.len_utf8(); continue }
            '\n' => { nl = true; i += 1; continue }
            ';' => { semi = true; i += 1; continue }
            '#' => { i += rest.find('\n').unwrap_or(rest.len()); continue }
            _ => {}
        }
        let start = i;
        let two = |t: &str| rest.starts_with(t);
        let (kind, len) = if (c == 'r' || c == 'R') && raw_string(rest).is_some() {
            (R_STRING_LITERAL, raw_string(rest).unwrap()?)
        } else if c == '"' || c == '\'' || c == '`' {
            let mut it = rest.char_indices().skip(1);
            let mut end = None;
            while let Some((k, x)) = it.next() {
                if x == '\\' { it.next(); } else if x == c { end = Some(k + 1); break }
            }
            let end = end.ok_or("unterminated string")?;
            if c == '`' && end == 2 { return Err("empty name".into()) }
            (if c == '`' { IDENT } else { R_STRING_LITERAL }, end)
        } else if c.is_ascii_digit() || c == '.' && b.get(i + 1).is_some_and(|x| x.is_ascii_digit()) {
            // as tree-sitter-r does (r-lib/tree-sitter-r#190), `.8i` is a name
            let (k, n) = number(rest);
            (if k == R_COMPLEX_LITERAL && c == '.' { IDENT } else { k }, n)
        } else if ident_start(c) {
            let n = rest.find(|x| !ident_char(x)).unwrap_or(rest.len());
            let w = &rest[..n];
            let k = match w {
                "function" => FUNCTION_KW, "for" => FOR_KW, "in" => IN_KW, "while" => WHILE_KW, "repeat" => REPEAT_KW,
                "if" => IF_KW, "else" => ELSE_KW, "return" => RETURN_KW, "break" => BREAK_KW, "next" => NEXT_KW,
                "TRUE" => TRUE_KW, "FALSE" => FALSE_KW, "NULL" => NULL_KW, "Inf" => INF_KW, "NaN" => NAN_KW,
                "NA" | "NA_integer_" | "NA_real_" | "NA_complex_" | "NA_character_" => NA_LOGICAL_KW,
                "..." => DOTS,
                _ if w.len() > 2 && w.starts_with("..") && w[2..].bytes().all(|x| x.is_ascii_digit()) => DOTDOTI,
                _ => IDENT,
            };
            (k, n)
        } else if c == '%' {
            let line = &rest[1..rest.find('\n').unwrap_or(rest.len())];
            (SPECIAL, line.find('%').ok_or("unterminated operator")? + 2)
        } else {
            match c {
                '{' => (L_CURLY, 1), '}' => (R_CURLY, 1), '(' => (L_PAREN, 1), ')' => (R_PAREN, 1), ',' => (COMMA, 1),
                '[' if two("[[") => (L_BRACK2, 2), '[' => (L_BRACK, 1),
                ']' if two("]]") && open.last() == Some(&L_BRACK2) => (R_BRACK2, 2), ']' => (R_BRACK, 1),
                '?' => (WAT, 1), '~' => (TILDE, 1), '\\' => (BACKSLASH, 1),
                '<' if two("<<-") => (SUPER_ASSIGN, 3), '<' if two("<-") => (ASSIGN, 2), '<' if two("<=") => (LESS_THAN_OR_EQUAL_TO, 2), '<' => (LESS_THAN, 1),
                '-' if two("->>") => (SUPER_ASSIGN_RIGHT, 3), '-' if two("->") => (ASSIGN_RIGHT, 2), '-' => (MINUS, 1),
                '>' if two(">=") => (GREATER_THAN_OR_EQUAL_TO, 2), '>' => (GREATER_THAN, 1),
                '=' if two("==") => (EQUAL2, 2), '=' => (EQUAL, 1),
                '!' if two("!=") => (NOT_EQUAL, 2), '!' => (BANG, 1),
                '|' if two("||") => (OR2, 2), '|' if two("|>") => (PIPE, 2), '|' => (OR, 1),
                '&' if two("&&") => (AND2, 2), '&' => (AND, 1),
                '+' => (PLUS, 1), '*' if two("**") => (EXPONENTIATE2, 2), '*' => (MULTIPLY, 1), '/' => (DIVIDE, 1), '^' => (EXPONENTIATE, 1),
                ':' if two(":::") => (COLON3, 3), ':' if two("::") => (COLON2, 2), ':' if two(":=") => (WALRUS, 2), ':' => (COLON, 1),
                '$' => (DOLLAR, 1), '@' => (AT, 1),
                _ => return Err(format!("unexpected {c:?}")),
            }
        };
        match kind {
            L_CURLY | L_PAREN | L_BRACK | L_BRACK2 => open.push(kind),
            R_CURLY | R_PAREN | R_BRACK | R_BRACK2 => { open.pop(); }
            _ => {}
        }
        i = start + len;
        out.push(Tok { kind, start, end: i, nl, semi });
        (nl, semi) = (false, false);
    }
    out.push(Tok { kind: EOF, start: s.len(), end: s.len(), nl, semi });
    Ok(out)
}
fn raw_string(s: &str) -> Option<Result<usize, String>> {
    let q = *s.as_bytes().get(1)?;
    if q != b'"' && q != b'\'' { return None }
    let dashes = s[2..].bytes().take_while(|b| *b == b'-').count();
    let close = match s.as_bytes().get(2 + dashes)? { b'(' => ')', b'[' => ']', b'{' => '}', _ => return Some(Err("malformed raw string".into())) };
    let end = format!("{close}{}{}", "-".repeat(dashes), q as char);
    let from = 3 + dashes;
    Some(s[from..].find(&end).map(|k| from + k + end.len()).ok_or_else(|| "unterminated raw string".into()))
}
fn number(s: &str) -> (RSyntaxKind, usize) {
    let b = s.as_bytes();
    let mut i = 0;
    let d = |i: &mut usize| while b.get(*i).is_some_and(|x| x.is_ascii_digit()) { *i += 1 };
    if s.len() > 2 && b[0] == b'0' && (b[1] | 32) == b'x' && b[2].is_ascii_hexdigit() {
        i = 2;
        while b.get(i).is_some_and(|x| x.is_ascii_hexdigit() || *x == b'.') { i += 1 }
        if b.get(i).is_some_and(|x| (x | 32) == b'p') {
            i += 1;
            if b.get(i).is_some_and(|x| *x == b'-' || *x == b'+') { i += 1 }
            d(&mut i);
        }
    } else {
        d(&mut i);
        if b.get(i) == Some(&b'.') { i += 1; d(&mut i) }
        if b.get(i).is_some_and(|x| (x | 32) == b'e') {
            let mut j = i + 1;
            if b.get(j).is_some_and(|x| *x == b'-' || *x == b'+') { j += 1 }
            if b.get(j).is_some_and(|x| x.is_ascii_digit()) { i = j; d(&mut i) }
        }
    }
    match b.get(i) {
        Some(b'L') => (R_INT_LITERAL, i + 1),
        Some(b'i') => (R_COMPLEX_LITERAL, i + 1),
        _ => (R_DOUBLE_LITERAL, i),
    }
}

fn pieces(s: &str) -> Vec<TriviaPiece> {
    let mut v: Vec<TriviaPiece> = vec![];
    let mut i = 0;
    while i < s.len() {
        let r = &s[i..];
        let (kind, n) = if r.starts_with("\r\n") { (TriviaPieceKind::Newline, 2) }
            else if r.starts_with('\n') { (TriviaPieceKind::Newline, 1) }
            else if r.starts_with('#') {
                let n = r.find('\n').unwrap_or(r.len());
                (TriviaPieceKind::SingleLineComment, if r[..n].ends_with('\r') { n - 1 } else { n })
            } else {
                let n = r.char_indices().find(|(k, c)| *c == '\n' || *c == '#' || r[*k..].starts_with("\r\n")).map_or(r.len(), |x| x.0);
                (TriviaPieceKind::Whitespace, n)
            };
        v.push(TriviaPiece { kind, length: n as u32 });
        i += n;
    }
    v
}

struct Parser<'a> { t: &'a [Tok], i: usize, b: &'a mut TreeBuilder, nl_ok: Vec<bool> }
type R<T> = Result<T, String>;
const ANY: u8 = 1;
const NO_HELP: u8 = 2;
const NO_EQ: u8 = 3;
impl Parser<'_> {
    fn k(&self) -> RSyntaxKind { self.t[self.i].kind }
    fn peek(&self, n: usize) -> RSyntaxKind { self.t.get(self.i + n).map_or(EOF, |t| t.kind) }
    fn bump(&mut self) -> Slot { self.i += 1; Slot::Token(self.i as u32 - 1) }
    fn eat(&mut self, k: RSyntaxKind) -> R<Slot> {
        if self.k() == k && !self.t[self.i].semi { Ok(self.bump()) } else { Err(format!("expected {k:?}, found {:?} at {}", self.k(), self.t[self.i].start)) }
    }
    /// The current token continues the expression (no separator before it).
    fn here(&self) -> bool {
        let t = &self.t[self.i];
        !t.semi && (!t.nl || *self.nl_ok.last().unwrap())
    }
    fn n(&mut self, k: RSyntaxKind, s: Vec<Slot>) -> Slot { self.b.node(k.to_raw(), s) }
    fn within<T>(&mut self, nl: bool, f: impl FnOnce(&mut Self) -> R<T>) -> R<T> {
        self.nl_ok.push(nl);
        let r = f(self);
        self.nl_ok.pop();
        r
    }
    fn exprs(&mut self, end: RSyntaxKind) -> R<Slot> {
        let mut v = vec![];
        while self.k() != end {
            if self.k() == EOF { return Err("unexpected end".into()) }
            if !v.is_empty() && !self.t[self.i].nl && !self.t[self.i].semi { return Err(format!("expected a new line at {}", self.t[self.i].start)) }
            v.push(self.expr(ANY)?);
        }
        Ok(self.n(R_EXPRESSION_LIST, v))
    }
    fn binary(k: RSyntaxKind) -> Option<(u8, u8)> {
        Some(match k {
            WAT => (1, 2), EQUAL => (2, 2), ASSIGN | SUPER_ASSIGN | WALRUS => (3, 3), ASSIGN_RIGHT | SUPER_ASSIGN_RIGHT => (4, 5), TILDE => (5, 6),
            OR | OR2 => (6, 7), AND | AND2 => (7, 8),
            GREATER_THAN | GREATER_THAN_OR_EQUAL_TO | LESS_THAN | LESS_THAN_OR_EQUAL_TO | EQUAL2 | NOT_EQUAL => (9, 10),
            PLUS | MINUS => (10, 11), MULTIPLY | DIVIDE => (11, 12), SPECIAL | PIPE => (12, 13), COLON => (13, 14),
            EXPONENTIATE | EXPONENTIATE2 => (15, 14), _ => return None,
        })
    }
    fn expr(&mut self, min: u8) -> R<Slot> {
        let mut l = self.primary()?;
        loop {
            if !self.here() { return Ok(l) }
            let k = self.k();
            l = match k {
                L_PAREN => { let a = self.args(R_PAREN, R_CALL_ARGUMENTS)?; self.n(R_CALL, vec![l, a]) }
                L_BRACK => { let a = self.args(R_BRACK, R_SUBSET_ARGUMENTS)?; self.n(R_SUBSET, vec![l, a]) }
                L_BRACK2 => { let a = self.args(R_BRACK2, R_SUBSET2_ARGUMENTS)?; self.n(R_SUBSET2, vec![l, a]) }
                DOLLAR | AT => {
                    let o = self.bump();
                    let r = match self.k() {
                        IDENT | R_STRING_LITERAL | DOTS | DOTDOTI | L_PAREN | L_CURLY | NULL_KW | RETURN_KW => self.atom()?,
                        _ => return Err("selector".into()),
                    };
                    self.n(R_EXTRACT_EXPRESSION, vec![l, o, r])
                }
                _ => {
                    let Some((lbp, rbp)) = Self::binary(k) else { return Ok(l) };
                    if lbp < min { return Ok(l) }
                    let o = self.bump();
                    let r = self.expr(rbp)?;
                    self.n(R_BINARY_EXPRESSION, vec![l, o, r])
                }
            }
        }
    }
    fn primary(&mut self) -> R<Slot> {
        if self.t[self.i].semi && self.i > 0 && !self.starts_list() { return Err("unexpected separator".into()) }
        match self.k() {
            MINUS | PLUS => self.unary(14),
            BANG => self.unary(8),
            TILDE => self.unary(6),
            WAT => self.unary(1),
            IF_KW => {
                let kw = self.bump();
                let l = self.eat(L_PAREN)?;
                let c = self.within(true, |p| p.expr(ANY))?;
                let r = self.eat(R_PAREN)?;
                let body = self.expr(NO_HELP)?;
                // at top level an else on a new line is not part of the statement
                let t = &self.t[self.i];
                let e = if t.kind == ELSE_KW && !t.semi && (!t.nl || self.nl_ok.len() > 1) {
                    let k = self.bump();
                    let a = self.expr(NO_HELP)?;
                    self.n(R_ELSE_CLAUSE, vec![k, a])
                } else { Slot::Empty };
                Ok(self.n(R_IF_STATEMENT, vec![kw, l, c, r, body, e]))
            }
            WHILE_KW => {
                let kw = self.bump();
                let l = self.eat(L_PAREN)?;
                let c = self.within(true, |p| p.expr(ANY))?;
                let r = self.eat(R_PAREN)?;
                let body = self.expr(NO_HELP)?;
                Ok(self.n(R_WHILE_STATEMENT, vec![kw, l, c, r, body]))
            }
            FOR_KW => {
                let kw = self.bump();
                let l = self.eat(L_PAREN)?;
                let v = self.eat(IDENT)?;
                let v = self.n(R_IDENTIFIER, vec![v]);
                let inn = self.eat(IN_KW)?;
                let s = self.within(true, |p| p.expr(ANY))?;
                let r = self.eat(R_PAREN)?;
                let body = self.expr(NO_HELP)?;
                Ok(self.n(R_FOR_STATEMENT, vec![kw, l, v, inn, s, r, body]))
            }
            REPEAT_KW => {
                let kw = self.bump();
                let body = self.expr(NO_HELP)?;
                Ok(self.n(R_REPEAT_STATEMENT, vec![kw, body]))
            }
            FUNCTION_KW | BACKSLASH => {
                let kw = self.bump();
                let l = self.eat(L_PAREN)?;
                let items = self.within(true, |p| p.params())?;
                let r = self.eat(R_PAREN)?;
                let ps = self.n(R_PARAMETERS, vec![l, items, r]);
                let body = self.expr(NO_HELP)?;
                Ok(self.n(R_FUNCTION_DEFINITION, vec![kw, ps, body]))
            }
            _ => self.atom(),
        }
    }
    fn starts_list(&self) -> bool { self.i == 0 || self.t[self.i].semi && !self.nl_ok.last().unwrap() && Self::binary(self.t[self.i - 1].kind).is_none() }
    fn unary(&mut self, bp: u8) -> R<Slot> {
        let o = self.bump();
        let a = self.expr(bp)?;
        Ok(self.n(R_UNARY_EXPRESSION, vec![o, a]))
    }
    fn atom(&mut self) -> R<Slot> {
        let k = self.k();
        let node = match k {
            L_PAREN => {
                let l = self.bump();
                let e = self.within(true, |p| p.expr(ANY))?;
                let r = self.eat(R_PAREN)?;
                return Ok(self.n(R_PARENTHESIZED_EXPRESSION, vec![l, e, r]));
            }
            L_CURLY => {
                let l = self.bump();
                let e = self.within(false, |p| p.exprs(R_CURLY))?;
                let r = self.bump();
                return Ok(self.n(R_BRACED_EXPRESSIONS, vec![l, e, r]));
            }
            IDENT => R_IDENTIFIER, DOTS => R_DOTS, DOTDOTI => R_DOT_DOT_I, RETURN_KW => R_RETURN_EXPRESSION, NEXT_KW => R_NEXT_EXPRESSION,
            BREAK_KW => R_BREAK_EXPRESSION, TRUE_KW => R_TRUE_EXPRESSION, FALSE_KW => R_FALSE_EXPRESSION, NULL_KW => R_NULL_EXPRESSION,
            INF_KW => R_INF_EXPRESSION, NAN_KW => R_NAN_EXPRESSION, NA_LOGICAL_KW => R_NA_EXPRESSION, R_INT_LITERAL => R_INTEGER_VALUE,
            R_DOUBLE_LITERAL => R_DOUBLE_VALUE, R_COMPLEX_LITERAL => R_COMPLEX_VALUE, R_STRING_LITERAL => R_STRING_VALUE,
            _ => return Err(format!("unexpected {k:?} at {}", self.t[self.i].start)),
        };
        let t = self.bump();
        let n = self.n(node, vec![t]);
        if matches!(k, IDENT | R_STRING_LITERAL) && matches!(self.k(), COLON2 | COLON3) && self.here() {
            let o = self.bump();
            let kr = match self.k() { IDENT => R_IDENTIFIER, R_STRING_LITERAL => R_STRING_VALUE, _ => return Err("name".into()) };
            let t = self.bump();
            let r = self.n(kr, vec![t]);
            return Ok(self.n(R_NAMESPACE_EXPRESSION, vec![n, o, r]));
        }
        Ok(n)
    }
    fn params(&mut self) -> R<Slot> {
        let mut v = vec![];
        while self.k() != R_PAREN {
            let nk = match self.k() { IDENT => R_IDENTIFIER, DOTS => R_DOTS, DOTDOTI => R_DOT_DOT_I, _ => return Err("parameter".into()) };
            let t = self.bump();
            let name = self.n(nk, vec![t]);
            let d = if self.k() == EQUAL {
                let e = self.bump();
                let x = if matches!(self.k(), COMMA | R_PAREN) { Slot::Empty } else { self.expr(NO_EQ)? };
                self.n(R_PARAMETER_DEFAULT, vec![e, x])
            } else { Slot::Empty };
            v.push(self.n(R_PARAMETER, vec![name, d]));
            match self.k() { COMMA => { v.push(self.bump()); if self.k() == R_PAREN { return Err("parameter".into()) } } R_PAREN => {} _ => return Err("parameters".into()) }
        }
        Ok(self.n(R_PARAMETER_LIST, v))
    }
    fn args(&mut self, close: RSyntaxKind, kind: RSyntaxKind) -> R<Slot> {
        let l = self.bump();
        let items = self.within(true, |p| {
            let mut v = vec![];
            if p.k() != close {
                loop {
                    if matches!(p.k(), COMMA) || p.k() == close {
                        v.push(p.n(R_ARGUMENT, vec![Slot::Empty, Slot::Empty]));
                    } else {
                        let name = match p.k() { IDENT => Some(R_IDENTIFIER), R_STRING_LITERAL => Some(R_STRING_VALUE), DOTS => Some(R_DOTS), DOTDOTI => Some(R_DOT_DOT_I), NULL_KW => Some(R_NULL_EXPRESSION), _ => None };
                        let clause = match name {
                            Some(nk) if p.peek(1) == EQUAL => {
                                let t = p.bump();
                                let n = p.n(nk, vec![t]);
                                let e = p.bump();
                                p.n(R_ARGUMENT_NAME_CLAUSE, vec![n, e])
                            }
                            _ => Slot::Empty,
                        };
                        let value = if matches!(p.k(), COMMA) || p.k() == close { Slot::Empty } else { p.expr(NO_EQ)? };
                        v.push(p.n(R_ARGUMENT, vec![clause, value]));
                    }
                    if p.k() == COMMA && !p.t[p.i].semi { v.push(p.bump()) } else { break }
                }
            }
            Ok(p.n(R_ARGUMENT_LIST, v))
        })?;
        let r = self.eat(close)?;
        Ok(self.n(kind, vec![l, items, r]))
    }
}

thread_local! {
    /// Called with every text to parse (lets a test driver count, delay or abort parses).
    pub static ON_PARSE: std::cell::RefCell<Option<Box<dyn Fn(&str)>>> = const { std::cell::RefCell::new(None) };
}

pub fn parse(text: &str, _options: RParserOptions) -> Parse {
    ON_PARSE.with(|h| {
        if let Some(f) = &*h.borrow() {
            f(text)
        }
    });
    let (toks, mut error) = match lex(text) {
        Ok(t) => (t, None),
        Err(e) => (vec![Tok { kind: IDENT, start: 0, end: text.len(), nl: false, semi: false }, Tok { kind: EOF, start: text.len(), end: text.len(), nl: false, semi: false }], Some(e)),
    };
    let build = |b: &mut TreeBuilder| {
        let mut lead = pieces(&text[..toks[0].start]);
        for (i, t) in toks.iter().enumerate() {
            let gap = toks.get(i + 1).map_or("", |n| &text[t.end..n.start]);
            let cut = gap.find('\n').map_or(gap.len(), |k| if gap[..k].ends_with('\r') { k - 1 } else { k });
            b.token(t.kind.to_raw(), std::mem::take(&mut lead), (t.end - t.start) as u32, pieces(&gap[..cut]));
            lead = pieces(&gap[cut..]);
        }
    };
    let mut b = TreeBuilder::default();
    build(&mut b);
    let mut done = None;
    if error.is_none() {
        let mut p = Parser { t: &toks, i: 0, b: &mut b, nl_ok: vec![false] };
        let bom = if p.k() == UNICODE_BOM { p.bump() } else { Slot::Empty };
        match p.exprs_top() {
            Ok(l) => { let e = p.bump(); done = Some(p.n(R_ROOT, vec![bom, l, e])); }
            Err(e) => error = Some(e),
        }
    }
    let root = match done {
        Some(r) => r,
        None => {
            b = TreeBuilder::default();
            build(&mut b);
            let n = toks.len() as u32 - 1;
            let bogus = b.node(R_BOGUS.to_raw(), (0..n).map(Slot::Token).collect());
            let l = b.node(R_EXPRESSION_LIST.to_raw(), vec![bogus]);
            b.node(R_ROOT.to_raw(), vec![Slot::Empty, l, Slot::Token(n)])
        }
    };
    Parse { tree: b.finish(root, text.to_string()), error: error.map(ParseError) }
}
impl Parser<'_> {
    fn exprs_top(&mut self) -> R<Slot> {
        let first = self.i;
        let mut v = vec![];
        while self.k() != EOF {
            if self.i > first && !self.t[self.i].nl && !self.t[self.i].semi { return Err(format!("expected a new line at {}", self.t[self.i].start)) }
            v.push(self.expr(ANY)?);
        }
        Ok(self.n(R_EXPRESSION_LIST, v))
    }
}
