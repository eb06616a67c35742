DOC = "crates/jarl-lsp/src/document.rs"
CLI = "crates/jarl-lsp/src/client.rs"
DIR = "crates/jarl-core/src/directive.rs"
NB = "crates/jarl-core/src/rmd/extraction.rs"
DESC = "crates/jarl-core/src/description.rs"
RS = "crates/jarl-core/src/rule_set.rs"
FS = "crates/jarl-core/src/fs.rs"
ZED = "editors/zed/src/lib.rs"

CH = '''
use document::*;
use lsp_types::*;
fn ch(r: Option<(u32, u32, u32, u32)>, t: &str) -> TextDocumentContentChangeEvent {
    TextDocumentContentChangeEvent {
        range: r.map(|(a, b, c, d)| Range::new(Position::new(a, b), Position::new(c, d))),
        range_length: None,
        text: t.to_string(),
    }
}
'''

SEEDS = [
 dict(id="l01-insert-past-end", property_="L01") if False else
 dict(id="l01-line-past-end", prop="L01",
  needs="an edit on the line after the last one of a document, as an editor out of step with the server sends it",
  breaks="an edit on a line the document does not have is applied at the end of the text instead of being refused",
  edits=[(DOC, '''        let line = position.line as usize;
        let character = position.character as usize;

        if line >= self.line_starts.len() {''', '''        let last_line = self.line_starts.len() - 1;
        let mut line = position.line as usize;
        let mut character = position.character as usize;

        // The line after the last one is where the text ends
        if line == last_line + 1 {
            line = last_line;
            character = usize::MAX;
        }

        if line >= self.line_starts.len() {''')],
  kind="lsp", body=CH + '''
fn main() {
    let mut d = TextDocument::new("x <- 1\\ny".into(), 1);
    let r = d.apply_changes(vec![ch(Some((2, 0, 2, 0)), "z")], 2, PositionEncoding::UTF16);
    assert!(r.is_err());
    assert_eq!(d.content(), "x <- 1\\ny");
    assert_eq!(d.version(), 1);
}
'''),
 dict(id="l01-reversed-range", prop="L01",
  needs="a change whose range is reversed and whose two ends are on the same line",
  breaks="a change with a reversed range is applied with its ends swapped instead of being refused",
  edits=[(DOC, '''            if start_offset > end_offset {
                return Err(anyhow!(''', '''            // A selection made backwards covers the same text
            let (start_offset, end_offset) = if range.start.line == range.end.line {
                (start_offset.min(end_offset), start_offset.max(end_offset))
            } else {
                (start_offset, end_offset)
            };

            if start_offset > end_offset {
                return Err(anyhow!(''')],
  kind="lsp", body=CH + '''
fn main() {
    let mut d = TextDocument::new("abcdef\\ng".into(), 1);
    assert!(d.apply_changes(vec![ch(Some((1, 0, 0, 1)), "")], 2, PositionEncoding::UTF8).is_err());
    assert!(d.apply_changes(vec![ch(Some((0, 4, 0, 2)), "")], 2, PositionEncoding::UTF8).is_err());
    assert_eq!(d.content(), "abcdef\\ng");
}
'''),
 dict(id="l02-line-starts-chars", prop="L02",
  needs="a character outside ASCII on a line before the position",
  breaks="line starts count characters instead of bytes, so that positions on lines after a non-ASCII character are off",
  edits=[(DOC, "for (i, byte) in content.bytes().enumerate() {\n            if byte == b'\\n' {", "for (i, ch) in content.chars().enumerate() {\n            if ch == '\\n' {")],
  kind="lsp", body=CH + '''
fn main() {
    let d = TextDocument::new("# h\\u{e9}\\nx\\ny".into(), 1);
    assert_eq!(d.position_to_offset(Position::new(2, 0), PositionEncoding::UTF16).unwrap(), 8);
    assert_eq!(d.offset_to_position(8, PositionEncoding::UTF8).unwrap(), Position::new(2, 0));
}
'''),
 dict(id="l02-utf16-units", prop="L02",
  needs="UTF-16 positions and a two-byte character (Latin letters with accents, Greek, Cyrillic) before the offset",
  breaks="characters of two UTF-8 bytes count as two UTF-16 units when an offset becomes a position",
  edits=[(DOC, "prefix.chars().map(|c| c.len_utf16()).sum::<usize>()", "prefix.chars().map(|c| c.len_utf8().div_ceil(2).min(2)).sum::<usize>() + prefix.chars().filter(|c| c.len_utf8() == 2).count()\n                    - prefix.chars().filter(|c| c.len_utf8() == 3).count()")],
  kind="lsp", body=CH + '''
fn main() {
    let d = TextDocument::new("\\u{20ac}a\\u{1f600}b\\u{e9}c".into(), 1);
    for (o, c) in [(0, 0), (3, 1), (4, 2), (8, 4), (9, 5), (11, 6), (12, 7)] {
        assert_eq!(d.offset_to_position(o, PositionEncoding::UTF16).unwrap(), Position::new(0, c));
    }
}
'''),
 dict(id="l03-id-race", prop="L03",
  needs="two threads sending requests at the same moment",
  breaks="the request counter is read and written in two steps, so that two threads may use the same id",
  edits=[(CLI, '''            .request_id_counter
            .fetch_add(1, std::sync::atomic::Ordering::SeqCst);''', '''            .request_id_counter
            .load(std::sync::atomic::Ordering::SeqCst);
        self.request_id_counter
            .store(id + 1, std::sync::atomic::Ordering::SeqCst);''')],
  kind="lsp", body='''
use client::*;
use lsp_server::Message;
fn main() {
    let (s, r) = crossbeam::channel::unbounded();
    let c = Client::new(s);
    let t: Vec<_> = (0..8)
        .map(|_| {
            let c = c.clone();
            std::thread::spawn(move || {
                for _ in 0..20000 {
                    c.send_request::<lsp_types::request::WorkspaceFoldersRequest>((), |_| {}).unwrap();
                }
            })
        })
        .collect();
    for t in t {
        t.join().unwrap();
    }
    let mut seen = std::collections::HashSet::new();
    for m in r.try_iter() {
        if let Message::Request(q) = m {
            assert!(seen.insert(q.id), "an id was used twice");
        }
    }
    assert_eq!(seen.len(), 160000);
}
'''),
 dict(id="l03-notice-race", prop="L03",
  needs="two threads raising the notice at the same moment",
  breaks="the flag of the one-time notice is set only after the message was sent, so that several threads may all send it",
  edits=[(CLI, '''            .swap(true, std::sync::atomic::Ordering::SeqCst);''', '''            .load(std::sync::atomic::Ordering::SeqCst);'''),
         (CLI, '''        self.show_message(&message, types::MessageType::INFO)?;
        Ok(true)''', '''        self.show_message(&message, types::MessageType::INFO)?;
        self.unused_fn_threshold_notified
            .store(true, std::sync::atomic::Ordering::SeqCst);
        Ok(true)''')],
  kind="lsp", body='''
use client::*;
use std::sync::{Arc, Barrier};
fn main() {
    for _ in 0..3000 {
        let (s, r) = crossbeam::channel::unbounded();
        let c = Client::new(s);
        let b = Arc::new(Barrier::new(8));
        let t: Vec<_> = (0..8)
            .map(|_| {
                let (c, b) = (c.clone(), b.clone());
                std::thread::spawn(move || {
                    b.wait();
                    c.notify_unused_fn_threshold_once(2).unwrap()
                })
            })
            .collect();
        let n = t.into_iter().map(|t| t.join().unwrap()).filter(|x| *x).count();
        assert_eq!((n, r.try_iter().count()), (1, 1), "the notice was shown more than once");
    }
}
'''),
 dict(id="s01-end-last-colon", prop="S01",
  needs="an end comment with an explanation that itself contains a colon",
  breaks="the rule of an end comment reaches to the last colon, so that an end comment with a colon in its explanation names no rule",
  edits=[(DIR, "let rule_part = match after_end.find(':') {", "let rule_part = match after_end.rfind(':') {")],
  kind="core", body='''
use directive::*;
fn main() {
    let r = parse_comment_directive("# jarl-ignore-end any_is_na: done: see below");
    assert_eq!(r, Some(DirectiveParseResult::Valid(LintDirective::IgnoreEnd(rule_set::Rule::AnyIsNa))));
}
'''),
 dict(id="s01-array-item-dash", prop="S01",
  needs="a chunk-option array item whose dash is directly followed by the rule",
  breaks="array items without white space after the dash are taken for suppressions",
  edits=[(DIR, '''    if !rest.starts_with(char::is_whitespace) && !rest.is_empty() {
        return None;
    }
    let rest = rest.trim_start();''', '''    let rest = rest.trim_start_matches(|c: char| c.is_whitespace() || c == '-');''')],
  kind="core", body='''
use directive::*;
fn main() {
    assert_eq!(parse_quarto_chunk_array_item("#| -any_is_na: reason"), None);
    assert_eq!(parse_quarto_chunk_array_item("#| --any_is_na: reason"), None);
}
'''),
 dict(id="m01-longer-fence-closes", prop="M01",
  needs="a line of more backticks than the opening fence inside an R chunk",
  breaks="a line that starts with the fence but is longer closes the chunk",
  edits=[(NB, "if line.trim() == fence.as_str() {", "if line.trim().starts_with(fence.as_str()) {")],
  kind="core", body='''
fn main() {
    let c = rmd::extraction::extract_r_chunks("```{r}\\nx <- 1\\n````\\ny <- 2\\n```\\n");
    assert_eq!(c.len(), 1);
    assert_eq!(c[0].code, "x <- 1\\n````\\ny <- 2\\n");
}
'''),
 dict(id="m01-crlf-offset", prop="M01",
  needs="a notebook with CRLF line ends (all or some lines)",
  breaks="the stated byte position of a chunk is off by one for every earlier line that ends in CRLF",
  edits=[(NB, "        byte_offset += line.len();", "        byte_offset += line.trim_end_matches(['\\r', '\\n']).len() + 1;")],
  kind="core", body='''
fn main() {
    let t = "Title\\r\\n\\n```{r}\\r\\nx <- 1\\r\\n```\\r\\n";
    let c = rmd::extraction::extract_r_chunks(t);
    assert_eq!(c.len(), 1);
    assert!(t[c[0].start_byte..].starts_with(&c[0].code));
}
'''),
 dict(id="r01-first-category", prop="R01",
  needs="a rule with several categories, selected by one that is not its first",
  breaks="only the first category of a rule counts when filtering by category",
  edits=[(RS, "self.categories().contains(&category)", "self.categories().iter().next().is_some_and(|c| *c == category)")],
  kind="core", body='''
use rule_set::*;
fn main() {
    for r in Rule::all() {
        for c in r.categories() {
            assert!(r.has_category(*c), "{r} is not found by {c}");
        }
    }
}
'''),
 dict(id="r04-tab-continuation", prop="R04",
  needs="a DESCRIPTION whose Depends field continues on a line indented by a tab",
  breaks="only lines indented by spaces continue a field",
  edits=[(DESC, "if line.starts_with(char::is_whitespace) {", "if line.starts_with(' ') {")],
  kind="core", body='''
fn main() {
    let v = description::Description::get_depend_r_version("Package: p\\nDepends:\\n\\tR (>= 4.1.0),\\n\\tdplyr\\n").unwrap();
    assert_eq!(v, vec!["4.1.0".to_string()]);
}
'''),
 dict(id="r04-blank-continuation", prop="R04",
  needs="a continuation line that contains a colon, e.g. in Authors@R or Description",
  breaks="an indented line with a colon starts a field, so that text in Description overrides the real Depends field",
  edits=[(DESC, "if line.starts_with(char::is_whitespace) {", "if line.starts_with(char::is_whitespace) && !line.contains(\": \") {")],
  kind="core", body='''
fn main() {
    let v = description::Description::get_depend_r_version("Package: p\\nDepends: R (>= 4.1.0)\\nDescription: text\\n    Depends: R (>= 3.0.0)\\n").unwrap();
    assert_eq!(v, vec!["4.1.0".to_string()]);
}
'''),
 dict(id="c04-string-prefix", prop="C04",
  needs="a file in a sibling directory whose name starts with the name of the working directory",
  breaks="the working directory is stripped from shown paths as text instead of as path components",
  edits=[(FS, '''    if let Ok(path) = path.strip_prefix(cwd) {
        return format!("{}", path.display());
    }
    format!("{}", path.display())''', '''    let path = path.display().to_string();
    match path.strip_prefix(&*cwd.to_string_lossy()) {
        Some(rest) => rest.trim_start_matches('/').to_string(),
        None => path,
    }''')],
  kind="core", body='''
fn main() {
    let cwd = std::env::current_dir().unwrap();
    let sib = format!("{}2/a.R", cwd.display());
    assert_eq!(fs::relativize_path(&sib), sib);
    assert_eq!(fs::relativize_path(cwd.join("a.R")), "a.R");
}
'''),
]
