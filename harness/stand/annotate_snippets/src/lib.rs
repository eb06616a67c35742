//! Stand-in for annotate-snippets 0.11: plain rendering of one snippet with one annotation.
use std::fmt::{self, Write};
use std::ops::Range;
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Level { Error, Warning, Info, Note, Help }
impl Level {
    pub fn title(self, title: &str) -> Message<'_> { Message { level: self, title, snippets: vec![], footer: vec![] } }
    pub fn span<'a>(self, range: Range<usize>) -> Annotation<'a> { Annotation { range, label: None } }
    fn name(self) -> &'static str { match self { Level::Error => "error", Level::Warning => "warning", Level::Info => "info", Level::Note => "note", Level::Help => "help" } }
}
#[derive(Debug)]
pub struct Message<'a> { level: Level, title: &'a str, snippets: Vec<Snippet<'a>>, footer: Vec<Message<'a>> }
impl<'a> Message<'a> {
    pub fn snippet(mut self, s: Snippet<'a>) -> Self { self.snippets.push(s); self }
    pub fn footer(mut self, f: Message<'a>) -> Self { self.footer.push(f); self }
}
#[derive(Debug)]
pub struct Snippet<'a> { source: &'a str, origin: Option<&'a str>, fold: bool, annotations: Vec<Annotation<'a>> }
impl<'a> Snippet<'a> {
    pub fn source(source: &'a str) -> Self { Snippet { source, origin: None, fold: false, annotations: vec![] } }
    pub fn origin(mut self, o: &'a str) -> Self { self.origin = Some(o); self }
    pub fn fold(mut self, f: bool) -> Self { self.fold = f; self }
    pub fn annotation(mut self, a: Annotation<'a>) -> Self { self.annotations.push(a); self }
}
#[derive(Debug)]
pub struct Annotation<'a> { range: Range<usize>, label: Option<&'a str> }
impl<'a> Annotation<'a> { pub fn label(mut self, l: &'a str) -> Self { self.label = Some(l); self } }
#[derive(Debug, Clone)]
pub struct Renderer;
impl Renderer {
    pub fn plain() -> Self { Renderer }
    pub fn styled() -> Self { Renderer }
    pub fn render<'a>(&'a self, m: Message<'a>) -> Rendered<'a> { Rendered(m) }
}
pub struct Rendered<'a>(Message<'a>);
fn width(s: &str) -> usize { s.chars().map(|c| if c == '\t' { 4 } else { 1 }).sum() }
impl fmt::Display for Rendered<'_> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        let m = &self.0;
        let mut o = String::new();
        writeln!(o, "{}: {}", m.level.name(), m.title)?;
        let mut w = 0;
        for s in &m.snippets {
            let a = &s.annotations[0];
            // lines with their byte offsets
            let mut lines = vec![];
            let mut at = 0;
            for l in s.source.split_inclusive('\n') { lines.push((at, l.trim_end_matches('\n').trim_end_matches('\r'))); at += l.len() }
            if lines.is_empty() { lines.push((0, "")) }
            let line_of = |p: usize| lines.iter().rposition(|(o, _)| *o <= p).unwrap_or(0);
            let l0 = line_of(a.range.start);
            let l1 = line_of(a.range.end.max(a.range.start + 1) - 1);
            let multi = l0 != l1;
            w = (l1 + 1).to_string().len();
            let col = |l: usize, p: usize| { let (o, t) = lines[l]; (t.get(..p.saturating_sub(o).min(t.len())).unwrap_or(t).chars().count(), width(t.get(..p.saturating_sub(o).min(t.len())).unwrap_or(t))) };
            writeln!(o, "{:w$}--> {}:{}:{}", "", s.origin.unwrap_or(""), l0 + 1, col(l0, a.range.start).0 + 1)?;
            writeln!(o, "{:w$} |", "")?;
            let label = a.label.unwrap_or("");
            let text = |l: usize| lines[l].1.replace('\t', "    ");
            if !multi {
                writeln!(o, "{:>w$} | {}", l0 + 1, text(l0))?;
                let (s0, s1) = (col(l0, a.range.start).1, col(l0, a.range.end).1);
                let n = (s1 - s0.min(s1)).max(1);
                write_label(&mut o, w, &" ".repeat(s0), &"-".repeat(n), label)?;
            } else {
                let first = lines[l0].1;
                let lead = lines[l0].0 + (first.len() - first.trim_start().len()) >= a.range.start;
                if lead { writeln!(o, "{:>w$} | / {}", l0 + 1, text(l0))? } else {
                    writeln!(o, "{:>w$} |   {}", l0 + 1, text(l0))?;
                    writeln!(o, "{:w$} |  _{}-", "", "_".repeat(col(l0, a.range.start).1))?;
                }
                let mut l = l0 + 1;
                while l <= l1 {
                    if s.fold && l1 - l0 >= 5 && l == l0 + 2 && l < l1 - 1 {
                        writeln!(o, "...{:w$}|", "")?;
                        l = l1 - 1;
                        continue;
                    }
                    writeln!(o, "{:>w$} | | {}", l + 1, text(l))?;
                    l += 1;
                }
                let e = col(l1, a.range.end).1.max(1);
                write_label(&mut o, w, &format!("|{}", "_".repeat(e)), "-", label)?;
            }
            writeln!(o, "{:w$} |", "")?;
        }
        for x in &m.footer {
            let t = x.title.replace('\n', &format!("\n{:w$}         ", ""));
            writeln!(o, "{:w$} = {}: {}", "", x.level.name(), t)?;
        }
        f.write_str(o.trim_end_matches('\n'))
    }
}
fn write_label(o: &mut String, w: usize, lead: &str, mark: &str, label: &str) -> fmt::Result {
    let pad = lead.chars().count() + mark.chars().count() + 1;
    let mut it = label.split('\n');
    writeln!(o, "{:w$} | {lead}{mark} {}", "", it.next().unwrap_or(""))?;
    for l in it { writeln!(o, "{:w$} | {:pad$}{l}", "", "")? }
    Ok(())
}
