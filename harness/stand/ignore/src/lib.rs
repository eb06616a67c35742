//! Stand-in for the `ignore` crate: walks directories by gitignore rules.
use globset::{GlobBuilder, GlobMatcher};
use std::fs::{FileType, Metadata};
use std::path::{Path, PathBuf};
use std::sync::Arc;

#[derive(Debug, Clone)]
pub enum Error { Io(String), Glob(String), WithPath { path: PathBuf, err: Box<Error> }, WithDepth { depth: usize, err: Box<Error> } }
impl std::fmt::Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        match self { Error::Io(s) | Error::Glob(s) => f.write_str(s), Error::WithDepth { err, .. } => err.fmt(f), Error::WithPath { path, err } => write!(f, "{}: {err}", path.display()) }
    }
}
impl std::error::Error for Error {}

#[derive(Clone, Debug)]
pub enum Match<T> { None, Ignore(T), Whitelist(T) }
impl<T> Match<T> {
    pub fn is_none(&self) -> bool { matches!(self, Match::None) }
    pub fn is_ignore(&self) -> bool { matches!(self, Match::Ignore(_)) }
    pub fn is_whitelist(&self) -> bool { matches!(self, Match::Whitelist(_)) }
    pub fn invert(self) -> Match<T> { match self { Match::None => Match::None, Match::Ignore(t) => Match::Whitelist(t), Match::Whitelist(t) => Match::Ignore(t) } }
}

pub mod gitignore {
    use super::*;
    #[derive(Clone, Debug)]
    pub struct Glob { m: GlobMatcher, white: bool, only_dir: bool, original: String }
    impl Glob {
        pub fn original(&self) -> &str { &self.original }
        pub fn is_whitelist(&self) -> bool { self.white }
        pub fn is_only_dir(&self) -> bool { self.only_dir }
    }
    #[derive(Clone, Debug)]
    pub struct Gitignore { pub(crate) root: PathBuf, globs: Vec<Glob> }
    impl Gitignore {
        pub fn empty() -> Self { Gitignore { root: PathBuf::new(), globs: vec![] } }
        pub fn is_empty(&self) -> bool { self.globs.is_empty() }
        pub fn num_ignores(&self) -> usize { self.globs.iter().filter(|g| !g.white).count() }
        pub fn num_whitelists(&self) -> usize { self.globs.iter().filter(|g| g.white).count() }
        pub fn matched<P: AsRef<Path>>(&self, path: P, is_dir: bool) -> Match<&Glob> {
            let p = self.strip(path.as_ref());
            for g in self.globs.iter().rev() {
                if (!g.only_dir || is_dir) && g.m.is_match(p) { return if g.white { Match::Whitelist(g) } else { Match::Ignore(g) } }
            }
            Match::None
        }
        pub fn matched_path_or_any_parents<P: AsRef<Path>>(&self, path: P, is_dir: bool) -> Match<&Glob> {
            let mut p = self.strip(path.as_ref());
            let m = self.matched(p, is_dir);
            if !m.is_none() { return m }
            while let Some(q) = p.parent() {
                let m = self.matched(q, true);
                if !m.is_none() { return m }
                p = q;
            }
            Match::None
        }
        fn strip<'a>(&self, p: &'a Path) -> &'a Path {
            let p = p.strip_prefix("./").unwrap_or(p);
            let root = self.root.strip_prefix("./").unwrap_or(&self.root);
            if root != Path::new(".") && root != Path::new("") { p.strip_prefix(root).unwrap_or(p) } else { p }
        }
    }
    pub struct GitignoreBuilder { root: PathBuf, globs: Vec<Glob> }
    impl GitignoreBuilder {
        pub fn new<P: AsRef<Path>>(root: P) -> Self { GitignoreBuilder { root: root.as_ref().strip_prefix("./").unwrap_or(root.as_ref()).to_path_buf(), globs: vec![] } }
        pub fn add<P: AsRef<Path>>(&mut self, file: P) -> Option<Error> {
            let t = match std::fs::read(file.as_ref()) { Ok(t) => String::from_utf8_lossy(&t).into_owned(), Err(e) => return Some(Error::Io(e.to_string())) };
            for l in t.trim_start_matches('\u{feff}').lines() { let _ = self.add_line(None, l); }
            None
        }
        pub fn add_line(&mut self, _from: Option<PathBuf>, line: &str) -> Result<&mut Self, Error> {
            let original = line.to_string();
            let mut line = line;
            if line.starts_with('#') { return Ok(self) }
            if !line.ends_with("\\ ") { line = line.trim_end() }
            if line.is_empty() { return Ok(self) }
            let (mut white, mut only_dir, mut absolute) = (false, false, false);
            if line.starts_with("\\!") || line.starts_with("\\#") { line = &line[1..]; absolute = line.starts_with('/') } else {
                if let Some(l) = line.strip_prefix('!') { white = true; line = l }
                if let Some(l) = line.strip_prefix('/') { absolute = true; line = l }
            }
            if let Some(l) = line.strip_suffix('/') { only_dir = true; line = l }
            let mut actual = line.to_string();
            if !absolute && !line.contains('/') && !(actual.starts_with("**/") || actual == "**") { actual = format!("**/{actual}") }
            if actual.ends_with("/**") { actual = format!("{actual}/*") }
            let m = GlobBuilder::new(&actual).literal_separator(true).backslash_escape(true).build().map_err(|e| Error::Glob(e.to_string()))?.compile_matcher();
            self.globs.push(Glob { m, white, only_dir, original });
            Ok(self)
        }
        pub fn build(&self) -> Result<Gitignore, Error> { Ok(Gitignore { root: self.root.clone(), globs: self.globs.clone() }) }
    }
}
pub mod overrides {
    use super::*;
    #[derive(Clone, Debug)]
    pub struct Override(pub(crate) gitignore::Gitignore);
    #[derive(Clone, Debug)]
    pub struct Glob(());
    impl Override {
        pub fn empty() -> Self { Override(gitignore::Gitignore::empty()) }
        pub fn is_empty(&self) -> bool { self.0.is_empty() }
        pub fn matched<P: AsRef<Path>>(&self, path: P, is_dir: bool) -> Match<Glob> {
            if self.is_empty() { return Match::None }
            let m = match self.0.matched(path, is_dir) { Match::None => Match::None, Match::Ignore(_) => Match::Whitelist(Glob(())), Match::Whitelist(_) => Match::Ignore(Glob(())) };
            if m.is_none() && self.0.num_ignores() > 0 && !is_dir { return Match::Ignore(Glob(())) }
            m
        }
    }
    pub struct OverrideBuilder(gitignore::GitignoreBuilder);
    impl OverrideBuilder {
        pub fn new<P: AsRef<Path>>(root: P) -> Self { OverrideBuilder(gitignore::GitignoreBuilder::new(root)) }
        pub fn add(&mut self, glob: &str) -> Result<&mut Self, Error> { self.0.add_line(None, glob)?; Ok(self) }
        pub fn build(&self) -> Result<Override, Error> { Ok(Override(self.0.build()?)) }
    }
}

#[derive(Clone, Debug)]
pub struct DirEntry { path: PathBuf, ty: Option<FileType>, depth: usize }
impl DirEntry {
    pub fn path(&self) -> &Path { &self.path }
    pub fn into_path(self) -> PathBuf { self.path }
    pub fn file_type(&self) -> Option<FileType> { self.ty }
    pub fn file_name(&self) -> &std::ffi::OsStr { self.path.file_name().unwrap_or(self.path.as_os_str()) }
    pub fn depth(&self) -> usize { self.depth }
    pub fn metadata(&self) -> Result<Metadata, Error> { std::fs::symlink_metadata(&self.path).map_err(|e| Error::Io(e.to_string())) }
    pub fn error(&self) -> Option<&Error> { None }
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum WalkState { Continue, Skip, Quit }
pub trait ParallelVisitorBuilder<'s> { fn build(&mut self) -> Box<dyn ParallelVisitor + 's>; }
pub trait ParallelVisitor: Send { fn visit(&mut self, entry: Result<DirEntry, Error>) -> WalkState; }

#[derive(Clone)]
pub struct WalkBuilder { roots: Vec<PathBuf>, hidden: bool, parents: bool, git_ignore: bool, git_exclude: bool, overrides: overrides::Override, threads: usize }
impl WalkBuilder {
    pub fn new<P: AsRef<Path>>(p: P) -> Self { WalkBuilder { roots: vec![p.as_ref().to_path_buf()], hidden: true, parents: true, git_ignore: true, git_exclude: true, overrides: overrides::Override::empty(), threads: 0 } }
    pub fn add<P: AsRef<Path>>(&mut self, p: P) -> &mut Self { self.roots.push(p.as_ref().to_path_buf()); self }
    pub fn hidden(&mut self, b: bool) -> &mut Self { self.hidden = b; self }
    pub fn parents(&mut self, b: bool) -> &mut Self { self.parents = b; self }
    pub fn ignore(&mut self, _: bool) -> &mut Self { self }
    pub fn git_ignore(&mut self, b: bool) -> &mut Self { self.git_ignore = b; self }
    pub fn git_global(&mut self, _: bool) -> &mut Self { self }
    pub fn git_exclude(&mut self, b: bool) -> &mut Self { self.git_exclude = b; self }
    pub fn overrides(&mut self, o: overrides::Override) -> &mut Self { self.overrides = o; self }
    pub fn threads(&mut self, n: usize) -> &mut Self { self.threads = n; self }
    pub fn build(&self) -> Walk { let mut v = vec![]; self.walk(&mut |_| {}, &mut |e| { v.push(e); WalkState::Continue }); Walk(v.into_iter()) }
    pub fn build_parallel(&self) -> WalkParallel { WalkParallel(self.clone()) }
    fn walk(&self, order: &mut dyn FnMut(&mut Vec<std::fs::DirEntry>), f: &mut dyn FnMut(Result<DirEntry, Error>) -> WalkState) {
        for r in &self.roots {
            let ty = match std::fs::metadata(r) {
                Ok(m) => m.file_type(),
                Err(e) => { if f(Err(Error::WithPath { path: r.clone(), err: Box::new(Error::Io(e.to_string())) })) == WalkState::Quit { return } continue }
            };
            // the ignore files of the directories above, outermost first
            let abs = std::path::absolute(r).unwrap_or_else(|_| r.clone());
            let mut ig: Vec<Arc<gitignore::Gitignore>> = vec![];
            let mut in_repo = false;
            if self.parents && self.git_ignore {
                for a in abs.ancestors().skip(1) {
                    if let Some(g) = read_ignore(a) { ig.push(g) }
                    if a.join(".git").exists() { in_repo = true; break }
                }
                ig.reverse();
                if !in_repo { ig.clear() }
            }
            match f(Ok(DirEntry { path: r.clone(), ty: Some(ty), depth: 0 })) { WalkState::Quit => return, WalkState::Skip => continue, _ => {} }
            if ty.is_dir() && !self.dir(r, 1, &ig, in_repo, order, f) { return }
        }
    }
    fn dir(&self, d: &Path, depth: usize, ig: &[Arc<gitignore::Gitignore>], in_repo: bool, order: &mut dyn FnMut(&mut Vec<std::fs::DirEntry>), f: &mut dyn FnMut(Result<DirEntry, Error>) -> WalkState) -> bool {
        let mut ig = ig.to_vec();
        let mut in_repo = in_repo;
        if self.git_ignore {
            if d.join(".git").exists() { in_repo = true; ig.clear() }
            if in_repo && let Some(g) = read_ignore(d) { ig.push(g) }
        }
        let rd = match std::fs::read_dir(d) {
            Ok(r) => r,
            Err(e) => return f(Err(Error::WithPath { path: d.to_path_buf(), err: Box::new(Error::Io(e.to_string())) })) != WalkState::Quit,
        };
        let mut es: Vec<_> = rd.flatten().collect();
        order(&mut es);
        for e in es {
            let p = e.path();
            let Ok(ty) = e.file_type() else { continue };
            let is_dir = ty.is_dir();
            let mut m = match self.overrides.matched(&p, is_dir) { Match::Ignore(_) => continue, Match::Whitelist(_) => Some(true), Match::None => None };
            if m.is_none() {
                let ap = std::path::absolute(&p).unwrap_or_else(|_| p.clone());
                for g in ig.iter().rev() {
                    match g.matched(&ap, is_dir) { Match::Ignore(_) => { m = Some(false); break } Match::Whitelist(_) => { m = Some(true); break } Match::None => {} }
                }
            }
            if m == Some(false) { continue }
            if m.is_none() && self.hidden && p.file_name().is_some_and(|n| n.to_string_lossy().starts_with('.')) { continue }
            match f(Ok(DirEntry { path: p.clone(), ty: Some(ty), depth })) { WalkState::Quit => return false, WalkState::Skip => continue, _ => {} }
            if is_dir && !self.dir(&p, depth + 1, &ig, in_repo, order, f) { return false }
        }
        true
    }
}
fn read_ignore(d: &Path) -> Option<Arc<gitignore::Gitignore>> {
    let p = d.join(".gitignore");
    if !p.is_file() { return None }
    let mut b = gitignore::GitignoreBuilder::new(std::path::absolute(d).ok()?);
    b.add(&p);
    Some(Arc::new(b.build().ok()?))
}
pub struct Walk(std::vec::IntoIter<Result<DirEntry, Error>>);
impl Iterator for Walk { type Item = Result<DirEntry, Error>; fn next(&mut self) -> Option<Self::Item> { self.0.next() } }
pub struct WalkParallel(WalkBuilder);
impl WalkParallel {
    pub fn visit<'s>(self, b: &mut dyn ParallelVisitorBuilder<'s>) {
        // Several threads visit the entries of a directory in no particular order: with
        // STAND_SHUFFLE set, entries are shuffled and dealt to four visitors at random.
        let Some(mut seed) = std::env::var("STAND_SHUFFLE").ok().and_then(|s| s.parse::<u64>().ok()) else {
            let mut v = b.build();
            self.0.walk(&mut |_| {}, &mut |e| v.visit(e));
            return;
        };
        fn below(seed: &mut u64, n: usize) -> usize { *seed = seed.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407); (*seed >> 33) as usize % n }
        let (mut s2, mut roots) = (seed ^ 0x9e37, self.0.clone());
        for k in (1..roots.roots.len()).rev() { roots.roots.swap(k, below(&mut seed, k + 1)) }
        let mut vs: Vec<_> = (0..4).map(|_| b.build()).collect();
        roots.walk(&mut |es| for k in (1..es.len()).rev() { es.swap(k, below(&mut s2, k + 1)) }, &mut |e| { let k = below(&mut seed, 4); vs[k].visit(e) });
        while !vs.is_empty() { let k = below(&mut seed, vs.len()); vs.remove(k); }
    }
}
