//! Stand-in for `git2` over the git command.
use std::path::{Path, PathBuf};
use std::process::Command;
#[derive(Debug)]
pub struct Error(String);
impl Error { pub fn message(&self) -> &str { &self.0 } }
impl std::fmt::Display for Error { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str(&self.0) } }
impl std::error::Error for Error {}
fn git(dir: &Path, args: &[&str]) -> Result<Vec<u8>, Error> {
    let o = Command::new("git").arg("-c").arg("safe.directory=*").arg("-C").arg(dir).args(args).env("LC_ALL", "C")
        .env_remove("GIT_DIR").output().map_err(|e| Error(e.to_string()))?;
    if o.status.success() { Ok(o.stdout) } else { Err(Error(String::from_utf8_lossy(&o.stderr).into_owned())) }
}
pub struct Repository { path: PathBuf, work: PathBuf }
impl Repository {
    pub fn discover<P: AsRef<Path>>(p: P) -> Result<Repository, Error> {
        let p = p.as_ref();
        let dir = if p.is_dir() { p } else { p.parent().filter(|d| !d.as_os_str().is_empty()).unwrap_or(Path::new(".")) };
        if !p.exists() { return Err(Error("no such path".into())) }
        let s = |v: Vec<u8>| String::from_utf8_lossy(&v).trim_end_matches('\n').to_string();
        let g = s(git(dir, &["rev-parse", "--absolute-git-dir"])?);
        // a repository without a working tree has none to ask the status of
        let w = git(dir, &["rev-parse", "--show-toplevel"]).map(s).ok().filter(|w| !w.is_empty()).map(PathBuf::from).unwrap_or_else(|| Path::new(&g).to_path_buf());
        Ok(Repository { path: PathBuf::from(format!("{g}/")), work: w })
    }
    pub fn init<P: AsRef<Path>>(p: P) -> Result<Repository, Error> {
        git(p.as_ref(), &["init", "-q"])?;
        Self::discover(p)
    }
    pub fn path(&self) -> &Path { &self.path }
    pub fn workdir(&self) -> Option<&Path> { if self.path.starts_with(&self.work) && self.path.as_path() == self.work.join("") { None } else { Some(&self.work) } }
    pub fn statuses(&self, o: Option<&mut StatusOptions>) -> Result<Statuses, Error> {
        let (untracked, ignored) = o.map_or((true, false), |o| (o.untracked, o.ignored));
        let mut a = vec!["status", "--porcelain", "-z", if untracked { "--untracked-files=normal" } else { "--untracked-files=no" }];
        if ignored { a.push("--ignored") }
        let out = git(&self.work, &a)?;
        let t = String::from_utf8_lossy(&out).into_owned();
        let mut v = vec![];
        let mut it = t.split('\0').filter(|x| !x.is_empty());
        while let Some(e) = it.next() {
            if e.starts_with('R') || e.starts_with('C') { it.next(); }
            let (x, y) = (e.as_bytes()[0], e.as_bytes()[1]);
            let s = match (x, y) {
                (b'?', _) => Status::WT_NEW.0,
                (b'!', _) => Status::IGNORED.0,
                (b'U', _) | (_, b'U') | (b'A', b'A') | (b'D', b'D') => Status::CONFLICTED.0,
                _ => (match x { b'A' | b'C' => 1, b'M' => 2, b'D' => 4, b'R' => 8, b'T' => 16, _ => 0 }) | (match y { b'A' => 128, b'M' => 256, b'D' => 512, b'T' => 1024, b'R' => 2048, _ => 0 }),
            };
            v.push(StatusEntry(e[3..].to_string(), Status(s)));
        }
        Ok(Statuses(v))
    }
}
#[derive(Default)]
pub struct StatusOptions { untracked: bool, ignored: bool }
impl StatusOptions {
    pub fn new() -> Self { Self::default() }
    pub fn include_ignored(&mut self, b: bool) -> &mut Self { self.ignored = b; self }
    pub fn recurse_untracked_dirs(&mut self, _: bool) -> &mut Self { self }
    pub fn include_untracked(&mut self, b: bool) -> &mut Self { self.untracked = b; self }
}
pub struct Statuses(Vec<StatusEntry>);
impl Statuses { pub fn iter(&self) -> std::slice::Iter<'_, StatusEntry> { self.0.iter() } pub fn len(&self) -> usize { self.0.len() } pub fn is_empty(&self) -> bool { self.0.is_empty() } }
pub struct StatusEntry(String, Status);
impl StatusEntry { pub fn path(&self) -> Option<&str> { Some(&self.0) } pub fn status(&self) -> Status { self.1 } }
#[derive(PartialEq, Eq, Clone, Copy, Debug)]
pub struct Status(u32);
impl std::ops::BitOr for Status { type Output = Status; fn bitor(self, o: Status) -> Status { Status(self.0 | o.0) } }
impl std::ops::BitAnd for Status { type Output = Status; fn bitand(self, o: Status) -> Status { Status(self.0 & o.0) } }
impl Status {
    pub const CURRENT: Status = Status(0);
    pub const INDEX_NEW: Status = Status(1);
    pub fn is_index_new(&self) -> bool { self.0 & 1 != 0 }
    pub const INDEX_MODIFIED: Status = Status(2);
    pub fn is_index_modified(&self) -> bool { self.0 & 2 != 0 }
    pub const INDEX_DELETED: Status = Status(4);
    pub fn is_index_deleted(&self) -> bool { self.0 & 4 != 0 }
    pub const INDEX_RENAMED: Status = Status(8);
    pub fn is_index_renamed(&self) -> bool { self.0 & 8 != 0 }
    pub const INDEX_TYPECHANGE: Status = Status(16);
    pub fn is_index_typechange(&self) -> bool { self.0 & 16 != 0 }
    pub const WT_NEW: Status = Status(128);
    pub fn is_wt_new(&self) -> bool { self.0 & 128 != 0 }
    pub const WT_MODIFIED: Status = Status(256);
    pub fn is_wt_modified(&self) -> bool { self.0 & 256 != 0 }
    pub const WT_DELETED: Status = Status(512);
    pub fn is_wt_deleted(&self) -> bool { self.0 & 512 != 0 }
    pub const WT_TYPECHANGE: Status = Status(1024);
    pub fn is_wt_typechange(&self) -> bool { self.0 & 1024 != 0 }
    pub const WT_RENAMED: Status = Status(2048);
    pub fn is_wt_renamed(&self) -> bool { self.0 & 2048 != 0 }
    pub const IGNORED: Status = Status(16384);
    pub fn is_ignored(&self) -> bool { self.0 & 16384 != 0 }
    pub const CONFLICTED: Status = Status(32768);
    pub fn is_conflicted(&self) -> bool { self.0 & 32768 != 0 }
    pub fn bits(&self) -> u32 { self.0 }
    pub fn is_empty(&self) -> bool { self.0 == 0 }
    pub fn contains(&self, o: Status) -> bool { self.0 & o.0 == o.0 }
    pub fn intersects(&self, o: Status) -> bool { self.0 & o.0 != 0 }
}
// what the repository's own integration tests use to make a commit
pub struct Index(PathBuf);
impl Index {
    pub fn add_path(&mut self, p: &Path) -> Result<(), Error> { git(&self.0, &["add", "--", &p.to_string_lossy()]).map(|_| ()) }
    pub fn write(&mut self) -> Result<(), Error> { Ok(()) }
    pub fn write_tree(&mut self) -> Result<String, Error> { git(&self.0, &["write-tree"]).map(|v| String::from_utf8_lossy(&v).trim().to_string()) }
}
pub struct Tree;
pub struct Signature(String, String);
impl Signature { pub fn now(n: &str, e: &str) -> Result<Signature, Error> { Ok(Signature(n.into(), e.into())) } }
impl Repository {
    pub fn index(&self) -> Result<Index, Error> { Ok(Index(self.work.clone())) }
    pub fn find_tree(&self, _: String) -> Result<Tree, Error> { Ok(Tree) }
    pub fn commit(&self, _: Option<&str>, s: &Signature, _: &Signature, m: &str, _: &Tree, _: &[&Tree]) -> Result<(), Error> {
        git(&self.work, &["-c", &format!("user.name={}", s.0), "-c", &format!("user.email={}", s.1), "commit", "-q", "-m", m]).map(|_| ())
    }
}
