//! Stand-in for the host side of the Zed extension API: answers are scripted, calls recorded.
use std::fmt;
use std::sync::Mutex;
pub use serde_json;
pub type Result<T, E = String> = core::result::Result<T, E>;
pub type EnvVars = Vec<(String, String)>;

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Os { Mac, Linux, Windows }
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Architecture { Aarch64, X86, X8664 }
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum DownloadedFileType { Gzip, GzipTar, Zip, Uncompressed }
#[derive(Debug, Clone, PartialEq)]
pub enum LanguageServerInstallationStatus { None, Downloading, CheckingForUpdate, Failed(String) }
#[derive(Debug, Clone)]
pub struct GithubRelease { pub version: String, pub assets: Vec<GithubReleaseAsset> }
#[derive(Debug, Clone)]
pub struct GithubReleaseAsset { pub name: String, pub download_url: String }
#[derive(Debug, Clone, Copy)]
pub struct GithubReleaseOptions { pub require_assets: bool, pub pre_release: bool }
#[derive(Debug, Clone)]
pub struct Command { pub command: String, pub args: Vec<String>, pub env: EnvVars }

#[derive(Debug, PartialEq, Eq, PartialOrd, Ord, Hash, Clone)]
pub struct LanguageServerId(pub String);
impl AsRef<str> for LanguageServerId { fn as_ref(&self) -> &str { &self.0 } }
impl fmt::Display for LanguageServerId { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "{}", self.0) } }

#[derive(Debug, Clone)]
pub struct Script {
    pub os: Os, pub arch: Architecture,
    pub settings: Option<serde_json::Value>, // None: the lookup fails
    pub which: Option<String>,
    pub version: Option<String>, pub assets: Vec<String>,
    pub dl: String,
}
#[derive(Debug, Clone, PartialEq)]
pub struct Download { pub url: String, pub dir: String, pub kind: DownloadedFileType }
pub static SCRIPT: Mutex<Option<Script>> = Mutex::new(None);
pub static DOWNLOADS: Mutex<Vec<Download>> = Mutex::new(Vec::new());
fn script() -> Script { SCRIPT.lock().unwrap().clone().expect("script") }

#[derive(Debug)]
pub struct Worktree { pub root: String }
impl Worktree {
    pub fn id(&self) -> u64 { 7 }
    pub fn root_path(&self) -> String { self.root.clone() }
    pub fn read_text_file(&self, _path: &str) -> Result<String> { Err("no such file".into()) }
    pub fn which(&self, name: &str) -> Option<String> { if name == "jarl" { script().which } else { None } }
    pub fn shell_env(&self) -> EnvVars { vec![] }
}
pub fn set_language_server_installation_status(_id: &LanguageServerId, _s: &LanguageServerInstallationStatus) {}
pub fn current_platform() -> (Os, Architecture) { let s = script(); (s.os, s.arch) }

fn release(repo: &str) -> Result<GithubRelease> {
    if repo != "etiennebacher/jarl" { return Err(format!("no such repository: {repo}")) }
    let s = script();
    let version = s.version.ok_or("rate limit exceeded")?;
    let assets = s.assets.iter().map(|n| GithubReleaseAsset { name: n.clone(), download_url: format!("https://example.org/{version}/{n}") }).collect();
    Ok(GithubRelease { version, assets })
}
pub fn latest_github_release(repo: &str, options: GithubReleaseOptions) -> Result<GithubRelease> {
    let mut r = release(repo)?;
    if options.pre_release { // a pre-release newer than the latest release
        r.version = format!("{}-rc1", r.version);
        for a in &mut r.assets { a.download_url = a.download_url.replace("example.org/", "example.org/rc1-") }
    }
    if !options.require_assets { r = GithubRelease { version: "9.9".into(), assets: vec![] } } // tagged, nothing uploaded yet
    Ok(r)
}
pub fn github_release_by_tag_name(repo: &str, tag: &str) -> Result<GithubRelease> {
    let r = release(repo)?;
    if r.version == tag { Ok(r) } else { Err("no such tag".into()) }
}
pub fn make_file_executable(path: &str) -> Result<()> { std::fs::metadata(path).map(|_| ()).map_err(|e| e.to_string()) }

/// Unpacks what the url stands for into `dir`, as the script says.
pub fn download_file(url: &str, dir: &str, kind: DownloadedFileType) -> Result<()> {
    DOWNLOADS.lock().unwrap().push(Download { url: url.into(), dir: dir.into(), kind });
    let s = script();
    let p = std::path::Path::new(dir);
    if p.is_absolute() || p.components().any(|c| !matches!(c, std::path::Component::Normal(_))) { return Err("outside of the extension's directory".into()) }
    if s.dl == "fail" { return Err("connection reset".into()) }
    let e = |e: std::io::Error| e.to_string();
    std::fs::create_dir_all(dir).map_err(e)?;
    if s.dl == "partial" { return Err("connection reset".into()) }
    let name = url.rsplit('/').next().unwrap();
    let target = match kind {
        DownloadedFileType::GzipTar => name.strip_suffix(".tar.gz").map(|stem| p.join(stem).join("jarl")),
        DownloadedFileType::Zip => name.strip_suffix(".zip").map(|_| p.join("jarl.exe")),
        _ => None,
    }.ok_or("not such an archive")?;
    if s.dl == "hollow" { return Ok(()) }
    if target.is_dir() { std::fs::remove_dir_all(&target).map_err(e)? }
    std::fs::create_dir_all(target.parent().unwrap()).map_err(e)?;
    std::fs::write(target, url).map_err(e)
}

pub mod settings {
    use super::*;
    #[derive(Default, Debug, Clone)]
    pub struct CommandSettings { pub path: Option<String>, pub arguments: Option<Vec<String>>, pub env: Option<std::collections::HashMap<String, String>> }
    #[derive(Default, Debug, Clone)]
    pub struct LspSettings { pub binary: Option<CommandSettings>, pub initialization_options: Option<serde_json::Value>, pub settings: Option<serde_json::Value> }
    impl LspSettings {
        pub fn for_worktree(name: &str, _w: &Worktree) -> Result<Self> {
            let s = script();
            let v = s.settings.ok_or("no settings")?;
            if name != "jarl" { return Ok(Self::default()) }
            let b = v.get("binary").filter(|b| !b.is_null());
            Ok(LspSettings {
                binary: b.map(|b| CommandSettings {
                    path: b.get("path").and_then(|p| p.as_str()).map(String::from),
                    arguments: b.get("arguments").and_then(|a| a.as_array()).map(|a| a.iter().map(|x| x.as_str().unwrap().to_string()).collect()),
                    env: None,
                }),
                initialization_options: v.get("init").cloned(),
                settings: v.get("work").cloned(),
            })
        }
    }
}

pub trait Extension: Send + Sync {
    fn new() -> Self where Self: Sized;
    fn language_server_command(&mut self, _id: &LanguageServerId, _w: &Worktree) -> Result<Command> { Err("not implemented".into()) }
    fn language_server_initialization_options(&mut self, _id: &LanguageServerId, _w: &Worktree) -> Result<Option<serde_json::Value>> { Ok(None) }
    fn language_server_workspace_configuration(&mut self, _id: &LanguageServerId, _w: &Worktree) -> Result<Option<serde_json::Value>> { Ok(None) }
}
#[macro_export]
macro_rules! register_extension {
    ($t:ty) => {
        #[doc(hidden)]
        pub fn __vp_new() -> Box<dyn $crate::Extension> { Box::new(<$t as $crate::Extension>::new()) }
    };
}
