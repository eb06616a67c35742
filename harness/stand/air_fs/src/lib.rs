//! Stand-in for air's `fs` crate.
use std::path::Path;
/// `path` relative to the working directory, if it is below it.
pub fn relativize_path<P: AsRef<Path>>(path: P) -> String {
    let path = path.as_ref();
    match std::env::current_dir().ok().and_then(|d| path.strip_prefix(d).ok().map(|p| p.to_path_buf())) {
        Some(p) => p.display().to_string(),
        None => path.display().to_string(),
    }
}
