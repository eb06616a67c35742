//! Stand-in for air's `workspace` crate.
pub mod resolve {
    use std::path::{Path, PathBuf};
    #[derive(Debug)]
    pub struct PathResolverItem<T> { path: PathBuf, value: T }
    impl<T> PathResolverItem<T> {
        pub fn path(&self) -> &Path { &self.path }
        pub fn value(&self) -> &T { &self.value }
    }
    /// Maps a path to the value of the closest directory above it.
    #[derive(Debug)]
    pub struct PathResolver<T> { fallback: T, items: Vec<PathResolverItem<T>> }
    impl<T> PathResolver<T> {
        pub fn new(fallback: T) -> Self { PathResolver { fallback, items: vec![] } }
        pub fn add(&mut self, path: &Path, value: T) {
            if let Some(i) = self.items.iter_mut().find(|i| i.path == path) { i.value = value; return }
            self.items.push(PathResolverItem { path: path.to_path_buf(), value });
        }
        pub fn items(&self) -> &[PathResolverItem<T>] { &self.items }
        pub fn fallback(&self) -> &T { &self.fallback }
        pub fn len(&self) -> usize { self.items.len() }
        pub fn is_empty(&self) -> bool { self.items.is_empty() }
        pub fn resolve(&self, path: &Path) -> Option<&PathResolverItem<T>> {
            self.items.iter().filter(|i| path.starts_with(&i.path)).max_by_key(|i| i.path.components().count())
        }
        pub fn resolve_or_fallback(&self, path: &Path) -> &T { self.resolve(path).map_or(&self.fallback, |i| &i.value) }
    }
}
