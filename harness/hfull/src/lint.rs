//! Linting a text in memory with jarl-core.
use jarl_core::check::get_checks;
use jarl_core::config::{ArgsConfig, Config, build_config};
use jarl_core::diagnostic::Diagnostic;
use jarl_core::package::PackageAnalysis;
use jarl_core::settings::Settings;
use std::path::Path;

pub fn args() -> ArgsConfig {
    ArgsConfig {
        files: vec![],
        fix: false,
        unsafe_fixes: false,
        fix_only: false,
        select: String::new(),
        extend_select: String::new(),
        ignore: String::new(),
        min_r_version: None,
        allow_dirty: false,
        allow_no_vcs: true,
        assignment: None,
    }
}
pub fn config(a: &ArgsConfig, s: Option<&Settings>) -> anyhow::Result<Config> {
    build_config(a, s, vec![])
}
pub fn selecting(rules: &str) -> Config {
    config(&ArgsConfig { select: rules.into(), min_r_version: Some("9.9".into()), ..args() }, None).expect("configuration")
}
/// Violations of a text, as the file `name`; a parse failure is None, a panic is an error.
pub fn lint(text: &str, name: &str, cfg: &Config) -> Result<Option<Vec<Diagnostic>>, String> {
    vcommon::guarded(|| get_checks(text, Path::new(name), cfg, &PackageAnalysis::default()).ok()).map_err(|p| format!("crash: {p}"))
}
