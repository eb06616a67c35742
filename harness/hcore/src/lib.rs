//! The parts of jarl-core and jarl that stand alone, compiled in place.
#[path = "/repo/crates/jarl-core/src/description.rs"]
pub mod description;
#[path = "/repo/crates/jarl-core/src/directive.rs"]
pub mod directive;
#[path = "/repo/crates/jarl-core/src/fs.rs"]
pub mod fs;
#[path = "/repo/crates/jarl-core/src/rule_set.rs"]
pub mod rule_set;
pub mod rmd {
    #[path = "/repo/crates/jarl-core/src/rmd/extraction.rs"]
    pub mod extraction;
}
#[path = "/repo/crates/jarl/src/logging.rs"]
pub mod logging;
#[path = "/repo/crates/jarl/src/status.rs"]
pub mod status;

/// `init_logging` is visible inside the crate only.
pub fn start_logging(l: logging::LogLevel) {
    logging::init_logging(l)
}
