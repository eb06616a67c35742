//! The real client handle, compiled against schedule-controlled primitives.
extern crate vstd as std;

#[path = "/repo/crates/jarl-lsp/src/client.rs"]
pub mod client;
