//! The real language server, compiled against schedule-controlled primitives.
extern crate vstd as std;
include!(concat!(env!("OUT_DIR"), "/root.rs"));
