//! Solver harnesses over `rdftk_core` (see ../iri for the conventions).
#![recursion_limit = "65536"]
#![allow(dead_code)]
#![cfg_attr(kani, feature(fmt_internals, str_internals))]

#[macro_use]
#[path = "../../iri/src/support.rs"]
pub mod support;
#[macro_use]
pub mod texts;
#[macro_use]
pub mod named;
pub mod literals;
pub mod statements;
pub mod types;

#[cfg(not(kani))]
pub fn all() -> Vec<(String, fn())> {
    let mut v = Vec::new();
    for (module, list) in [("literals", literals::ALL), ("literals", literals::WIDE), ("statements", statements::ALL), ("types", types::ALL)] {
        for (name, f) in list {
            v.push((format!("{module}::{name}"), *f));
        }
    }
    v
}
