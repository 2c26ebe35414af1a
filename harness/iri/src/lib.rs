//! Solver harnesses over `rdftk_iri`. Under Kani every `any` is a symbolic variable and every
//! `assert!` an obligation for CBMC; natively (`../iri_replay`) the same bodies re-run one
//! recorded counterexample against the real dependencies.
#![allow(dead_code)]
#![cfg_attr(kani, feature(fmt_internals, str_internals))]

#[macro_use]
pub mod support;
pub mod iris;
pub mod maps;
pub mod names;
pub mod vocab;
pub mod wire;

#[cfg(not(kani))]
pub fn all() -> Vec<(String, fn())> {
    let mut v = Vec::new();
    for (module, list) in [
        ("iris", iris::ALL),
        ("iris", iris::ALL_GENID),
        ("maps", maps::ALL),
        ("names", names::ALL),
        ("names", names::ALL_WIDE),
        ("vocab", vocab::ALL),
        ("vocab", vocab::ALL_IRIS),
        ("wire", wire::ALL),
    ] {
        for (name, f) in list {
            v.push((format!("{module}::{name}"), *f));
        }
    }
    v
}
