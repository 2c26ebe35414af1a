//! `iri_replay run HARNESS FILE` re-runs one harness natively on one recorded assignment, against
//! the real crate and its real dependencies: exit 1 if the harness fails, 0 if it passes, 3 if the
//! assignment does not meet the harness' preconditions there.
//! `iri_replay search HARNESS FILE SECONDS OUT` looks near a recorded assignment for one that fails
//! against the real dependencies (for counterexamples which depend on how a model over-approximates
//! a dependency): exit 1 and the assignment in OUT if there is one.
//! `iri_replay fuzz ROUNDS` runs every harness on seeded random assignments (a sanity check of the
//! harnesses themselves, no part of any verdict).
//! `iri_replay models SEED ROUNDS` compares the dependency models with the real dependencies.
#[path = "../../iri/src/lib.rs"]
mod h;
mod models;
// The harness sources name their siblings from the crate root.
pub use h::{iris, maps, names, support, vocab, wire};

use std::panic::{catch_unwind, AssertUnwindSafe};

enum Outcome {
    Passed,
    Rejected(&'static str),
    Failed(String),
}

fn run(f: fn()) -> Outcome {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(()) => Outcome::Passed,
        Err(e) => {
            if let Some(r) = e.downcast_ref::<kani::Rejected>() {
                Outcome::Rejected(r.0)
            } else if let Some(s) = e.downcast_ref::<&'static str>() {
                Outcome::Failed(s.to_string())
            } else if let Some(s) = e.downcast_ref::<String>() {
                Outcome::Failed(s.clone())
            } else {
                Outcome::Failed("panic".to_string())
            }
        }
    }
}

fn read(path: &str) -> Vec<Vec<u8>> {
    std::fs::read_to_string(path)
        .unwrap()
        .lines()
        .filter(|l| !l.starts_with('#'))
        .map(|l| l.split_whitespace().map(|b| b.parse().unwrap()).collect())
        .collect()
}

/// Some of the values replaced by ones on which parsers decide.
fn near(seed: &[Vec<u8>], r: &mut models::Rng) -> Vec<Vec<u8>> {
    const TELLING: &[u8] = b"<>:/#?abzAZ019_-.%@[]\\ ~+";
    let keep = r.below(8);
    seed.iter()
        .map(|v| {
            if r.below(8) < keep {
                return v.clone();
            }
            let mut v = v.clone();
            if v.len() == 1 && r.below(4) == 0 && v[0] < 2 {
                v[0] = r.below(8) as u8;
            } else {
                v[0] = TELLING[r.below(TELLING.len())];
            }
            v
        })
        .collect()
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let a: Vec<String> = std::env::args().collect();
    match a.get(1).map(|s| s.as_str()) {
        Some("list") => {
            for (n, _) in h::all() {
                println!("{n}");
            }
        }
        Some("search") => {
            let f = h::all().into_iter().find(|(n, _)| *n == a[2]).expect("no such harness").1;
            let seed = read(&a[3]);
            let end = std::time::Instant::now() + std::time::Duration::from_secs(a[4].parse().unwrap());
            let mut r = models::Rng::new(1);
            while std::time::Instant::now() < end {
                let values = near(&seed, &mut r);
                kani::load(values.clone());
                if let Outcome::Failed(why) = run(f) {
                    let lines: Vec<String> = values
                        .iter()
                        .map(|v| v.iter().map(|b| b.to_string()).collect::<Vec<_>>().join(" "))
                        .collect();
                    std::fs::write(&a[5], lines.join("\n") + "\n").unwrap();
                    println!("FAILED {}: {why}", a[2]);
                    std::process::exit(1)
                }
            }
            println!("PASSED {}: nothing near the assignment fails", a[2]);
        }
        // FILE: one assignment; a line per value: its bytes in decimal.
        Some("run") => {
            let f = h::all().into_iter().find(|(n, _)| *n == a[2]).expect("no such harness").1;
            kani::load(read(&a[3]));
            match run(f) {
                Outcome::Passed => println!("PASSED {}", a[2]),
                Outcome::Rejected(why) => {
                    println!("REJECTED {}: {why}", a[2]);
                    std::process::exit(3)
                }
                Outcome::Failed(why) => {
                    println!("FAILED {}: {why}", a[2]);
                    std::process::exit(1)
                }
            }
        }
        Some("fuzz") => {
            let rounds: u64 = a[2].parse().unwrap();
            let only = a.get(3).cloned().unwrap_or_default();
            for (n, f) in h::all() {
                if !n.contains(&only) {
                    continue;
                }
                let (mut pass, mut rej, mut fail) = (0, 0, 0);
                let mut why = String::new();
                for s in 0..rounds {
                    kani::load_random(0x9e37_79b9_7f4a_7c15u64.wrapping_mul(s + 1));
                    match run(f) {
                        Outcome::Passed => pass += 1,
                        Outcome::Rejected(_) => rej += 1,
                        Outcome::Failed(w) => {
                            fail += 1;
                            why = w
                        }
                    }
                }
                println!("{n} passed={pass} rejected={rej} failed={fail} {why}");
            }
        }
        Some("models") => models::compare(a[2].parse().unwrap(), a[3].parse().unwrap()),
        _ => {
            eprintln!("usage: run HARNESS FILE | fuzz ROUNDS [FILTER] | models SEED ROUNDS | list");
            std::process::exit(2)
        }
    }
}
