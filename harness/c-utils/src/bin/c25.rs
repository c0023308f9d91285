//! C25: the pseudo-random generator is a reproducible function of its seed and stays within range.
use kit::prelude::*;
use kit::{ensure, must};
use serde::{Deserialize, Serialize};
use utils::pseudo_random::{Generate, PseudoRandom};

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
    Seed(u64),
    Unit,
    Range(i32, i32),
}

/// The published recurrence: the cube of the position's multiple, remainder and quotient by a prime,
/// in double precision.
fn unit(position: u64) -> f64 {
    let a = position as f64 * 15485863.;
    (a * a * a % 2038074743.) / 2038074743.
}

/// Small, large and huge seeds, and those around powers of two.
fn seeds() -> impl Strategy<Value = u64> {
    prop_oneof![
        3 => any::<u32>().prop_map(|s| s as u64),
        3 => 0u64..10,
        1 => 0u64..(1 << 62),
        1 => (8u32..62, 0u64..8).prop_map(|(bits, more)| (1u64 << bits) - 4 + more),
    ]
}

fn main() {
    kit::engine::run(
        "C25",
        "histories of 1..60 operations (re-seed, draw from the unit interval, draw from a range) on two generators; \
         non-trivial: at least one draw after a re-seed, or three draws",
        &["oracle: the recurrence in double precision, whose rounding is part of the sequence"],
        |suite| {
            let op = prop_oneof![
                1 => seeds().prop_map(Op::Seed),
                4 => Just(Op::Unit),
                3 => (-100_000i32..100_000, -100_000i32..100_000).prop_map(|(a, b)| Op::Range(a.min(b), a.max(b))),
            ];
            let history = (seeds(), prop::collection::vec(op, 1..60));
            suite.sub("history", history, 30_000, 1_000_000, |(seed, ops), obs| {
                let mut first = PseudoRandom { seed: *seed as usize };
                let mut second = PseudoRandom { seed: 0 };
                second.seed(*seed as usize);
                let mut counter = *seed;
                let mut draws: Vec<f64> = vec![];
                let mut reseeded = false;
                for op in ops {
                    match op {
                        Op::Seed(s) => {
                            first.seed(*s as usize);
                            second.seed(*s as usize);
                            counter = *s;
                            reseeded = true;
                        }
                        Op::Unit => {
                            counter += 1;
                            let (a, b) = must("unit", || (first.generate_unit(), second.generate_unit()))?;
                            ensure!(a == b, "two generators of one seed draw {} and {}", a, b);
                            ensure!((0. ..1.).contains(&a), "{} is outside the unit interval", a);
                            let expected = unit(counter);
                            ensure!(a == expected, "draw {} is {}, expected {}", counter, a, expected);
                            let again = PseudoRandom { seed: counter as usize - 1 }.generate_unit();
                            ensure!(a == again, "draw depends on more than the position: {} {}", a, again);
                            draws.push(a);
                            obs.nontrivial |= reseeded || draws.len() > 2;
                        }
                        Op::Range(from, to) => {
                            counter += 1;
                            let (from, to) = (*from as f64, *to as f64);
                            let a = must("range", || first.generate(from, to))?;
                            let b = must("unit", || second.generate_unit())?;
                            ensure!(from <= a && a <= to, "{} is outside {}..{}", a, from, to);
                            let expected = from + b * (to - from);
                            ensure!((a - expected).abs() <= 1e-9 * (1. + to - from), "{} where {} is the place in the range", a, expected);
                            obs.nontrivial |= reseeded;
                        }
                    }
                }
                Ok(())
            });
            suite.sub_shrink("long", (seeds(), 3_000usize..30_000), 8, 200, 40, |(seed, draws), obs| {
                obs.nontrivial();
                let mut generator = PseudoRandom { seed: *seed as usize };
                for i in 1..=*draws {
                    let (found, expected) = (generator.generate_unit(), unit(*seed + i as u64));
                    ensure!(found == expected, "draw {} after seed {} is {}, expected {}", i, seed, found, expected);
                }
                Ok(())
            });
            suite.sub("spread", any::<u16>(), 2_000, 100_000, |seed, obs| {
                obs.nontrivial();
                let mut generator = PseudoRandom { seed: 0 };
                generator.seed(*seed as usize);
                let draws: Vec<f64> = (0..64).map(|_| generator.generate_unit()).collect();
                let mut sorted = draws.clone();
                sorted.sort_by(|a, b| a.partial_cmp(b).unwrap());
                sorted.dedup();
                ensure!(sorted.len() > 48, "only {} different numbers in 64 draws", sorted.len());
                ensure!(draws.iter().any(|d| *d < 0.5) && draws.iter().any(|d| *d >= 0.5), "one-sided draws {:?}", draws);
                Ok(())
            });
        },
    )
}
