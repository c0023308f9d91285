//! C11: the wavelet transform.
use kit::prelude::*;
fn main() {
    kit::engine::run(
        "C11",
        "real matrices with sides that are multiples of 2^levels (up to 96, some up to 1200, square or not), levels 1..10, entries as in pictures \
         or of any size up to 1e6; non-trivial: the matrix is not constant",
        &["floating-point tolerance 1e-9 relative to the largest entry"],
        |suite| {
            #[cfg(sia_verif_hooks)]
            hooked::suite(suite);
            pictures(suite);
        },
    )
}

/// Without private items: marking leaves no trace in any band but the coarsest approximation.
fn pictures(suite: &mut kit::Suite) {
    use kit::{ensure, must};
    use ndarray::Array2;
    let size = (1usize..4, 12usize..30, 12usize..30).prop_map(|(l, h, w)| (l, h << l, w << l));
    let case = size.prop_flat_map(|(l, h, w)| (Just(l), kit::imgs::ranged(Just((h, w)), 100, 155), any::<u8>()));
    suite.sub("pictures", case, 700, 20_000, |(levels, spec, byte), obs| {
        let img = spec.render();
        let side = 1usize << levels;
        // large enough for the bits to be readable, small enough for the range
        let depth = 20. * side as f64 / 2.;
        let input = Array2::from_shape_vec([img.h, img.w], img.px.clone()).unwrap();
        obs.nontrivial = img.distinct() > 1;
        let out = must("embed", || embedding::embed(input, vec![*byte], depth, *levels))?;
        ensure!(out.dim() == (img.h, img.w), "{:?}", out.dim());
        for row in 0..img.h / side {
            for col in 0..img.w / side {
                let mut shifts = std::collections::BTreeSet::new();
                for i in 0..side * side {
                    let (r, c) = (row * side + i / side, col * side + i % side);
                    shifts.insert(out[[r, c]] as i32 - img.at(r, c) as i32);
                }
                ensure!(shifts.iter().max().unwrap() - shifts.iter().min().unwrap() <= 1, "block ({}, {}) is not shifted as a whole: {:?}", row, col, shifts);
            }
        }
        Ok(())
    });
}

#[cfg(sia_verif_hooks)]
mod hooked {
    use kit::imgs::Mix;
    use kit::prelude::*;
    use kit::{ensure, model, must};
    use embedding::verif_hooks::dwt_2d;
    use ndarray::Array2;
    use serde::{Deserialize, Serialize};

    #[derive(Clone, Debug, Serialize, Deserialize)]
    struct Case {
        levels: usize,
        rows: usize,
        cols: usize,
        kind: u8,
        scale: f64,
        seed: u64,
    }

    impl Case {
        fn matrix(&self) -> Vec<Vec<f64>> {
            let (h, w) = (self.rows << self.levels, self.cols << self.levels);
            let mut mix = Mix(self.seed);
            let at = (mix.below(h as u64) as usize, mix.below(w as u64) as usize);
            (0..h)
                .map(|r| {
                    (0..w)
                        .map(|c| {
                            self.scale
                                * match self.kind {
                                    0 => (mix.unit() * 256.).floor(),
                                    1 => mix.unit() * 2. - 1.,
                                    2 => ((r, c) == at) as u8 as f64,
                                    3 => r as f64,
                                    4 => c as f64 - 2. * r as f64,
                                    _ => 1.,
                                }
                        })
                        .collect()
                })
                .collect()
        }
    }

    fn case(levels: std::ops::Range<usize>) -> impl Strategy<Value = Case> {
        (levels, 1usize..9, 1usize..9, 0u8..6, prop_oneof![Just(1.0), 0.001f64..1e6, Just(-1.0)], any::<u64>())
            .prop_filter_map("too large", |(levels, rows, cols, kind, scale, seed)| {
                let limit = 96 >> levels;
                if limit == 0 {
                    return None;
                }
                Some(Case { levels, rows: 1 + (rows - 1) % limit, cols: 1 + (cols - 1) % limit, kind, scale, seed })
            })
    }

    fn array(m: &[Vec<f64>]) -> Array2<f64> {
        Array2::from_shape_vec([m.len(), m[0].len()], m.concat()).unwrap()
    }

    fn largest(m: &[Vec<f64>]) -> f64 {
        m.iter().flatten().fold(1e-300, |a, b| a.max(b.abs()))
    }

    pub fn suite(suite: &mut kit::Suite) {
        let transform = |case: &Case, obs: &mut kit::Obs| -> kit::Verdict {
            let m = case.matrix();
            let input = array(&m);
            obs.nontrivial = m.iter().flatten().any(|v| *v != m[0][0]);
            obs.label(format!("levels {}", case.levels));
            obs.label(if case.rows == case.cols { "square" } else { "not square" });
            let tolerance = 1e-9 * largest(&m) * (1 << case.levels) as f64;
            let forward = must("forward", || dwt_2d(input.clone(), case.levels, false))?;
            ensure!(forward.dim() == input.dim(), "shape {:?} becomes {:?}", input.dim(), forward.dim());
            // perfect reconstruction, both ways
            let back = must("backward", || dwt_2d(forward.clone(), case.levels, true))?;
            for (a, b) in input.iter().zip(back.iter()) {
                ensure!((a - b).abs() <= tolerance, "{} is reconstructed as {}", a, b);
            }
            let backward = must("backward", || dwt_2d(input.clone(), case.levels, true))?;
            let again = must("forward", || dwt_2d(backward, case.levels, false))?;
            for (a, b) in input.iter().zip(again.iter()) {
                ensure!((a - b).abs() <= tolerance, "{} is reconstructed as {}", a, b);
            }
            // orthonormal
            let energy = |a: &Array2<f64>| a.iter().map(|v| v * v).sum::<f64>();
            let (before, after) = (energy(&input), energy(&forward));
            ensure!((before - after).abs() <= 1e-9 * before, "energy {} becomes {}", before, after);
            // the bands of the published transform; the detail bands up to their sign
            let expected = model::haar(&m, case.levels);
            let (rows, cols) = (case.rows, case.cols);
            for r in 0..m.len() {
                for c in 0..m[0].len() {
                    let (a, b) = (forward[[r, c]], expected[r][c]);
                    let close = if r < rows && c < cols { (a - b).abs() } else { (a.abs() - b.abs()).abs() };
                    ensure!(close <= tolerance, "coefficient ({}, {}) is {}, expected {}", r, c, a, b);
                }
            }
            Ok(())
        };
        suite.sub("transform", case(1..6), 12_000, 400_000, transform);
        let vast = (1usize..11, 1usize..600, 1usize..600, 0u8..6, prop_oneof![Just(1.0), 0.001f64..1e6], any::<u64>())
            .prop_map(|(levels, rows, cols, kind, scale, seed)| {
                let limit = (1200usize >> levels).max(1);
                Case { levels, rows: 1 + (rows - 1) % limit, cols: 1 + (cols - 1) % limit, kind, scale, seed }
            });
        suite.sub_shrink("vast", vast, 10, 400, 20, transform);
        suite.sub("linear", (case(1..5), any::<u64>(), -8.0f64..8.), 4_000, 100_000, |(case, seed, factor), obs| {
            obs.nontrivial();
            let first = array(&case.matrix());
            let second = array(&super_case(case, *seed).matrix());
            let sum = must("forward", || dwt_2d(&first + &(&second * *factor), case.levels, false))?;
            let parts = dwt_2d(first.clone(), case.levels, false) + dwt_2d(second.clone(), case.levels, false) * *factor;
            let scale = first.iter().chain(second.iter()).fold(1e-300f64, |a, b| a.max(b.abs()));
            for (a, b) in sum.iter().zip(parts.iter()) {
                ensure!((a - b).abs() <= 1e-8 * scale * (1 << case.levels) as f64, "{} against {}", a, b);
            }
            Ok(())
        });
        suite.sub("levels-nest", case(2..6), 4_000, 100_000, |case, obs| {
            obs.nontrivial();
            // several levels are one level followed by the others on the approximation band
            let m = case.matrix();
            let all = must("forward", || dwt_2d(array(&m), case.levels, false))?;
            let mut one = must("forward", || dwt_2d(array(&m), 1, false))?;
            let (h, w) = (m.len() / 2, m[0].len() / 2);
            let approximation = Array2::from_shape_fn([h, w], |(r, c)| one[[r, c]]);
            let rest = must("forward", || dwt_2d(approximation, case.levels - 1, false))?;
            for r in 0..h {
                for c in 0..w {
                    one[[r, c]] = rest[[r, c]];
                }
            }
            let tolerance = 1e-9 * largest(&m) * (1 << case.levels) as f64;
            for (a, b) in all.iter().zip(one.iter()) {
                ensure!((a - b).abs() <= tolerance, "{} against {}", a, b);
            }
            Ok(())
        });
        let odd = (1usize..4, 1usize..40, 1usize..40)
            .prop_filter("divisible", |(l, h, w)| h % (1 << l) != 0 || w % (1 << l) != 0);
        suite.sub("indivisible", odd, 1_500, 30_000, |(levels, h, w), obs| {
            obs.nontrivial();
            // sides which cannot be halved often enough are refused, or else transformed without loss
            let m: Vec<Vec<f64>> = (0..*h).map(|r| (0..*w).map(|c| (r * 31 + c * c) as f64).collect()).collect();
            if let Ok(forward) = kit::quiet(|| dwt_2d(array(&m), *levels, false)) {
                obs.label("accepted");
                let back = must("backward", || dwt_2d(forward, *levels, true))?;
                for (a, b) in array(&m).iter().zip(back.iter()) {
                    ensure!((a - b).abs() <= 1e-6, "{}x{} over {} levels: {} is reconstructed as {}", h, w, levels, a, b);
                }
            }
            Ok(())
        });
    }

    fn super_case(case: &Case, seed: u64) -> Case {
        Case { kind: (case.kind + 1) % 5, seed, ..case.clone() }
    }
}
