//! C13: the moments are Zernike moments.
use c_zernike::*;
use kit::prelude::*;
use kit::{ensure, imgs, model, must};
use zernike::calc::*;

fn main() {
    kit::engine::run(
        "C13",
        "orders 0..21 (base functions and terms to 60), every repetition of the order's parity with either sign, pictures of 2..40 by 2..40 pixels (some up to 420 \
         by 420 or 1100 long) of eleven kinds; base functions over squares of 2..48; radii 0..1; non-trivial: order of at least 1, for pictures also not flat",
        &["tolerance a multiple of 1e-13 times the sum of the magnitudes of the terms of the radial polynomial, which alternate in sign"],
        |suite| {
            let indices = || (0usize..22, kit::pick()).prop_map(|(n, i)| (n, n - 2 * i.index(n / 2 + 1)));
            let moment = |((n, m), spec): &((usize, usize), imgs::ImgSpec), obs: &mut kit::Obs| -> kit::Verdict {
                let img = spec.render();
                obs.nontrivial = *n > 0 && img.distinct() > 1;
                obs.label(if img.h == img.w { "square" } else { "not square" });
                let found = must("moment", || calculate_zernike_image_moment(*n, *m, &array(&img)))?;
                let (re, im) = model::moment(*n, *m, &img);
                let tolerance = moment_error(*n, *m, &img);
                ensure!((found.re - re).abs() <= tolerance && (found.im - im).abs() <= tolerance, "moment {} {} is {}, expected {} {:+}i", n, m, found, re, im);
                Ok(())
            };
            suite.sub("moment", (indices(), imgs::img((2usize..41, 2usize..41))), 6_000, 150_000, moment);
            let high = || (22usize..61, kit::pick()).prop_map(|(n, i)| (n, n - 2 * i.index(n / 2 + 1)));
            suite.sub("high-orders", (high(), imgs::img((2usize..25, 2usize..25))), 1_200, 30_000, moment);
            let vast = prop_oneof![2 => (200usize..420, 200usize..420), 1 => (1usize..6, 300usize..1100), 1 => (300usize..1100, 1usize..6), 1 => Just((256usize, 256usize))];
            suite.sub_shrink("vast", (indices(), imgs::img(vast)), 16, 800, 12, moment);
            suite.sub("matrix", (prop_oneof![3 => indices().boxed(), 1 => high().boxed()], 2usize..49, any::<bool>()), 3_000, 60_000, |((n, m), dimension, negative), obs| {
                obs.nontrivial = *n > 0;
                let index = if *negative { -(*m as isize) } else { *m as isize };
                let matrix = must("matrix", || get_zernike_matrix(*n, index, *dimension))?;
                ensure!(matrix.dim() == (*dimension, *dimension), "{:?}", matrix.dim());
                let coefficients = model::radial_coefficients(*n, *m);
                for row in 0..*dimension {
                    for col in 0..*dimension {
                        let (x, y) = (model::position(row, *dimension), model::position(col, *dimension));
                        let r = (x * x + y * y).sqrt();
                        let amplitude = model::radial(&coefficients, r);
                        let tolerance = model::radial_error(&coefficients, r);
                        let theta = if r < 1e-12 { 0. } else { y.atan2(x) };
                        let (re, im) = (amplitude * (*m as f64 * theta).cos(), -amplitude * (*m as f64 * theta).sin());
                        let found = matrix[[row, col]];
                        ensure!((found.re - re).abs() <= tolerance && (found.im - im).abs() <= tolerance,
                            "function {} {} at ({}, {}) of {}: {}, expected {} {:+}i", n, index, row, col, dimension, found, re, im);
                        // no base function exceeds 1 on the disc
                        ensure!(found.norm() <= 1. + tolerance, "|V| = {} on the disc", found.norm());
                    }
                }
                Ok(())
            });
            // the terms of the radial polynomial
            suite.sub("radial-terms", (prop_oneof![3 => indices().boxed(), 1 => high().boxed()], prop_oneof![4 => 0.0f64..=1.0, 1 => Just(0.0), 1 => Just(1.0)]), 20_000, 400_000, |((n, m), r), obs| {
                obs.nontrivial = *n > 1;
                let coefficients = model::radial_coefficients(*n, *m);
                let mut at_one = 0.;
                for s in 0..=(n - m) / 2 {
                    let found = must("term", || f(*n, *m, s as f64, *r))?;
                    let expected = coefficients[n - 2 * s].abs() * r.powi((n - 2 * s) as i32);
                    ensure!((found - expected).abs() <= 1e-12 * expected.max(1e-12), "term {} of {} {} at {}: {}, expected {}", s, n, m, r, found, expected);
                    at_one += f(*n, *m, s as f64, 1.) * if s % 2 == 0 { 1. } else { -1. };
                }
                ensure!((at_one - 1.).abs() <= model::radial_error(&coefficients, 1.), "the radial polynomial is {} at the edge of the disc", at_one);
                Ok(())
            });
            suite.sub("orthogonal", (0usize..8, kit::pick(), kit::pick(), kit::pick()), 300, 3_000, |(n, i, j, k), obs| {
                // base functions of different repetition cancel over a symmetric square
                let m = n - 2 * i.index(n / 2 + 1);
                let other = (n % 2..8).step_by(2).collect::<Vec<_>>()[j.index((8 - n % 2 + 1) / 2)];
                let other_m = other - 2 * k.index(other / 2 + 1);
                if (m as i64 - other_m as i64) % 4 == 0 {
                    obs.skipped = true;
                    return Ok(());
                }
                obs.nontrivial();
                let a = must("matrix", || get_zernike_matrix(*n, m as isize, 24))?;
                let b = must("matrix", || get_zernike_matrix(other, other_m as isize, 24))?;
                let mut product = num::Complex::new(0., 0.);
                a.iter().zip(b.iter()).for_each(|(a, b)| product += a * b.conj());
                ensure!(product.norm() < 1e-9, "functions {} {} and {} {} are not orthogonal: {}", n, m, other, other_m, product);
                Ok(())
            });
        },
    )
}
