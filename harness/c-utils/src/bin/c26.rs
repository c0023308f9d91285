//! C26: factorial and matrix helper.
use kit::prelude::*;
use kit::{ensure, must};
use utils::math::factorial;
use utils::vector_2d_as_nd_array;

fn close(a: f64, b: f64, tolerance: f64) -> bool {
    (a - b).abs() <= tolerance * b.abs().max(1e-300)
}

/// Gamma by Stirling's series, after moving the argument beyond 15; by reflection below 1/2.
fn gamma(x: f64) -> f64 {
    use std::f64::consts::PI;
    if x < 0.5 {
        return PI / ((PI * x).sin() * gamma(1. - x));
    }
    let (mut z, mut divisor) = (x, 1.);
    while z < 15. {
        divisor *= z;
        z += 1.;
    }
    let w = 1. / (z * z);
    let series = (1. / 12. - w * (1. / 360. - w * (1. / 1260. - w * (1. / 1680. - w / 1188.)))) / z;
    ((z - 0.5) * z.ln() - z + 0.5 * (2. * PI).ln() + series).exp() / divisor
}

fn main() {
    kit::engine::run(
        "C26",
        "all whole numbers 0..=170; halves and arbitrary fractions in -7..169 (recurrence; Stirling's series); matrices of 1..12 by 1..12 numbers; \
         non-trivial: a number above 2, a matrix with both sides above 1",
        &["fractions: relative tolerance 1e-6, for the approximation of gamma in the puruspe crate"],
        |suite| {
            suite.exhaustive("whole", 0..=170u32, |n, obs| {
                obs.nontrivial = *n > 2;
                let value = must("factorial", || factorial(*n as f64))?;
                if *n <= 33 {
                    let exact = (1..=*n as i128).product::<i128>();
                    ensure!(close(value, exact as f64, 1e-15 * (1. + *n as f64)), "{}! = {}, expected {}", n, value, exact);
                }
                if *n <= 18 {
                    ensure!(value == (1..=*n as i128).product::<i128>() as f64, "{}! = {} is not exact", n, value);
                }
                if *n > 0 {
                    let before = factorial(*n as f64 - 1.);
                    ensure!(close(value, before * *n as f64, 1e-13), "{}! / {}! = {}", n, n - 1, value / before);
                }
                Ok(())
            });
            suite.exhaustive("halves", 0..120i32, |twice, obs| {
                obs.nontrivial = *twice > 4;
                let x = *twice as f64 / 2. - 0.5;
                let value = must("factorial", || factorial(x))?;
                if twice % 2 == 0 {
                    // (k - 1/2)! = (2k)! sqrt(pi) / (4^k k!)
                    let k = twice / 2;
                    let mut expected = std::f64::consts::PI.sqrt();
                    for i in 1..=k {
                        expected *= i as f64 - 0.5;
                    }
                    ensure!(close(value, expected, 1e-6), "{}! = {}, expected {}", x, value, expected);
                }
                Ok(())
            });
            suite.sub("recurrence", -0.9f64..60., 40_000, 1_000_000, |x, obs| {
                obs.nontrivial = *x > 2.;
                let (low, high) = must("factorial", || (factorial(*x), factorial(x + 1.)))?;
                ensure!(low.is_finite() && low > 0., "{}! = {}", x, low);
                ensure!(close(high, low * (x + 1.), 1e-6), "{}! = {} but {}! = {}", x, low, x + 1., high);
                // log-convex: increasing from about 0.46 on
                if *x > 0.47 {
                    ensure!(high > low, "{}! = {} is not below {}! = {}", x, low, x + 1., high);
                }
                Ok(())
            });
            let fractions = prop_oneof![3 => -0.9f64..60., 2 => 60.0f64..169., 1 => -7.0f64..0., 1 => (0i32..169, 1e-9f64..0.01, any::<bool>()).prop_map(|(n, d, up)| n as f64 + if up { d } else { -d })];
            suite.sub("gamma", fractions, 40_000, 1_000_000, |x, obs| {
                // close to the poles at the negative whole numbers everything is lost
                if *x < -0.5 && (x - x.round()).abs() < 0.02 || x.fract() == 0. {
                    obs.skipped = true;
                    return Ok(());
                }
                obs.nontrivial = *x > 2.;
                let value = must("factorial", || factorial(*x))?;
                ensure!(close(value, gamma(x + 1.), 1e-6), "{}! = {}, expected {}", x, value, gamma(x + 1.));
                Ok(())
            });
            let matrix = prop_oneof![30 => (1..13usize, 1..13usize), 1 => (1..400usize, 1..30usize), 1 => (1..30usize, 1..400usize)]
                .prop_flat_map(|(h, w)| prop::collection::vec(prop::collection::vec(any::<i32>(), w), h));
            suite.sub("matrix", matrix, 10_000, 300_000, |rows, obs| {
                let (h, w) = (rows.len(), rows[0].len());
                obs.nontrivial = h > 1 && w > 1;
                let array = must("matrix", || vector_2d_as_nd_array(rows.clone()))?;
                ensure!(array.dim() == (h, w), "{:?} for {} rows of {}", array.dim(), h, w);
                for row in 0..h {
                    for col in 0..w {
                        ensure!(array[[row, col]] == rows[row][col], "entry ({}, {})", row, col);
                    }
                }
                Ok(())
            });
        },
    )
}
