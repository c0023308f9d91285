//! C18: restoration never reaches beyond its tolerance, so foreign features are not made to fit.
use bitvec::prelude::*;
use kit::prelude::*;
use kit::{ensure, model, must};
use three_bit_quantization::*;

fn main() {
    kit::engine::run(
        "C18",
        "pairs of an original and a foreign feature anywhere within +-12 cells of each other, steps 0.001..50, and arbitrary \
         perturbation bits; non-trivial: the foreign feature lies a step or more away from the original",
        &["features within 1e-7 of a half-cell boundary are left out: rounding decides there"],
        |suite| {
            let steps = || prop_oneof![Just(1.0), 0.001f64..50.];
            let place = || prop_oneof![3 => 0.0001f64..0.9999, 1 => prop::sample::select(vec![0.01, 0.49, 0.51, 0.99])];
            suite.sub("foreign", ((-300i32..300, place()), -12.0f64..12., steps()), 80_000, 3_000_000, |((cell, place), away, step), obs| {
                let original = (*cell as f64 + place) * step;
                let foreign = original + away * step;
                let (cells, bits) = must("quantise", || three_bit_quantization(&vec![original], *step))?;
                let restored = must("restore", || three_bit_dequantization(&vec![foreign], &bits, *step))?[0];
                let (own, _, margin) = model::quantise(foreign, *step);
                if margin < 1e-7 || model::quantise(original, *step).2 < 1e-7 {
                    obs.skipped = true;
                    return Ok(());
                }
                obs.nontrivial = away.abs() >= 1.;
                ensure!((restored - own).abs() <= 1, "{} of cell {} is moved to cell {}", foreign, own, restored);
                // two steps away the original can no longer be reached
                if (own - cells[0]).abs() >= 2 {
                    obs.label("out of reach");
                    ensure!(restored != cells[0], "{} is made to fit cell {}", foreign, cells[0]);
                }
                // 1.5 steps is the largest distance at which half-cell bits can still agree
                if away.abs() >= 1.5 + 1e-6 {
                    ensure!(restored != cells[0], "{}, {} steps away, is made to fit cell {}", foreign, away, cells[0]);
                }
                let expected = model::restore(foreign, [bits[0], bits[1], bits[2]], *step).0;
                ensure!(restored == expected, "{} with bits {} is restored to {}, expected {}", foreign, bits, restored, expected);
                Ok(())
            });
            suite.sub("any-bits", (prop::collection::vec((-3000.0f64..3000., 0u8..8), 1..30), steps()), 40_000, 1_000_000, |(list, step), obs| {
                obs.nontrivial();
                let features: Vec<f64> = list.iter().map(|(f, _)| f * step).collect();
                let bits: BitVec<u8, Lsb0> = list.iter().flat_map(|(_, b)| [b & 4 != 0, b & 2 != 0, b & 1 != 0]).collect();
                let restored = must("restore", || three_bit_dequantization(&features, &bits, *step))?;
                ensure!(restored.len() == list.len(), "{} cells for {} features", restored.len(), list.len());
                for i in 0..list.len() {
                    let b = list[i].1;
                    let (expected, margin) = model::restore(features[i], [b & 4 != 0, b & 2 != 0, b & 1 != 0], *step);
                    if margin > 1e-7 {
                        let own = (features[i] / step).floor() as i64;
                        ensure!((restored[i] - own).abs() <= 1, "cell {} is moved to {}", own, restored[i]);
                        ensure!(restored[i] == expected, "{} with bits {} in steps of {}: {}, expected {}", features[i], b, step, restored[i], expected);
                    }
                }
                Ok(())
            });
        },
    )
}
