//! C17: the perturbation bits restore the original cell under noise of less than one step.
use bitvec::prelude::*;
use kit::prelude::*;
use kit::{ensure, model, must};
use serde::{Deserialize, Serialize};
use three_bit_quantization::*;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Feature {
    cell: i64,
    place: f64,
    noise: f64,
}

fn feature() -> impl Strategy<Value = Feature> {
    let cell = prop_oneof![3 => -20i64..300, 1 => -2_000_000i64..2_000_000, 1 => -20_000_000_000i64..20_000_000_000];
    let place = prop_oneof![
        4 => 0.0f64..1.0,
        2 => prop::sample::select(vec![0.0, 0.5, 0.4999, 0.5001, 0.9999, 0.0001, 0.25, 0.75])
    ];
    let noise = prop_oneof![
        4 => -0.999f64..0.999,
        1 => prop::sample::select(vec![0.0, 0.499, -0.499, 0.501, -0.501, 0.9985, -0.9985, 0.5, -0.5])
    ];
    (cell, place, noise).prop_map(|(cell, place, noise)| Feature { cell, place, noise })
}

fn steps() -> impl Strategy<Value = f64> {
    prop_oneof![
        2 => Just(1.0),
        1 => prop::sample::select(vec![0.001, 0.01, 0.1, 0.25, 0.5, 1.5, 3.0, 7.0, 10.0, 100.0]),
        2 => 0.001f64..50.
    ]
}

fn main() {
    kit::engine::run(
        "C17",
        "vectors of 1..40 features placed anywhere in a cell (corners, middles and their neighbourhoods over-represented; \
         negative and large cells), steps 0.001..100, noise within +-0.999 step on each feature; non-trivial: the noise of \
         some feature moves it to another cell",
        &["cells within 1e-7 of a half-cell boundary, before or after the noise, are left out: rounding decides there"],
        |suite| {
            let restored = |(list, step): &(Vec<Feature>, f64), obs: &mut kit::Obs| -> kit::Verdict {
                let original: Vec<f64> = list.iter().map(|f| (f.cell as f64 + f.place) * step).collect();
                let noised: Vec<f64> = list.iter().zip(&original).map(|(f, o)| o + f.noise * step).collect();
                let (cells, bits) = must("quantise", || three_bit_quantization(&original, *step))?;
                ensure!(cells.len() == list.len(), "{} cells for {} features", cells.len(), list.len());
                ensure!(bits.len() == 3 * list.len(), "{} bits for {} features", bits.len(), list.len());
                let restored = must("restore", || three_bit_dequantization(&noised, &bits, *step))?;
                ensure!(restored.len() == list.len(), "{} restored cells", restored.len());
                let (noised_cells, _) = must("quantise", || three_bit_quantization(&noised, *step))?;
                for i in 0..list.len() {
                    let (expected, _, margin) = model::quantise(original[i], *step);
                    let (_, _, noised_margin) = model::quantise(noised[i], *step);
                    let clear = |m: f64, v: f64| m > 1e-7_f64.max((v / step).abs() * 1e-11);
                    if !clear(margin, original[i]) || !clear(noised_margin, noised[i]) {
                        obs.label("near a boundary");
                        continue;
                    }
                    ensure!(cells[i] == expected, "{} in steps of {} is in cell {}, not {}", original[i], step, expected, cells[i]);
                    if noised_cells[i] != cells[i] {
                        obs.nontrivial();
                        obs.label(if noised_cells[i] > cells[i] { "moved up" } else { "moved down" });
                    }
                    ensure!(
                        restored[i] == cells[i],
                        "feature {} of cell {} noised to {} is restored to {}",
                        original[i], cells[i], noised[i], restored[i]
                    );
                }
                Ok(())
            };
            suite.sub("restored", (prop::collection::vec(feature(), 1..40), steps()), 60_000, 3_000_000, restored);
            suite.sub_shrink("many", (prop::collection::vec(feature(), 100..3_000), steps()), 100, 3_000, 200, restored);
            // exact binary fractions: the boundaries themselves are well defined
            let exact = (-400i64..400, 0i64..64, -63i64..64, 0u32..4);
            suite.sub("exact", exact, 60_000, 2_000_000, |(cell, place, noise, shift), obs| {
                let step = 1. / (1 << shift) as f64;
                let original = (*cell as f64 + *place as f64 / 64.) * step;
                let noised = original + *noise as f64 / 64. * step;
                let (cells, bits) = must("quantise", || three_bit_quantization(&vec![original], step))?;
                ensure!(cells == [*cell], "{} in steps of {} is in cell {:?}", original, step, cells);
                let restored = must("restore", || three_bit_dequantization(&vec![noised], &bits, step))?;
                obs.nontrivial = (place + noise).div_euclid(64) != 0;
                ensure!(restored == [*cell], "{} of cell {} noised to {} is restored to {:?}", original, cell, noised, restored);
                Ok(())
            });
            suite.sub("independent", (prop::collection::vec(feature(), 2..20), kit::pick(), steps()), 10_000, 300_000,
                |(list, at, step), obs| {
                    obs.nontrivial();
                    // each feature has its own three bits, whatever its neighbours are
                    let original: Vec<f64> = list.iter().map(|f| (f.cell as f64 + f.place) * step).collect();
                    let noised: Vec<f64> = list.iter().zip(&original).map(|(f, o)| o + f.noise * step).collect();
                    let i = at.index(list.len());
                    let (cells, bits) = must("quantise", || three_bit_quantization(&original, *step))?;
                    let (alone, alone_bits) = must("quantise", || three_bit_quantization(&vec![original[i]], *step))?;
                    ensure!(alone[0] == cells[i], "cell {} alone, {} among others", alone[0], cells[i]);
                    ensure!(alone_bits[..] == bits[3 * i..3 * i + 3], "bits differ");
                    let restored = must("restore", || three_bit_dequantization(&noised, &bits, *step))?;
                    let single: BitVec<u8, Lsb0> = bits[3 * i..3 * i + 3].iter().collect();
                    let restored_alone = must("restore", || three_bit_dequantization(&vec![noised[i]], &single, *step))?;
                    ensure!(restored_alone[0] == restored[i], "restored {} alone, {} among others", restored_alone[0], restored[i]);
                    Ok(())
                });
        },
    )
}
