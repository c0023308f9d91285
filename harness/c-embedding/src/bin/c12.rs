//! C12: bits in the coefficients of a domain.
use kit::prelude::*;
use kit::{ensure, model, must};

fn main() {
    kit::engine::run(
        "C12",
        "domains of 1..40 by 1..40 coefficients (positive, negative, huge, at multiples of a quarter of the depth), depths \
         0.5..1000, data from nothing to the whole domain and beyond; pictures for the public entry; non-trivial: at least one byte is written",
        &["a coefficient within 1e-9 depth of a decision boundary is left out when foreign coefficients are read"],
        |suite| {
            #[cfg(sia_verif_hooks)]
            hooked::suite(suite);
            let size = (1usize..4, 9usize..26, 9usize..26).prop_map(|(l, h, w)| (l, h, w));
            let case = size.prop_flat_map(|(l, h, w)| (Just(l), kit::imgs::ranged(Just((h << l, w << l)), 90, 165), prop::collection::vec(any::<u8>(), 1..40)));
            // the published layout, seen from outside: bit i of the data is coefficient i in rows
            suite.sub("pictures", case, 1_200, 30_000, |(levels, spec, data), obs| {
                let img = spec.render();
                let side = 1usize << levels;
                let depth = 11. * side as f64;
                let capacity = model::capacity(img.h, img.w, *levels as u32);
                let room = match model::max_payload(img.h, img.w, *levels as u32) {
                    Some(room) if room > 0 => room,
                    _ => { obs.skipped = true; return Ok(()); }
                };
                let data: Vec<u8> = data.iter().cloned().take(room).collect();
                obs.nontrivial();
                obs.label(if img.h == img.w { "square" } else { "not square" });
                let input = ndarray::Array2::from_shape_vec([img.h, img.w], img.px.clone()).unwrap();
                let out = must("embed", || embedding::embed(input, data.clone(), depth, *levels))?;
                let marked = kit::imgs::Img::new(img.h, img.w, out.iter().cloned().collect());
                let (bytes, _) = model::read_bytes(&model::ll(&marked, *levels as u32), depth);
                let expected = model::encode(&model::frame(&data), capacity);
                ensure!(bytes[..expected.len()] == expected[..], "the coefficients hold {:?}, expected {:?}", &bytes[..expected.len()], expected);
                // what is behind the data stays what it was
                let untouched = model::ll(&img, *levels as u32).concat();
                let now = model::ll(&marked, *levels as u32).concat();
                for i in expected.len() * 8..now.len() {
                    ensure!(untouched[i] == now[i], "coefficient {} behind the data changes", i);
                }
                Ok(())
            });
        },
    )
}

#[cfg(sia_verif_hooks)]
mod hooked {
    use super::*;
    use embedding::verif_hooks::{read_domain, write_domain};
    use kit::imgs::Mix;
    use ndarray::Array2;
    use serde::{Deserialize, Serialize};

    #[derive(Clone, Debug, Serialize, Deserialize)]
    struct Case {
        rows: usize,
        cols: usize,
        depth: f64,
        kind: u8,
        seed: u64,
        fraction: f64,
    }

    impl Case {
        fn domain(&self) -> Array2<f64> {
            let mut mix = Mix(self.seed);
            Array2::from_shape_fn([self.rows, self.cols], |_| match self.kind {
                0 => mix.unit() * 2040.,
                1 => (mix.unit() - 0.5) * 4000.,
                2 => (mix.below(80) as f64 - 40.) * self.depth / 4.,
                3 => 0.,
                4 => (mix.unit() - 0.5) * 1e7,
                _ => mix.below(2041) as f64,
            })
        }
        fn data(&self) -> Vec<u8> {
            let capacity = self.rows * self.cols / 8;
            let mut mix = Mix(self.seed ^ 0x5555);
            let length = ((capacity as f64 + 1.) * self.fraction).floor() as usize;
            (0..length.min(capacity)).map(|_| mix.byte()).collect()
        }
    }

    pub fn suite(suite: &mut kit::Suite) {
        let depth = || prop_oneof![2 => Just(100.0), 2 => 0.5f64..1000., 1 => prop::sample::select(vec![1.0, 2.0, 4.0, 32.0, 64.0, 0.5])];
        let case = (1usize..41, 1usize..41, depth(), 0u8..6, any::<u64>(), prop_oneof![Just(1.0), 0.0f64..1.0])
            .prop_map(|(rows, cols, depth, kind, seed, fraction)| Case { rows, cols, depth, kind, seed, fraction });
        let write_read = |case: &Case, obs: &mut kit::Obs| -> kit::Verdict {
            let (before, data) = (case.domain(), case.data());
            obs.nontrivial = !data.is_empty();
            obs.label(if case.rows == case.cols { "square" } else if case.rows < case.cols { "wide" } else { "tall" });
            let after = must("write", || write_domain(before.clone(), data.clone(), case.depth))?;
            ensure!(after.dim() == before.dim(), "shape {:?}", after.dim());
            let read = must("read", || read_domain(after.clone(), case.depth))?;
            ensure!(read.len() == case.rows * case.cols / 8, "{} bytes are read from {}x{}", read.len(), case.rows, case.cols);
            ensure!(read[..data.len()] == data[..], "wrote {} bytes, read others from byte {} on", data.len(), (0..data.len()).find(|i| data[*i] != read[*i]).unwrap());
            let old: Vec<f64> = before.iter().cloned().collect();
            let new: Vec<f64> = after.iter().cloned().collect();
            for i in 0..old.len() {
                if i < data.len() * 8 {
                    let change = (old[i] - new[i]).abs();
                    ensure!(change <= 0.75 * case.depth + 1e-6 * (1. + old[i].abs() * 1e-6), "coefficient {} moves by {}", i, change);
                    let (bit, margin) = model::bit_of(new[i], case.depth);
                    ensure!(bit == (data[i / 8] >> (i % 8) & 1 == 1), "coefficient {} holds {}", i, bit);
                    // half way between the decision boundaries: the largest possible margin
                    ensure!(margin > 0.25 - 1e-6, "coefficient {} is only {} depths from a boundary", i, margin);
                } else {
                    ensure!(old[i] == new[i], "coefficient {} behind the data changes", i);
                }
            }
            Ok(())
        };
        suite.sub("write-read", case, 20_000, 600_000, write_read);
        let vast = (
            prop_oneof![(100usize..800, 100usize..800).boxed(), (1usize..4, 30_000usize..140_000).boxed(), (30_000usize..140_000, 1usize..4).boxed()],
            depth(), 0u8..6, any::<u64>(), prop_oneof![Just(1.0), 0.5f64..1.0],
        )
            .prop_map(|((rows, cols), depth, kind, seed, fraction)| Case { rows, cols, depth, kind, seed, fraction });
        suite.sub_shrink("vast", vast, 12, 600, 20, write_read);
        let foreign = (1usize..41, 1usize..41, depth(), 0u8..6, any::<u64>())
            .prop_map(|(rows, cols, depth, kind, seed)| Case { rows, cols, depth, kind, seed, fraction: 0. });
        suite.sub("foreign", foreign, 10_000, 300_000, |case, obs| {
            obs.nontrivial = case.rows * case.cols >= 8;
            let domain = case.domain();
            let read = must("read", || read_domain(domain.clone(), case.depth))?;
            let values: Vec<f64> = domain.iter().cloned().collect();
            ensure!(read.len() == values.len() / 8, "{} bytes", read.len());
            for i in 0..read.len() * 8 {
                let (bit, margin) = model::bit_of(values[i], case.depth);
                if margin > 1e-9 {
                    ensure!(bit == (read[i / 8] >> (i % 8) & 1 == 1), "coefficient {} = {} is read as {}", i, values[i], !bit);
                }
            }
            Ok(())
        });
        // whole coefficients and depths, where floating point leaves no doubt: those on a multiple of the depth are ones,
        // those half way between two multiples are zeros
        suite.sub("boundaries", (1usize..25, 1usize..25, 1u64..400, any::<u64>()), 4_000, 100_000, |(rows, cols, depth, seed), obs| {
            obs.nontrivial = rows * cols >= 8;
            let mut mix = Mix(*seed);
            let whole: Vec<u64> = (0..rows * cols)
                .map(|_| match mix.below(4) {
                    0 => mix.below(2041) as u64,
                    1 => depth * mix.below(40) as u64,
                    2 => depth * mix.below(40) as u64 + depth / 2,
                    _ => (depth * mix.below(40) as u64 + depth / 2).saturating_sub(1),
                })
                .collect();
            let domain = Array2::from_shape_vec([*rows, *cols], whole.iter().map(|v| *v as f64).collect()).unwrap();
            let read = must("read", || read_domain(domain, *depth as f64))?;
            ensure!(read.len() == rows * cols / 8, "{} bytes", read.len());
            for i in 0..read.len() * 8 {
                let bit = (whole[i] % depth) * 2 < *depth;
                ensure!(bit == (read[i / 8] >> (i % 8) & 1 == 1), "coefficient {} = {} with depth {} is read as {}", i, whole[i], depth, !bit);
            }
            Ok(())
        });
        suite.sub("overwrite", (1usize..30, 1usize..30, depth(), any::<u64>()), 5_000, 100_000, |(rows, cols, depth, seed), obs| {
            // a second writing replaces the first
            let capacity = rows * cols / 8;
            obs.nontrivial = capacity > 0;
            let mut mix = Mix(*seed);
            let first: Vec<u8> = (0..capacity).map(|_| mix.byte()).collect();
            let second: Vec<u8> = (0..capacity).map(|_| mix.byte()).collect();
            let domain = Array2::from_shape_fn([*rows, *cols], |_| (mix.unit() - 0.2) * 2000.);
            let once = must("write", || write_domain(domain, first, *depth))?;
            let twice = must("write", || write_domain(once, second.clone(), *depth))?;
            ensure!(must("read", || read_domain(twice, *depth))? == second, "the second data are not read back");
            Ok(())
        });
        suite.sub("overflow", (1usize..24, 1usize..24, 1usize..9), 3_000, 60_000, |(rows, cols, more), obs| {
            obs.nontrivial();
            let capacity = rows * cols / 8;
            let domain = Array2::from_elem([*rows, *cols], 77.);
            let fits = vec![0x3c; capacity];
            let after = must("write", || write_domain(domain.clone(), fits.clone(), 20.))?;
            ensure!(read_domain(after, 20.) == fits, "a full domain is not read back");
            let data = vec![0x3c; capacity + more];
            ensure!(kit::panics(|| write_domain(domain, data, 20.)), "{} bytes are written to {} coefficients", capacity + more, rows * cols);
            Ok(())
        });
    }
}
