//! C03: changes within the tolerance leave a marked picture authentic.
use c_watermark::*;
use kit::imgs::Mix;
use kit::model;
use kit::prelude::*;
use kit::{ensure, must};

fn main() {
    kit::engine::run(
        "C03",
        "marked pictures whose pixels are then changed by up to 1..3 grey levels (random, uniform, sparse), exchanged within \
         their block, or whose record loses up to two bits per codeword; non-trivial: at least one pixel changed while bits \
         and features stayed within the tolerance",
        &["precondition: the depth outweighs rounding plus noise, and no feature moves by a step (measured by the reference model)"],
        |suite| {
            c_watermark::fit(suite);
            let case = (1u8..4).prop_flat_map(|d| (Just(d), safe(d as f64, 60_000), 0u8..6, any::<u64>()));
            suite.sub_shrink("noise", case, 550, 16_000, 60, |(d, case, kind, seed), obs| {
                let img = case.img.render();
                describe(case, obs);
                let marked = must("watermark", || mark(&img, case))?;
                let mut noisy = marked.clone();
                let mut mix = Mix(*seed);
                let side = 1usize << case.levels;
                let d = *d as i32;
                match kind {
                    0..=3 => {
                        for pixel in noisy.px.iter_mut() {
                            let change = match kind {
                                0 => mix.below(2 * d as u64 + 1) as i32 - d,
                                1 => d,
                                2 => -d,
                                _ => if mix.below(50) == 0 { d } else { 0 },
                            };
                            *pixel = (*pixel as i32 + change).clamp(0, 255) as u8;
                        }
                    }
                    _ => {
                        for _ in 0..1 + mix.below(300) {
                            let (br, bc) = (mix.below((img.h / side) as u64) as usize * side, mix.below((img.w / side) as u64) as usize * side);
                            let a = (br + mix.below(side as u64) as usize) * img.w + bc + mix.below(side as u64) as usize;
                            let b = (br + mix.below(side as u64) as usize) * img.w + bc + mix.below(side as u64) as usize;
                            noisy.px.swap(a, b);
                        }
                    }
                }
                let (before, after) = (features(&img, case), features(&noisy, case));
                let verdict = verdict(&noisy, case);
                ensure!(verdict.is_some(), "the reader gives up although every bit is readable");
                if within_step(&before, &after, case.step) {
                    obs.label("features within a step");
                    obs.nontrivial = noisy != marked;
                    ensure!(verdict == Some(true), "not authentic after noise of {} ({}): features {:?} became {:?}", d, kind, before, after);
                } else {
                    obs.label("features beyond a step");
                }
                Ok(())
            });
            suite.sub_shrink("lost-bits", (safe(0., 70_000), any::<u64>()), 700, 14_000, 60, |(case, seed), obs| {
                let capacity = model::capacity(case.img.h, case.img.w, case.levels as u32);
                let code = match model::code_for(capacity) {
                    None => {
                        obs.skipped = true;
                        return Ok(());
                    }
                    Some(code) => code,
                };
                let img = case.img.render();
                describe(case, obs);
                let mut marked = must("watermark", || mark(&img, case))?;
                let before = marked.clone();
                let words = (model::record_length(case.amount) + 4 + code.k() / 8 - 1) / (code.k() / 8);
                let side = 1usize << case.levels;
                let columns = img.w / side;
                let mut mix = Mix(*seed);
                for word in 0..words {
                    for _ in 0..1 + mix.below(2) {
                        // half a depth turns a one into a zero and back
                        let at = word * code.n() + mix.below(code.n() as u64) as usize;
                        let (br, bc) = (at / columns * side, at % columns * side);
                        let shift = (case.depth / 2. / side as f64).round() as i32;
                        for i in 0..side * side {
                            let old = marked.at(br + i / side, bc + i % side) as i32;
                            let new = if old >= 128 { old - shift } else { old + shift };
                            marked.set(br + i / side, bc + i % side, new.clamp(0, 255) as u8);
                        }
                    }
                }
                let (original, after) = (features(&img, case), features(&marked, case));
                let verdict = verdict(&marked, case);
                ensure!(verdict.is_some(), "the reader gives up although two lost bits per codeword are corrected");
                if within_step(&original, &after, case.step) {
                    obs.nontrivial = before != marked;
                    ensure!(verdict == Some(true), "not authentic after losing up to two bits per codeword");
                }
                Ok(())
            });
        },
    )
}
