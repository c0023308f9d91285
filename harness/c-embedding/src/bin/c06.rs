//! C06: marking changes the picture little, and only where the data are.
use c_embedding::*;
use embedding::embed;
use kit::prelude::*;
use kit::{ensure, model, must};

fn main() {
    kit::engine::run(
        "C06",
        "pictures of eleven kinds including black, white and saturated ones, any depth 0.5..500, payloads from nothing to \
         all that fits, 1..4 levels; non-trivial: the marked picture differs from the original",
        &["bound per pixel: 3/4 depth / 2^levels plus half a grey level of rounding, cut off at black and white"],
        |suite| {
            let case = prop_oneof![3 => wild().boxed(), 1 => safe(0.).boxed()];
            let distortion = |case: &Case, obs: &mut kit::Obs| -> kit::Verdict {
                let (img, payload) = (case.img.render(), case.payload());
                if case.room().is_none() {
                    obs.skipped = true;
                    return Ok(());
                }
                describe(case, obs);
                let marked = image(&must("embed", || embed(array(&img), payload.clone(), case.depth, case.levels))?);
                ensure!((marked.h, marked.w) == (img.h, img.w), "{}x{} becomes {}x{}", img.h, img.w, marked.h, marked.w);
                obs.nontrivial = marked != img;
                if img.px.iter().any(|p| *p == 0 || *p == 255) {
                    obs.label("touches black or white");
                }
                let capacity = model::capacity(img.h, img.w, case.levels as u32);
                let used = model::encode(&model::frame(&payload), capacity).len() * 8;
                let side = 1usize << case.levels;
                let columns = img.w / side;
                let most = bound(case.depth, case.levels) + 1e-6;
                let (mut low, mut high) = (vec![i32::MAX; (img.h / side) * columns], vec![i32::MIN; (img.h / side) * columns]);
                for r in 0..img.h {
                    for c in 0..img.w {
                        let change = marked.at(r, c) as i32 - img.at(r, c) as i32;
                        ensure!(change.abs() as f64 <= most, "pixel ({}, {}) changes by {} with depth {}", r, c, change, case.depth);
                        let block = r / side * columns + c / side;
                        if block >= used {
                            ensure!(change == 0, "pixel ({}, {}) changes by {} although no data are there", r, c, change);
                        }
                        if marked.at(r, c) != 0 && marked.at(r, c) != 255 {
                            low[block] = low[block].min(change);
                            high[block] = high[block].max(change);
                        }
                    }
                }
                // all pixels of a block move alike: no detail is lost or invented
                for block in 0..low.len() {
                    if low[block] <= high[block] {
                        ensure!(high[block] - low[block] <= 1, "the pixels of block {} change by {} to {}", block, low[block], high[block]);
                    }
                }
                Ok(())
            };
            suite.sub("distortion", case, 4_500, 150_000, distortion);
            suite.sub_shrink("vast", vast(), 30, 1_000, 12, distortion);
            // marking a picture with what it already holds moves each coefficient to where it is
            suite.sub("same-again", safe(0.), 1_200, 30_000, |case, obs| {
                let (img, payload) = (case.img.render(), case.payload());
                let once = image(&must("embed", || embed(array(&img), payload.clone(), case.depth, case.levels))?);
                obs.nontrivial = once != img;
                let twice = image(&must("embed", || embed(array(&once), payload.clone(), case.depth, case.levels))?);
                for i in 0..once.px.len() {
                    let change = once.px[i].abs_diff(twice.px[i]);
                    ensure!(change <= 1, "pixel {} changes by {} when the same data are embedded again", i, change);
                }
                Ok(())
            });
        },
    )
}
