//! C01: a freshly marked picture is authentic.
use c_watermark::*;
use kit::model::{self, Reading};
use kit::prelude::*;
use kit::{ensure, must};

fn main() {
    kit::engine::run(
        "C01",
        "pictures of eleven kinds, square or not, 1..3 levels, bands covering TM2048, TM8192 and the uncoded case, 1..45 \
         features, steps 0.3..40 (some 0.001..2000), some steps chosen so that certain bytes of the record are zero, 255 or equal, readable depths; non-trivial: the picture is not flat and marking moved a feature, but none by a step",
        &["precondition: pixels cannot saturate, the depth outweighs rounding, marking moves no feature by a step (measured by the reference model)"],
        |suite| {
            c_watermark::fit(suite);
            suite.sub_shrink("fresh", (safe(0., 80_000), 0u8..3 * PECULIAR), 600, 30_000, 60, |(case, which), obs| {
                let img = case.img.render();
                let case = &peculiar(case, &features(&img, case), *which);
                describe(case, obs);
                let marked = must("watermark", || mark(&img, case))?;
                ensure!((marked.h, marked.w) == (img.h, img.w), "{}x{} becomes {}x{}", img.h, img.w, marked.h, marked.w);
                let (before, after) = (features(&img, case), features(&marked, case));
                let verdict = verdict(&marked, case);
                ensure!(verdict.is_some(), "the reader gives up on a freshly marked picture");
                if within_step(&before, &after, case.step) {
                    obs.label("features within a step");
                    obs.nontrivial = img.distinct() > 1 && before != after;
                    ensure!(verdict == Some(true), "a freshly marked picture is not authentic; features {:?} became {:?}", before, after);
                    let reading = judge(&marked, case);
                    ensure!(reading == Reading::Authentic || reading == Reading::Unclear, "the reference reader finds {:?}", reading);
                } else {
                    obs.label("features beyond a step");
                }
                Ok(())
            });
            // what callers use: three levels, one step, depth 100
            let product = (prop_oneof![Just((216usize, 216usize)), Just((256, 512)), Just((224, 240)), Just((240, 208))], 0usize..2, 1.0f64..8.)
                .prop_flat_map(|(size, more, step)| (kit::imgs::photo(Just(size), 10, 245), Just(if more == 0 { 3 } else { 11 }), Just(step)))
                .prop_map(|(img, amount, step)| Case { img, levels: 3, depth: 100., step, amount });
            suite.sub_shrink("as-called", product, 40, 800, 30, |case, obs| {
                let img = case.img.render();
                let marked = must("watermark", || watermarking::watermark(image::DynamicImage::ImageLuma8(gray(&img)), case.depth, case.step, case.amount))?;
                let marked = back(&marked.into_luma8());
                let (before, after) = (features(&img, case), features(&marked, case));
                if within_step(&before, &after, case.step) {
                    obs.label("features within a step");
                    obs.nontrivial();
                    ensure!(verdict(&marked, case) == Some(true), "a freshly marked picture is not authentic; features {:?} became {:?}", before, after);
                }
                Ok(())
            });
            // large pictures, whose mark takes a small corner of the band
            let vast = ((75usize..150, 75usize..150).prop_map(|(a, b)| (8 * a, 8 * b)), 1usize..4, 2.0f64..30., 60.0f64..140.)
                .prop_flat_map(|(size, amount, step, depth)| {
                    let low = bound(depth, 3).ceil() as u8;
                    (kit::imgs::photo(Just(size), low, 255 - low), Just(amount), Just(step), Just(depth), any::<u8>())
                })
                .prop_map(|(img, amount, step, depth, stark)| starkly(Case { img, levels: 3, depth, step, amount }, stark));
            suite.sub_shrink("vast", vast, 8, 160, 10, |case, obs| {
                let img = case.img.render();
                let marked = must("watermark", || mark(&img, case))?;
                let (before, after) = (features(&img, case), features(&marked, case));
                if within_step(&before, &after, case.step) {
                    obs.nontrivial();
                    ensure!(verdict(&marked, case) == Some(true), "a freshly marked picture is not authentic; features {:?} became {:?}", before, after);
                }
                Ok(())
            });
            // many features: rounding swamps features of high orders, so they are those of the code under test,
            // and the step is chosen by how far marking moves them
            let many = (prop_oneof![2 => 12usize..22, 1 => 22usize..46], 1usize..3, 2.0f64..12.)
                .prop_flat_map(|(amount, levels, factor)| {
                    let levels = if amount < 22 { levels } else { 1 };
                    let need = (model::record_length(amount) + 4) * 8;
                    let columns = 18usize..46;
                    (Just((amount, levels, factor)), columns.prop_map(move |c| (((need + c - 1) / c + 1) << levels, c << levels)))
                })
                .prop_flat_map(|((amount, levels, factor), size)| {
                    let depth = 4. * (1 << levels) as f64 * 0.5 * 1.1;
                    let low = bound(depth, levels).ceil() as u8;
                    (kit::imgs::photo(Just(size), low, 255 - low), Just((amount, levels, factor, depth)))
                })
                .prop_map(|(img, (amount, levels, factor, depth))| (Case { img, levels, depth, step: 1., amount }, factor));
            if !cfg!(sia_verif_hooks) {
                return;
            }
            suite.sub_shrink("many-features", many, 10, 900, 20, |(case, factor), obs| {
                let img = case.img.render();
                let own = |img: &kit::imgs::Img| own_features(img, case);
                let before = must("features", || own(&img))?;
                let tried = must("features", || own(&mark(&img, case)))?;
                let moved = before.iter().zip(&tried).map(|(a, b)| (a - b).abs()).fold(1e-6, f64::max);
                let case = Case { step: moved * factor, ..case.clone() };
                let marked = must("watermark", || mark(&img, &case))?;
                let after = must("features", || own(&marked))?;
                if before.iter().chain(&after).all(|f| f.is_finite() && (f / case.step).abs() < 1e12) && within_step(&before, &after, case.step) {
                    obs.label(format!("{}0 features or more", case.amount / 10));
                    obs.nontrivial();
                    ensure!(verdict(&marked, &case) == Some(true), "a freshly marked picture is not authentic; features {:?} became {:?}", before, after);
                }
                Ok(())
            });
        },
    )
}
