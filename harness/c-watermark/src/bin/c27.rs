//! C27: marking a picture of any sample type keeps what it is: size, channels, alpha.
use c_watermark::colour::*;
use c_watermark::{bound, Case};
use kit::imgs::ImgSpec;
use kit::model::{self, Reading};
use kit::prelude::*;
use kit::{ensure, must, quiet};

/// Marks the picture and compares what comes out with what the picture was.
fn kept(colours: &Colours, depth: &f64, step: &f64, amount: &usize, obs: &mut kit::Obs) -> kit::Verdict {
    let before = planes(colours);
    obs.label(format!("{:?}", colours.kind));
    obs.nontrivial = before.iter().all(|plane| plane.distinct() > 1);
    // the saved case must describe a legal picture
    let source = assemble(colours.kind, &before, colours.fine);
    let marked = must("watermark", || watermarking::watermark(source.clone(), *depth, *step, *amount))?;
    ensure!((marked.height() as usize, marked.width() as usize) == (colours.h, colours.w),
        "{}x{} becomes {}x{}", colours.h, colours.w, marked.height(), marked.width());
    ensure!(marked.color() == colours.kind.result(), "{:?} becomes {:?}", colours.kind, marked.color());
    let after = split(&marked);
    let colour = if colours.kind.colour() { 3 } else { 1 };
    if colours.kind.alpha() {
        let at = (0..before[colour].px.len()).find(|i| before[colour].px[*i] != after[colour].px[*i]);
        ensure!(at.is_none(), "the transparency of pixel {:?} changed", at);
    }
    for k in 0..colour {
        let most = before[k].px.iter().zip(&after[k].px).map(|(a, b)| (*a as i32 - *b as i32).abs()).max().unwrap();
        ensure!(most as f64 <= bound(*depth, 3) + 1e-6, "channel {}: a pixel changed by {}", k, most);
        // each channel carries its own record over its own features
        let spec = ImgSpec { ..colours.planes[k].clone() };
        let case = Case { img: spec, levels: 3, depth: *depth, step: *step, amount: *amount };
        if *depth < 4. * 8. * 0.5 * 1.02 {
            continue;
        }
        let record = c_watermark::record(&after[k], &case);
        ensure!(record.is_some(), "channel {} carries no record", k);
        let record = record.unwrap();
        // features of many are costly
        let features = if *amount > 11 { c_watermark::own_features } else { c_watermark::features };
        let was = features(&before[k], &case);
        let (expected, cells, margin) = model::record_for(&was, *step);
        if margin > 1e-6 {
            ensure!(record.bits == expected.bits && model::signature_valid(&model::i64_bytes(&cells), &record.signature, model::PUBLIC_KEY),
                "channel {} carries the record of another picture", k);
        }
        if *amount > 11 {
            continue;
        }
        let is = features(&after[k], &case);
        if c_watermark::within_step(&was, &is, *step) {
            let reading = model::judge_record(&record, &is, *step);
            ensure!(reading == Reading::Authentic || reading == Reading::Unclear, "channel {} is {:?}", k, reading);
        }
    }
    Ok(())
}

fn main() {
    kit::engine::run(
        "C27",
        "pictures of ten sample types (grey or colour, with or without alpha, 8 or 16 bits or floating point), of many shapes, \
         1..18 features, depths 26..100 (some to 1000), steps 0.001..2000; pictures which cannot be marked (sides no multiple of eight, too small); non-trivial: \
         every plane has more than one value, or the picture cannot be marked",
        &["samples of more than eight bits count as rounded to eight", "a refusal is a panic: the interface has no error value"],
        |suite| {
            // strips, with more features than callers use
            let strips = (prop_oneof![1 => 12usize..16, 2 => 16usize..19], 30.0f64..100., 0.5f64..20.).prop_flat_map(|(amount, depth, step)| {
                let low = bound(depth, 3).ceil() as u8;
                (colours_sized(&KINDS[..2], strip(amount), low), Just(depth), Just(step), Just(amount))
            });
            suite.sub_shrink("strips", strips, 4, 120, 8, |(colours, depth, step, amount), obs| kept(colours, depth, step, amount, obs));
            let case = (prop_oneof![6 => 1usize..5, 1 => 5usize..12], prop_oneof![5 => 26.0f64..100., 1 => 100.0f64..1000.], prop_oneof![5 => 0.5f64..20., 1 => c_watermark::steps()]).prop_flat_map(|(amount, depth, step)| {
                let low = bound(depth, 3).ceil() as u8;
                (colours(&KINDS, amount, low, 90_000), Just(depth), Just(step), Just(amount))
            });
            suite.sub_shrink("kinds", case, 300, 6_000, 40, |(colours, depth, step, amount), obs| kept(colours, depth, step, amount, obs));
            // what cannot be marked is refused, not returned without a mark
            let refused = prop_oneof![
                // sides which no three halvings divide
                (1usize..40, 1usize..40).prop_map(|(h, w)| (h, w)),
                (200usize..240, 200usize..240),
                // room for less than a record
                (1usize..26, 1usize..26).prop_map(|(h, w)| (8 * h, 8 * w)),
            ]
            .prop_filter("can be marked", |(h, w)| h % 8 != 0 || w % 8 != 0 || model::max_payload(*h, *w, 3).map_or(true, |room| room < model::record_length(1)))
            .prop_flat_map(|size| (prop::sample::select(&KINDS[..]), kit::imgs::img(Just(size)), any::<u64>(), 1usize..4));
            suite.sub_shrink("refused", refused, 400, 8_000, 40, |(kind, spec, fine, amount), obs| {
                obs.nontrivial();
                obs.label(if spec.h % 8 != 0 || spec.w % 8 != 0 { "sides" } else { "too small" });
                let plane = spec.render();
                let source = assemble(*kind, &vec![plane; kind.planes()], *fine);
                let result = quiet(|| watermarking::watermark(source, 100., 1., *amount));
                ensure!(result.is_err(), "a picture of {}x{} which has no room for the record is returned as marked", spec.h, spec.w);
                Ok(())
            });
        },
    )
}
