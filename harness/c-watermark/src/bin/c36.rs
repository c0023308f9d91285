//! C36: the record depends on the order of the grey levels, not on brightness and contrast.
use c_watermark::*;
use kit::imgs::{Img, ImgSpec, Mix};
use kit::prelude::*;
use kit::{ensure, model, must};

/// A strictly increasing map of the grey levels of a picture into low..=high.
fn mapping(img: &Img, low: u8, high: u8, kind: u8, seed: u64) -> [u8; 256] {
    let mut present = [false; 256];
    img.px.iter().for_each(|p| present[*p as usize] = true);
    let levels: Vec<usize> = (0..256).filter(|v| present[*v]).collect();
    let places = (high - low) as usize + 1;
    let mut mix = Mix(seed);
    let mut chosen: Vec<usize> = match kind {
        // as dark, as bright or as spread out as possible
        0 => (0..levels.len()).collect(),
        1 => (places - levels.len()..places).collect(),
        2 => (0..levels.len()).map(|i| i * (places - 1) / (levels.len() - 1).max(1)).collect(),
        // anywhere
        _ => {
            let mut all: Vec<usize> = (0..places).collect();
            for i in 0..levels.len() {
                let j = i + mix.below((places - i) as u64) as usize;
                all.swap(i, j);
            }
            all[..levels.len()].to_vec()
        }
    };
    chosen.sort();
    let mut map = [0u8; 256];
    levels.iter().zip(chosen).for_each(|(level, place)| map[*level] = low + place as u8);
    map
}

fn main() {
    kit::engine::run(
        "C36",
        "pictures as for fresh marks, some reduced to 2..60 grey levels, and a strictly increasing map of their grey levels (darkest, brightest, \
         widest or any); non-trivial: at least three grey levels, and some pixel changes",
        &["both pictures stay within the range which cannot saturate, so that both marks can be read"],
        |suite| {
            fit(suite);
            let case = (safe(0., 60_000), 0u8..6, any::<u64>(), prop::option::of(2u8..60));
            suite.sub_shrink("levels", case, 350, 12_000, 60, |(case, kind, seed, reduced), obs| {
                let low = bound(case.depth, case.levels).ceil() as u8;
                let high = 255 - low;
                // every grey level has to fit into the range which cannot saturate
                let mut first = ImgSpec { stark: None, ..case.img.clone() }.render();
                if let Some(amount) = reduced {
                    let (min, span) = (first.min(), (first.max() - first.min()) as usize + 1);
                    let amount = (*amount as usize).min(span);
                    first.px.iter_mut().for_each(|p| *p = min + ((*p - min) as usize * amount / span * (span / amount)) as u8);
                }
                let map = mapping(&first, low, high, *kind, *seed);
                let second = Img::new(first.h, first.w, first.px.iter().map(|p| map[*p as usize]).collect());
                obs.nontrivial = first.distinct() > 2 && first != second;
                describe(case, obs);
                let mut records = vec![];
                for img in [&first, &second] {
                    let marked = must("watermark", || mark(img, case))?;
                    let record = record(&marked, case);
                    ensure!(record.is_some(), "a marked picture carries no record");
                    records.push(record.unwrap());
                }
                ensure!(records[0].bits.len() == 3 * case.amount, "{} perturbation bits for {} features", records[0].bits.len(), case.amount);
                ensure!(records[0].bits == records[1].bits, "other grey levels in the same order, other perturbation bits: {:?} and {:?}", records[0].bits, records[1].bits);
                ensure!(records[0].signature == records[1].signature, "other grey levels in the same order, another signature");
                // the order of the levels does count: what is signed are the cells of this picture
                let (_, cells, margin) = model::record_for(&features(&second, case), case.step);
                if margin > 1e-6 {
                    ensure!(model::signature_valid(&model::i64_bytes(&cells), &records[1].signature, model::PUBLIC_KEY), "the signature covers other cells than {:?}", cells);
                }
                Ok(())
            });
        },
    )
}
