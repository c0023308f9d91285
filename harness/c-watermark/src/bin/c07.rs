//! C07: the published format of the mark.
use c_watermark::*;
use kit::model::{self, Reading};
use kit::prelude::*;
use kit::{ensure, must};

fn main() {
    kit::engine::run(
        "C07",
        "pictures of eleven kinds, square or not, 1..3 levels, 1..11 features, steps 0.3..40 (some 0.001..2000), some chosen so that certain bytes of the record are zero, 255 or equal; marks written by the code under \
         test and read by an independent reader, and the other way round; non-trivial: not a flat picture",
        &["precondition: pixels cannot saturate and the depth outweighs rounding", "the published key pair and text are part of the format"],
        |suite| {
            c_watermark::fit(suite);
            suite.sub_shrink("written", (safe(0., 80_000), 0u8..3 * PECULIAR), 900, 20_000, 60, |(case, which), obs| {
                let img = case.img.render();
                let case = &peculiar(case, &features(&img, case), *which);
                describe(case, obs);
                obs.nontrivial = img.distinct() > 1;
                let marked = must("watermark", || mark(&img, case))?;
                let (payload, _) = model::extract(&marked, case.depth, case.levels as u32);
                let payload = match payload {
                    None => return Err("no payload is found in a freshly marked picture".to_string()),
                    Some(payload) => payload,
                };
                ensure!(payload.len() == model::record_length(case.amount), "a payload of {} bytes for {} features", payload.len(), case.amount);
                let record = match model::parse_record(&payload) {
                    None => return Err("no record is found in a freshly marked picture".to_string()),
                    Some(record) => record,
                };
                ensure!(record.text == model::TEXT.as_bytes(), "the text is {:?}", String::from_utf8_lossy(&record.text));
                ensure!(record.bits.len() == 3 * case.amount, "{} perturbation bits for {} features", record.bits.len(), case.amount);
                let (expected, cells, margin) = model::record_for(&features(&img, case), case.step);
                if margin < 1e-6 {
                    obs.label("feature on a boundary");
                    return Ok(());
                }
                ensure!(record.bits == expected.bits, "perturbation bits {:?}, expected {:?}", record.bits, expected.bits);
                ensure!(model::signature_valid(&model::i64_bytes(&cells), &record.signature, model::PUBLIC_KEY),
                    "the signature does not cover the cells {:?} of the picture's features", cells);
                Ok(())
            });
            if !cfg!(sia_verif_hooks) {
                return;
            }
            suite.sub_shrink("read", (safe(0., 80_000), 0u8..3 * PECULIAR), 700, 15_000, 60, |(case, which), obs| {
                let img = case.img.render();
                let case = &peculiar(case, &features(&img, case), *which);
                describe(case, obs);
                let (record, _, _) = model::record_for(&features(&img, case), case.step);
                let marked = match model::write_payload(&img, &model::build_record(&record), case.depth, case.levels as u32) {
                    None => return Err("generator: no room".to_string()),
                    Some(marked) => marked,
                };
                let verdict = verdict(&marked, case);
                match judge(&marked, case) {
                    Reading::Authentic => {
                        obs.nontrivial = img.distinct() > 1;
                        obs.label("authentic");
                        ensure!(verdict == Some(true), "a mark in the published format is judged {:?}", verdict)
                    }
                    Reading::Rejected => {
                        obs.nontrivial = img.distinct() > 1;
                        obs.label("features moved too far");
                        ensure!(verdict == Some(false), "a mark over other features is judged {:?}", verdict)
                    }
                    _ => obs.skipped = true,
                }
                Ok(())
            });
        },
    )
}
