//! C04: what is embedded is extracted again.
use c_embedding::*;
use embedding::{embed, extract};
use kit::prelude::*;
use kit::{ensure, must};
use std::cell::Cell;

fn main() {
    kit::engine::run(
        "C04",
        "pictures of eleven kinds, square or not, 1..4 levels, bands of 72..16384 coefficients covering every code and the \
         uncoded case, some up to 600000 coefficients or 70000 blocks long, payloads of 0 bytes up to exactly what fits; depth from the smallest that outweighs rounding; \
         non-trivial: at least one payload byte in a picture that is not flat",
        &["precondition: no pixel can leave 0..=255, and a quarter of the depth exceeds the rounding of 2^levels pixels"],
        |suite| {
            let round_trip = |case: &Case, obs: &mut kit::Obs| -> kit::Verdict {
                let (img, payload) = (case.img.render(), case.payload());
                obs.nontrivial = !payload.is_empty() && img.distinct() > 1;
                describe(case, obs);
                obs.label(if Some(payload.len()) == case.room() { "full" } else if payload.is_empty() { "empty" } else { "partial" });
                let marked = must("embed", || embed(array(&img), payload.clone(), case.depth, case.levels))?;
                ensure!(marked.dim() == (img.h, img.w), "{}x{} becomes {:?}", img.h, img.w, marked.dim());
                let back = must("extract", || extract(marked.clone(), case.depth, case.levels))?;
                ensure!(back == payload, "embedded {}, extracted {}", brief(&payload), brief(&back));
                // reading changes nothing: a second reader sees the same
                let again = must("extract", || extract(marked, case.depth, case.levels))?;
                ensure!(again == payload, "the second reading gives {}", brief(&again));
                Ok(())
            };
            suite.sub("round-trip", safe(0.).prop_map(starkly), 4_000, 120_000, round_trip);
            suite.sub_shrink("vast", vast(), 60, 2_000, 12, round_trip);
            // a history of markings on one picture: the last one counts
            let history = (safe(0.), prop::collection::vec((0.0f64..1.0, 0u8..6, any::<u64>()), 2..5));
            suite.sub("marked-again", history, 900, 30_000, |(case, payloads), obs| {
                let side = (1 << case.levels) as f64;
                let mut picture = case.img.render();
                let lasting = Cell::new(0);
                for (share, fill, seed) in payloads {
                    let (low, high) = (picture.min() as f64, picture.max() as f64);
                    let most = bound(case.depth, case.levels);
                    if low < most || high > 255. - most {
                        obs.label("range used up");
                        break;
                    }
                    let payload = Case { share: *share, fill: *fill, seed: *seed, ..case.clone() }.payload();
                    let marked = must("embed", || embed(array(&picture), payload.clone(), case.depth, case.levels))?;
                    let back = must("extract", || extract(marked.clone(), case.depth, case.levels))?;
                    ensure!(back == payload, "marking {}: embedded {:?}, extracted {:?} (depth {} side {})", lasting.get(), payload, back, case.depth, side);
                    picture = image(&marked);
                    lasting.set(lasting.get() + 1);
                }
                obs.nontrivial = lasting.get() > 1;
                Ok(())
            });
        },
    )
}
