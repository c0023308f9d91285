//! C35: reading any picture ends, in a refusal or in what a reader of the published format finds.
use c_embedding::*;
use embedding::extract;
use kit::imgs::{self, ImgSpec, Mix};
use kit::prelude::*;
use kit::{ensure, model, quiet};
use serde::{Deserialize, Serialize};

/// What the coefficients of a picture hold.
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Content {
    /// whatever the picture happens to hold
    Nothing,
    Noise,
    /// proper codewords around data whose length headers (of the code, of the payload) say anything
    Headers { outer: u16, inner: u16, length: usize },
    /// the same, with headers close to the truth
    Nearly { outer: i8, inner: i8, share: f64 },
    /// proper codewords with many flipped bits
    Damaged { share: f64, flips: u16 },
    Full(u8),
}

fn contents() -> impl Strategy<Value = Content> {
    let small = || prop_oneof![2 => 0u16..40, 1 => any::<u16>(), 1 => prop::sample::select(vec![255u16, 256, 32767, 32768, 65533, 65534, 65535])];
    prop_oneof![
        1 => Just(Content::Nothing),
        1 => Just(Content::Noise),
        3 => (small(), small(), 0usize..200).prop_map(|(outer, inner, length)| Content::Headers { outer, inner, length }),
        4 => (-3i8..4, -3i8..4, prop_oneof![0.0f64..1.0, Just(1.0)]).prop_map(|(outer, inner, share)| Content::Nearly { outer, inner, share }),
        2 => (0.0f64..1.0, 1u16..300).prop_map(|(share, flips)| Content::Damaged { share, flips }),
        1 => any::<u8>().prop_map(Content::Full),
    ]
}

fn main() {
    kit::engine::run(
        "C35",
        "pictures of 1..60 by 1..60 blocks (and any sides in pixels), 0..4 levels, which hold nothing, noise, well-formed \
         codewords around contradicting length headers, or damaged codewords; non-trivial: something was written, or the \
         picture has room for it",
        &["a refusal is a panic", "a coefficient within 1e-9 of a decision boundary leaves the case to rounding: only its end and its length are checked"],
        |suite| {
            let case = (safe(0.), contents(), any::<u64>());
            suite.sub("contents", case, 8_000, 250_000, |(case, content, seed), obs| {
                let (h, w, levels) = (case.img.h, case.img.w, case.levels as u32);
                let capacity = model::capacity(h, w, levels);
                let base = case.img.render();
                let mut mix = Mix(*seed);
                let mut noise = |n: usize| -> Vec<u8> { (0..n).map(|_| mix.byte()).collect() };
                // whole data the domain has room for, header included
                let room = model::max_encodable(capacity).map_or(0, |n| n + 2);
                let mut bytes = match content {
                    Content::Nothing => vec![],
                    Content::Noise => noise(capacity),
                    Content::Full(byte) => vec![*byte; capacity],
                    Content::Headers { outer, inner, length } => {
                        let mut plain = vec![(outer >> 8) as u8, *outer as u8, *inner as u8, (inner >> 8) as u8];
                        plain.extend(noise(*length));
                        plain.truncate(room);
                        model::encode_plain(&plain, capacity)
                    }
                    Content::Nearly { outer, inner, share } => {
                        let length = ((room.max(4) - 4) as f64 * share) as usize;
                        let outer = (length as i64 + 2 + *outer as i64).clamp(0, 65535);
                        let inner = (length as i64 + *inner as i64).clamp(0, 65535);
                        let mut plain = vec![(outer >> 8) as u8, outer as u8, inner as u8, (inner >> 8) as u8];
                        plain.extend(noise(length));
                        plain.truncate(room);
                        model::encode_plain(&plain, capacity)
                    }
                    Content::Damaged { share, flips } => {
                        let length = ((room.max(4) - 4) as f64 * share) as usize;
                        let mut bytes = model::encode(&model::frame(&noise(length)), capacity);
                        for _ in 0..*flips {
                            let at = u64::from_le_bytes(noise(8).try_into().unwrap()) as usize % (bytes.len() * 8);
                            bytes[at / 8] ^= 1 << (at % 8);
                        }
                        bytes
                    }
                };
                bytes.truncate(capacity);
                obs.nontrivial = !bytes.is_empty();
                obs.label(format!("{:?}", content).split([' ', '(']).next().unwrap().to_string());
                obs.label(model::code_name(capacity));
                let img = model::write_bytes(&base, &bytes, case.depth, levels);
                let found = quiet(|| extract(array(&img), case.depth, case.levels));
                let (held, margin) = model::read_bytes(&model::ll(&img, levels), case.depth);
                let expected = model::decode(&held, capacity).and_then(|data| model::unframe(&data));
                let again = quiet(|| extract(array(&img), case.depth, case.levels));
                ensure!(found.as_ref().ok() == again.as_ref().ok(), "reading twice gives different results");
                if let Ok(found) = &found {
                    ensure!(found.len() + 4 <= room, "{} bytes are read from a picture with room for {}", found.len(), room as i64 - 4);
                }
                obs.label(if expected.is_some() { "readable" } else { "unreadable" });
                if margin < 1e-9 {
                    obs.label("left to rounding");
                    return Ok(());
                }
                match (found, expected) {
                    (Ok(found), Some(expected)) => ensure!(found == expected, "read {}, expected {}", brief(&found), brief(&expected)),
                    (Ok(found), None) => return Err(format!("the picture holds no complete data, but {} are read", brief(&found))),
                    (Err(reason), Some(expected)) => return Err(format!("{} cannot be read: {}", brief(&expected), reason)),
                    _ => (),
                }
                Ok(())
            });
            // sides and levels which do not go together
            let odd = (imgs::img((1usize..130, 1usize..130)), 0usize..7, prop_oneof![0.5f64..300., Just(100.0)]);
            suite.sub("sides", odd, 4_000, 100_000, |(spec, levels, depth): &(ImgSpec, usize, f64), obs| {
                let img = spec.render();
                let divisible = img.h % (1 << levels) == 0 && img.w % (1 << levels) == 0;
                obs.nontrivial = img.h * img.w >> (2 * levels) >= 64;
                obs.label(if divisible { "divisible" } else { "indivisible" });
                if let Ok(found) = quiet(|| extract(array(&img), *depth, *levels)) {
                    obs.label("read");
                    ensure!(found.len() * 8 <= (img.h * img.w) >> (2 * levels), "{} bytes are read from {}x{} at {} levels", found.len(), img.h, img.w, levels);
                    ensure!(divisible || found.len() <= img.h * img.w / 8, "{} bytes", found.len());
                }
                Ok(())
            });
        },
    )
}
