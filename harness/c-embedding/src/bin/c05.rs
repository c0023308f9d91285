//! C05: extraction survives bounded changes of the pixels.
use c_embedding::*;
use embedding::{embed, extract};
use kit::imgs::Mix;
use kit::prelude::*;
use kit::{ensure, model, must};

fn main() {
    kit::engine::run(
        "C05",
        "marked pictures as in the round trip, then every pixel changed by up to d = 1..4 grey levels (random, all in one \
         direction, only at the borders, following the picture), or a few coefficients of each codeword destroyed, or \
         pixels exchanged within their block; non-trivial: at least one pixel differs from the marked picture",
        &["precondition: a quarter of the depth exceeds (d + 1/2) * 2^levels, or only two coefficients per codeword are destroyed"],
        |suite| {
            let noisy = (1u8..5).prop_flat_map(|d| (Just(d), safe(d as f64).prop_map(starkly), 0u8..5, any::<u64>()));
            suite.sub("noise", noisy, 2_500, 80_000, |(d, case, kind, seed), obs| {
                let (img, payload) = (case.img.render(), case.payload());
                describe(case, obs);
                let mut marked = must("embed", || embed(array(&img), payload.clone(), case.depth, case.levels))?;
                let before = marked.clone();
                let mut mix = Mix(*seed);
                let (h, w) = marked.dim();
                for ((r, c), pixel) in marked.indexed_iter_mut() {
                    let d = *d as i32;
                    let change = match kind {
                        0 => d,
                        1 => -d,
                        2 => mix.below(2 * d as u64 + 1) as i32 - d,
                        3 => if r == 0 || c == 0 || r == h - 1 || c == w - 1 { d } else { 0 },
                        _ => if mix.below(9) == 0 { -d } else { d },
                    };
                    *pixel = (*pixel as i32 + change).clamp(0, 255) as u8;
                }
                obs.nontrivial = before != marked;
                let back = must("extract", || extract(marked, case.depth, case.levels))?;
                ensure!(back == payload, "embedded {:?}, extracted {:?}", payload, back);
                Ok(())
            });
            suite.sub_shrink("vast", (vast(), any::<u64>()), 40, 1_200, 12, |(case, seed), obs| {
                // half a grey level of rounding and two of noise
                let side = (1 << case.levels) as f64;
                let depth = 4. * side * 2.5 * 1.02;
                let low = bound(depth, case.levels).ceil() as u8;
                let mut case = case.clone();
                case.img.lo = case.img.lo.clamp(low, 255 - low);
                case.img.hi = case.img.hi.clamp(low, 255 - low);
                let (img, payload) = (case.img.render(), case.payload());
                describe(&case, obs);
                let mut marked = must("embed", || embed(array(&img), payload.clone(), depth, case.levels))?;
                let mut mix = Mix(*seed);
                marked.iter_mut().for_each(|pixel| *pixel = (*pixel as i32 + mix.below(5) as i32 - 2).clamp(0, 255) as u8);
                obs.nontrivial();
                let back = must("extract", || extract(marked, depth, case.levels))?;
                ensure!(back == payload, "embedded {}, extracted {}", brief(&payload), brief(&back));
                Ok(())
            });
            let exchange = (safe(0.).prop_map(starkly), any::<u64>(), 1u64..200);
            suite.sub("exchanged-pixels", exchange, 1_200, 40_000, |(case, seed, amount), obs| {
                let (img, payload) = (case.img.render(), case.payload());
                let mut marked = must("embed", || embed(array(&img), payload.clone(), case.depth, case.levels))?;
                let before = marked.clone();
                let side = 1usize << case.levels;
                let mut mix = Mix(*seed);
                for _ in 0..*amount {
                    let (br, bc) = (mix.below((img.h / side) as u64) as usize * side, mix.below((img.w / side) as u64) as usize * side);
                    let at = |mix: &mut Mix| [br + mix.below(side as u64) as usize, bc + mix.below(side as u64) as usize];
                    let (a, b) = (at(&mut mix), at(&mut mix));
                    marked.swap(a, b);
                }
                obs.nontrivial = before != marked;
                let back = must("extract", || extract(marked, case.depth, case.levels))?;
                ensure!(back == payload, "embedded {:?}, extracted {:?}", payload, back);
                Ok(())
            });
            // blocks destroyed outright: the code has to repair up to two bits per codeword
            suite.sub("destroyed-blocks", (safe(0.), any::<u64>()), 2_000, 60_000, |(case, seed), obs| {
                let capacity = model::capacity(case.img.h, case.img.w, case.levels as u32);
                let code = match model::code_for(capacity) {
                    None => {
                        obs.skipped = true;
                        return Ok(());
                    }
                    Some(code) => code,
                };
                describe(case, obs);
                let (img, payload) = (case.img.render(), case.payload());
                let mut marked = must("embed", || embed(array(&img), payload.clone(), case.depth, case.levels))?;
                let before = marked.clone();
                let side = 1usize << case.levels;
                let columns = img.w / side;
                let words = model::encode(&model::frame(&payload), capacity).len() * 8 / code.n();
                let mut mix = Mix(*seed);
                for word in 0..words {
                    for _ in 0..mix.below(3) {
                        let at = word * code.n() + mix.below(code.n() as u64) as usize;
                        let (br, bc) = (at / columns * side, at % columns * side);
                        let paint = mix.byte();
                        for i in 0..side * side {
                            marked[[br + i / side, bc + i % side]] = paint;
                        }
                    }
                }
                obs.nontrivial = before != marked;
                let back = must("extract", || extract(marked, case.depth, case.levels))?;
                ensure!(back == payload, "embedded {:?}, extracted {:?}", payload, back);
                Ok(())
            });
            // anything behind the data may change
            suite.sub("changed-behind", (safe(0.), any::<u64>()), 1_500, 50_000, |(case, seed), obs| {
                let capacity = model::capacity(case.img.h, case.img.w, case.levels as u32);
                let (img, payload) = (case.img.render(), case.payload());
                let mut marked = must("embed", || embed(array(&img), payload.clone(), case.depth, case.levels))?;
                let before = marked.clone();
                let side = 1usize << case.levels;
                let columns = img.w / side;
                let used = model::encode(&model::frame(&payload), capacity).len() * 8;
                let mut mix = Mix(*seed);
                for ((r, c), pixel) in marked.indexed_iter_mut() {
                    if r / side * columns + c / side >= used {
                        *pixel = mix.byte();
                    }
                }
                obs.nontrivial = before != marked;
                let back = must("extract", || extract(marked, case.depth, case.levels))?;
                ensure!(back == payload, "embedded {:?}, extracted {:?}", payload, back);
                Ok(())
            });
        },
    )
}
