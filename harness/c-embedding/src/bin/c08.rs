//! C08: a picture takes exactly the payloads it has room for, and refuses the others.
use c_embedding::*;
use embedding::{embed, extract};
use kit::prelude::*;
use kit::{ensure, model, must};
use ndarray::Array2;

fn main() {
    kit::engine::run(
        "C08",
        "bands of every size class, payloads from just below to just above the room, far above it, and above 65535 bytes; \
         pictures with no room at all; non-trivial: payload within 4 bytes of the room, or larger than it",
        &["a refusal is a panic: the interface has no error value"],
        |suite| {
            let around = (safe(0.), -4i64..600);
            suite.sub("around", around, 3_000, 80_000, |(case, more), obs| {
                let room = match case.room() {
                    None => {
                        obs.skipped = true;
                        return Ok(());
                    }
                    Some(room) => room as i64,
                };
                // mostly next to the border, sometimes far beyond
                let more = if *more > 40 && more % 3 != 0 { more % 5 } else { *more };
                let length = (room + more).max(0) as usize;
                let payload = bytes(length, case.fill, case.seed);
                let img = case.img.render();
                describe(case, obs);
                obs.nontrivial();
                let result = kit::quiet(|| embed(array(&img), payload.clone(), case.depth, case.levels));
                match result {
                    Ok(marked) => {
                        obs.label("accepted");
                        let back = must("extract", || extract(marked, case.depth, case.levels))?;
                        ensure!(back == payload, "{} bytes are accepted for room of {}, but {} come back", length, room, back.len());
                        ensure!(length as i64 <= room, "{} bytes in a room of {}", length, room);
                    }
                    Err(reason) => {
                        obs.label("refused");
                        ensure!(length as i64 > room, "{} bytes are refused although {} fit: {}", length, room, reason);
                    }
                }
                Ok(())
            });
            // every band size: what fits exactly is recovered, one byte more is refused
            let bands = (1usize..=40).flat_map(|r| (1usize..=40).map(move |c| (r, c))).filter(|(r, c)| (r * 7 + c) % 3 == 0 || r * c % 128 == 0);
            suite.exhaustive("every-band", bands, |(rows, cols), obs| {
                let (h, w) = (rows * 2, cols * 2);
                let capacity = model::capacity(h, w, 1);
                let gray = Array2::from_elem([h, w], 128u8);
                if capacity <= 8 {
                    obs.label("no room");
                    // too small for a code or even for framing: nothing may be accepted silently
                    for length in [0usize, 1, 4, 9] {
                        if let Ok(marked) = kit::quiet(|| embed(gray.clone(), bytes(length, 3, 5), 40., 1)) {
                            let back = must("extract", || extract(marked, 40., 1))?;
                            ensure!(back == bytes(length, 3, 5), "{} bytes are accepted by {}x{} and lost", length, h, w);
                        }
                    }
                    return Ok(());
                }
                obs.nontrivial();
                obs.label(model::code_name(capacity));
                let room = model::max_payload(h, w, 1).unwrap();
                let fits = bytes(room, 3, (h * w) as u64);
                let marked = must("embed", || embed(gray.clone(), fits.clone(), 40., 1))?;
                let back = must("extract", || extract(marked, 40., 1))?;
                ensure!(back == fits, "{}x{}: {} bytes fit, but {} come back", h, w, room, back.len());
                let over = bytes(room + 1, 3, 9);
                ensure!(kit::panics(|| embed(gray.clone(), over.clone(), 40., 1)), "{}x{}: one byte more than fits is accepted", h, w);
                Ok(())
            });
            suite.sub_shrink("vast", (vast(), -2i64..4), 24, 800, 12, |(case, more), obs| {
                let room = case.room().unwrap();
                let length = (room as i64 + more) as usize;
                let payload = bytes(length, case.fill, case.seed);
                let img = case.img.render();
                describe(case, obs);
                obs.nontrivial();
                match kit::quiet(|| embed(array(&img), payload.clone(), case.depth, case.levels)) {
                    Ok(marked) => {
                        obs.label("accepted");
                        let back = must("extract", || extract(marked, case.depth, case.levels))?;
                        ensure!(back == payload, "{} bytes are accepted for room of {}, but {} come back", length, room, brief(&back));
                        ensure!(length <= room, "{} bytes in a room of {}", length, room);
                    }
                    Err(reason) => {
                        obs.label("refused");
                        ensure!(length > room, "{} bytes are refused although {} fit: {}", length, room, reason);
                    }
                }
                Ok(())
            });
            suite.sub("length-header", (65_536usize..66_100, any::<u8>()), 16, 200, |(length, byte), obs| {
                obs.nontrivial();
                // enough coefficients, but the length cannot be expressed: 1100 x 1000 coefficients hold 68 kB
                let gray = Array2::from_elem([2200, 2000], 128u8);
                ensure!(kit::panics(|| embed(gray.clone(), vec![*byte; *length], 40., 1)), "{} bytes are accepted", length);
                Ok(())
            });
            #[cfg(sia_verif_hooks)]
            {
                use embedding::verif_hooks::{frame, unframe};
                suite.sub("frame", (prop_oneof![6 => 0usize..600, 1 => 65_000usize..65_536], any::<u64>(), prop::collection::vec(any::<u8>(), 0..40)), 6_000, 200_000,
                    |(length, seed, behind), obs| {
                        let payload = bytes(*length, 3, *seed);
                        obs.nontrivial = *length > 0;
                        let framed = must("frame", || frame(payload.clone()))?;
                        ensure!(framed == model::frame(&payload), "{} bytes are framed as {:?}...", length, &framed[..2]);
                        let mut longer = framed;
                        longer.extend(behind);
                        let back = must("unframe", || unframe(longer.clone()))?;
                        ensure!(back == payload, "{} bytes come back as {}", length, back.len());
                        // a frame that was cut off is refused, not shortened
                        if *length > 0 {
                            let cut = longer[..2 + length - 1].to_vec();
                            ensure!(kit::panics(|| unframe(cut)), "a cut-off frame is accepted");
                        }
                        Ok(())
                    });
                suite.exhaustive("frame-too-long", [65_536usize, 65_537, 70_000, 131_072].into_iter(), |length, obs| {
                    obs.nontrivial();
                    ensure!(kit::panics(|| frame(vec![0; *length])), "{} bytes are framed", length);
                    Ok(())
                });
            }
        },
    )
}
