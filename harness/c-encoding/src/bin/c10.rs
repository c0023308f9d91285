//! C10: bit errors are corrected.
use encoding::{decode, encode};
use kit::imgs::Mix;
use kit::prelude::*;
use kit::{ensure, model, must};
use serde::{Deserialize, Serialize};

/// Capacity and the length of a codeword in bits.
const CODES: [(usize, usize, usize); 5] = [(16, 128, 8), (32, 256, 16), (64, 512, 32), (256, 2048, 128), (1024, 8192, 512)];

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    capacity: usize,
    length: usize,
    seed: u64,
    /// positions of the flipped bits within each codeword, in order
    flips: Vec<Vec<u16>>,
    garbage: Vec<u8>,
}

fn data(length: usize, seed: u64) -> Vec<u8> {
    let mut mix = Mix(seed);
    (0..length).map(|_| mix.byte()).collect()
}

fn flip(bytes: &mut [u8], bit: usize) {
    bytes[bit / 8] ^= 1 << (bit % 8);
}

fn main() {
    kit::engine::run(
        "C10",
        "encoded data of every code with 0..2 flipped bits per codeword at any position (and larger numbers of flips, judged \
         against the reference bit-flipping decoder), plus bytes behind the last codeword; exhaustively every single bit of \
         one codeword of every code; non-trivial: at least one flipped bit",
        &["the labrador-ldpc crate's bit-flipping decoder with 20 iterations is the reference beyond two errors; two errors per codeword were sampled for the codes"],
        |suite| {
            let case = |max: usize| {
                (prop::sample::select(&CODES[..]), kit::pick(), any::<u64>(), 1usize..5)
                    .prop_flat_map(move |((capacity, n, k), length, seed, words)| {
                        let length = (length.index(k * words) + 1).saturating_sub(2).max(1);
                        let words = (length + 2 + k - 1) / k;
                        (
                            Just(capacity),
                            Just(length),
                            Just(seed),
                            prop::collection::vec(prop::collection::vec(0u16..n as u16, 0..=max), words),
                            prop_oneof![2 => Just(vec![]), 1 => prop::collection::vec(any::<u8>(), 0..n / 8)],
                        )
                    })
                    .prop_map(|(capacity, length, seed, flips, garbage)| Case { capacity, length, seed, flips, garbage })
            };
            let run = |case: &Case, obs: &mut kit::Obs, always: bool| -> kit::Verdict {
                let n = CODES.iter().find(|c| c.0 == case.capacity).unwrap().1;
                let data = data(case.length, case.seed);
                let mut bytes = must("encode", || encode(data.clone(), case.capacity))?;
                let mut flipped = 0;
                for (word, flips) in case.flips.iter().enumerate() {
                    for bit in flips {
                        if (word + 1) * n <= bytes.len() * 8 {
                            flip(&mut bytes, word * n + *bit as usize);
                            flipped += 1;
                        }
                    }
                }
                bytes.extend(&case.garbage);
                obs.nontrivial = flipped > 0;
                obs.label(model::code_name(case.capacity));
                if !case.garbage.is_empty() {
                    obs.label("bytes behind the last codeword");
                }
                let correctable = always || model::decode(&bytes, case.capacity).as_ref() == Some(&data);
                if correctable {
                    let decoded = must("decode", || decode(bytes.clone(), case.capacity))?;
                    ensure!(decoded == data, "{} bytes with errors {:?} come back as {:?}", data.len(), case.flips, decoded);
                } else {
                    obs.label("beyond the code");
                }
                Ok(())
            };
            suite.sub("two-errors", case(2), 6_000, 200_000, |c, o| run(c, o, true));
            let long = (prop::sample::select(&CODES[..]), 2_000usize..65_536, any::<u64>());
            suite.sub_shrink("long", long, 60, 2_000, 20, |((capacity, n, _), length, seed), obs| {
                obs.nontrivial();
                obs.label(model::code_name(*capacity));
                let data = data(*length, *seed);
                let mut bytes = must("encode", || encode(data.clone(), *capacity))?;
                let mut mix = Mix(*seed ^ 77);
                for word in 0..bytes.len() * 8 / n {
                    for _ in 0..mix.below(3) {
                        flip(&mut bytes, word * n + mix.below(*n as u64) as usize);
                    }
                }
                let decoded = must("decode", || decode(bytes, *capacity))?;
                ensure!(decoded == data, "{} bytes with errors in every codeword come back as {} bytes, the first difference at {:?}", data.len(), decoded.len(),
                    data.iter().zip(&decoded).position(|(a, b)| a != b));
                Ok(())
            });
            suite.sub("many-errors", case(12), 5_000, 200_000, |c, o| run(c, o, false));
            let singles = CODES.iter().flat_map(|(capacity, n, _)| (0..*n).map(move |bit| (*capacity, bit)));
            suite.exhaustive("every-single-error", singles, |(capacity, bit), obs| {
                obs.nontrivial();
                let data = data(5, *bit as u64);
                let mut bytes = must("encode", || encode(data.clone(), *capacity))?;
                flip(&mut bytes, *bit);
                let decoded = must("decode", || decode(bytes, *capacity))?;
                ensure!(decoded == data, "capacity {}: bit {} is not corrected: {:?}", capacity, bit, decoded);
                Ok(())
            });
            // noise: a refusal, or no more than the codewords hold
            let noise = (prop::sample::select(&CODES[..]), 0usize..5, any::<u64>(), any::<bool>());
            suite.sub("noise", noise, 2_000, 60_000, |((capacity, n, k), words, seed, short), obs| {
                obs.nontrivial = *words > 0;
                let mut bytes = data(words * n / 8 + (*seed % (*n as u64 / 8)) as usize, *seed);
                if *short && bytes.len() > 1 {
                    // the length a systematic code shows in its first bytes is small
                    bytes[0] = 0;
                    bytes[1] %= 64;
                }
                if let Ok(decoded) = kit::quiet(|| decode(bytes.clone(), *capacity)) {
                    obs.label("decoded");
                    ensure!(decoded.len() + 2 <= words * k, "{} bytes decoded from {}", decoded.len(), bytes.len());
                }
                Ok(())
            });
            // the whole remaining domain behind the data holds whatever the picture holds
            let tail = (prop::sample::select(&CODES[..]), 1usize..6, any::<u64>(), 0u16..1100);
            suite.sub("foreign-tail", tail, 3_000, 80_000, |((capacity, _, _), length, seed, tail), obs| {
                obs.nontrivial = *tail > 0;
                let data = data(*length, *seed);
                let mut bytes = must("encode", || encode(data.clone(), *capacity))?;
                bytes.extend(self::data(*tail as usize, seed ^ 1));
                let decoded = must("decode", || decode(bytes, *capacity))?;
                ensure!(decoded == data, "with {} foreign bytes behind: {:?}", tail, decoded);
                Ok(())
            });
        },
    )
}
