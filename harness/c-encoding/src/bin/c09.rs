//! C09: what the error correcting code encodes it decodes.
use encoding::{decode, encode};
use kit::prelude::*;
use kit::{ensure, model, must};
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    length: usize,
    fill: u8,
    seed: u64,
    capacity: usize,
}

impl Case {
    fn data(&self) -> Vec<u8> {
        let mut mix = kit::imgs::Mix(self.seed);
        (0..self.length)
            .map(|_| match self.fill {
                0 => 0,
                1 => 255,
                2 => (self.seed >> 3) as u8,
                _ => mix.byte(),
            })
            .collect()
    }
}

pub fn capacities() -> impl Strategy<Value = usize> {
    prop_oneof![
        6 => prop::sample::select(vec![16usize, 32, 64, 128, 256, 512, 1024]),
        2 => prop::sample::select(vec![1023usize, 1025, 2048, 3072, 4096, 5000, 8192, 20000, 65536, 1 << 20]),
        3 => 0usize..1100,
        1 => 1024usize..70_000
    ]
}

fn check(case: &Case, obs: &mut kit::Obs) -> kit::Verdict {
    let data = case.data();
    obs.nontrivial = data.len() > 1;
    obs.label(model::code_name(case.capacity));
    let encoded = must("encode", || encode(data.clone(), case.capacity))?;
    let decoded = must("decode", || decode(encoded.clone(), case.capacity))?;
    ensure!(decoded == data, "{} bytes in a domain of {} bytes come back as {} bytes", data.len(), case.capacity, decoded.len());
    let expected = model::encode(&data, case.capacity);
    ensure!(encoded.len() == expected.len(), "{} bytes are encoded as {}, expected {}", data.len(), encoded.len(), expected.len());
    // old readers have to understand new writers, and new readers old writers
    ensure!(model::decode(&encoded, case.capacity).as_ref() == Some(&data), "the reference decoder does not read the encoded bytes");
    let decoded = must("decode", || decode(expected.clone(), case.capacity))?;
    ensure!(decoded == data, "bytes of the reference encoder come back as {} bytes", decoded.len());
    // what follows the codewords, an incomplete one included, is not part of the data
    let mut longer = encoded;
    let mut mix = kit::imgs::Mix(case.seed ^ 5);
    longer.extend((0..case.seed % 700).map(|_| mix.byte()));
    let decoded = must("decode", || decode(longer, case.capacity))?;
    ensure!(decoded == data, "{} bytes with {} foreign bytes behind come back as {} bytes", data.len(), case.seed % 700, decoded.len());
    Ok(())
}

fn main() {
    kit::engine::run(
        "C09",
        "data of 0..65535 bytes (constant or random, chunk borders over-represented) for every domain capacity the product \
         distinguishes and arbitrary others up to 1 MiB; oversized data of 65536..70000 bytes; non-trivial: at least two bytes",
        &["the labrador-ldpc crate is the reference for the CCSDS codes themselves"],
        |suite| {
            let length = prop_oneof![
                5 => 0usize..200,
                2 => 0usize..2100,
                2 => (1usize..20, prop::sample::select(vec![8usize, 16, 32, 128, 512]), 0usize..4)
                    .prop_map(|(n, k, less)| (n * k + 1).saturating_sub(less)),
            ];
            let case = (length, 0u8..6, any::<u64>(), capacities())
                .prop_map(|(length, fill, seed, capacity)| Case { length, fill, seed, capacity });
            suite.sub("round-trip", case, 6_000, 200_000, check);
            let long = (prop_oneof![1 => 60_000usize..=65_535, 1 => Just(65_535usize), 1 => 2_000usize..60_000], any::<u64>(), capacities())
                .prop_map(|(length, seed, capacity)| Case { length, fill: 3, seed, capacity });
            suite.sub("long", long, 240, 4_000, check);
            // every length around every chunk border of every code
            let all = [0usize, 9, 16, 32, 64, 128, 256, 512, 1024, 4096]
                .iter()
                .flat_map(|c| (0..80usize).chain(120..140).chain(250..262).chain(505..520).map(move |l| (l, *c)));
            suite.exhaustive("borders", all, |(length, capacity), obs| {
                check(&Case { length: *length, fill: 3, seed: (*length * 7919 + *capacity) as u64, capacity: *capacity }, obs)
            });
            suite.sub("too-long", (65_536usize..70_000, capacities()), 60, 2_000, |(length, capacity), obs| {
                obs.nontrivial();
                let data = vec![1u8; *length];
                ensure!(kit::panics(|| encode(data.clone(), *capacity)), "{} bytes are encoded although the length header cannot express it", length);
                Ok(())
            });
            // each block of data is protected on its own: the encoding starts with the data itself
            suite.sub("deterministic", (prop::collection::vec(any::<u8>(), 0..300), capacities()), 2_000, 50_000, |(data, capacity), obs| {
                obs.nontrivial = !data.is_empty();
                let first = must("encode", || encode(data.clone(), *capacity))?;
                let second = must("encode", || encode(data.clone(), *capacity))?;
                ensure!(first == second, "encoding twice gives different bytes");
                let other = decode(first.clone(), *capacity);
                let again = decode(first, *capacity);
                ensure!(other == again, "decoding twice gives different bytes");
                Ok(())
            });
        },
    )
}
