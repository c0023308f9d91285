//! C19: perturbation bits survive packing into bytes.
use bitvec::prelude::*;
use kit::prelude::*;
use kit::{ensure, model, must};
use three_bit_quantization::*;

fn main() {
    kit::engine::run(
        "C19",
        "bit vectors of every length 0..=2100 (all lengths up to 600 exhaustively with four fillings), vectors cut out of \
         longer ones and otherwise come about; non-trivial: at least two bits of which not all are equal",
        &[],
        |suite| {
            let check = |bits: &Vec<bool>, spare: usize| -> kit::Verdict {
                let vector: BitVec<u8, Lsb0> = bits.iter().collect();
                let bytes = must("pack", || perturbation_vector_as_bytes(&vector))?;
                ensure!(bytes == model::pack(bits), "packed into {:?}", bytes);
                let back = must("unpack", || perturbation_vector_from_bytes(&bytes, bits.len()))?;
                ensure!(back == vector, "{} read back as {}", vector, back);
                // bytes behind the vector are not part of it
                let longer: Vec<u8> = bytes.iter().cloned().chain((0..spare).map(|i| 0xa5u8.wrapping_mul(i as u8 + 1))).collect();
                let back = must("unpack", || perturbation_vector_from_bytes(&longer, bits.len()))?;
                ensure!(back == vector, "{} read back as {} with {} bytes behind", vector, back, spare);
                Ok(())
            };
            // the same bits in vectors which came about in another way: cut out of longer ones, with other bits
            // before the first and behind the last in their storage
            let histories = |bits: &Vec<bool>, before: usize, behind: usize, noise: u64| -> kit::Verdict {
                let mut mix = kit::imgs::Mix(noise);
                let mut some = |n: usize| (0..n).map(|_| mix.below(2) == 1).collect::<Vec<bool>>();
                let long: BitVec<u8, Lsb0> = some(before).into_iter().chain(bits.iter().cloned()).chain(some(behind)).collect();
                let mut cut = long.clone();
                cut.truncate(before + bits.len());
                let tail = cut.split_off(before);
                let drained: BitVec<u8, Lsb0> = long.clone().drain(before..before + bits.len()).collect();
                let mut popped: BitVec<u8, Lsb0> = long[before..].to_bitvec();
                (0..behind).for_each(|_| drop(popped.pop()));
                let mut removed = long.clone();
                removed.truncate(before + bits.len());
                (0..before).for_each(|_| drop(removed.remove(0)));
                for (how, vector) in [("cut out", long[before..before + bits.len()].to_bitvec()), ("split off", tail), ("drained", drained), ("popped", popped), ("removed", removed)] {
                    ensure!(vector.len() == bits.len(), "harness: {} bits", vector.len());
                    let bytes = must("pack", || perturbation_vector_as_bytes(&vector))?;
                    ensure!(bytes == model::pack(bits), "bits {} of {} are packed into {:?}, expected {:?}", how, long, bytes, model::pack(bits));
                    ensure!(vector.iter().by_vals().eq(bits.iter().cloned()), "packing changed the bits");
                }
                Ok(())
            };
            suite.sub("cut-out", (prop::collection::vec(any::<bool>(), 0..280), 0usize..20, 0usize..20, any::<u64>()), 4_000, 200_000, |(bits, before, behind, noise), obs| {
                obs.nontrivial = before + behind > 0 && bits.len() > 1;
                histories(bits, *before, *behind, *noise)
            });
            suite.sub("round-trip", (prop::collection::vec(any::<bool>(), 0..2100), 0..6usize), 10_000, 300_000, |(bits, spare), obs| {
                obs.nontrivial = bits.windows(2).any(|p| p[0] != p[1]);
                check(bits, *spare)
            });
            suite.sub_shrink("many", (30_000usize..200_000, any::<u64>(), 0..6usize), 24, 800, 40, |(amount, seed, spare), obs| {
                obs.nontrivial();
                let mut mix = kit::imgs::Mix(*seed);
                check(&(0..*amount).map(|_| mix.below(2) == 1).collect(), *spare)
            });
            suite.exhaustive("lengths", (0..600usize).flat_map(|n| (0..4u8).map(move |fill| (n, fill))), |(n, fill), obs| {
                obs.nontrivial = *n > 1;
                let bits: Vec<bool> = (0..*n)
                    .map(|i| match fill {
                        0 => false,
                        1 => true,
                        2 => i % 2 == 0,
                        _ => i % 3 == 0 || i % 7 == 2,
                    })
                    .collect();
                check(&bits, 2)
            });
            suite.sub("bytes", (prop::collection::vec(any::<u8>(), 0..120), kit::pick()), 20_000, 500_000, |(bytes, cut), obs| {
                let amount = cut.index(bytes.len() * 8 + 1);
                obs.nontrivial = amount > 8;
                let vector = must("unpack", || perturbation_vector_from_bytes(bytes, amount))?;
                ensure!(vector.iter().by_vals().eq(model::unpack(bytes, amount)), "{:?} unpacked to {}", bytes, vector);
                let packed = must("pack", || perturbation_vector_as_bytes(&vector))?;
                ensure!(model::unpack(&packed, amount) == model::unpack(bytes, amount), "packed again: {:?}", packed);
                ensure!(packed.len() == (amount + 7) / 8, "{} bytes for {} bits", packed.len(), amount);
                Ok(())
            });
        },
    )
}
