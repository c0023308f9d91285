//! C23: integers survive the trip through bytes; the layout is little-endian.
use kit::prelude::*;
use kit::{ensure, must};
use utils::bytes::*;

fn main() {
    kit::engine::run(
        "C23",
        "vectors of 0..300 integers mixing full-range values, small values and the ends of the range; byte \
         strings of whole numbers of words; non-trivial: at least two different integers",
        &[],
        |suite| {
            let int16 = || prop_oneof![any::<u16>(), 0u16..4, Just(u16::MAX), Just(0x8000), Just(0x00ff), Just(0xff00)];
            suite.sub("u16", prop::collection::vec(int16(), 0..300), 40_000, 2_000_000, |values, obs| {
                obs.nontrivial = values.windows(2).any(|p| p[0] != p[1]);
                let bytes = must("to bytes", || vec_u16_to_bytes(values))?;
                let expected: Vec<u8> = values.iter().flat_map(|v| [(v % 256) as u8, (v / 256) as u8]).collect();
                ensure!(bytes == expected, "bytes {:?}, expected {:?}", bytes, expected);
                let back = must("from bytes", || vec_u16_from_bytes(&bytes))?;
                ensure!(back == *values, "read back {:?}", back);
                Ok(())
            });
            let int64 = || {
                prop_oneof![
                    any::<i64>(),
                    -3i64..4,
                    (0u32..64).prop_map(|s| 1i64 << s),
                    (0u32..64).prop_map(|s| (1i64 << s).wrapping_neg()),
                    Just(i64::MIN),
                    Just(i64::MAX)
                ]
            };
            suite.sub("i64", prop::collection::vec(int64(), 0..120), 40_000, 2_000_000, |values, obs| {
                obs.nontrivial = values.windows(2).any(|p| p[0] != p[1]);
                let bytes = must("to bytes", || vec_i64_to_bytes(values))?;
                let expected: Vec<u8> =
                    values.iter().flat_map(|v| (0..8).map(move |i| (*v as u64 >> (8 * i)) as u8)).collect();
                ensure!(bytes == expected, "bytes {:?}, expected {:?}", bytes, expected);
                let back = must("from bytes", || vec_i64_from_bytes(&bytes))?;
                ensure!(back == *values, "read back {:?}", back);
                Ok(())
            });
            suite.sub_shrink("many", (9_000usize..140_000, any::<u64>()), 12, 400, 40, |(amount, seed), obs| {
                obs.nontrivial();
                let mut mix = kit::imgs::Mix(*seed);
                let values: Vec<i64> = (0..*amount).map(|_| mix.next() as i64).collect();
                let bytes = must("to bytes", || vec_i64_to_bytes(&values))?;
                ensure!(bytes.chunks(8).map(|c| i64::from_le_bytes(c.try_into().unwrap())).eq(values.iter().cloned()), "{} numbers become other bytes", amount);
                ensure!(must("from bytes", || vec_i64_from_bytes(&bytes))? == values, "{} 64-bit numbers are not read back", amount);
                let small = must("from bytes", || vec_u16_from_bytes(&bytes))?;
                ensure!(bytes.chunks(2).map(|c| c[0] as u16 + 256 * c[1] as u16).eq(small.iter().cloned()), "{} bytes become other numbers", bytes.len());
                ensure!(must("to bytes", || vec_u16_to_bytes(&small))? == bytes, "{} 16-bit numbers are not read back", small.len());
                Ok(())
            });
            suite.sub("from-bytes", prop::collection::vec(any::<u8>(), 0..400), 30_000, 1_000_000, |bytes, obs| {
                obs.nontrivial = bytes.len() >= 16;
                let even = bytes[..bytes.len() / 2 * 2].to_vec();
                let back = must("u16", || vec_u16_to_bytes(&vec_u16_from_bytes(&even)))?;
                ensure!(back == even, "u16: {:?} became {:?}", even, back);
                let eights = bytes[..bytes.len() / 8 * 8].to_vec();
                let back = must("i64", || vec_i64_to_bytes(&vec_i64_from_bytes(&eights)))?;
                ensure!(back == eights, "i64: {:?} became {:?}", eights, back);
                // a rest too short for an integer is refused, not dropped and not padded
                if bytes.len() % 2 != 0 {
                    obs.label("odd rest");
                    ensure!(kit::panics(|| vec_u16_from_bytes(bytes)), "u16: an incomplete integer was accepted");
                }
                if bytes.len() % 8 != 0 {
                    ensure!(kit::panics(|| vec_i64_from_bytes(bytes)), "i64: an incomplete integer was accepted");
                }
                Ok(())
            });
            suite.exhaustive("every-u16", 0..=65535u16, |value, obs| {
                obs.nontrivial();
                let bytes = must("to bytes", || vec_u16_to_bytes(&vec![*value]))?;
                ensure!(bytes == [(value % 256) as u8, (value / 256) as u8], "{:?}", bytes);
                ensure!(vec_u16_from_bytes(&bytes) == [*value], "{} is not read back", value);
                Ok(())
            });
        },
    )
}
