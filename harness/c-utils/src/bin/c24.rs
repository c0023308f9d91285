//! C24: hexadecimal text.
use kit::prelude::*;
use kit::{ensure, must};
use utils::format::{decode_hex, encode_hex};

fn main() {
    kit::engine::run(
        "C24",
        "byte strings of 0..300 bytes, hexadecimal texts of either case, and texts damaged by an odd length, \
         a foreign character (ASCII, sign, blank, multi-byte) at any place; non-trivial: at least two bytes or a damaged text",
        &[],
        |suite| {
            suite.sub("round-trip", prop::collection::vec(any::<u8>(), 0..300), 40_000, 1_000_000, |bytes, obs| {
                obs.nontrivial = bytes.len() > 1;
                let text = must("encode", || encode_hex(bytes))?;
                let expected: String = bytes
                    .iter()
                    .flat_map(|b| [b >> 4, b & 15])
                    .map(|d| char::from_digit(d as u32, 16).unwrap())
                    .collect();
                ensure!(text == expected, "{:?} became {}", bytes, text);
                let back = must("decode", || decode_hex(&text))?;
                ensure!(back.as_ref() == Ok(bytes), "{} became {:?}", text, back);
                let upper = must("decode", || decode_hex(&text.to_uppercase()))?;
                ensure!(upper.as_ref() == Ok(bytes), "{} became {:?}", text.to_uppercase(), upper);
                Ok(())
            });
            suite.sub_shrink("long", (2_000usize..140_000, any::<u64>(), prop::option::of((kit::pick(), "[^0-9a-fA-F]"))), 20, 600, 40, |(amount, seed, damage), obs| {
                obs.nontrivial();
                let mut mix = kit::imgs::Mix(*seed);
                let bytes: Vec<u8> = (0..*amount).map(|_| mix.byte()).collect();
                let mut text = must("encode", || encode_hex(&bytes))?;
                ensure!(text.len() == 2 * amount, "{} bytes become {} digits", amount, text.len());
                ensure!((0..*amount).all(|i| u8::from_str_radix(&text[2 * i..2 * i + 2], 16) == Ok(bytes[i])), "{} bytes become other digits", amount);
                ensure!(must("decode", || decode_hex(&text))? == Ok(bytes), "{} bytes are not read back", amount);
                if let Some((at, foreign)) = damage {
                    let at = at.index(text.len());
                    text.replace_range(at..at + 1, foreign);
                    ensure!(must("decode", || decode_hex(&text))?.is_err(), "{:?} at {} is accepted", foreign, at);
                }
                Ok(())
            });
            suite.exhaustive("every-pair", 0..=65535u32, |pair, obs| {
                obs.nontrivial();
                // both characters anywhere in Latin-1
                let chars = [char::from_u32(pair >> 8).unwrap(), char::from_u32(pair & 255).unwrap()];
                let text: String = chars.iter().collect();
                let result = must("decode", || decode_hex(&text))?;
                match (chars[0].to_digit(16), chars[1].to_digit(16)) {
                    (Some(a), Some(b)) => ensure!(result == Ok(vec![(a * 16 + b) as u8]), "{:?} became {:?}", text, result),
                    _ => ensure!(result.is_err(), "{:?} was accepted as {:?}", text, result),
                }
                Ok(())
            });
            let damaged = (
                "([0-9a-fA-F]{2}){0,40}",
                kit::pick(),
                prop_oneof![
                    3 => "[^0-9a-fA-F]",
                    2 => prop::sample::select(vec!["+", "-", " ", "g", "G", "x", "é", "€", "𝟙", "０", "\n", "\0", "0x"]).prop_map(String::from),
                    1 => Just(String::new())
                ],
                0..3usize,
            )
                .prop_map(|(text, at, foreign, cut)| {
                    let at = at.index(text.len() + 1);
                    let mut text = format!("{}{}{}", &text[..at], foreign, &text[at..]);
                    for _ in 0..cut {
                        text.pop();
                    }
                    text
                });
            suite.sub("damaged", damaged, 60_000, 2_000_000, |text, obs| {
                let digits: Option<Vec<u32>> = text.chars().map(|c| c.to_digit(16)).collect();
                let valid = digits.filter(|d| d.len() % 2 == 0);
                obs.nontrivial = valid.is_none();
                obs.label(if valid.is_none() { "malformed" } else { "well-formed" });
                let result = must("decode", || decode_hex(text))?;
                match valid {
                    None => ensure!(result.is_err(), "{:?} was accepted as {:?}", text, result),
                    Some(digits) => {
                        let bytes: Vec<u8> = digits.chunks(2).map(|d| (d[0] * 16 + d[1]) as u8).collect();
                        ensure!(result == Ok(bytes), "{:?} became {:?}", text, result)
                    }
                }
                Ok(())
            });
        },
    )
}
