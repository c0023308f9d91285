//! C20: the record which carries perturbation bits, signature and text.
use kit::prelude::*;

fn main() {
    kit::engine::run(
        "C20",
        "records of 0..255 bits, 0..255 signature bytes and texts of 0..255 bytes (any Unicode), with bytes behind; records cut \
         off at every place; fields too long for their length byte; texts that are no UTF-8; without private items: the record \
         found in marked pictures; non-trivial: at least two fields not empty",
        &["a refusal is a panic: the interface has no error value"],
        |suite| {
            c_watermark::fit(suite);
            #[cfg(sia_verif_hooks)]
            hooked::suite(suite);
            public(suite);
        },
    )
}

fn public(suite: &mut kit::Suite) {
    use c_watermark::*;
    use kit::{ensure, must};
    suite.sub_shrink("in-pictures", (safe(0., 30_000), 0u8..2), 250, 5_000, 40, |(case, _), obs| {
        obs.nontrivial();
        let img = case.img.render();
        let marked = must("watermark", || mark(&img, case))?;
        let payload = kit::model::extract(&marked, case.depth, case.levels as u32).0.unwrap_or_default();
        ensure!(payload.len() == kit::model::record_length(case.amount), "a record of {} bytes", payload.len());
        ensure!(payload[..3] == [3 * case.amount as u8, 64, 12], "lengths {:?} for {} features", &payload[..3], case.amount);
        let record = kit::model::parse_record(&payload).ok_or("no record")?;
        ensure!(kit::model::build_record(&record) == payload, "bytes besides the record: {:?}", payload);
        Ok(())
    });
}

#[cfg(sia_verif_hooks)]
mod hooked {
    use kit::model::{self, Record};
    use kit::prelude::*;
    use kit::{ensure, must};
    use watermarking::verif_hooks::{record_from_bytes, record_to_bytes};

    fn text(limit: usize) -> impl Strategy<Value = String> {
        prop_oneof![
            2 => "[ -~]{0,80}",
            2 => "\\PC{0,80}",
            1 => (0usize..256).prop_map(|n| "x".repeat(n)),
            1 => Just("é€𝟙".repeat(28)),
            1 => "(?s).{0,40}",
            // what a reader might be tempted to trim or to stop at
            1 => ("[ -~]{0,20}", prop::sample::select(vec!["\0", "\0\0\0", " ", "\n", "\r\n", "\t", "\u{feff}", "\u{200b}", "\u{a0}", "\u{85}", "\u{7f}", "e\u{301}"]), 0u8..3)
                .prop_map(|(text, odd, place)| match place {
                    0 => format!("{}{}", odd, text),
                    1 => format!("{}{}", text, odd),
                    _ => format!("{}{}{}{}{}", odd, text, odd, text, odd),
                }),
        ]
        .prop_map(move |mut text| {
            while text.len() > limit {
                text.pop();
            }
            text
        })
    }

    pub fn suite(suite: &mut kit::Suite) {
        let record = (
            prop_oneof![2 => prop::collection::vec(any::<bool>(), 0..=255), 1 => (0usize..=255, any::<bool>()).prop_map(|(n, bit)| vec![bit; n]), 1 => prop::collection::vec(any::<bool>(), 255..=255), 1 => prop::collection::vec(any::<bool>(), 0..20)],
            prop_oneof![2 => prop::collection::vec(any::<u8>(), 64..=64), 1 => (0usize..=255, prop_oneof![Just(0u8), Just(255), any::<u8>()]).prop_map(|(n, byte)| vec![byte; n]), 2 => prop::collection::vec(any::<u8>(), 0..=255), 1 => prop::collection::vec(any::<u8>(), 255..=255)],
            text(255),
            prop::collection::vec(any::<u8>(), 0..20),
        );
        suite.sub("round-trip", record, 12_000, 300_000, |(bits, signature, text, behind), obs| {
            obs.nontrivial = [bits.is_empty(), signature.is_empty(), text.is_empty()].iter().filter(|e| !**e).count() > 1;
            let expected = model::build_record(&Record { bits: bits.clone(), signature: signature.clone(), text: text.as_bytes().to_vec() });
            let bytes = must("serialize", || record_to_bytes(bits, signature, text))?;
            ensure!(bytes == expected, "bytes {:?}, expected {:?}", bytes, expected);
            let back = must("deserialize", || record_from_bytes(&bytes))?;
            ensure!(back.0 == *bits, "bits {:?} come back as {:?}", bits, back.0);
            ensure!(back.1 == *signature, "signature {:?} comes back as {:?}", signature, back.1);
            ensure!(back.2 == *text, "text {:?} comes back as {:?}", text, back.2);
            let mut longer = bytes.clone();
            longer.extend(behind);
            let back = must("deserialize", || record_from_bytes(&longer))?;
            ensure!(back == (bits.clone(), signature.clone(), text.clone()), "bytes behind the record change it");
            Ok(())
        });
        let cut = (prop::collection::vec(any::<bool>(), 0..60), prop::collection::vec(any::<u8>(), 0..70), text(60), kit::pick());
        suite.sub("cut-off", cut, 8_000, 200_000, |(bits, signature, text, at), obs| {
            obs.nontrivial();
            let bytes = must("serialize", || record_to_bytes(bits, signature, text))?;
            let at = at.index(bytes.len());
            ensure!(kit::panics(|| record_from_bytes(&bytes[..at])), "{} of {} bytes are accepted as a record", at, bytes.len());
            Ok(())
        });
        // arbitrary bytes are either the record they spell out, or refused
        let bytes = (0u8..=255, 0u8..=255, 0u8..=255, prop::collection::vec(prop_oneof![3 => 0u8..128, 1 => any::<u8>()], 0..600), any::<bool>())
            .prop_map(|(p, s, t, rest, small)| {
                let (p, s, t) = if small { (p % 40, s % 80, t % 20) } else { (p, s, t) };
                let mut bytes = vec![p, s, t];
                bytes.extend(rest);
                bytes
            });
        suite.sub("any-bytes", bytes, 15_000, 300_000, |bytes, obs| {
            let expected = model::parse_record(bytes);
            let found = kit::quiet(|| record_from_bytes(bytes)).ok();
            obs.nontrivial();
            obs.label(if expected.is_some() { "record" } else { "no record" });
            match (expected, found) {
                (None, None) => Ok(()),
                (Some(r), Some(f)) => {
                    ensure!(r.bits == f.0 && r.signature == f.1 && r.text == f.2.as_bytes(), "{:?} is read as {:?}", bytes, f);
                    Ok(())
                }
                (a, b) => Err(format!("{:?}: expected {:?}, found {:?}", bytes, a, b)),
            }
        });
        suite.exhaustive("short", (0..3usize).flat_map(|n| (0..=255u8).map(move |b| (n, b))), |(n, b), obs| {
            obs.nontrivial = *n > 0;
            ensure!(kit::panics(|| record_from_bytes(&vec![*b; *n])), "{} bytes are accepted as a record", n);
            Ok(())
        });
        suite.exhaustive("limits", (250..=520usize).flat_map(|n| (0..3u8).map(move |f| (n, f))), |(n, field), obs| {
            obs.nontrivial();
            let bits = vec![true; if *field == 0 { *n } else { 3 }];
            let signature = vec![7; if *field == 1 { *n } else { 3 }];
            let text = "t".repeat(if *field == 2 { *n } else { 3 });
            if *n > 255 {
                ensure!(kit::panics(|| record_to_bytes(&bits, &signature, &text)), "field {} of length {} is written", field, n);
            } else {
                let bytes = must("serialize", || record_to_bytes(&bits, &signature, &text))?;
                let back = must("deserialize", || record_from_bytes(&bytes))?;
                ensure!(back == (bits, signature, text), "field {} of length {} is not read back", field, n);
            }
            Ok(())
        });
        // the limit counts bytes, not characters
        suite.exhaustive("wide-text", 80..=200usize, |n, obs| {
            obs.nontrivial();
            let text = "é".repeat(*n);
            if 2 * n > 255 {
                ensure!(kit::panics(|| record_to_bytes(&[], &[], &text)), "{} bytes of text are written", 2 * n);
            } else {
                let bytes = must("serialize", || record_to_bytes(&[], &[], &text))?;
                ensure!(must("deserialize", || record_from_bytes(&bytes))?.2 == text, "{} bytes of text are not read back", 2 * n);
            }
            Ok(())
        });
    }
}
