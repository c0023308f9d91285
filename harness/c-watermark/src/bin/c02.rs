//! C02: what was not marked, or changed beyond the tolerance, or carries a foreign mark, is not authentic.
use c_watermark::*;
use kit::imgs::{Img, ImgSpec, Mix};
use kit::model::{self, Reading};
use kit::prelude::*;
use kit::{ensure, must};
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Attack {
    Unmarked,
    Patch { pattern: u8, place: kit::Pick, size: f64, seed: u64 },
    DetailReplaced { strength: u8, seed: u64 },
    Mirror,
    Negative,
    Transplant(Box<ImgSpec>),
    FlipRecordBit(kit::Pick),
    RandomSignature(u64),
    CellsShifted(Vec<i8>),
    OtherText(u8),
    Truncated(kit::Pick),
    ForgedLengths(u8, u8, u8),
    OtherDepth(f64),
    OtherStep(f64),
    OtherAmount,
    RandomPayload(u16, u64),
    /// The owner's signature over something else than the cells of the picture, under a text.
    OwnerSigned(u8, kit::Pick, Text),
    /// A signature over the right cells, by somebody else.
    OtherSigner(u64),
    /// The genuine signature, cut off or extended to another length.
    SignatureLength(u8),
    /// A signature made of points and scalars anybody can write down.
    TrivialSignature(u8, u8),
    /// The genuine signature over less cells than the reader restores.
    FewerCells(kit::Pick),
    /// The genuine record, but perturbation bits for more features.
    MoreCells(u8),
    /// Cells exchanged with their bits.
    Exchanged(kit::Pick, kit::Pick),
}

/// The text of a forged record.
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Text {
    Same,
    Empty,
    Other(String),
}

fn texts() -> impl Strategy<Value = Text> {
    prop_oneof![3 => Just(Text::Same), 1 => Just(Text::Empty), 1 => "[ -~]{1,16}".prop_map(Text::Other)]
}

fn dress(record: &mut model::Record, text: &Text) {
    match text {
        Text::Same => {}
        Text::Empty => record.text.clear(),
        Text::Other(other) => record.text = other.as_bytes().to_vec(),
    }
}

fn signed_by(secret: &[u8; 32], data: &[u8]) -> Vec<u8> {
    let secret = ed25519_dalek::SecretKey::from_bytes(secret).unwrap();
    let public = ed25519_dalek::PublicKey::from(&secret);
    ed25519_dalek::ExpandedSecretKey::from(&secret).sign(data, &public).to_bytes().to_vec()
}

/// The cells the genuine record of a marked picture stands for.
fn cells(picture: &Img, case: &Case, record: &model::Record) -> Vec<i64> {
    record
        .bits
        .chunks(3)
        .zip(features(picture, case))
        .filter(|(bits, _)| bits.len() == 3)
        .map(|(bits, feature)| model::restore(feature, [bits[0], bits[1], bits[2]], case.step).0)
        .collect()
}

/// The attacked picture and the parameters the reader uses.
fn attack(img: &Img, marked: &Img, case: &Case, attack: &Attack) -> (Img, Case) {
    let mut out = marked.clone();
    let mut reader = case.clone();
    let rewrite = |payload: &[u8]| model::write_payload(img, payload, case.depth, case.levels as u32).unwrap_or_else(|| img.clone());
    let payload = || model::extract(marked, case.depth, case.levels as u32).0.unwrap_or_default();
    match attack {
        Attack::Unmarked => out = img.clone(),
        Attack::Patch { pattern, place, size, seed } => {
            let (ph, pw) = (1 + (img.h as f64 * size) as usize, 1 + (img.w as f64 * size) as usize);
            let at = place.index((img.h - ph.min(img.h) + 1) * (img.w - pw.min(img.w) + 1));
            let columns = img.w - pw.min(img.w) + 1;
            let (top, left) = (at / columns, at % columns);
            let mut mix = Mix(*seed);
            let paint = mix.byte();
            for r in top..(top + ph).min(img.h) {
                for c in left..(left + pw).min(img.w) {
                    let old = out.at(r, c);
                    out.set(r, c, match pattern % 3 {
                        0 => paint,
                        1 => mix.byte(),
                        _ => old.wrapping_add(paint),
                    });
                }
            }
        }
        Attack::DetailReplaced { strength, seed } => {
            // keeps every block sum, so the mark stays readable, but changes what the picture shows
            let side = 1usize << case.levels;
            let mut mix = Mix(*seed);
            for br in 0..img.h / side {
                for bc in 0..img.w / side {
                    for k in 0..side * side / 2 {
                        let (r, c) = (br * side + 2 * k / side, bc * side + 2 * k % side);
                        let (a, b) = (out.at(r, c), out.at(r, c + 1));
                        let room = (255 - a).min(b).min(*strength);
                        let shift = if *strength > 200 { room } else { mix.below(room as u64 + 1) as u8 };
                        out.set(r, c, a + shift);
                        out.set(r, c + 1, b - shift);
                    }
                }
            }
        }
        Attack::Mirror => out = Img::from_fn(img.h, img.w, |r, c| marked.at(r, img.w - 1 - c)),
        Attack::Negative => out = Img::from_fn(img.h, img.w, |r, c| 255 - marked.at(r, c)),
        Attack::Transplant(spec) => {
            // the record of the marked picture in another picture
            let other = ImgSpec { h: img.h, w: img.w, lo: case.img.lo, hi: case.img.hi, ..(**spec).clone() }.render();
            out = model::write_payload(&other, &payload(), case.depth, case.levels as u32).unwrap_or(other);
        }
        Attack::FlipRecordBit(at) => {
            let mut bytes = payload();
            let bit = at.index(bytes.len() * 8);
            if !bytes.is_empty() {
                bytes[bit / 8] ^= 1 << (bit % 8);
            }
            out = rewrite(&bytes);
        }
        Attack::RandomSignature(seed) => {
            let mut mix = Mix(*seed);
            if let Some(mut record) = record(marked, case) {
                record.signature = (0..64).map(|_| mix.byte()).collect();
                out = rewrite(&model::build_record(&record));
            }
        }
        Attack::CellsShifted(shifts) => {
            // perturbation bits of other features than the signed ones
            if let Some(mut record) = record(marked, case) {
                for (i, bits) in record.bits.chunks_mut(3).enumerate() {
                    let shift = shifts[i % shifts.len()];
                    let pair = ((bits[0] as u8) << 1 | bits[1] as u8).wrapping_add(shift as u8) & 3;
                    bits[0] = pair & 2 != 0;
                    bits[1] = pair & 1 != 0;
                    bits[2] ^= shift & 4 != 0;
                }
                out = rewrite(&model::build_record(&record));
            }
        }
        Attack::OtherText(byte) => {
            if let Some(mut record) = record(marked, case) {
                record.text = vec![*byte; record.text.len()];
                out = rewrite(&model::build_record(&record));
            }
        }
        Attack::Truncated(at) => {
            let bytes = payload();
            out = rewrite(&bytes[..at.index(bytes.len().max(1)).min(bytes.len())]);
        }
        Attack::ForgedLengths(p, s, t) => {
            let mut bytes = payload();
            if bytes.len() > 3 {
                bytes[0] = *p;
                bytes[1] = *s;
                bytes[2] = *t;
            }
            out = rewrite(&bytes);
        }
        Attack::OtherDepth(factor) => reader.depth = case.depth * factor,
        Attack::OtherStep(factor) => reader.step = case.step * factor,
        Attack::OtherAmount => reader.amount = case.amount + 1,
        Attack::RandomPayload(length, seed) => {
            let mut mix = Mix(*seed);
            let length = *length as usize % (model::max_payload(img.h, img.w, case.levels as u32).unwrap_or(0) + 1);
            let bytes: Vec<u8> = (0..length).map(|_| mix.byte()).collect();
            out = rewrite(&bytes);
        }
        Attack::OwnerSigned(kind, at, text) => {
            if let Some(mut record) = record(marked, case) {
                let mut cells = cells(marked, case, &record);
                let place = at.index(cells.len().max(1));
                let data = match kind % 10 {
                    0 => vec![],
                    1 => model::i64_bytes(&cells[..place]),
                    2 => model::i64_bytes(&cells[place..]),
                    3 => {
                        cells.reverse();
                        model::i64_bytes(&cells)
                    }
                    4 | 5 => {
                        if let Some(cell) = cells.get_mut(place) {
                            *cell += if kind % 10 == 4 { 1 } else { -1 };
                        }
                        model::i64_bytes(&cells)
                    }
                    6 => vec![0; cells.len() * 8],
                    7 => model::hex(&model::i64_bytes(&cells)).into_bytes(),
                    8 => record.text.clone(),
                    _ => {
                        if let Some(cell) = cells.get_mut(place) {
                            *cell = cell.wrapping_add(1 << (8 + at.index(55)));
                        }
                        model::i64_bytes(&cells)
                    }
                };
                record.signature = model::sign(&data);
                dress(&mut record, text);
                out = rewrite(&model::build_record(&record));
            }
        }
        Attack::OtherSigner(seed) => {
            if let Some(mut record) = record(marked, case) {
                let mut mix = Mix(*seed);
                let mut secret = [0; 32];
                secret.iter_mut().for_each(|b| *b = mix.byte());
                record.signature = signed_by(&secret, &model::i64_bytes(&cells(marked, case, &record)));
                out = rewrite(&model::build_record(&record));
            }
        }
        Attack::SignatureLength(length) => {
            if let Some(mut record) = record(marked, case) {
                record.signature.resize(*length as usize, 0);
                out = rewrite(&model::build_record(&record));
            }
        }
        Attack::TrivialSignature(first, second) => {
            if let Some(mut record) = record(marked, case) {
                let half = |kind: u8| -> Vec<u8> {
                    let mut bytes = vec![if kind % 4 == 1 { 255 } else { 0 }; 32];
                    match kind % 4 {
                        2 => bytes[0] = 1,
                        3 => bytes = model::unhex(model::PUBLIC_KEY),
                        _ => {}
                    }
                    bytes
                };
                record.signature = [half(*first), half(*second)].concat();
                out = rewrite(&model::build_record(&record));
            }
        }
        Attack::FewerCells(at) => {
            if let Some(mut record) = record(marked, case) {
                record.bits.truncate(3 * at.index(case.amount));
                out = rewrite(&model::build_record(&record));
            }
        }
        Attack::MoreCells(more) => {
            if let Some(mut record) = record(marked, case) {
                record.bits.resize(record.bits.len() + 1 + *more as usize % 6, false);
                out = rewrite(&model::build_record(&record));
            }
        }
        Attack::Exchanged(a, b) => {
            if let Some(mut record) = record(marked, case) {
                let (a, b) = (a.index(case.amount), b.index(case.amount));
                for k in 0..3 {
                    if 3 * a.max(b) + k < record.bits.len() {
                        record.bits.swap(3 * a + k, 3 * b + k);
                    }
                }
                out = rewrite(&model::build_record(&record));
            }
        }
    }
    (out, reader)
}

fn attacks() -> impl Strategy<Value = Attack> {
    prop_oneof![
        2 => Just(Attack::Unmarked),
        4 => (any::<u8>(), kit::pick(), prop_oneof![0.0f64..0.3, 0.2f64..0.9], any::<u64>())
            .prop_map(|(pattern, place, size, seed)| Attack::Patch { pattern, place, size, seed }),
        6 => (prop_oneof![1u8..60, Just(255u8), 60u8..200], any::<u64>()).prop_map(|(strength, seed)| Attack::DetailReplaced { strength, seed }),
        1 => Just(Attack::Mirror),
        1 => Just(Attack::Negative),
        5 => kit::imgs::photo(Just((1usize, 1usize)), 0, 255).prop_map(|s| Attack::Transplant(Box::new(s))),
        4 => kit::pick().prop_map(Attack::FlipRecordBit),
        2 => any::<u64>().prop_map(Attack::RandomSignature),
        4 => prop::collection::vec(-7i8..8, 1..12).prop_map(Attack::CellsShifted),
        1 => (0u8..128).prop_map(Attack::OtherText),
        1 => kit::pick().prop_map(Attack::Truncated),
        2 => (any::<u8>(), prop_oneof![Just(64u8), any::<u8>()], any::<u8>()).prop_map(|(p, s, t)| Attack::ForgedLengths(p, s, t)),
        1 => (0.4f64..2.5).prop_map(Attack::OtherDepth),
        1 => (0.4f64..2.5).prop_map(Attack::OtherStep),
        1 => Just(Attack::OtherAmount),
        1 => (any::<u16>(), any::<u64>()).prop_map(|(n, s)| Attack::RandomPayload(n, s)),
        6 => (any::<u8>(), kit::pick(), texts()).prop_map(|(k, p, t)| Attack::OwnerSigned(k, p, t)),
        1 => any::<u64>().prop_map(Attack::OtherSigner),
        3 => prop_oneof![Just(0u8), Just(1), Just(32), Just(63), Just(65), Just(128), any::<u8>()].prop_map(Attack::SignatureLength),
        2 => (any::<u8>(), any::<u8>()).prop_map(|(a, b)| Attack::TrivialSignature(a, b)),
        2 => kit::pick().prop_map(Attack::FewerCells),
        1 => any::<u8>().prop_map(Attack::MoreCells),
        1 => (kit::pick(), kit::pick()).prop_map(|(a, b)| Attack::Exchanged(a, b)),
    ]
}

fn main() {
    kit::engine::run(
        "C02",
        "marked pictures under twenty-three kinds of attack: none marked, patches, replaced detail under an intact mark, mirrored, \
         negative, the record of another picture, records with a flipped bit, random signature, other cells, cut off, forged \
         lengths or random bytes, signatures over other data, by others, of other lengths or trivial ones, less, more or exchanged cells, and readers with other parameters; non-trivial: the reference reader does not find it authentic",
        &["a reader that gives up (panics) has not accepted: it counts as not authentic", "pictures in which rounding decides a bit or a cell are judged by nobody"],
        |suite| {
            c_watermark::fit(suite);
            suite.sub_shrink("attacks", (safe(0., 60_000), attacks()), 1_300, 40_000, 60, |(case, kind), obs| {
                let img = case.img.render();
                // the precondition of a history is a real mark by the code under test
                let marked = must("watermark", || mark(&img, case))?;
                let (picture, reader) = attack(&img, &marked, case, kind);
                let reading = judge(&picture, &reader);
                let name = format!("{:?}", kind);
                let name = name.split(|c: char| !c.is_alphanumeric()).next().unwrap().to_string();
                obs.label(format!("{} {:?}", name, reading));
                let verdict = verdict(&picture, &reader);
                match reading {
                    Reading::Unclear => obs.skipped = true,
                    Reading::Authentic => {
                        // changes within the tolerance: both readers have to agree
                        ensure!(verdict == Some(true), "{}: the reference reader accepts, the reader says {:?}", name, verdict)
                    }
                    _ => {
                        obs.nontrivial();
                        ensure!(verdict != Some(true), "{}: accepted as authentic although {:?}", name, reading);
                        if reading == Reading::Rejected {
                            ensure!(verdict == Some(false), "{}: a well-formed record makes the reader give up", name);
                        }
                    }
                }
                Ok(())
            });
            // no signature but the one over the picture's own features counts
            suite.sub_shrink("signature-bits", (safe(0., 25_000), prop_oneof![3 => prop::collection::vec(0usize..512, 1..4), 1 => prop::collection::vec(0usize..512, 100..200)], texts()), 500, 15_000, 60, |(case, flips, text), obs| {
                let img = case.img.render();
                let marked = must("watermark", || mark(&img, case))?;
                let mut record = match record(&marked, case) {
                    None => return Err("the reference reader finds no record in a freshly marked picture".to_string()),
                    Some(record) => record,
                };
                for bit in flips {
                    record.signature[bit / 8] ^= 1 << (bit % 8);
                }
                let genuine = flips.iter().all(|bit| flips.iter().filter(|b| *b == bit).count() % 2 == 0);
                dress(&mut record, text);
                let forged = match model::write_payload(&marked, &model::build_record(&record), case.depth, case.levels as u32) {
                    None => {
                        obs.skipped = true;
                        return Ok(());
                    }
                    Some(forged) => forged,
                };
                if genuine {
                    obs.skipped = true;
                    return Ok(());
                }
                obs.nontrivial();
                ensure!(verdict(&forged, case) != Some(true), "a signature with bits {:?} flipped is accepted, under the text {:?}", flips, text);
                Ok(())
            });
        },
    )
}
