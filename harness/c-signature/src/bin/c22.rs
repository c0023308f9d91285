//! C22: verification accepts nothing but what was signed, and never fails on malformed input.
use kit::prelude::*;
use kit::{ensure, model, must};
use serde::{Deserialize, Serialize};
use signature::{sign, verify};

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Change {
    FlipData(kit::Pick, u8),
    AppendData(u8),
    TruncateData,
    OtherData(Vec<u8>),
    FlipSignature(u16),
    ResizeSignature(u16, u8),
    SwapHalves,
    AddOrder,
    RandomSignature(Vec<u8>),
    OtherKey([u8; 32]),
    SignedByOther([u8; 32]),
    ZeroHalf(bool, u8),
    /// the same bytes in another order
    Rearranged(u8, u8, kit::Pick),
    /// bytes taken away or put in anywhere
    Spliced(kit::Pick, u8, Vec<u8>),
    /// the numbers the data stand for, changed
    Numbers(u8, kit::Pick, i64),
    /// bytes before or after the signature
    Wrapped(Vec<u8>, Vec<u8>),
    /// the key's signature of other data
    Replayed(Vec<u8>),
    Case(u8),
}

fn rearranged(data: &[u8], way: u8, group: u8, at: kit::Pick) -> Vec<u8> {
    let group = [1, 2, 3, 4, 8, 16][group as usize % 6];
    let mut groups: Vec<Vec<u8>> = data.chunks(group).map(|c| c.to_vec()).collect();
    if groups.is_empty() {
        return vec![];
    }
    let n = groups.len();
    let at = at.index(n);
    match way % 5 {
        0 => groups.iter_mut().for_each(|g| g.reverse()),
        1 => groups.reverse(),
        2 => groups.rotate_left(at),
        3 => groups.swap(at, (at + 1) % n),
        _ => groups.sort(),
    }
    groups.concat()
}

fn numbers(data: &[u8], way: u8, at: kit::Pick, by: i64) -> Vec<u8> {
    let mut list: Vec<i64> = data.chunks_exact(8).map(|c| i64::from_le_bytes(c.try_into().unwrap())).collect();
    if list.is_empty() {
        return data.to_vec();
    }
    let at = at.index(list.len());
    match way % 5 {
        0 => list[at] = list[at].wrapping_add(by),
        1 => list[at] = list[at].wrapping_neg(),
        2 => list[at] = list[at] as i32 as i64,
        3 => list.iter_mut().for_each(|n| *n = n.wrapping_add(by)),
        _ => list.truncate(at),
    }
    list.iter().flat_map(|n| n.to_le_bytes()).collect()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    secret: [u8; 32],
    data: Vec<u8>,
    change: Change,
    /// the genuine triple is verified first
    before: bool,
}

fn public_of(secret: &[u8; 32]) -> String {
    let secret = ed25519_dalek::SecretKey::from_bytes(secret).unwrap();
    model::hex(ed25519_dalek::PublicKey::from(&secret).as_bytes())
}

/// Adds the group order to the scalar: the same signature in a non-canonical writing.
fn add_order(signature: &mut [u8]) {
    let order: [u8; 32] = [
        0xed, 0xd3, 0xf5, 0x5c, 0x1a, 0x63, 0x12, 0x58, 0xd6, 0x9c, 0xf7, 0xa2, 0xde, 0xf9, 0xde, 0x14, 0, 0, 0, 0, 0,
        0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0x10,
    ];
    let mut carry = 0u16;
    for i in 0..32 {
        let sum = signature[32 + i] as u16 + order[i] as u16 + carry;
        signature[32 + i] = sum as u8;
        carry = sum >> 8;
    }
}

fn main() {
    kit::engine::run(
        "C22",
        "a valid triple of key, message and signature with one generated change: a bit flipped anywhere in the message, \
         signature (all 512 positions), a signature of any length 0..200, swapped halves, a scalar increased by the group \
         order, another key or signer, random bytes; bytes rearranged, put in, taken away, numbers changed; the signature of \
         other data, or with bytes before or behind it; with or without a verification of the genuine triple just before; non-trivial: the changed triple differs from the signed one",
        &["public keys are well-formed: the product only uses its own constant"],
        |suite| {
            let change = prop_oneof![
                3 => (kit::pick(), 0u8..8).prop_map(|(i, b)| Change::FlipData(i, b)),
                1 => any::<u8>().prop_map(Change::AppendData),
                1 => Just(Change::TruncateData),
                1 => prop::collection::vec(any::<u8>(), 0..90).prop_map(Change::OtherData),
                4 => (0u16..512).prop_map(Change::FlipSignature),
                3 => (0u16..200, any::<u8>()).prop_map(|(n, fill)| Change::ResizeSignature(n, fill)),
                1 => Just(Change::SwapHalves),
                1 => Just(Change::AddOrder),
                2 => prop::collection::vec(any::<u8>(), 0..130).prop_map(Change::RandomSignature),
                1 => prop::collection::vec(any::<u8>(), 64..=64).prop_map(Change::RandomSignature),
                2 => any::<[u8; 32]>().prop_map(Change::OtherKey),
                2 => any::<[u8; 32]>().prop_map(Change::SignedByOther),
                1 => (any::<bool>(), any::<u8>()).prop_map(|(h, b)| Change::ZeroHalf(h, b)),
                3 => (any::<u8>(), any::<u8>(), kit::pick()).prop_map(|(w, g, i)| Change::Rearranged(w, g, i)),
                3 => (kit::pick(), 0u8..20, prop_oneof![1 => Just(vec![]), 2 => prop::collection::vec(prop_oneof![Just(0u8), Just(32), Just(255), any::<u8>()], 0..12)])
                    .prop_map(|(i, n, b)| Change::Spliced(i, n, b)),
                3 => (any::<u8>(), kit::pick(), prop_oneof![-4i64..5, any::<i64>()]).prop_map(|(w, i, n)| Change::Numbers(w, i, n)),
                2 => (prop::collection::vec(any::<u8>(), 0..4), prop::collection::vec(any::<u8>(), 0..70)).prop_map(|(a, b)| Change::Wrapped(a, b)),
                2 => prop::collection::vec(any::<u8>(), 0..90).prop_map(Change::Replayed),
                1 => (0u8..8).prop_map(Change::Case),
            ];
            let small = prop_oneof![4 => -40i64..400, 1 => any::<i64>()];
            let data = prop_oneof![
                3 => prop::collection::vec(any::<u8>(), 0..150),
                // numbers, as the product signs them, and texts
                3 => prop::collection::vec(small, 0..20).prop_map(|n| n.iter().flat_map(|n| n.to_le_bytes()).collect::<Vec<u8>>()),
                1 => "[a-zA-Z0-9 .]{0,80}".prop_map(|s| s.into_bytes()),
                1 => prop::collection::vec(prop_oneof![Just(0u8), Just(1), Just(255)], 0..150),
                // long ones
                1 => (prop_oneof![150usize..1_000, 1_000usize..30_000], any::<u64>()).prop_map(|(n, seed)| {
                    let mut mix = kit::imgs::Mix(seed);
                    (0..n).map(|_| mix.byte()).collect::<Vec<u8>>()
                }),
            ];
            let case = (any::<[u8; 32]>(), data, change, any::<bool>())
                .prop_map(|(secret, data, change, before)| Case { secret, data, change, before });
            suite.sub("changed", case, 16_000, 500_000, |case, obs| {
                let private = model::hex(&case.secret);
                let mut public = public_of(&case.secret);
                let original = must("sign", || sign(&case.data, &private, &public))?;
                let (mut data, mut signature) = (case.data.clone(), original.clone());
                if case.before {
                    ensure!(must("verify", || verify(&data, &signature, &public))?, "the genuine signature is not accepted");
                }
                let original_public = public.clone();
                match &case.change {
                    Change::FlipData(at, bit) => {
                        if !data.is_empty() {
                            let at = at.index(data.len());
                            data[at] ^= 1 << bit;
                        }
                    }
                    Change::AppendData(byte) => data.push(*byte),
                    Change::TruncateData => {
                        data.pop();
                    }
                    Change::OtherData(other) => data = other.clone(),
                    Change::FlipSignature(bit) => signature[*bit as usize / 8] ^= 1 << (bit % 8),
                    Change::ResizeSignature(length, fill) => signature.resize(*length as usize, *fill),
                    Change::SwapHalves => signature.rotate_left(32),
                    Change::AddOrder => add_order(&mut signature),
                    Change::RandomSignature(bytes) => signature = bytes.clone(),
                    Change::OtherKey(secret) => public = public_of(secret),
                    Change::SignedByOther(secret) => {
                        signature = must("sign", || sign(&data, &model::hex(secret), &public_of(secret)))?
                    }
                    Change::Rearranged(way, group, at) => data = rearranged(&data, *way, *group, at.clone()),
                    Change::Spliced(at, out, bytes) => {
                        let at = at.index(data.len() + 1);
                        let end = (at + *out as usize).min(data.len());
                        data.splice(at..end, bytes.iter().copied());
                    }
                    Change::Numbers(way, at, by) => data = numbers(&data, *way, at.clone(), *by),
                    Change::Wrapped(before, behind) => signature = [&before[..], &signature, behind].concat(),
                    Change::Replayed(other) => signature = must("sign", || sign(other, &private, &public))?,
                    Change::Case(bit) => data.iter_mut().for_each(|byte| *byte ^= 1 << bit),
                    Change::ZeroHalf(high, fill) => {
                        let at = if *high { 32 } else { 0 };
                        signature[at..at + 32].fill(*fill);
                    }
                }
                let kind = format!("{:?}", case.change);
                obs.label(kind.split(|c: char| !c.is_alphanumeric()).next().unwrap());
                let accepted = must("verify", || verify(&data, &signature, &public))?;
                let same = data == case.data && signature == original && public == original_public;
                obs.nontrivial = !same;
                if same {
                    ensure!(accepted, "the unchanged triple is not accepted");
                } else {
                    ensure!(!accepted, "accepted although changed by {}", kind);
                }
                Ok(())
            });
            suite.exhaustive("every-length", 0..=300usize, |length, obs| {
                obs.nontrivial = *length != 64;
                let secret = [7u8; 32];
                let public = public_of(&secret);
                let data = vec![1, 2, 3];
                let valid = sign(&data, &model::hex(&secret), &public);
                let mut signature = valid.clone();
                signature.resize(*length, 0);
                let accepted = must("verify", || verify(&data, &signature, &public))?;
                ensure!(accepted == (*length == 64), "length {}: {}", length, accepted);
                Ok(())
            });
            suite.exhaustive("every-bit", 0..512usize, |bit, obs| {
                obs.nontrivial();
                let secret = [9u8; 32];
                let public = public_of(&secret);
                let data = b"features".to_vec();
                let mut signature = sign(&data, &model::hex(&secret), &public);
                signature[bit / 8] ^= 1 << (bit % 8);
                ensure!(!must("verify", || verify(&data, &signature, &public))?, "bit {} of the signature does not matter", bit);
                Ok(())
            });
        },
    )
}
