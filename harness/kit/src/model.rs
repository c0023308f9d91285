//! Reference models, written from the format and from the definitions in the literature. They share
//! no code with the code under test (the LDPC codes and ed25519 are the published ones).

use crate::imgs::Img;
use labrador_ldpc::LDPCCode;
use serde::{Deserialize, Serialize};
use std::f64::consts::{FRAC_1_SQRT_2, PI};

// ---------------------------------------------------------------- wavelet domain

/// The LL band of the Haar transform: block sums over 2^levels.
pub fn ll(img: &Img, levels: u32) -> Vec<Vec<f64>> {
    let side = 1usize << levels;
    let (rows, cols) = (img.h / side, img.w / side);
    let mut out = vec![vec![0.; cols]; rows];
    for row in 0..rows * side {
        for col in 0..cols * side {
            out[row / side][col / side] += img.at(row, col) as f64;
        }
    }
    out.iter_mut().flatten().for_each(|c| *c /= side as f64);
    out
}

/// One level of the orthonormal 2D Haar transform, repeated on the LL band.
pub fn haar(input: &[Vec<f64>], levels: usize) -> Vec<Vec<f64>> {
    let mut m = input.to_vec();
    let (mut rows, mut cols) = (m.len(), m[0].len());
    for _ in 0..levels {
        let old: Vec<Vec<f64>> = m.clone();
        let (hr, hc) = (rows / 2, cols / 2);
        for r in 0..hr {
            for c in 0..hc {
                let (a, b) = (old[2 * r][2 * c], old[2 * r][2 * c + 1]);
                let (d, e) = (old[2 * r + 1][2 * c], old[2 * r + 1][2 * c + 1]);
                m[r][c] = (a + b + d + e) / 2.;
                m[r][hc + c] = (a - b + d - e) / 2.;
                m[hr + r][c] = (a + b - d - e) / 2.;
                m[hr + r][hc + c] = (a - b - d + e) / 2.;
            }
        }
        rows = hr;
        cols = hc;
    }
    m
}

// ---------------------------------------------------------------- bits in coefficients

/// Distance of a coefficient from the nearest point where the bit it carries changes, over depth;
/// the bit is the sign of the coefficient's offset from the nearest multiple of depth.
pub fn bit_of(coefficient: f64, depth: f64) -> (bool, f64) {
    let t = coefficient / depth;
    let frac = t - t.floor();
    // [0, 0.5) is a one, [0.5, 1) a zero
    let bit = frac < 0.5;
    let distance = frac.min(1. - frac).min((frac - 0.5).abs());
    (bit, distance)
}

/// The bytes of the domain, first bit in the lowest position, and the smallest margin of any bit.
pub fn read_bytes(domain: &[Vec<f64>], depth: f64) -> (Vec<u8>, f64) {
    let bits: Vec<(bool, f64)> = domain.iter().flatten().map(|c| bit_of(*c, depth)).collect();
    let mut margin = f64::INFINITY;
    let bytes = bits
        .chunks_exact(8)
        .map(|chunk| {
            let mut byte = 0;
            for (i, (bit, distance)) in chunk.iter().enumerate() {
                byte |= (*bit as u8) << i;
                margin = margin.min(*distance);
            }
            byte
        })
        .collect();
    (bytes, margin)
}

// ---------------------------------------------------------------- error correcting code

pub fn capacity(h: usize, w: usize, levels: u32) -> usize {
    (h >> levels) * (w >> levels) / 8
}

pub fn code_for(capacity: usize) -> Option<LDPCCode> {
    match capacity {
        16 => Some(LDPCCode::TC128),
        32 => Some(LDPCCode::TC256),
        64 | 128 => Some(LDPCCode::TC512),
        256 | 512 => Some(LDPCCode::TM2048),
        c if c >= 1024 => Some(LDPCCode::TM8192),
        _ => None,
    }
}

pub fn code_name(capacity: usize) -> String {
    match code_for(capacity) {
        None => "uncoded".to_string(),
        Some(code) => format!("{:?}", code),
    }
}

/// Most bytes which can be encoded so that the result takes at most `capacity` bytes.
pub fn max_encodable(capacity: usize) -> Option<usize> {
    let room = match code_for(capacity) {
        None => capacity,
        Some(code) => capacity / (code.n() / 8) * (code.k() / 8),
    };
    room.checked_sub(2).map(|room| room.min(65535))
}

pub fn encode(data: &[u8], capacity: usize) -> Vec<u8> {
    let mut bytes = vec![(data.len() >> 8) as u8, data.len() as u8];
    bytes.extend_from_slice(data);
    encode_plain(&bytes, capacity)
}

/// The codewords of bytes which start with whatever header there is.
pub fn encode_plain(bytes: &[u8], capacity: usize) -> Vec<u8> {
    let code = match code_for(capacity) {
        None => return bytes.to_vec(),
        Some(code) => code,
    };
    let mut out = vec![];
    for chunk in bytes.chunks(code.k() / 8) {
        let mut word = chunk.to_vec();
        word.resize(code.k() / 8, 0);
        let mut encoded = vec![0; code.n() / 8];
        code.copy_encode(&word, &mut encoded);
        out.extend(encoded);
    }
    out
}

/// None if the length header announces more bytes than there are.
pub fn decode(bytes: &[u8], capacity: usize) -> Option<Vec<u8>> {
    let plain = match code_for(capacity) {
        None => bytes.to_vec(),
        Some(code) => {
            let mut plain = vec![];
            for word in bytes.chunks_exact(code.n() / 8) {
                let mut working = vec![0u8; code.decode_bf_working_len()];
                let mut out = vec![0u8; code.output_len()];
                code.decode_bf(word, &mut out, &mut working, 20);
                plain.extend_from_slice(&out[..code.k() / 8]);
            }
            plain
        }
    };
    if plain.len() < 2 {
        return None;
    }
    let length = (plain[0] as usize) << 8 | plain[1] as usize;
    plain.get(2..2 + length).map(|data| data.to_vec())
}

pub fn frame(payload: &[u8]) -> Vec<u8> {
    let mut out = (payload.len() as u16).to_le_bytes().to_vec();
    out.extend_from_slice(payload);
    out
}

pub fn unframe(bytes: &[u8]) -> Option<Vec<u8>> {
    if bytes.len() < 2 {
        return None;
    }
    let length = u16::from_le_bytes([bytes[0], bytes[1]]) as usize;
    bytes.get(2..2 + length).map(|data| data.to_vec())
}

pub fn max_payload(h: usize, w: usize, levels: u32) -> Option<usize> {
    max_encodable(capacity(h, w, levels)).and_then(|n| n.checked_sub(2))
}

/// Coefficients which carry a payload of `length` bytes.
pub fn written(length: usize, h: usize, w: usize, levels: u32) -> usize {
    let capacity = capacity(h, w, levels);
    let bytes = match code_for(capacity) {
        None => length + 4,
        Some(code) => (length + 4 + code.k() / 8 - 1) / (code.k() / 8) * (code.n() / 8),
    };
    8 * bytes
}

/// What a reader of the published format finds in a picture, and the margin of its weakest bit
/// among those which carry data.
pub fn extract(img: &Img, depth: f64, levels: u32) -> (Option<Vec<u8>>, f64) {
    let (bytes, margin) = read_bytes(&ll(img, levels), depth);
    let payload = decode(&bytes, capacity(img.h, img.w, levels)).and_then(|data| unframe(&data));
    (payload, margin)
}

/// Margin of the weakest bit among the first `bytes` bytes of the domain.
pub fn margin_of(img: &Img, depth: f64, levels: u32, bytes: usize) -> f64 {
    ll(img, levels).iter().flatten().take(bytes * 8).map(|c| bit_of(*c, depth).1).fold(f64::INFINITY, f64::min)
}

// ---------------------------------------------------------------- quantisation

/// (cell, perturbation bits, distance to the nearest half-cell boundary in cells)
pub fn quantise(feature: f64, step: f64) -> (i64, [bool; 3], f64) {
    let t = feature / step;
    let cell = t.floor();
    let frac = t - cell;
    let q = cell as i64;
    let pair = (q - 1).rem_euclid(4);
    let bits = [pair & 2 != 0, pair & 1 != 0, frac >= 0.5];
    (q, bits, frac.min(1. - frac).min((frac - 0.5).abs()))
}

/// The cell a noised value is restored to, given the perturbation bits of the original.
pub fn restore(noised: f64, bits: [bool; 3], step: f64) -> (i64, f64) {
    let (cell, _, margin) = quantise(noised, step);
    let upper = noised / step - cell as f64 >= 0.5;
    let wanted = (bits[0] as i64) << 1 | bits[1] as i64;
    let with_residue = |q: i64| (q - 1).rem_euclid(4) == wanted;
    // a neighbouring cell is the original one if the noise need not have reached a whole step
    let restored = if with_residue(cell + 1) && (!bits[2] || upper) {
        cell + 1
    } else if with_residue(cell - 1) && (bits[2] || !upper) {
        cell - 1
    } else {
        cell
    };
    (restored, margin)
}

// ---------------------------------------------------------------- moments

/// Coefficients of the Zernike radial polynomial: entry p belongs to r^p.
pub fn radial_coefficients(n: usize, m: usize) -> Vec<f64> {
    assert!(m <= n && (n - m) % 2 == 0);
    let choose = |n: usize, k: usize| (1..=k.min(n - k) as i128).fold(1i128, |all, i| all * (n as i128 + 1 - i) / i);
    let mut out = vec![0.; n + 1];
    for s in 0..=(n - m) / 2 {
        // (n-s)! / (s! ((n+m)/2-s)! ((n-m)/2-s)!), exact up to order 90 or so
        let (first, second) = if n > 120 { (choose_large(n - s, s), choose_large(n - 2 * s, (n - m) / 2 - s)) } else { (choose(n - s, s) as f64, choose(n - 2 * s, (n - m) / 2 - s) as f64) };
        let value = if n > 90 { first * second } else { (choose(n - s, s) * choose(n - 2 * s, (n - m) / 2 - s)) as f64 };
        out[n - 2 * s] = if s % 2 == 0 { value } else { -value };
    }
    out
}

fn choose_large(n: usize, k: usize) -> f64 {
    (1..=k.min(n - k)).fold(1f64, |all, i| all * (n + 1 - i) as f64 / i as f64)
}

/// How far rounding may put the radial polynomial off: its alternating sum loses digits as order
/// and radius grow.
pub fn radial_error(coefficients: &[f64], r: f64) -> f64 {
    let size = coefficients.iter().rev().fold(0., |sum, c| sum * r + c.abs());
    2e-13 * (1. + coefficients.len() as f64 / 20.) * size + 1e-12
}

/// How far rounding may put the moment off.
pub fn moment_error(n: usize, m: usize, img: &Img) -> f64 {
    let d = img.h.max(img.w);
    let (dr, dc) = ((d - img.h) / 2, (d - img.w) / 2);
    let coefficients = radial_coefficients(n, m);
    let mut sum = 0.;
    for row in 0..img.h {
        let x = position(row + dr, d);
        for col in 0..img.w {
            let y = position(col + dc, d);
            sum += img.at(row, col) as f64 * radial_error(&coefficients, (x * x + y * y).sqrt());
        }
    }
    (n as f64 + 1.) / PI / (img.h * img.w) as f64 * sum + 1e-12
}

pub fn radial(coefficients: &[f64], r: f64) -> f64 {
    coefficients.iter().rev().fold(0., |sum, c| sum * r + c)
}

/// Position of a pixel in the square inscribed in the unit disc: the first row and column are at
/// -1/sqrt(2), the last ones at +1/sqrt(2).
pub fn position(at: usize, dimension: usize) -> f64 {
    FRAC_1_SQRT_2 * (2. * at as f64 + 1. - dimension as f64) / (dimension as f64 - 1.)
}

/// (re, im) of the moment; rows run along the x axis.
pub fn moment(n: usize, m: usize, img: &Img) -> (f64, f64) {
    let d = img.h.max(img.w);
    let (dr, dc) = ((d - img.h) / 2, (d - img.w) / 2);
    let coefficients = radial_coefficients(n, m);
    let (mut re, mut im) = (0., 0.);
    for row in 0..img.h {
        let x = position(row + dr, d);
        for col in 0..img.w {
            let value = img.at(row, col) as f64;
            if value == 0. {
                continue;
            }
            let y = position(col + dc, d);
            let r = (x * x + y * y).sqrt();
            let amplitude = radial(&coefficients, r);
            // cos and sin of m*theta
            let theta = if r == 0. { 0. } else { y.atan2(x) };
            re += value * amplitude * (m as f64 * theta).cos();
            im -= value * amplitude * (m as f64 * theta).sin();
        }
    }
    let factor = (n as f64 + 1.) / PI / (img.h * img.w) as f64;
    (re * factor, im * factor)
}

/// All |moments| of order 2k-1 with odd repetition, in one pass over the picture.
pub fn features(img: &Img, amount: usize) -> Vec<f64> {
    let n = 2 * amount - 1;
    let d = img.h.max(img.w);
    let (dr, dc) = ((d - img.h) / 2, (d - img.w) / 2);
    let coefficients: Vec<Vec<f64>> = (0..amount).map(|i| radial_coefficients(n, 2 * i + 1)).collect();
    let mut sums = vec![(0., 0.); amount];
    for row in 0..img.h {
        let x = position(row + dr, d);
        for col in 0..img.w {
            let value = img.at(row, col) as f64;
            if value == 0. {
                continue;
            }
            let y = position(col + dc, d);
            let r = (x * x + y * y).sqrt();
            let (c, s) = if r == 0. { (1., 0.) } else { (x / r, y / r) };
            let (c2, s2) = (c * c - s * s, 2. * c * s);
            let (mut cm, mut sm) = (c, s);
            for i in 0..amount {
                // powers of r are all odd: Horner in r^2
                let mut amplitude = 0.;
                let r2 = r * r;
                let mut p = n;
                loop {
                    amplitude = amplitude * r2 + coefficients[i][p];
                    if p < 2 {
                        break;
                    }
                    p -= 2;
                }
                amplitude *= r;
                sums[i].0 += value * amplitude * cm;
                sums[i].1 += value * amplitude * sm;
                let next = (cm * c2 - sm * s2, sm * c2 + cm * s2);
                cm = next.0;
                sm = next.1;
            }
        }
    }
    let factor = (n as f64 + 1.) / PI / (img.h * img.w) as f64;
    sums.iter().map(|(re, im)| (re * re + im * im).sqrt() * factor).collect()
}

/// Histogram equalisation: a pixel becomes 255 times the share of pixels not above it, rounded down.
pub fn equalised(img: &Img) -> Img {
    let mut count = [0u32; 256];
    img.px.iter().for_each(|p| count[*p as usize] += 1);
    let mut table = [0u8; 256];
    let mut below = 0u32;
    for v in 0..256 {
        below += count[v];
        // single precision, like the published readers
        let share = below as f32 / img.px.len() as f32;
        table[v] = f32::min(255., 255. * share) as u8;
    }
    Img::new(img.h, img.w, img.px.iter().map(|p| table[*p as usize]).collect())
}

// ---------------------------------------------------------------- watermark record

pub const PUBLIC_KEY: &str = "a7fd235002f60fad1a7077d74cfd62dd8922963ebc713c385ad37596fba5a7d6";
pub const TEXT: &str = "Hello world!";

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Record {
    pub bits: Vec<bool>,
    pub signature: Vec<u8>,
    pub text: Vec<u8>,
}

pub fn pack(bits: &[bool]) -> Vec<u8> {
    bits.chunks(8).map(|c| c.iter().enumerate().fold(0, |byte, (i, bit)| byte | (*bit as u8) << i)).collect()
}

pub fn unpack(bytes: &[u8], amount: usize) -> Vec<bool> {
    (0..amount).map(|i| bytes[i / 8] >> (i % 8) & 1 == 1).collect()
}

pub fn record_length(amount: usize) -> usize {
    3 + (3 * amount + 7) / 8 + 64 + TEXT.len()
}

pub fn build_record(record: &Record) -> Vec<u8> {
    let mut out = vec![record.bits.len() as u8, record.signature.len() as u8, record.text.len() as u8];
    out.extend(pack(&record.bits));
    out.extend(&record.signature);
    out.extend(&record.text);
    out
}

/// None if the bytes are not a record. Bytes after the record are ignored, as published.
pub fn parse_record(bytes: &[u8]) -> Option<Record> {
    if bytes.len() < 3 {
        return None;
    }
    let (p, s, t) = (bytes[0] as usize, bytes[1] as usize, bytes[2] as usize);
    let p_end = 3 + (p + 7) / 8;
    let text = bytes.get(p_end + s..p_end + s + t)?.to_vec();
    std::str::from_utf8(&text).ok()?;
    Some(Record { bits: unpack(&bytes[3..p_end], p), signature: bytes[p_end..p_end + s].to_vec(), text })
}

pub fn hex(bytes: &[u8]) -> String {
    bytes.iter().map(|b| format!("{:02x}", b)).collect()
}

pub fn unhex(text: &str) -> Vec<u8> {
    (0..text.len() / 2).map(|i| u8::from_str_radix(&text[2 * i..2 * i + 2], 16).unwrap()).collect()
}

pub fn signature_valid(data: &[u8], signature: &[u8], public_key: &str) -> bool {
    use ed25519_dalek::Verifier;
    let key = match ed25519_dalek::PublicKey::from_bytes(&unhex(public_key)) {
        Ok(key) => key,
        Err(_) => return false,
    };
    match ed25519_dalek::Signature::from_bytes(signature) {
        Ok(signature) => key.verify(data, &signature).is_ok(),
        Err(_) => false,
    }
}

pub fn i64_bytes(values: &[i64]) -> Vec<u8> {
    values.iter().flat_map(|v| v.to_le_bytes()).collect()
}

#[derive(Clone, Debug, PartialEq)]
pub enum Reading {
    /// Not even a complete record.
    NoRecord,
    /// A record which does not fit the picture: wrong number of perturbation bits for the features.
    Misfit,
    /// The signature does not cover the features of the picture.
    Rejected,
    Authentic,
    /// Some number lies so close to a boundary that rounding decides.
    Unclear,
}

/// Judges a picture the way a reader of the published format does.
pub fn judge(img: &Img, depth: f64, step: f64, amount: usize, levels: u32) -> Reading {
    let (bytes, mut margin) = read_bytes(&ll(img, levels), depth);
    let payload = decode(&bytes, capacity(img.h, img.w, levels)).and_then(|data| unframe(&data));
    if let Some(payload) = &payload {
        // coefficients behind the payload do not matter
        let used = written(payload.len(), img.h, img.w, levels);
        margin = ll(img, levels).iter().flatten().take(used).map(|c| bit_of(*c, depth).1).fold(f64::INFINITY, f64::min);
    }
    if margin < 1e-9 {
        // the transform rounds: a coefficient exactly on a boundary may be read either way
        return Reading::Unclear;
    }
    let payload = match payload {
        None => return Reading::NoRecord,
        Some(payload) => payload,
    };
    let record = match parse_record(&payload) {
        None => return Reading::NoRecord,
        Some(record) => record,
    };
    let found = features(&equalised(img), amount);
    judge_record(&record, &found, step)
}

pub fn judge_record(record: &Record, found: &[f64], step: f64) -> Reading {
    if record.bits.len() % 3 != 0 || record.bits.len() > 3 * found.len() {
        return Reading::Misfit;
    }
    let mut cells = vec![];
    let mut unclear = false;
    for (i, bits) in record.bits.chunks(3).enumerate() {
        let (cell, margin) = restore(found[i], [bits[0], bits[1], bits[2]], step);
        unclear |= margin < 1e-6;
        cells.push(cell);
    }
    if signature_valid(&i64_bytes(&cells), &record.signature, PUBLIC_KEY) {
        return if unclear { Reading::Unclear } else { Reading::Authentic };
    }
    if unclear {
        Reading::Unclear
    } else {
        Reading::Rejected
    }
}

#[cfg(test)]
mod tests {
    use super::*;

    #[test]
    fn features_agree_with_moments() {
        let img = Img::from_fn(9, 12, |r, c| (r * 31 + c * 17) as u8);
        for amount in 1..=8 {
            let fast = features(&img, amount);
            for i in 0..amount {
                let (re, im) = moment(2 * amount - 1, 2 * i + 1, &img);
                assert!((fast[i] - (re * re + im * im).sqrt()).abs() < 1e-8);
            }
        }
    }
}

// ---------------------------------------------------------------- reference writer

/// The key pair the product is published with.
pub const PRIVATE_KEY: &str = "e1ec991518bead7d94b60bf64469b98d866315b3676d4fa5b4e7c36dc4951d60";

pub fn sign(data: &[u8]) -> Vec<u8> {
    let secret = ed25519_dalek::SecretKey::from_bytes(&unhex(PRIVATE_KEY)).unwrap();
    let public = ed25519_dalek::PublicKey::from(&secret);
    ed25519_dalek::ExpandedSecretKey::from(&secret).sign(data, &public).to_bytes().to_vec()
}

/// Writes a payload into a picture; None if there is no room.
pub fn write_payload(img: &Img, payload: &[u8], depth: f64, levels: u32) -> Option<Img> {
    let capacity = capacity(img.h, img.w, levels);
    let bytes = encode(&frame(payload), capacity);
    if bytes.len() > capacity || payload.len() > 65533 {
        return None;
    }
    Some(write_bytes(img, &bytes, depth, levels))
}

/// Writes bytes, as they are, into the coefficients of a picture; they have to fit.
pub fn write_bytes(img: &Img, bytes: &[u8], depth: f64, levels: u32) -> Img {
    let side = 1usize << levels;
    let domain = ll(img, levels);
    let columns = domain[0].len();
    let mut out = img.clone();
    for i in 0..bytes.len() * 8 {
        let bit = bytes[i / 8] >> (i % 8) & 1 == 1;
        let (row, col) = (i / columns, i % columns);
        let old = domain[row][col];
        let new = depth * ((old / depth).round() + if bit { 0.25 } else { -0.25 });
        let shift = (new - old) / side as f64;
        for k in 0..side * side {
            let (r, c) = (row * side + k / side, col * side + k % side);
            out.set(r, c, (img.at(r, c) as f64 + shift).round().clamp(0., 255.) as u8);
        }
    }
    out
}

/// The record which belongs to these features; the margin tells how close they are to a boundary.
pub fn record_for(features: &[f64], step: f64) -> (Record, Vec<i64>, f64) {
    let mut bits = vec![];
    let mut cells = vec![];
    let mut margin = f64::INFINITY;
    for feature in features {
        let (cell, three, m) = quantise(*feature, step);
        bits.extend(three);
        cells.push(cell);
        margin = margin.min(m);
    }
    let signature = sign(&i64_bytes(&cells));
    (Record { bits, signature, text: TEXT.as_bytes().to_vec() }, cells, margin)
}
