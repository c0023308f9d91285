//! C29: a result depends on nothing but the arguments: not on earlier calls, not on other threads.
use image_features::calculate_features;
use image_features::feature_types::FeaturesType;
use kit::imgs::{Img, ImgSpec};
use kit::model;
use kit::prelude::*;
use kit::{ensure, quiet};
use ndarray::Array2;
use serde::{Deserialize, Serialize};
use std::process::{Command, Stdio};
use std::sync::Arc;
use utils::pseudo_random::{Generate, PseudoRandom};

/// A picture, or the same pixels in another arrangement.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Pic {
    spec: ImgSpec,
    /// What the picture carries before its pixels are arranged: bytes, depth, levels.
    #[serde(default)]
    carried: Option<(Vec<u8>, f64, usize)>,
    how: u8,
    seed: u64,
}

impl std::ops::Deref for Pic {
    type Target = ImgSpec;
    fn deref(&self) -> &ImgSpec {
        &self.spec
    }
}

impl std::ops::DerefMut for Pic {
    fn deref_mut(&mut self) -> &mut ImgSpec {
        &mut self.spec
    }
}

impl Pic {
    fn transpose(&mut self) {
        let spec = &mut self.spec;
        std::mem::swap(&mut spec.h, &mut spec.w);
    }

    fn render(&self) -> Img {
        let mut img = self.spec.render();
        if let Some((bytes, depth, levels)) = &self.carried {
            img = model::write_payload(&img, bytes, *depth, *levels as u32).unwrap_or(img);
        }
        let n = img.px.len();
        let at = self.seed as usize;
        match self.how {
            0 => {}
            1 => img.px.reverse(),
            2 => img.px.rotate_left(at % n),
            3 => img.px.chunks_mut(img.w).for_each(|row| row.reverse()),
            4 => img.px.swap(at % n, at / n % n),
            5 => img.px[at % n] ^= 1,
            6 => img.px[n - 1] ^= 128,
            // the same sum and extremes
            7 => {
                let (i, j) = (at % n, at / n % n);
                if i != j && img.px[i] < 255 && img.px[j] > 0 {
                    img.px[i] += 1;
                    img.px[j] -= 1;
                }
            }
            // the same at the edges
            8 => {
                let (h, w) = (img.h, img.w);
                for r in 1..h.saturating_sub(1) {
                    img.px[r * w + 1..(r + 1) * w - 1 + (w == 1) as usize].reverse();
                }
            }
            // whoever compares some of the pixels only sees the same picture
            10.. => {
                let (h, w) = (img.h, img.w);
                let parts = [2, 3, 4, 5, 7, 8, 10, 16, 64][at % 9];
                let rest = if at / 9 % 3 > 0 { 0 } else { at / 27 % parts };
                let edge = |i: usize, n: usize| i == 0 || i == n - 1;
                let kept = |r: usize, c: usize| match at / 3000 % 9 {
                    0 | 1 => (r * w + c) % parts == rest,
                    2 => r % parts == rest,
                    3 => c % parts == rest,
                    4 => (r * w + c) < n / parts,
                    5 => (r * w + c) >= n - n / parts,
                    6 => edge(r, h) || edge(c, w),
                    7 => edge(r, h) && edge(c, w),
                    _ => r * w / h == c,
                };
                for r in 0..h {
                    for c in 0..w {
                        if !kept(r, c) {
                            img.px[r * w + c] ^= [255, 96, 40][at / 30000 % 3];
                        }
                    }
                }
            }
            _ => {
                let w = img.w;
                let (first, last) = (img.px[..w].to_vec(), img.px[n - w..].to_vec());
                img.px[..w].copy_from_slice(&last);
                img.px[n - w..].copy_from_slice(&first);
            }
        }
        img
    }
}

fn pic(spec: impl Strategy<Value = ImgSpec>) -> impl Strategy<Value = Pic> {
    spec.prop_map(|spec| Pic { spec, carried: None, how: 0, seed: 0 })
}

/// The same picture with its pixels arranged otherwise.
fn arrange(pic: &mut Pic, seed: u64) {
    pic.how = 1 + (seed >> 16) as u8 % 15;
    pic.seed = seed >> 24;
}

/// As many bytes, with the same sum for the most part.
fn rearrange(bytes: &mut [u8], seed: u64) {
    let n = bytes.len();
    match seed >> 16 & 3 {
        0 => bytes.reverse(),
        1 => bytes[n - 1] ^= 1,
        2 => bytes[n / 2] ^= 64,
        _ if seed >> 18 & 1 == 0 => bytes.rotate_left(1),
        _ => bytes[(seed >> 20) as usize % n] ^= 1 << (seed >> 19 & 7) as u8,
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
    Encode(Vec<u8>, usize),
    Decode(Vec<u8>, usize),
    Embed(Pic, Vec<u8>, f64, usize),
    Extract(Pic, f64, usize),
    Moment(Pic, usize, usize),
    Features(Pic, usize),
    Quantise(Vec<f64>, f64),
    Restore(Vec<f64>, u64, f64),
    Sign(Vec<u8>, bool),
    Verify(Vec<u8>, u64, bool),
    Numbers(u32, usize),
    Watermark(Pic, f64, f64, usize),
}

fn array(img: &Img) -> Array2<u8> {
    Array2::from_shape_vec((img.h, img.w), img.px.clone()).unwrap()
}

fn bits(values: impl IntoIterator<Item = f64>) -> Vec<u8> {
    values.into_iter().flat_map(|v| v.to_bits().to_le_bytes()).collect()
}

const OTHER_PUBLIC: &str = "d75a980182b10ab7d54bfed3c964073a0ee172f3daa62325af021a68f707511a";
const OTHER_PRIVATE: &str = "9d61b19deffd5a60ba844af492ec2cc44449c5697b326919703bac031cae7f60";

/// The result of a call, or that it panics.
fn eval(op: &Op) -> Vec<u8> {
    let result = quiet(|| match op {
        Op::Encode(bytes, length) => encoding::encode(bytes.clone(), *length),
        Op::Decode(bytes, length) => encoding::decode(bytes.clone(), *length),
        Op::Embed(spec, bytes, depth, levels) => embedding::embed(array(&spec.render()), bytes.clone(), *depth, *levels).into_raw_vec(),
        Op::Extract(spec, depth, levels) => embedding::extract(array(&spec.render()), *depth, *levels),
        Op::Moment(spec, order, index) => {
            let moment = zernike::calc::calculate_zernike_image_moment(*order, *index, &array(&spec.render()));
            bits([moment.re, moment.im])
        }
        Op::Features(spec, amount) => bits(calculate_features(&array(&spec.render()), FeaturesType::MomentsZernike, *amount)),
        Op::Quantise(features, step) => {
            let (cells, bits) = three_bit_quantization::three_bit_quantization(features, *step);
            cells.iter().flat_map(|c| c.to_le_bytes()).chain(bits.iter().map(|b| *b as u8)).collect()
        }
        Op::Restore(features, seed, step) => {
            let bits: bitvec::prelude::BitVec<u8> = (0..3 * features.len()).map(|i| seed >> (i % 64) & 1 == 1).collect();
            three_bit_quantization::three_bit_dequantization(features, &bits, *step).iter().flat_map(|c| c.to_le_bytes()).collect()
        }
        Op::Sign(data, ours) => {
            let keys = if *ours { (model::PRIVATE_KEY, model::PUBLIC_KEY) } else { (OTHER_PRIVATE, OTHER_PUBLIC) };
            signature::sign(data, keys.0, keys.1)
        }
        Op::Verify(data, flips, ours) => {
            let mut signature = model::sign(data);
            if flips % 3 != 0 {
                signature[(flips / 8 % 64) as usize] ^= 1 << (flips % 8);
            }
            vec![signature::verify(data, &signature, if *ours { model::PUBLIC_KEY } else { OTHER_PUBLIC }) as u8]
        }
        Op::Numbers(seed, amount) => {
            let mut generator = PseudoRandom { seed: *seed as usize };
            bits((0..*amount).map(|_| generator.generate_unit()))
        }
        Op::Watermark(spec, depth, step, amount) => {
            let img = spec.render();
            let gray = image::GrayImage::from_raw(img.w as u32, img.h as u32, img.px).unwrap();
            watermarking::watermark(image::DynamicImage::ImageLuma8(gray), *depth, *step, *amount).into_bytes()
        }
    });
    match result {
        Ok(bytes) => bytes,
        Err(_) => b"refused".to_vec(),
    }
}

fn digest(bytes: &[u8]) -> String {
    let mut hash = 0xcbf29ce484222325u64;
    for byte in bytes {
        hash = (hash ^ *byte as u64).wrapping_mul(0x100000001b3);
    }
    format!("{}:{:016x}", bytes.len(), hash)
}

/// What a process which has done nothing else returns.
fn alone(op: &Op) -> Result<String, String> {
    let out = Command::new(std::env::current_exe().unwrap())
        .arg("--eval")
        .arg(serde_json::to_string(op).unwrap())
        .stdin(Stdio::null())
        .stdout(Stdio::null())
        .stderr(Stdio::piped())
        .output()
        .map_err(|e| e.to_string())?;
    let text = String::from_utf8_lossy(&out.stderr).to_string();
    let line = text.lines().rev().find_map(|line| line.strip_prefix("RESULT ")).map(|s| s.to_string());
    Ok(line.unwrap_or_else(|| format!("ended with {}", out.status)))
}

/// Few sizes and few parameters, so that calls of one history have some in common but not all.
fn op() -> impl Strategy<Value = Op> {
    let sizes = prop::sample::select(vec![(8usize, 8usize), (16, 16), (16, 24), (24, 16), (32, 32)]);
    let tiny = || pic(kit::imgs::img(sizes.clone())).boxed();
    let odd = || pic(kit::imgs::img(prop::sample::select(vec![(8usize, 8usize), (16, 16), (15, 16), (16, 15), (17, 17), (16, 24), (24, 16), (9, 8), (1, 16)]))).boxed();
    let bytes = || prop_oneof![4 => prop::collection::vec(any::<u8>(), 0..24), 1 => prop::collection::vec(any::<u8>(), 60..150)];
    let length = || prop::sample::select(vec![5usize, 16, 32, 64, 128, 256, 512, 1024]);
    let depth = || prop::sample::select(vec![20.0f64, 33.3, 60.]);
    let step = || prop::sample::select(vec![0.5f64, 1., 2.5]);
    let features = || prop::collection::vec(-20.0f64..200., 0..8);
    prop_oneof![
        2 => (bytes(), length()).prop_map(|(b, l)| Op::Encode(b, l)),
        2 => (bytes(), length()).prop_map(|(b, l)| Op::Decode(encoding_of(&b, l), l)),
        4 => (tiny(), prop::collection::vec(any::<u8>(), 0..6), depth(), 0usize..3).prop_map(|(i, b, d, l)| Op::Embed(i, b, d, l)),
        1 => (tiny(), depth(), 0usize..3).prop_map(|(i, d, l)| Op::Extract(i, d, l)),
        4 => (pic(kit::imgs::photo(prop::sample::select(vec![(32usize, 32usize), (40, 48), (48, 40), (64, 64)]), 60, 195)), prop::collection::vec(any::<u8>(), 1..8), depth(), 0usize..2)
            .prop_map(|(mut i, b, d, l)| {
                i.carried = Some((b, d, l));
                Op::Extract(i, d, l)
            }),
        4 => (odd(), 0usize..8, 0usize..8).prop_map(|(i, n, m)| Op::Moment(i, n, m.min(n))),
        3 => (odd(), 1usize..6).prop_map(|(i, n)| Op::Features(i, n)),
        1 => (features(), step()).prop_map(|(f, s)| Op::Quantise(f, s)),
        1 => (features(), any::<u64>(), step()).prop_map(|(f, b, s)| Op::Restore(f, b, s)),
        1 => (bytes(), any::<bool>()).prop_map(|(b, k)| Op::Sign(b, k)),
        1 => (bytes(), any::<u64>(), any::<bool>()).prop_map(|(b, f, k)| Op::Verify(b, f, k)),
        1 => (0u32..1000, 1usize..9).prop_map(|(s, n)| Op::Numbers(s, n)),
        2 => (pic(kit::imgs::img(prop::sample::select(vec![(208usize, 208usize), (208, 216), (216, 208)]))), depth(), step(), 1usize..3)
            .prop_map(|(i, d, s, n)| Op::Watermark(i, d, s, n)),
    ]
}

fn encoding_of(bytes: &[u8], length: usize) -> Vec<u8> {
    model::encode(bytes, length)
}

/// One or two rows or columns more or less.
fn resize(spec: &mut ImgSpec, seed: u64) {
    let change = [1isize, -1, 2, -2][(seed >> 8) as usize % 4];
    let more = |n: &mut usize| *n = (*n as isize + change).max(1) as usize;
    if seed >> 10 & 3 != 1 {
        more(&mut spec.h);
    }
    if seed >> 10 & 3 != 2 {
        more(&mut spec.w);
    }
}

/// A second call which differs from the first in one argument.
fn varied(op: &Op, seed: u64) -> Op {
    let mut op = op.clone();
    match &mut op {
        Op::Encode(b, l) | Op::Decode(b, l) => match seed % 4 {
            0 => *l = [16, 32, 64, 128, 256, 512, 1024][seed as usize / 4 % 7],
            _ if b.is_empty() => *l = 32,
            1 => b[0] ^= 1,
            _ => rearrange(b, seed),
        },
        Op::Embed(i, b, d, l) => match seed % 6 {
            4 => arrange(i, seed),
            5 if !b.is_empty() => rearrange(b, seed),
            0 => i.spec.seed ^= 1,
            1 => b.push(seed as u8),
            2 => *d += 7.,
            _ => *l = (*l + 1) % 3,
        },
        Op::Extract(i, d, l) => match seed % 6 {
            3 | 4 => arrange(i, seed),
            5 => match &mut i.carried {
                Some((bytes, ..)) => rearrange(bytes, seed),
                None => arrange(i, seed),
            },
            0 => i.spec.seed ^= 1,
            1 => *d += 7.,
            _ => *l = (*l + 1) % 3,
        },
        Op::Moment(i, n, m) => match seed % 8 {
            6 | 7 => arrange(i, seed),
            0 => i.spec.seed ^= 1,
            1 => *n += 2,
            2 => *m = (*m + 2).min(*n),
            3 => resize(i, seed),
            _ => i.transpose(),
        },
        Op::Features(i, n) => match seed % 8 {
            5..=7 => arrange(i, seed),
            0 => i.spec.seed ^= 1,
            1 => *n += 1,
            2 | 3 => resize(i, seed),
            _ => i.transpose(),
        },
        Op::Quantise(f, s) => match seed % 4 {
            0 => *s += 0.5,
            1 => f.reverse(),
            2 if !f.is_empty() => *f.last_mut().unwrap() += 1.,
            _ => f.push(1.25),
        },
        Op::Restore(f, b, s) => match seed % 4 {
            3 => f.reverse(),
            0 => *s += 0.5,
            1 => f.push(1.25),
            _ => *b ^= 5,
        },
        Op::Sign(b, k) => match seed % 4 {
            0 => b.push(1),
            1 | 2 if !b.is_empty() => rearrange(b, seed),
            _ => *k = !*k,
        },
        Op::Verify(b, f, k) => match seed % 4 {
            3 if !b.is_empty() => rearrange(b, seed),
            0 => b.push(1),
            1 => *f = f.wrapping_add(1),
            _ => *k = !*k,
        },
        Op::Numbers(s, n) => if seed % 2 == 0 { *s += 1 } else { *n += 1 },
        Op::Watermark(i, d, s, n) => match seed % 6 {
            4 | 5 => arrange(i, seed),
            0 => i.spec.seed ^= 1,
            1 => *d += 7.,
            2 => *s += 0.5,
            _ => *n += 1,
        },
    }
    op
}

/// A call with as large a picture or as many bytes, of which some are the same.
fn alike(op: &Op, seed: u64) -> Op {
    let mut op = op.clone();
    match &mut op {
        Op::Embed(i, ..) | Op::Extract(i, ..) | Op::Moment(i, ..) | Op::Features(i, ..) | Op::Watermark(i, ..) => {
            arrange(i, seed);
            if seed & 7 != 0 {
                i.how = 10;
            }
        }
        Op::Encode(b, _) | Op::Decode(b, _) | Op::Sign(b, _) | Op::Verify(b, ..) if !b.is_empty() => rearrange(b, seed),
        Op::Quantise(f, _) | Op::Restore(f, ..) if !f.is_empty() => {
            let n = f.len();
            f[(seed >> 8) as usize % n] += [0.01, 1., -0.3, 16.][(seed & 3) as usize];
        }
        _ => return varied(&op, seed),
    }
    op
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.len() == 3 && args[1] == "--eval" {
        std::panic::set_hook(Box::new(|_| ()));
        let op: Op = serde_json::from_str(&args[2]).unwrap();
        eprintln!("RESULT {}", digest(&eval(&op)));
        std::process::exit(0);
    }
    kit::engine::run(
        "C29",
        "histories of 3..14 calls of twelve kinds (coding, embedding, moments, features, quantisation, signing, numbers, whole \
         marks), many differing from another in one argument only, run in turn and then at once in three threads; calls next to others whose pictures or bytes are the same in part; non-trivial: \
         two calls of the same kind with different results",
        &["oracle: the result of the same call in a process of its own", "a refusal (panic) is a result"],
        |suite| {
            let histories = (prop::collection::vec((op(), prop::option::weighted(0.7, any::<u64>())), 2..8), any::<u64>())
                .prop_map(|(ops, seed)| {
                    let mut out = vec![];
                    for (op, vary) in ops {
                        if let Some(seed) = vary {
                            out.push(varied(&op, seed));
                        }
                        out.push(op);
                    }
                    (out, seed)
                });
            suite.sub_shrink("histories", histories, 400, 8_000, 40, |(ops, seed), obs| {
                let expected: Vec<String> = ops.iter().map(alone).collect::<Result<_, _>>()?;
                let kind = |op: &Op| format!("{:?}", op).split('(').next().unwrap().to_string();
                for (i, op) in ops.iter().enumerate() {
                    obs.label(kind(op));
                    obs.nontrivial |= (0..i).any(|j| kind(&ops[j]) == kind(op) && expected[i] != expected[j]);
                }
                // in turn, twice, in an order of its own the second time
                let mut order: Vec<usize> = (0..ops.len()).collect();
                let mut mix = kit::imgs::Mix(*seed);
                for round in 0..2 {
                    for at in &order {
                        let found = digest(&eval(&ops[*at]));
                        ensure!(found == expected[*at], "round {} of {:?}: call {} returns {}, alone it returns {}", round, order, at, found, expected[*at]);
                    }
                    for i in (1..order.len()).rev() {
                        order.swap(i, mix.below(i as u64 + 1) as usize);
                    }
                }
                // at once
                let shared = Arc::new((ops.clone(), expected.clone()));
                let threads: Vec<_> = (0..3usize)
                    .map(|t| {
                        let shared = shared.clone();
                        std::thread::spawn(move || {
                            let n = shared.0.len();
                            (0..n).map(|i| (i + t * n / 3) % n).find_map(|i| {
                                let found = digest(&eval(&shared.0[i]));
                                (found != shared.1[i]).then(|| format!("at once with others call {} returns {}, alone it returns {}", i, found, shared.1[i]))
                            })
                        })
                    })
                    .collect();
                for thread in threads {
                    if let Some(message) = thread.join().map_err(|_| "a thread panicked".to_string())? {
                        return Err(message);
                    }
                }
                Ok(())
            });
            // a result which is kept for later has to belong to the very same arguments
            let alike = (op(), prop::collection::vec(any::<u64>(), 1..7)).prop_map(|(op, seeds)| {
                let others: Vec<Op> = seeds.iter().map(|seed| alike(&op, *seed)).collect();
                (op, others)
            });
            suite.sub_shrink("alike", alike, 900, 16_000, 40, |(op, others), obs| {
                let expected = alone(op)?;
                obs.label(format!("{:?}", op).split('(').next().unwrap());
                for (i, other) in others.iter().enumerate() {
                    let wanted = alone(other)?;
                    obs.nontrivial |= wanted != expected;
                    for (op, wanted, what) in [(op, &expected, "the call"), (other, &wanted, "the other call")] {
                        let found = digest(&eval(op));
                        ensure!(found == *wanted, "{} returns {} next to call {} which resembles it, alone it returns {}", what, found, i, wanted);
                    }
                }
                Ok(())
            });
        },
    )
}
