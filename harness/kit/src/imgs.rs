//! Generated pictures. A picture is described by a small value which shrinks and can be saved.

use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};

/// Grey picture, stored row after row.
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Img {
    pub h: usize,
    pub w: usize,
    pub px: Vec<u8>,
}

impl Img {
    pub fn new(h: usize, w: usize, px: Vec<u8>) -> Img {
        assert_eq!(h * w, px.len());
        Img { h, w, px }
    }
    pub fn at(&self, row: usize, col: usize) -> u8 {
        self.px[row * self.w + col]
    }
    pub fn set(&mut self, row: usize, col: usize, value: u8) {
        self.px[row * self.w + col] = value;
    }
    pub fn from_fn(h: usize, w: usize, f: impl Fn(usize, usize) -> u8) -> Img {
        let px = (0..h * w).map(|i| f(i / w, i % w)).collect();
        Img { h, w, px }
    }
    pub fn min(&self) -> u8 {
        *self.px.iter().min().unwrap()
    }
    pub fn max(&self) -> u8 {
        *self.px.iter().max().unwrap()
    }
    pub fn distinct(&self) -> usize {
        let mut seen = [false; 256];
        self.px.iter().for_each(|p| seen[*p as usize] = true);
        seen.iter().filter(|s| **s).count()
    }
}

/// Deterministic stream of numbers out of a generated seed.
#[derive(Clone)]
pub struct Mix(pub u64);

impl Mix {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        self.next() % n
    }
    pub fn unit(&mut self) -> f64 {
        (self.next() >> 11) as f64 / (1u64 << 53) as f64
    }
    pub fn byte(&mut self) -> u8 {
        self.next() as u8
    }
}

/// Four grey photographs of 192 by 192 pixels: peppers, a bird, a town from the air, a test picture.
static NATURAL: &[u8] = include_bytes!("../data/natural.raw");
const SIDE: usize = 192;

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum Pattern {
    Flat,
    Horizontal,
    Vertical,
    Radial,
    Checker,
    Stripes,
    Blobs,
    Smooth,
    Impulses,
    Noise,
    Extremes,
    Natural,
}

pub const PATTERNS: [Pattern; 12] = [
    Pattern::Flat,
    Pattern::Horizontal,
    Pattern::Vertical,
    Pattern::Radial,
    Pattern::Checker,
    Pattern::Stripes,
    Pattern::Blobs,
    Pattern::Smooth,
    Pattern::Impulses,
    Pattern::Noise,
    Pattern::Extremes,
    Pattern::Natural,
];

/// Recipe of a picture whose pixels lie within lo..=hi.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct ImgSpec {
    pub h: usize,
    pub w: usize,
    pub pattern: Pattern,
    pub lo: u8,
    pub hi: u8,
    pub seed: u64,
    /// From this row on the contrast is doubled, so that dark and bright places are black and white.
    #[serde(default)]
    pub stark: Option<usize>,
}

impl ImgSpec {
    pub fn render(&self) -> Img {
        let mut img = self.plain();
        let (lo, span) = (self.lo as f64, (self.hi - self.lo).max(1) as f64);
        if let Some(row) = self.stark {
            for p in img.px.iter_mut().skip(row * self.w) {
                *p = (((*p as f64 - lo) / span * 2. - 0.5).clamp(0., 1.) * 255.).round() as u8;
            }
        }
        img
    }

    fn plain(&self) -> Img {
        let mut mix = Mix(self.seed);
        let span = (self.hi - self.lo) as f64;
        let (h, w) = (self.h as f64, self.w as f64);
        let level = |t: f64| self.lo + (t.clamp(0., 1.) * span).round() as u8;
        let px = match self.pattern {
            Pattern::Flat => {
                let v = level(mix.unit());
                vec![v; self.h * self.w]
            }
            Pattern::Horizontal | Pattern::Vertical | Pattern::Radial => {
                let (cy, cx) = (mix.unit() * h, mix.unit() * w);
                let flip = mix.below(2) == 1;
                self.each(|row, col| {
                    let t = match self.pattern {
                        Pattern::Horizontal => col / w,
                        Pattern::Vertical => row / h,
                        _ => ((row - cy).powi(2) + (col - cx).powi(2)).sqrt() / (h + w),
                    };
                    level(if flip { 1. - t } else { t })
                })
            }
            Pattern::Checker => {
                let (a, b) = (1 + mix.below(17) as usize, 1 + mix.below(17) as usize);
                let (v0, v1) = (level(mix.unit()), level(mix.unit()));
                self.each(|row, col| if (row as usize / a + col as usize / b) % 2 == 0 { v0 } else { v1 })
            }
            Pattern::Stripes => {
                let (fy, fx) = (mix.unit() * 0.7, mix.unit() * 0.7);
                self.each(|row, col| level(0.5 + 0.5 * (row * fy + col * fx).sin()))
            }
            Pattern::Blobs | Pattern::Smooth => {
                let waves: Vec<[f64; 5]> = (0..3 + mix.below(5))
                    .map(|_| [mix.unit() * h, mix.unit() * w, 0.05 + mix.unit() * 0.4, mix.unit(), mix.unit()])
                    .collect();
                let grain = if self.pattern == Pattern::Blobs { 0.08 } else { 0. };
                let mut noise = Mix(mix.next());
                let size = h.max(w);
                self.each(|row, col| {
                    let mut t = 0.2 + 0.2 * (row / h) + 0.2 * (col / w);
                    for wave in &waves {
                        let d = ((row - wave[0]).powi(2) + (col - wave[1]).powi(2)) / (wave[2] * size).powi(2);
                        t += (wave[3] - 0.45) * (-d).exp();
                    }
                    level(t + grain * (noise.unit() - 0.5))
                })
            }
            Pattern::Impulses => {
                let base = level(mix.unit());
                let mut px = vec![base; self.h * self.w];
                for _ in 0..1 + mix.below(1 + (self.h * self.w / 20) as u64) {
                    let at = mix.below((self.h * self.w) as u64) as usize;
                    px[at] = level(mix.unit());
                }
                px
            }
            Pattern::Noise => {
                let mut noise = Mix(mix.next());
                self.each(|_, _| level(noise.unit()))
            }
            Pattern::Extremes => {
                let mut noise = Mix(mix.next());
                let blocks = 1 + noise.below(9) as usize;
                let mut key = noise.next();
                key |= 1;
                self.each(|row, col| {
                    let block = (row as u64 / blocks as u64).wrapping_mul(0x9e37).wrapping_add(col as u64 / blocks as u64);
                    let r = Mix(block.wrapping_mul(key)).next();
                    if r & 1 == 0 { self.lo } else { self.hi }
                })
            }
            Pattern::Natural => {
                // a window into one of four photographs, turned or mirrored, continued by reflection at the edges
                let which = mix.below(4) as usize * SIDE * SIDE;
                let zoom = 0.15 + mix.unit() * 2. * SIDE as f64 / h.max(w).max(1.);
                let (top, left) = (mix.unit() * SIDE as f64, mix.unit() * SIDE as f64);
                let way = mix.below(8);
                let sample = |y: i64, x: i64| {
                    let fold = |v: i64| {
                        let v = v.rem_euclid(2 * SIDE as i64);
                        if v < SIDE as i64 { v as usize } else { 2 * SIDE - 1 - v as usize }
                    };
                    NATURAL[which + fold(y) * SIDE + fold(x)] as f64
                };
                self.each(|row, col| {
                    let (y, x) = if way & 1 == 0 { (row, col) } else { (col, row) };
                    let y = top + zoom * if way & 2 == 0 { y } else { -y };
                    let x = left + zoom * if way & 4 == 0 { x } else { -x };
                    let (i, j) = (y.floor(), x.floor());
                    let (a, b) = (y - i, x - j);
                    let (i, j) = (i as i64, j as i64);
                    let v = (1. - a) * ((1. - b) * sample(i, j) + b * sample(i, j + 1)) + a * ((1. - b) * sample(i + 1, j) + b * sample(i + 1, j + 1));
                    level(v / 255.)
                })
            }
        };
        Img { h: self.h, w: self.w, px }
    }

    fn each(&self, mut f: impl FnMut(f64, f64) -> u8) -> Vec<u8> {
        let mut px = Vec::with_capacity(self.h * self.w);
        for row in 0..self.h {
            for col in 0..self.w {
                px.push(f(row as f64, col as f64));
            }
        }
        px
    }
}

pub fn pattern() -> impl Strategy<Value = Pattern> {
    prop::sample::select(&PATTERNS[..])
}

/// Pictures of the given sizes with pixels anywhere in 0..=255.
pub fn img(size: impl Strategy<Value = (usize, usize)> + 'static) -> BoxedStrategy<ImgSpec> {
    ranged(size, 0, 255)
}

/// Pictures of the given sizes; the pixels stay within lowest..=highest.
pub fn ranged(
    size: impl Strategy<Value = (usize, usize)> + 'static,
    lowest: u8,
    highest: u8,
) -> BoxedStrategy<ImgSpec> {
    (size, pattern(), prop_oneof![2 => Just((lowest, highest)), 3 => (lowest..=highest, lowest..=highest)], any::<u64>())
        .prop_map(|((h, w), pattern, (a, b), seed)| ImgSpec { h, w, pattern, lo: a.min(b), hi: a.max(b), seed, stark: None })
        .boxed()
}

/// Pictures with enough going on to be worth marking: photographs rather than flat areas.
pub fn photo(
    size: impl Strategy<Value = (usize, usize)> + 'static,
    lowest: u8,
    highest: u8,
) -> BoxedStrategy<ImgSpec> {
    let kinds = prop::sample::select(vec![
        Pattern::Blobs,
        Pattern::Smooth,
        Pattern::Noise,
        Pattern::Stripes,
        Pattern::Horizontal,
        Pattern::Vertical,
        Pattern::Radial,
        Pattern::Natural,
        Pattern::Natural,
    ]);
    (size, kinds, any::<u64>())
        .prop_map(move |((h, w), pattern, seed)| ImgSpec { h, w, pattern, lo: lowest, hi: highest, seed, stark: None })
        .boxed()
}
