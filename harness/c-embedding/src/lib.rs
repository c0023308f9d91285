//! Generators shared by the embedding checks.
use kit::imgs::{self, Img, ImgSpec, Mix};
use kit::model;
use kit::prelude::*;
use ndarray::Array2;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub img: ImgSpec,
    pub levels: usize,
    pub depth: f64,
    /// share of the room in the picture which the payload takes
    pub share: f64,
    pub fill: u8,
    pub seed: u64,
}

impl Case {
    pub fn room(&self) -> Option<usize> {
        model::max_payload(self.img.h, self.img.w, self.levels as u32)
    }
    pub fn payload(&self) -> Vec<u8> {
        let room = self.room().unwrap_or(0);
        let length = ((room as f64 + 0.999) * self.share).floor() as usize;
        bytes(length.min(room), self.fill, self.seed)
    }
}

pub fn bytes(length: usize, fill: u8, seed: u64) -> Vec<u8> {
    let mut mix = Mix(seed);
    (0..length)
        .map(|i| match fill {
            0 => 0,
            1 => 255,
            2 => i as u8,
            _ => mix.byte(),
        })
        .collect()
}

/// Bytes for a message.
pub fn brief(bytes: &[u8]) -> String {
    if bytes.len() <= 64 { format!("{:?}", bytes) } else { format!("{} bytes {:?}...", bytes.len(), &bytes[..16]) }
}

pub fn array(img: &Img) -> Array2<u8> {
    Array2::from_shape_vec([img.h, img.w], img.px.clone()).unwrap()
}

pub fn image(array: &Array2<u8>) -> Img {
    let (h, w) = array.dim();
    Img::new(h, w, array.iter().cloned().collect())
}

/// (levels, rows, columns) such that the approximation band holds more than 8 bytes. Bands of
/// exactly the sizes where another code is chosen are over-represented.
pub fn sizes(largest_band: usize) -> impl Strategy<Value = (usize, usize, usize)> {
    let exact = prop::sample::select(vec![
        (8usize, 16usize), (16, 8), (16, 16), (8, 32), (4, 32), (16, 32), (32, 16), (64, 8), (32, 32), (8, 128), (64, 32), (32, 64), (16, 64),
        (12, 12), (9, 8), (27, 27), (1, 128), (128, 1), (2, 64), (5, 15), (64, 64), (128, 64), (96, 96),
    ]);
    let band = prop_oneof![3 => exact, 3 => (4usize..40, 4usize..40), 1 => (1usize..5, 20usize..80), 1 => (20usize..80, 1usize..5)];
    (prop_oneof![2 => Just(1usize), 2 => Just(2usize), 3 => Just(3usize), 1 => Just(4usize)], band).prop_filter_map(
        "too little or too much room",
        move |(levels, (rows, cols))| {
            let band = rows * cols;
            if band < 72 || band > largest_band || (band << (2 * levels)) > 600_000 {
                return None;
            }
            Some((levels, rows << levels, cols << levels))
        },
    )
}

/// Largest change of a pixel by marking.
pub fn bound(depth: f64, levels: usize) -> f64 {
    0.75 * depth / (1 << levels) as f64 + 0.5
}

/// Pictures whose pixels cannot leave 0..=255 by marking, with a depth that outweighs rounding and
/// `noise` grey levels on each pixel.
pub fn safe(noise: f64) -> impl Strategy<Value = Case> {
    (sizes(1 << 14), 0.0f64..1.0).prop_flat_map(move |((levels, h, w), t)| {
        let side = (1 << levels) as f64;
        let least = 4. * side * (0.5 + noise) * 1.02;
        let most = (least * 6.).min(110. * side / 0.75);
        // shallow depths are the hard ones
        let depth = if t < 0.3 { least + (most - least) * t * 0.1 } else { least + (most - least) * t };
        let depth = if t > 0.8 { depth.ceil() } else { depth };
        let low = bound(depth, levels).ceil() as u8;
        (
            imgs::ranged(Just((h, w)), low, 255 - low),
            Just(levels),
            Just(depth),
            prop_oneof![3 => 0.0f64..1.0, 1 => Just(1.0), 1 => Just(0.0)],
            0u8..8,
            any::<u64>(),
        )
            .prop_map(|(img, levels, depth, share, fill, seed)| Case { img, levels, depth, share, fill, seed })
    })
}

/// Half of the pictures are black and white in places below the blocks which carry the payload,
/// where pixels may saturate.
pub fn starkly(mut case: Case) -> Case {
    let (h, w) = (case.img.h, case.img.w);
    let columns = w >> case.levels;
    let written = model::written(case.payload().len(), h, w, case.levels as u32);
    let row = ((written + columns - 1) / columns) << case.levels;
    if case.seed % 2 == 0 && row < h {
        case.img.stark = Some(row);
    }
    case
}

/// Larger domains than those of `sizes`: up to what the length header can describe and beyond, and
/// long ribbons one or a few blocks high.
pub fn vast() -> impl Strategy<Value = Case> {
    let band = prop_oneof![
        3 => (128usize..700, 128usize..800),
        1 => (720usize..760, 720usize..740),
        1 => (1usize..4, 20_000usize..70_000),
        1 => (20_000usize..70_000, 1usize..4),
    ];
    (1usize..3, band, 0.0f64..1.0)
        .prop_filter("too large", |(levels, (rows, cols), _)| (rows * cols) << (2 * levels) <= 2_400_000)
        .prop_flat_map(|(levels, (rows, cols), t)| {
            let side = (1 << levels) as f64;
            let depth = 4. * side * 0.5 * (1.02 + 5. * t);
            let low = bound(depth, levels).ceil() as u8;
            (
                imgs::ranged(Just((rows << levels, cols << levels)), low, 255 - low),
                Just(levels),
                Just(depth),
                prop_oneof![2 => 0.3f64..1.0, 3 => Just(1.0)],
                2u8..8,
                any::<u64>(),
            )
                .prop_map(|(img, levels, depth, share, fill, seed)| Case { img, levels, depth, share, fill, seed })
        })
}

/// Any picture at any depth: pixels may be cut off at black and white.
pub fn wild() -> impl Strategy<Value = Case> {
    (sizes(1 << 13), prop_oneof![3 => 0.5f64..300., 1 => Just(100.0), 1 => prop::sample::select(vec![1.0, 8.0, 16.0, 20.0, 40.0, 80.0, 500.0])])
        .prop_flat_map(|((levels, h, w), depth)| {
            (
                imgs::img(Just((h, w))),
                Just(levels),
                Just(depth),
                prop_oneof![3 => 0.0f64..1.0, 1 => Just(1.0), 1 => Just(0.0)],
                0u8..8,
                any::<u64>(),
            )
                .prop_map(|(img, levels, depth, share, fill, seed)| Case { img, levels, depth, share, fill, seed })
        })
}

pub fn describe(case: &Case, obs: &mut kit::Obs) {
    let capacity = model::capacity(case.img.h, case.img.w, case.levels as u32);
    obs.label(model::code_name(capacity));
    obs.label(format!("levels {}", case.levels));
    if case.img.stark.is_some() {
        obs.label("black and white in places");
    }
    obs.label(if case.img.h == case.img.w { "square" } else { "not square" });
}
