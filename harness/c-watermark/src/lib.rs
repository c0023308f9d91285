//! Generators and access to the code under test shared by the watermarking checks.
pub mod colour;

use image::{DynamicImage, GrayImage};
use kit::imgs::{self, Img, ImgSpec};
use kit::model::{self, Record};
use kit::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub img: ImgSpec,
    pub levels: usize,
    pub depth: f64,
    pub step: f64,
    pub amount: usize,
}

pub fn gray(img: &Img) -> GrayImage {
    GrayImage::from_raw(img.w as u32, img.h as u32, img.px.clone()).unwrap()
}

pub fn back(gray: &GrayImage) -> Img {
    Img::new(gray.height() as usize, gray.width() as usize, gray.as_raw().clone())
}

/// Marks a grey picture.
pub fn mark(img: &Img, case: &Case) -> Img {
    #[cfg(sia_verif_hooks)]
    {
        return back(&watermarking::verif_hooks::watermark_channel(&gray(img), case.depth, case.step, case.amount, case.levels));
    }
    #[allow(unreachable_code)]
    {
        assert_eq!(case.levels, 3);
        back(&watermarking::watermark(DynamicImage::ImageLuma8(gray(img)), case.depth, case.step, case.amount).into_luma8())
    }
}

/// Some(verdict), or None if the reader gives up (which is no acceptance either). Without access to
/// the reader of the code under test, the reference reader stands in.
pub fn verdict(img: &Img, case: &Case) -> Option<bool> {
    #[cfg(sia_verif_hooks)]
    {
        return kit::quiet(|| watermarking::verif_hooks::authenticate_channel(&gray(img), case.depth, case.step, case.amount, case.levels)).ok();
    }
    #[allow(unreachable_code)]
    match judge(img, case) {
        model::Reading::Authentic | model::Reading::Unclear => Some(true),
        model::Reading::Rejected => Some(false),
        _ => None,
    }
}

pub fn judge(img: &Img, case: &Case) -> model::Reading {
    model::judge(img, case.depth, case.step, case.amount, case.levels as u32)
}

pub fn features(img: &Img, case: &Case) -> Vec<f64> {
    model::features(&model::equalised(img), case.amount)
}

/// The features as the code under test computes them: rounding swamps those of high orders, so that
/// no reference says which cell they fall into.
pub fn own_features(img: &Img, case: &Case) -> Vec<f64> {
    let array = ndarray::Array2::from_shape_vec([img.h, img.w], model::equalised(img).px).unwrap();
    image_features::calculate_features(&array, image_features::feature_types::FeaturesType::MomentsZernike, case.amount)
}

/// What the reference reader finds.
pub fn record(img: &Img, case: &Case) -> Option<Record> {
    model::extract(img, case.depth, case.levels as u32).0.and_then(|payload| model::parse_record(&payload))
}

/// Bands with room for a record of `amount` features: sizes of every code, and uncoded ones.
fn bands(amount: usize) -> impl Strategy<Value = (usize, usize)> {
    let need = model::record_length(amount);
    let coded = prop::sample::select(vec![(32usize, 64usize), (64, 32), (16, 128), (64, 64), (32, 128), (128, 16), (96, 88), (64, 128), (91, 91)]);
    let plain = (8usize..44, 8usize..44);
    let narrow = (3usize..9, 90usize..240, any::<bool>()).prop_map(|(a, b, turn)| if turn { (b, a) } else { (a, b) });
    let fitting = (5usize..41).prop_map(move |rows| (rows, ((need + 4) * 8 + rows - 1) / rows));
    prop_oneof![3 => coded, 4 => plain, 1 => narrow, 3 => fitting].prop_filter_map("no room", move |(rows, cols)| {
        let room = model::max_payload(rows, cols, 0)?;
        if room < need {
            return None;
        }
        Some((rows, cols))
    })
}

pub fn bound(depth: f64, levels: usize) -> f64 {
    0.75 * depth / (1 << levels) as f64 + 0.5
}

/// Pictures with room for the record whose pixels cannot saturate, at depths which keep the bits
/// readable under `noise` grey levels per pixel.
pub fn safe(noise: f64, largest: usize) -> impl Strategy<Value = Case> {
    let levels = if cfg!(sia_verif_hooks) { vec![1usize, 1, 1, 2, 2, 3] } else { vec![3usize] };
    let largest = if cfg!(sia_verif_hooks) { largest } else { largest.max(150_000) };
    (1usize..7, prop_oneof![6 => Just(0usize), 1 => Just(5usize)], prop::sample::select(levels))
        .prop_flat_map(move |(amount, more, levels)| {
            let amount = amount + more;
            (Just(amount), Just(levels), bands(amount), 0.0f64..1.0)
        })
        .prop_filter("too large", move |(_, levels, (rows, cols), _)| {
            // the features take time in proportion to the enclosing square
            let side = (*rows.max(cols)) << levels;
            (rows * cols) << (2 * levels) <= largest && side * side <= 3 * largest
        })
        .prop_flat_map(move |(amount, levels, (rows, cols), t)| {
            let side = (1 << levels) as f64;
            let least = 4. * side * (0.5 + noise) * 1.02;
            let most = (least * 5.).min(110. * side / 0.75);
            let depth = if t < 0.3 { least * (1. + t * 0.2) } else { least + (most - least) * t };
            let low = bound(depth, levels).ceil() as u8;
            let size = (rows << levels, cols << levels);
            (
                prop_oneof![4 => imgs::photo(Just(size), low, 255 - low), 1 => imgs::ranged(Just(size), low, 255 - low)],
                Just(levels),
                Just(depth),
                prop_oneof![2 => Just(1.0), 4 => 0.3f64..6., 6 => 2.0f64..40., 1 => steps()],
                Just(amount),
                any::<u8>(),
            )
        })
        .prop_map(|(img, levels, depth, step, amount, stark)| starkly(Case { img, levels, depth, step, amount }, stark))
}

/// Some pictures are black and white in places below the blocks which carry the record, where
/// pixels may saturate.
pub fn starkly(mut case: Case, which: u8) -> Case {
    let (h, w) = (case.img.h, case.img.w);
    let columns = w >> case.levels;
    let written = model::written(model::record_length(case.amount), h, w, case.levels as u32);
    let row = ((written + columns - 1) / columns) << case.levels;
    if which < 100 && row < h {
        case.img.stark = Some(row);
    }
    case
}

/// Steps of every magnitude.
pub fn steps() -> impl Strategy<Value = f64> {
    (-3.0f64..3.3).prop_map(|e| 10f64.powf(e))
}

/// The case with a step close to its own at which the record has a peculiarity: certain bytes of
/// the signature or of the perturbation bits are zero, 255 or equal. From `PECULIAR` on as it is.
pub const PECULIAR: u8 = 10;
pub fn peculiar(case: &Case, features: &[f64], which: u8) -> Case {
    if which < PECULIAR {
        for i in 0..900 {
            let step = case.step * (1. + i as f64 * 0.0017);
            let mut bits = vec![];
            let mut cells = vec![];
            let mut margin = f64::INFINITY;
            for feature in features {
                let (cell, three, m) = model::quantise(*feature, step);
                bits.extend(three);
                cells.push(cell);
                margin = margin.min(m);
            }
            if margin < 1e-5 {
                continue;
            }
            let packed = model::pack(&bits);
            let signature = || model::sign(&model::i64_bytes(&cells));
            let found = match which {
                0 | 1 => signature()[0] == 0,
                2 => signature()[63] == 0,
                3 => signature()[31] == 0,
                4 => signature()[32] == 0,
                5 => signature()[0] == 255,
                6 => packed[packed.len() - 1] == 0,
                7 => packed[0] == 0,
                8 => {
                    let signature = signature();
                    signature[0] == signature[1]
                }
                _ => {
                    let signature = signature();
                    signature.windows(2).any(|pair| pair == [0, 0] || pair == [13, 10])
                }
            };
            if found {
                return Case { step, ..case.clone() };
            }
        }
    }
    case.clone()
}

pub fn describe(case: &Case, obs: &mut kit::Obs) {
    obs.label(model::code_name(model::capacity(case.img.h, case.img.w, case.levels as u32)));
    obs.label(format!("levels {}", case.levels));
    if case.img.stark.is_some() {
        obs.label("black and white in places");
    }
    obs.label(if case.img.h == case.img.w { "square" } else { "not square" });
}

/// Whether every feature of the second list lies within a step of the first, and none of either
/// list so close to a boundary that rounding matters.
pub fn within_step(a: &[f64], b: &[f64], step: f64) -> bool {
    a.iter().zip(b).all(|(x, y)| (x - y).abs() < step * (1. - 1e-6))
        && a.iter().chain(b).all(|f| model::quantise(*f, step).2 > 1e-6)
}

/// Without the hooks only pictures of three levels can be made, which cost ten times as much.
pub fn fit(suite: &mut kit::Suite) {
    if !cfg!(sia_verif_hooks) {
        suite.scale *= 0.1;
    }
}
