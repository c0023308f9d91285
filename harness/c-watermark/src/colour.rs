//! Pictures of every sample type for the checks of the colour entry point.
use image::{DynamicImage, GrayAlphaImage, GrayImage, ImageBuffer, RgbImage, RgbaImage};
use kit::imgs::{self, Img, ImgSpec, Mix};
use kit::model;
use kit::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Kind {
    L8,
    La8,
    Rgb8,
    Rgba8,
    L16,
    La16,
    Rgb16,
    Rgba16,
    Rgb32F,
    Rgba32F,
}

pub const KINDS: [Kind; 10] =
    [Kind::L8, Kind::La8, Kind::Rgb8, Kind::Rgba8, Kind::L16, Kind::La16, Kind::Rgb16, Kind::Rgba16, Kind::Rgb32F, Kind::Rgba32F];

impl Kind {
    pub fn colour(self) -> bool {
        !matches!(self, Kind::L8 | Kind::La8 | Kind::L16 | Kind::La16)
    }
    pub fn alpha(self) -> bool {
        matches!(self, Kind::La8 | Kind::Rgba8 | Kind::La16 | Kind::Rgba16 | Kind::Rgba32F)
    }
    pub fn planes(self) -> usize {
        (if self.colour() { 3 } else { 1 }) + self.alpha() as usize
    }
    /// Colour type of the result: same channels, eight bits.
    pub fn result(self) -> image::ColorType {
        match (self.colour(), self.alpha()) {
            (false, false) => image::ColorType::L8,
            (false, true) => image::ColorType::La8,
            (true, false) => image::ColorType::Rgb8,
            (true, true) => image::ColorType::Rgba8,
        }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Colours {
    pub kind: Kind,
    pub h: usize,
    pub w: usize,
    /// Colour planes first, alpha last.
    pub planes: Vec<ImgSpec>,
    /// Decides the digits beyond eight bits.
    pub fine: u64,
}

pub fn planes(case: &Colours) -> Vec<Img> {
    case.planes.iter().map(|spec| spec.render()).collect()
}

/// The picture of the given sample type whose eight-bit rounding is `planes`.
pub fn assemble(kind: Kind, planes: &[Img], fine: u64) -> DynamicImage {
    let (h, w) = (planes[0].h as u32, planes[0].w as u32);
    let n = planes.len();
    let samples: Vec<u8> = (0..planes[0].px.len() * n).map(|i| planes[i % n].px[i / n]).collect();
    let mut mix = Mix(fine);
    // 257 v is v exactly; less than half of 257 away rounds to v
    let mut wide = || -> Vec<u16> {
        samples.iter().map(|v| (*v as i32 * 257 + mix.below(255) as i32 - 127).clamp(0, 65535) as u16).collect()
    };
    match kind {
        Kind::L8 => GrayImage::from_raw(w, h, samples).unwrap().into(),
        Kind::La8 => GrayAlphaImage::from_raw(w, h, samples).unwrap().into(),
        Kind::Rgb8 => RgbImage::from_raw(w, h, samples).unwrap().into(),
        Kind::Rgba8 => RgbaImage::from_raw(w, h, samples).unwrap().into(),
        Kind::L16 => DynamicImage::ImageLuma16(ImageBuffer::from_raw(w, h, wide()).unwrap()),
        Kind::La16 => DynamicImage::ImageLumaA16(ImageBuffer::from_raw(w, h, wide()).unwrap()),
        Kind::Rgb16 => DynamicImage::ImageRgb16(ImageBuffer::from_raw(w, h, wide()).unwrap()),
        Kind::Rgba16 => DynamicImage::ImageRgba16(ImageBuffer::from_raw(w, h, wide()).unwrap()),
        Kind::Rgb32F | Kind::Rgba32F => {
            let float: Vec<f32> = samples.iter().map(|v| (*v as f32 + (mix.unit() as f32 - 0.5) * 0.9).clamp(0., 255.) / 255.).collect();
            if kind == Kind::Rgb32F {
                DynamicImage::ImageRgb32F(ImageBuffer::from_raw(w, h, float).unwrap())
            } else {
                DynamicImage::ImageRgba32F(ImageBuffer::from_raw(w, h, float).unwrap())
            }
        }
    }
}

/// Planes of an eight-bit picture.
pub fn split(image: &DynamicImage) -> Vec<Img> {
    let (w, h) = (image.width() as usize, image.height() as usize);
    let n = image.color().channel_count() as usize;
    let bytes = image.as_bytes();
    (0..n).map(|k| Img::new(h, w, (0..w * h).map(|i| bytes[i * n + k]).collect())).collect()
}

/// Sizes with room for the record of `amount` features at three levels, and a little more.
pub fn size(amount: usize, most: usize) -> impl Strategy<Value = (usize, usize)> {
    let need = (model::record_length(amount) + 4) * 8;
    (prop_oneof![3 => 20usize..42, 1 => 5usize..20], 0usize..8).prop_filter_map("too large", move |(rows, more)| {
        let cols = (need + rows - 1) / rows + more;
        let side = rows.max(cols) * 8;
        if side * side > most || model::max_payload(rows, cols, 0).map_or(true, |room| room < model::record_length(amount)) {
            return None;
        }
        Some(if more % 2 == 0 { (rows * 8, cols * 8) } else { (cols * 8, rows * 8) })
    })
}

/// Sizes of strips, more than twice as long as high or high as long.
pub fn strip(amount: usize) -> impl Strategy<Value = (usize, usize)> {
    let need = (model::record_length(amount) + 4) * 8;
    (14usize..18, any::<bool>()).prop_map(move |(rows, turn)| {
        let cols = ((need + rows - 1) / rows + 1).max(2 * rows + 1);
        if turn { (cols * 8, rows * 8) } else { (rows * 8, cols * 8) }
    })
}

pub fn colours(kinds: &'static [Kind], amount: usize, low: u8, most: usize) -> impl Strategy<Value = Colours> {
    colours_sized(kinds, size(amount, most), low)
}

pub fn colours_sized(kinds: &'static [Kind], size: impl Strategy<Value = (usize, usize)>, low: u8) -> impl Strategy<Value = Colours> {
    (prop::sample::select(kinds), size, any::<u64>()).prop_flat_map(move |(kind, (h, w), fine)| {
        let colour = if kind.colour() { 3 } else { 1 };
        let plane = prop_oneof![4 => imgs::photo(Just((h, w)), low, 255 - low), 1 => imgs::ranged(Just((h, w)), low, 255 - low)];
        let alpha = prop::collection::vec(imgs::img(Just((h, w))), kind.alpha() as usize);
        (prop::collection::vec(plane, colour), alpha).prop_map(move |(mut planes, alpha)| {
            planes.extend(alpha);
            Colours { kind, h, w, planes, fine }
        })
    })
}
