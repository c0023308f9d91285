use kit::imgs::Img;
use ndarray::Array2;

pub fn array(img: &Img) -> Array2<u8> {
    Array2::from_shape_vec([img.h, img.w], img.px.clone()).unwrap()
}

pub fn abs((re, im): (f64, f64)) -> f64 {
    (re * re + im * im).sqrt()
}

pub use kit::model::moment_error;

/// Rounding errors to expect of the features.
pub fn feature_errors(amount: usize, img: &Img) -> Vec<f64> {
    (0..amount).map(|i| moment_error(2 * amount - 1, 2 * i + 1, img)).collect()
}
