//! C15: moments are linear in the pixels.
use c_zernike::*;
use image_features::calculate_features;
use image_features::feature_types::FeaturesType;
use kit::imgs::{self, Img};
use kit::prelude::*;
use kit::{ensure, must};
use zernike::calc::calculate_zernike_image_moment;

fn main() {
    kit::engine::run(
        "C15",
        "pairs of pictures of 2..40 by 2..40 pixels, orders 0..45 with every repetition, scale factors 2..6, brightness offsets, \
         frames of black pixels around the picture; non-trivial: no picture is flat",
        &["offset invariance only for repetitions that are no multiple of four on squares, and for odd orders otherwise"],
        |suite| {
            let indices = || (prop_oneof![5 => 0usize..18, 1 => 18usize..46], kit::pick()).prop_map(|(n, i)| (n, n - 2 * i.index(n / 2 + 1)));
            let pair = (2usize..41, 2usize..41).prop_flat_map(|size| (imgs::ranged(Just(size), 0, 127), imgs::ranged(Just(size), 0, 128)));
            suite.sub("sum", (indices(), pair), 4_000, 80_000, |((n, m), (first, second)), obs| {
                let (a, b) = (first.render(), second.render());
                obs.nontrivial = a.distinct() > 1 && b.distinct() > 1;
                let sum = Img::from_fn(a.h, a.w, |r, c| a.at(r, c) + b.at(r, c));
                let moment = |img: &Img| must("moment", || calculate_zernike_image_moment(*n, *m, &array(img)));
                let (x, y, z) = (moment(&a)?, moment(&b)?, moment(&sum)?);
                ensure!((x + y - z).norm() <= 2. * moment_error(*n, *m, &sum), "moment {} {}: {} + {} is not {}", n, m, x, y, z);
                Ok(())
            });
            let vast = prop_oneof![2 => (200usize..400, 200usize..400), 1 => (1usize..6, 300usize..900), 1 => (300usize..900, 1usize..6)];
            suite.sub_shrink("vast", ((1usize..12, kit::pick()), imgs::ranged(vast, 0, 255), kit::pick()), 16, 600, 8, |((n, i), spec, cut), obs| {
                // a large picture is the sum of its upper and its lower part
                let img = spec.render();
                let m = n - 2 * i.index(n / 2 + 1);
                let cut = cut.index(img.px.len());
                obs.nontrivial = img.distinct() > 1;
                let (mut upper, mut lower) = (img.clone(), img.clone());
                upper.px[cut..].fill(0);
                lower.px[..cut].fill(0);
                let moment = |img: &Img| must("moment", || calculate_zernike_image_moment(*n, m, &array(img)));
                let (x, y, z) = (moment(&upper)?, moment(&lower)?, moment(&img)?);
                ensure!((x + y - z).norm() <= 2. * moment_error(*n, m, &img), "moment {} {}: {} + {} is not {}", n, m, x, y, z);
                Ok(())
            });
            suite.sub("scale", (indices(), 2u8..7, imgs::ranged((2usize..41, 2usize..41), 0, 42)), 3_000, 60_000, |((n, m), factor, spec), obs| {
                let img = spec.render();
                obs.nontrivial = img.distinct() > 1;
                let scaled = Img::from_fn(img.h, img.w, |r, c| img.at(r, c) * factor);
                let moment = |img: &Img| must("moment", || calculate_zernike_image_moment(*n, *m, &array(img)));
                let (x, y) = (moment(&img)?, moment(&scaled)?);
                ensure!((x * *factor as f64 - y).norm() <= 2. * moment_error(*n, *m, &scaled), "moment {} {}: {} times {} is not {}", n, m, x, factor, y);
                Ok(())
            });
            // features have odd repetitions: the same brightness everywhere contributes nothing
            let even = (2usize..37, 0usize..8).prop_map(|(h, d)| (h, h + 2 * d));
            suite.sub("offset", (1usize..9, imgs::ranged(even, 0, 155), 1u8..=100, any::<bool>()), 1_200, 30_000, |(amount, spec, offset, turn), obs| {
                let mut img = spec.render();
                if *turn {
                    img = Img::from_fn(img.w, img.h, |r, c| img.at(c, r));
                }
                obs.nontrivial = img.distinct() > 1;
                let brighter = Img::from_fn(img.h, img.w, |r, c| img.at(r, c) + offset);
                let features = |picture: &Img| must("features", || calculate_features(&array(picture), FeaturesType::MomentsZernike, *amount));
                let (a, b) = (features(&img)?, features(&brighter)?);
                let errors = feature_errors(*amount, &brighter);
                ensure!(a.len() == b.len(), "{} features become {}", a.len(), b.len());
                for ((x, y), error) in a.iter().zip(&b).zip(&errors) {
                    ensure!((x - y).abs() <= 2. * error, "{} brighter: features {:?} become {:?}", offset, a, b);
                }
                let flat = Img::from_fn(img.h, img.w, |_, _| *offset);
                let errors = feature_errors(*amount, &flat);
                let flat = features(&flat)?;
                ensure!(flat.iter().zip(&errors).all(|(x, error)| x.abs() <= *error), "features of a flat picture: {:?}", flat);
                Ok(())
            });
            // a black frame moves the same pixels inwards: nothing but geometry may count; black pixels contribute nothing
            suite.sub("pixels", (indices(), 2usize..30, 2usize..30, kit::pick(), 1u8..=255), 3_000, 60_000, |((n, m), h, w, at, value), obs| {
                let at = at.index(h * w);
                obs.nontrivial();
                let black = Img::from_fn(*h, *w, |_, _| 0);
                let mut one = black.clone();
                one.px[at] = *value;
                let moment = |img: &Img| must("moment", || calculate_zernike_image_moment(*n, *m, &array(img)));
                ensure!(moment(&black)?.norm() == 0., "moment {} {} of a black picture is {}", n, m, moment(&black)?);
                let (re, im) = kit::model::moment(*n, *m, &one);
                let found = moment(&one)?;
                let tolerance = moment_error(*n, *m, &one);
                ensure!((found.re - re).abs() <= tolerance && (found.im - im).abs() <= tolerance, "pixel {} of {}x{}: moment {} {} is {}, expected {} {:+}i", at, h, w, n, m, found, re, im);
                Ok(())
            });
        },
    )
}
