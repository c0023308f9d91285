//! C14: turning or mirroring a picture leaves the magnitudes of its moments as they are.
use c_zernike::*;
use image_features::calculate_features;
use image_features::feature_types::FeaturesType;
use kit::imgs::{self, Img};
use kit::prelude::*;
use kit::{ensure, must};
use zernike::calc::calculate_zernike_image_moment;

fn turned(img: &Img) -> Img {
    Img::from_fn(img.w, img.h, |r, c| img.at(c, img.w - 1 - r))
}
fn mirrored(img: &Img) -> Img {
    Img::from_fn(img.h, img.w, |r, c| img.at(r, img.w - 1 - c))
}
fn transposed(img: &Img) -> Img {
    Img::from_fn(img.w, img.h, |r, c| img.at(c, r))
}

fn main() {
    kit::engine::run(
        "C14",
        "pictures of 2..36 by 2..36 pixels whose sides are equal or differ by an even number, orders 0..40 with every repetition, \
         feature amounts 1..8, all seven symmetries of the square; non-trivial: the turned picture differs from the original",
        &["sides which differ by an odd number are left out: such a picture has no exact middle in the enclosing square"],
        |suite| {
            let size = || (2usize..37, 2usize..37).prop_map(|(h, w)| if (h + w) % 2 == 0 { (h, w) } else { (h, w + 1) });
            let case = (prop_oneof![5 => 0usize..18, 1 => 18usize..41], kit::pick(), imgs::img(prop_oneof![size().boxed(), (2usize..37).prop_map(|n| (n, n)).boxed()]));
            suite.sub("moments", case, 2_500, 60_000, |(n, i, spec), obs| {
                let img = spec.render();
                let m = n - 2 * i.index(n / 2 + 1);
                let tolerance = 2. * moment_error(*n, m, &img);
                let base = must("moment", || calculate_zernike_image_moment(*n, m, &array(&img)))?;
                let mut turns = vec![img.clone()];
                for _ in 0..3 {
                    turns.push(turned(turns.last().unwrap()));
                }
                obs.nontrivial = turns[1] != img;
                obs.label(if img.h == img.w { "square" } else { "not square" });
                for (quarter, picture) in turns.iter().enumerate() {
                    let found = must("moment", || calculate_zernike_image_moment(*n, m, &array(picture)))?;
                    ensure!((found.norm() - base.norm()).abs() <= tolerance, "|moment {} {}| is {}, after {} quarter turns {}", n, m, base.norm(), quarter, found.norm());
                    // a quarter turn rotates the moment by m right angles, one way or the other
                    let angle = num::Complex::new(0., 1.).powu((m * quarter) as u32);
                    ensure!((found - base * angle).norm() <= tolerance || (found - base / angle).norm() <= tolerance,
                        "moment {} {} is {}, after {} quarter turns {}", n, m, base, quarter, found);
                    for (picture, what) in [(mirrored(picture), "mirrored"), (transposed(picture), "transposed")] {
                        let found = must("moment", || calculate_zernike_image_moment(*n, m, &array(&picture)))?;
                        ensure!((found.norm() - base.norm()).abs() <= tolerance, "|moment {} {}| is {}, {} after {} quarter turns {}", n, m, base.norm(), what, quarter, found.norm());
                    }
                }
                Ok(())
            });
            let case = (1usize..9, imgs::img(prop_oneof![size().boxed(), (2usize..37).prop_map(|n| (n, n)).boxed()]));
            let features = |(amount, spec): &(usize, imgs::ImgSpec), obs: &mut kit::Obs| -> kit::Verdict {
                let img = spec.render();
                let features = |picture: &Img| must("features", || calculate_features(&array(picture), FeaturesType::MomentsZernike, *amount));
                let base = features(&img)?;
                let errors = feature_errors(*amount, &img);
                let mut picture = img.clone();
                for _ in 0..4 {
                    picture = turned(&picture);
                    obs.nontrivial |= picture != img;
                    for (picture, what) in [(picture.clone(), "turned"), (mirrored(&picture), "mirrored")] {
                        let found = features(&picture)?;
                        ensure!(found.len() == base.len(), "{} features become {}", base.len(), found.len());
                        for ((a, b), error) in base.iter().zip(&found).zip(&errors) {
                            ensure!((a - b).abs() <= 2. * error, "features {:?} become {:?} when {}", base, found, what);
                        }
                    }
                }
                Ok(())
            };
            suite.sub("features", case, 800, 20_000, features);
            let vast = (10usize..131, 10usize..131).prop_map(|(h, w)| (2 * h, 2 * w));
            suite.sub_shrink("vast", (1usize..5, imgs::img(vast)), 12, 400, 8, features);
        },
    )
}
