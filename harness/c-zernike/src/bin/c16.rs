//! C16: the feature vector.
use c_zernike::*;
use feature::FeaturesCalculator;
use image_features::calculate_features;
use image_features::feature_types::FeaturesType;
use kit::imgs::{self, Img, ImgSpec};
use kit::prelude::*;
use kit::{ensure, model, must};
use moments::MomentFeaturesCalculator;
use zernike::ZernikeFeaturesCalculator;

fn check(amount: usize, spec: &ImgSpec, obs: &mut kit::Obs) -> kit::Verdict {
    let img = spec.render();
    obs.nontrivial = img.distinct() > 1;
    obs.label(if amount > 12 { "more features".to_string() } else { format!("{} features", amount) });
    let found = must("features", || calculate_features(&array(&img), FeaturesType::MomentsZernike, amount))?;
    ensure!(found.len() == amount, "{} features instead of {}", found.len(), amount);
    let expected = model::features(&img, amount);
    let errors = feature_errors(amount, &img);
    for i in 0..amount {
        ensure!(found[i].is_finite() && found[i] >= 0., "feature {} is {}", i, found[i]);
        ensure!((found[i] - expected[i]).abs() <= errors[i], "features {:?}, expected {:?}", found, expected);
    }
    Ok(())
}

fn main() {
    kit::engine::run(
        "C16",
        "1..12 features (some up to 85, as many as a record holds) of pictures of 2..40 by 2..40 pixels (some up to 150) of eleven kinds; non-trivial: a picture that is not flat",
        &["tolerance a multiple of 1e-13 times the sum of the magnitudes of the terms of the radial polynomial"],
        |suite| {
            let size = || prop_oneof![2 => (2usize..41, 2usize..41), 1 => (2usize..41).prop_map(|n| (n, n))];
            suite.sub("vector", (prop_oneof![3 => 1usize..13, 1 => Just(11usize)], imgs::img(size())), 2_400, 60_000, |(amount, spec), obs| check(*amount, spec, obs));
            suite.sub("large", (prop_oneof![Just(3usize), Just(11usize)], imgs::img((60usize..150, 60usize..150))), 64, 1_500, |(amount, spec), obs| check(*amount, spec, obs));
            suite.sub_shrink("vast", (prop_oneof![Just(2usize), Just(5usize)], imgs::img(prop_oneof![2 => (200usize..330, 200usize..330), 1 => (1usize..20, 300usize..700), 1 => (300usize..700, 1usize..20)])), 16, 400, 8, |(amount, spec), obs| check(*amount, spec, obs));
            suite.sub("many", (13usize..86, imgs::img((2usize..20, 2usize..20))), 64, 1_500, |(amount, spec), obs| check(*amount, spec, obs));
            suite.sub("same", (1usize..9, imgs::img(size())), 800, 20_000, |(amount, spec), obs| {
                let img = spec.render();
                obs.nontrivial = img.distinct() > 1;
                let first = must("features", || calculate_features(&array(&img), FeaturesType::MomentsZernike, *amount))?;
                let second = must("features", || calculate_features(&array(&img), FeaturesType::MomentsZernike, *amount))?;
                ensure!(first == second, "the features of one picture are {:?} and {:?}", first, second);
                let direct = must("features", || ZernikeFeaturesCalculator {}.calculate_features(&array(&img), *amount))?;
                ensure!(first == direct, "{:?} and {:?}", first, direct);
                let order = must("order", || ZernikeFeaturesCalculator {}.get_order_by_features_amount(*amount))?;
                ensure!(order == 2 * amount - 1, "order {} for {} features", order, amount);
                for i in 0..*amount {
                    let moment = must("moment", || ZernikeFeaturesCalculator {}.calculate_moment(&array(&img), 2 * i + 1, order))?;
                    ensure!((moment.norm() - first[i]).abs() <= 2. * moment_error(order, 2 * i + 1, &img), "feature {} is {}, the moment {}", i, first[i], moment);
                }
                Ok(())
            });
            // different pictures are told apart: a changed pixel away from the middle changes the features
            suite.sub("sensitive", (2usize..9, imgs::ranged((4usize..30, 4usize..30), 0, 200), kit::pick(), 30u8..56), 1_500, 30_000, |(amount, spec, at, change), obs| {
                let img = spec.render();
                let mut other = img.clone();
                let at = at.index(img.px.len());
                other.px[at] += change;
                let (a, b) = (model::features(&img, *amount), model::features(&other, *amount));
                let errors = feature_errors(*amount, &Img::from_fn(img.h, img.w, |_, _| 255));
                if a.iter().zip(&b).zip(&errors).all(|((x, y), error)| (x - y).abs() < 4. * error) {
                    obs.skipped = true;
                    return Ok(());
                }
                obs.nontrivial();
                let first = must("features", || calculate_features(&array(&img), FeaturesType::MomentsZernike, *amount))?;
                let second = must("features", || calculate_features(&array(&other), FeaturesType::MomentsZernike, *amount))?;
                ensure!(first.iter().zip(&second).zip(&errors).any(|((x, y), error)| (x - y).abs() > *error), "pixel {} does not matter: {:?}", at, first);
                Ok(())
            });
        },
    )
}
