//! C28: the channels of a picture are marked independently of each other.
use c_watermark::bound;
use c_watermark::colour::*;
use image::DynamicImage;
use kit::imgs::Img;
use kit::prelude::*;
use kit::{ensure, must};

fn single(plane: &Img, depth: f64, step: f64, amount: usize) -> Result<Img, String> {
    let marked = must("watermark", || watermarking::watermark(DynamicImage::ImageLuma8(c_watermark::gray(plane)), depth, step, amount))?;
    Ok(split(&marked)[0].clone())
}

fn equal(what: &str, a: &Img, b: &Img) -> Result<(), String> {
    let at = (0..a.px.len().max(b.px.len())).find(|i| a.px.get(*i) != b.px.get(*i));
    ensure!(at.is_none() && a.w == b.w, "{}: pixel {} differs: {:?} and {:?}", what, at.unwrap_or(0), a.px.get(at.unwrap_or(0)), b.px.get(at.unwrap_or(0)));
    Ok(())
}

fn main() {
    kit::engine::run(
        "C28",
        "colour and transparent pictures with any pixel values, some with planes equal, opposite, shifted, rearranged or marked like another; non-trivial: more than one plane",
        &["differential: the same code marks each plane on its own"],
        |suite| {
            let case = (prop_oneof![6 => 1usize..3, 1 => 3usize..12], prop_oneof![5 => 2.0f64..200., 1 => 0.1f64..2., 1 => 200.0f64..2000.], prop_oneof![5 => 0.3f64..30., 1 => c_watermark::steps()])
                .prop_flat_map(|(amount, depth, step)| (colours(&KINDS, amount, 0, 80_000), Just(depth), Just(step), Just(amount), any::<[u8; 3]>(), any::<[u8; 3]>()));
            suite.sub_shrink("planes", case, 160, 4_000, 40, |(colours, depth, step, amount, order, related), obs| {
                let mut before = planes(colours);
                // planes that have something to do with another plane of the picture
                for k in 0..before.len() {
                    let other = before[(k + 1 + related[0] as usize) % before.len()].clone();
                    if related[1] as usize % 5 != k {
                        continue;
                    }
                    let how = related[2] % 10;
                    obs.label(["equal planes", "opposite planes", "shifted planes", "marked like another", "nearly equal planes", "rolled planes", "upside down", "mirrored planes", "equal sums", "marked twice"][how as usize]);
                    before[k] = match how {
                        0 => other,
                        1 => Img::new(other.h, other.w, other.px.iter().map(|p| 255 - p).collect()),
                        2 => Img::new(other.h, other.w, other.px.iter().map(|p| p.saturating_add(order[0] % 9)).collect()),
                        3 => single(&other, *depth, *step, *amount)?,
                        4 => {
                            let mut near = other;
                            let at = order[1] as usize * near.px.len() / 256;
                            near.px[at] ^= 1;
                            near
                        }
                        // the same samples in another arrangement
                        5 => {
                            let mut rolled = other;
                            let by = (1 + order[1] as usize) * 37 % rolled.px.len();
                            rolled.px.rotate_left(by);
                            rolled
                        }
                        6 => Img::new(other.h, other.w, other.px.chunks(other.w).rev().flatten().cloned().collect()),
                        7 => {
                            let mut mirrored = other;
                            let w = mirrored.w;
                            // but for the first row, in one of two
                            mirrored.px.chunks_mut(w).skip((order[2] % 2) as usize).for_each(|row| row.reverse());
                            mirrored
                        }
                        8 => {
                            let mut moved = other;
                            let n = moved.px.len();
                            let (i, j) = (order[1] as usize * n / 256, order[2] as usize * n / 300);
                            moved.px.swap(i, j);
                            if moved.px[n / 2] < 255 && moved.px[n / 3] > 0 {
                                moved.px[n / 2] += 1;
                                moved.px[n / 3] -= 1;
                            }
                            moved
                        }
                        _ => {
                            let once = single(&before[k], *depth, *step, *amount)?;
                            single(&once, *depth, *step, *amount)?
                        }
                    };
                }
                let kind = colours.kind;
                obs.label(format!("{:?}", kind));
                let colour = if kind.colour() { 3 } else { 1 };
                obs.nontrivial = before.len() > 1;
                if *depth > 110. {
                    obs.label(if bound(*depth, 3) > 10. { "saturating" } else { "strong" });
                }
                let marked = must("watermark", || watermarking::watermark(assemble(kind, &before, colours.fine), *depth, *step, *amount))?;
                let after = split(&marked);
                ensure!(after.len() == before.len(), "{} channels become {}", before.len(), after.len());
                let mut alone = vec![];
                for k in 0..colour {
                    alone.push(single(&before[k], *depth, *step, *amount)?);
                    equal(&format!("channel {} of {:?} and the same channel marked as a grey picture", k, kind), &after[k], &alone[k])?;
                }
                // exchanging channels exchanges the result
                if kind.colour() {
                    let k = order[0] as usize % 3;
                    let mut other = before.clone();
                    other.swap(k, (k + 1) % 3);
                    let swapped = split(&must("watermark", || watermarking::watermark(assemble(kind, &other, colours.fine), *depth, *step, *amount))?);
                    for c in 0..colour {
                        let from = if c == k { (k + 1) % 3 } else if c == (k + 1) % 3 { k } else { c };
                        equal(&format!("channels {} and {} exchanged, channel {}", k, (k + 1) % 3, c), &swapped[c], &after[from])?;
                    }
                } else if kind.alpha() {
                    // transparency plays no part
                    let mut other = before.clone();
                    other[colour].px.iter_mut().for_each(|p| *p = p.wrapping_mul(order[1] | 1).wrapping_add(order[2]));
                    let opaque = split(&must("watermark", || watermarking::watermark(assemble(kind, &other, colours.fine), *depth, *step, *amount))?);
                    equal("another transparency, grey channel", &opaque[0], &after[0])?;
                }
                Ok(())
            });
        },
    )
}
