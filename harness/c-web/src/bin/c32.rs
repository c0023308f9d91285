//! C32: what the browser library hands to its page is the decoded and the marked picture.
use c_cli::{picture, read, Kind, Picture};
use js_sys::Uint8Array;
use kit::imgs::Mix;
use kit::prelude::*;
use kit::{ensure, must, quiet};
use serde::{Deserialize, Serialize};
use web_under_test::get_watermarking_process;

const NAMES: [(&str, &str); 7] =
    [("png", "Png"), ("jpg", "Jpeg"), ("jpeg", "Jpeg"), ("bmp", "Bmp"), ("tiff", "Tiff"), ("tif", "Tiff"), ("gif", "Gif")];

fn name(picture: &Picture) -> Option<&'static str> {
    let extension = picture.extension.to_lowercase();
    NAMES.iter().find(|(e, _)| *e == extension).map(|(_, name)| *name)
}

fn known(size: impl Strategy<Value = (usize, usize)> + 'static) -> impl Strategy<Value = Picture> {
    picture(size).prop_filter("file type the browser library does not offer", |p| name(p).is_some())
}

fn first_difference(a: &[u8], b: &[u8]) -> Option<usize> {
    if a.len() != b.len() {
        return Some(a.len().min(b.len()));
    }
    a.iter().zip(b).position(|(x, y)| x != y)
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Step {
    Format(String),
    Source(u32, u32, Vec<u8>),
    Marked(u32, u32, Vec<u8>),
    SourceSize(u32, u32),
    MarkedData(Vec<u8>),
    Rebuild,
    RebuildSource(u32, u32, Vec<u8>),
}

fn step() -> impl Strategy<Value = Step> {
    let data = || prop_oneof![1 => prop::collection::vec(any::<u8>(), 0..9), 1 => prop::collection::vec(any::<u8>(), 3)];
    prop_oneof![
        "[A-Za-z]{0,5}".prop_map(Step::Format),
        (any::<u32>(), any::<u32>(), data()).prop_map(|(w, h, d)| Step::Source(w, h, d)),
        (any::<u32>(), any::<u32>(), data()).prop_map(|(w, h, d)| Step::Marked(w, h, d)),
        (any::<u32>(), any::<u32>()).prop_map(|(w, h)| Step::SourceSize(w, h)),
        data().prop_map(Step::MarkedData),
        Just(Step::Rebuild),
        (any::<u32>(), any::<u32>(), data()).prop_map(|(w, h, d)| Step::RebuildSource(w, h, d)),
    ]
}

fn main() {
    kit::engine::run(
        "C32",
        "picture files of five formats and eight sample types with generated depths and steps, files cut off, damaged, empty or \
         too small for the record, and histories of setters on the handed-over models; non-trivial: every picture or history",
        &["the JavaScript side is replaced by stand-ins for its arrays and its console", "oracle: readers of the file formats and the marking library itself"],
        |suite| {
            let small = kit::prelude::prop::sample::select(vec![(208usize, 224usize), (216, 216), (224, 208)]);
            suite.sub_shrink("process", (known(small), 20.0f64..120., 0.3f64..8.), 56, 1_200, 8, |(picture, depth, step), obs| {
                obs.nontrivial();
                let expected_name = name(picture).unwrap();
                obs.label(format!("{} {:?}", expected_name, picture.kind));
                let file = picture.file();
                let handed = Uint8Array::from(&file[..]);
                let process = must("get_watermarking_process", || get_watermarking_process(handed.clone(), *depth, *step))?;
                ensure!(handed.to_vec() == file, "the caller's bytes changed");
                ensure!(process.get_source_format() == expected_name, "a {} file is called {:?}", expected_name, process.get_source_format());
                let source = read(&file, &picture.extension)?;
                let (h, w) = (source.height(), source.width());
                let marked = watermarking::watermark(source.clone(), *depth, *step, 11);
                for (what, model, image) in [("source", process.get_source(), source), ("result", process.get_watermarked(), marked)] {
                    ensure!((model.get_width(), model.get_height()) == (w, h), "{}: {} wide and {} high, not {} and {}", what, model.get_width(), model.get_height(), w, h);
                    let data = model.get_data().to_vec();
                    ensure!(data.len() == (w * h * 4) as usize, "{}: {} bytes for {} pixels", what, data.len(), w * h);
                    let at = first_difference(&data, image.to_rgba8().as_raw());
                    ensure!(at.is_none(), "{}: byte {} differs", what, at.unwrap());
                }
                // the samples handed over belong to one model alone
                let (mine, other) = (process.get_source().get_data(), process.get_watermarked().get_data());
                let (before, length) = (other.to_vec(), mine.length());
                mine.fill(85, 0, length);
                ensure!(other.to_vec() == before, "changing the samples of the source changes those of the result");
                ensure!(handed.to_vec() == file, "changing the samples of the source changes the caller's bytes");
                Ok(())
            });
            let bad = (known((1usize..24, 1usize..24).prop_map(|(h, w)| (8 * h, 8 * w))), 0u8..6, any::<u64>());
            suite.sub_shrink("refused", bad, 500, 10_000, 20, |(picture, way, seed), obs| {
                obs.nontrivial();
                let mut mix = Mix(*seed);
                let mut file = picture.file();
                let what = match way {
                    0 => "empty",
                    1 => "noise",
                    2 => "no first bytes",
                    _ => "too small",
                };
                obs.label(what);
                match way {
                    0 => file.clear(),
                    1 => file = (0..1 + mix.below(200)).map(|i| if i == 0 { 3 } else { mix.byte() }).collect(),
                    2 => drop(file.drain(..4)),
                    _ => (),
                }
                // 24 by 24 blocks and less have room for 72 bytes; the record takes 88
                let result = quiet(|| get_watermarking_process(Uint8Array::from(&file[..]), 100., 1.));
                ensure!(result.is_err(), "{}: a process is handed over", what);
                Ok(())
            });
            // one expensive picture per worker, then histories on what was handed over
            let seed = Picture {
                kind: Kind::L8,
                extension: "png".to_string(),
                planes: vec![kit::imgs::ImgSpec { h: 216, w: 216, pattern: kit::imgs::Pattern::Blobs, lo: 10, hi: 245, seed: 7, stark: None }],
                fine: 0,
            };
            let process = std::cell::RefCell::new(None);
            suite.sub("models", prop::collection::vec(step(), 1..12), 20_000, 400_000, |steps, obs| {
                obs.nontrivial();
                let mut slot = process.borrow_mut();
                let p = slot.get_or_insert_with(|| get_watermarking_process(Uint8Array::from(&seed.file()[..]), 100., 1.));
                // a known start
                let blank = p.get_source().construct_like(2, 3, Uint8Array::from(&[1u8, 2, 3][..]));
                p.set_source_format("Start".to_string());
                p.set_source(blank.clone());
                p.set_watermarked(blank);
                let mut format = "Start".to_string();
                let mut source = (2u32, 3u32, vec![1u8, 2, 3]);
                let mut marked = source.clone();
                for (i, step) in steps.iter().enumerate() {
                    let array = |data: &Vec<u8>| Uint8Array::from(&data[..]);
                    match step {
                        Step::Format(text) => {
                            format = text.clone();
                            p.set_source_format(text.clone());
                        }
                        Step::Source(w, h, d) | Step::RebuildSource(w, h, d) => {
                            source = (*w, *h, d.clone());
                            if let Step::Source(..) = step {
                                let mut model = p.get_source();
                                model.set_width(*w);
                                model.set_height(*h);
                                model.set_data(array(d));
                                p.set_source(model);
                            } else {
                                let model = p.get_watermarked().construct_like(*w, *h, array(d));
                                p.set_source(model);
                            }
                        }
                        Step::Marked(w, h, d) => {
                            marked = (*w, *h, d.clone());
                            let model = p.get_source().construct_like(*w, *h, array(d));
                            p.set_watermarked(model);
                        }
                        Step::SourceSize(w, h) => {
                            // a copy: the process keeps what it has
                            let mut model = p.get_source();
                            model.set_width(*w);
                            model.set_height(*h);
                        }
                        Step::MarkedData(d) => {
                            marked.2 = d.clone();
                            let mut model = p.get_watermarked();
                            model.set_data(array(d));
                            p.set_watermarked(model);
                        }
                        Step::Rebuild => {
                            let again = p.construct_like(p.get_source_format(), p.get_source(), p.get_watermarked());
                            *p = again;
                        }
                    }
                    let read = |model: (u32, u32, Uint8Array)| (model.0, model.1, model.2.to_vec());
                    let (s, m) = (p.get_source(), p.get_watermarked());
                    let found = (
                        p.get_source_format(),
                        read((s.get_width(), s.get_height(), s.get_data())),
                        read((m.get_width(), m.get_height(), m.get_data())),
                    );
                    ensure!(found == (format.clone(), source.clone(), marked.clone()), "after step {} the models hold {:?}, not {:?}", i, found, (&format, &source, &marked));
                }
                Ok(())
            });
        },
    )
}
