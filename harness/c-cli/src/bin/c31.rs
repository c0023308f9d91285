//! C31: what the program cannot do it refuses, and then leaves no result behind and nothing damaged.
use c_cli::*;
use kit::ensure;
use kit::prelude::*;
use serde::{Deserialize, Serialize};
use std::path::PathBuf;

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Bad {
    Missing,
    Folder,
    Empty,
    Text,
    CutOff(kit::Pick),
    NoExtension,
    UnknownExtension(u8),
    OtherFormat(u8),
    Sides(Picture),
    TooSmall(Picture),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Way {
    NoSuffix { out: bool },
    Help { everything: bool },
    NoFiles { out: bool },
    UnknownOption(String),
    SuffixMissing,
    OutIsFile,
    OutBelowFile,
    OutLocked { there: bool },
    ResultIsFolder { out: bool },
    BadInput { bad: Bad, before: bool, after: bool, out: u8, stale: bool },
    /// The file is missing, and its name looks like an option.
    Hyphen(String),
}

fn ways() -> impl Strategy<Value = Way> {
    let uneven = (1usize..40, 1usize..40).prop_filter("even", |(h, w)| h % 8 != 0 || w % 8 != 0);
    let large = (180usize..230, 200usize..230).prop_filter("even", |(h, w)| h % 8 != 0 || w % 8 != 0);
    let small = (1usize..22, 1usize..22).prop_map(|(h, w)| (8 * h, 8 * w));
    let bad = prop_oneof![
        1 => Just(Bad::Missing),
        1 => Just(Bad::Folder),
        1 => Just(Bad::Empty),
        1 => Just(Bad::Text),
        2 => kit::pick().prop_map(Bad::CutOff),
        1 => Just(Bad::NoExtension),
        1 => any::<u8>().prop_map(Bad::UnknownExtension),
        1 => any::<u8>().prop_map(Bad::OtherFormat),
        3 => picture(prop_oneof![2 => uneven, 1 => large]).prop_map(Bad::Sides),
        3 => picture(small).prop_map(Bad::TooSmall),
    ];
    prop_oneof![
        2 => any::<bool>().prop_map(|out| Way::NoSuffix { out }),
        1 => any::<bool>().prop_map(|everything| Way::Help { everything }),
        1 => any::<bool>().prop_map(|out| Way::NoFiles { out }),
        1 => prop::sample::select(vec!["-x", "--suffix", "-q1", "--out=z"]).prop_map(|s| Way::UnknownOption(s.to_string())),
        1 => Just(Way::SuffixMissing),
        2 => Just(Way::OutIsFile),
        2 => Just(Way::OutBelowFile),
        1 => any::<bool>().prop_map(|there| Way::OutLocked { there }),
        1 => any::<bool>().prop_map(|out| Way::ResultIsFolder { out }),
        1 => prop::sample::select(vec!["-a.png", "-s", "-o", "-h", "--help", "--", "-", "-q.jpg", "--bad.bmp"]).prop_map(|s| Way::Hyphen(s.to_string())),
        16 => (bad, prop::bool::weighted(0.12), prop::bool::weighted(0.1), any::<u8>(), any::<bool>())
            .prop_map(|(bad, before, after, out, stale)| Way::BadInput { bad, before, after, out, stale }),
    ]
}

fn strings(args: &[&str]) -> Vec<String> {
    args.iter().map(|s| s.to_string()).collect()
}

fn main() {
    kit::engine::run(
        "C31",
        "runs of the built program which cannot succeed or have nothing to do: no suffix, no files, help, unknown options, files which look like options behind two hyphens, output \
         folders which are files or may not be written to, results in whose place a folder stands, and inputs which are missing, folders, empty, text, cut off, of unknown or other format, of \
         sides which cannot be halved three times or too small for the record; non-trivial: every run",
        &["folders the program makes before it finds an input unusable are no damage", "files named after an unusable one may be marked or left alone"],
        |suite| {
            let good = picture(good_size()).prop_filter("costly", |p| p.planes.len() < 3);
            suite.sub_shrink("runs", (ways(), good), 600, 12_000, 30, |(way, good), obs| {
                obs.nontrivial();
                let name = format!("{:?}", way);
                obs.label(name.split(|c: char| !c.is_alphanumeric()).next().unwrap());
                let scratch = Scratch::new();
                let good_name = format!("good.{}", good.extension);
                let good_file = good.file();
                scratch.put(&good_name, &good_file);
                scratch.put("kept.txt", b"something else");
                scratch.put("out/kept.bin", b"more");
                let good_name = good_name.as_str();
                // (arguments, must succeed, results which have to be there, results which may be there)
                let mut must_be = vec![];
                let mut may_be = vec![];
                let mut fails = true;
                let args = match way {
                    Way::NoSuffix { out } => {
                        fails = false;
                        if *out { strings(&[good_name, "-o", "new"]) } else { strings(&[good_name]) }
                    }
                    Way::Help { everything } => {
                        fails = false;
                        if *everything { strings(&["-h", "-s", "x", "-o", "new", good_name]) } else { strings(&["--help"]) }
                    }
                    Way::NoFiles { out } => {
                        fails = false;
                        if *out { strings(&["-s", "x", "-o", "new"]) } else { strings(&["-s", "x"]) }
                    }
                    Way::UnknownOption(option) => strings(&["-s", "x", good_name, option]),
                    Way::Hyphen(name) => strings(&["-s", "x", "--", name]),
                    Way::SuffixMissing => strings(&[good_name, "-s"]),
                    Way::OutIsFile => strings(&["-s", "x", "-o", "kept.txt", good_name]),
                    Way::OutBelowFile => strings(&["-s", "x", "-o", "kept.txt/below", good_name]),
                    Way::OutLocked { there } => {
                        let folder = if *there { "out" } else { "out/new" };
                        if *there {
                            scratch.put(&format!("out/good-x.{}", good.extension), b"an earlier result");
                            scratch.deny(&format!("out/good-x.{}", good.extension));
                        }
                        scratch.lock("out");
                        strings(&["-s", "x", "-o", folder, good_name])
                    }
                    Way::ResultIsFolder { out } => {
                        let folder = if *out { "out/" } else { "" };
                        scratch.put(&format!("{}good-x.{}/inside", folder, good.extension), b"not to be lost");
                        let mut args = strings(&["-s", "x", good_name]);
                        if *out {
                            args.extend(strings(&["-o", "out"]));
                        }
                        args
                    }
                    Way::BadInput { bad, before, after, out, stale } => {
                        let kind = format!("{:?}", bad);
                        obs.label(format!("bad: {}", kind.split(|c: char| !c.is_alphanumeric()).next().unwrap()));
                        let bad_name = match bad {
                            Bad::Missing => "bad.png".to_string(),
                            Bad::Folder => {
                                scratch.folder("bad.png");
                                "bad.png".to_string()
                            }
                            Bad::Empty => {
                                let name = format!("bad.{}", good.extension);
                                scratch.put(&name, b"");
                                name
                            }
                            Bad::Text => {
                                let name = format!("bad.{}", good.extension);
                                scratch.put(&name, b"this is no picture, but a text of some length");
                                name
                            }
                            Bad::CutOff(at) => {
                                let format = if good.kind == Kind::L8 { "bmp" } else { "png" };
                                let file = write(&good.render(), format);
                                let name = &format!("bad.{}", format);
                                // the last few bytes may be padding or a check sum
                                scratch.put(name, &file[..at.index(file.len() - 200)]);
                                name.to_string()
                            }
                            Bad::NoExtension => {
                                scratch.put("bad", &good_file);
                                "bad".to_string()
                            }
                            Bad::UnknownExtension(n) => {
                                let name = format!("bad.{}", ["txt", "xyz", "p", "pngx", "doc"][*n as usize % 5]);
                                scratch.put(&name, &good_file);
                                name
                            }
                            Bad::OtherFormat(n) => {
                                let others: Vec<&str> = ["png", "bmp", "tiff", "gif"].into_iter().filter(|e| !good.extension.eq_ignore_ascii_case(e) && !(good.extension == "tif" && *e == "tiff")).collect();
                                let name = format!("bad.{}", others[*n as usize % others.len()]);
                                scratch.put(&name, &good_file);
                                name
                            }
                            Bad::Sides(picture) | Bad::TooSmall(picture) => {
                                let name = format!("bad.{}", picture.extension);
                                scratch.put(&name, &picture.file());
                                name
                            }
                        };
                        let mut args = strings(&["-s", "x"]);
                        let mut folder = "";
                        if out % 2 == 0 {
                            folder = if out % 4 == 0 { "out/" } else { "new/" };
                            args.extend(strings(&["-o", &folder[..3]]));
                        }
                        if *stale && folder != "new/" && bad_name != "bad" {
                            // what an earlier run left
                            let (stem, extension) = bad_name.split_once('.').unwrap();
                            scratch.put(&format!("{}{}-x.{}", folder, stem, extension), b"an earlier result");
                        }
                        let result = PathBuf::from(format!("{}good-x.{}", folder, good.extension));
                        if *before {
                            args.push(good_name.to_string());
                            must_be.push(result.clone());
                        }
                        args.push(bad_name);
                        if *after && !*before {
                            args.push(good_name.to_string());
                            may_be.push(result.clone());
                        }
                        args
                    }
                };
                let before = scratch.files();
                let ending = scratch.run(&args)?;
                if matches!(way, Way::OutLocked { .. }) && !ending.bound {
                    obs.skipped = true;
                    return Ok(());
                }
                ensure!(ending.code.is_some(), "{:?} is ended by a signal", args);
                if fails {
                    ensure!(ending.code != Some(0), "{:?} reports success; it says {:?}", args, ending.stdout.chars().take(200).collect::<String>());
                }
                if let Way::Help { .. } | Way::NoFiles { .. } = way {
                    ensure!(ending.code == Some(0), "{:?} ends with {:?}", args, ending.code);
                    ensure!(ending.stdout.contains("Usage") && ending.stdout.contains("-s") && ending.stdout.contains("-o"),
                        "{:?} does not explain the options: {:?}", args, ending.stdout);
                }
                let mut after = scratch.files();
                for (path, needed) in must_be.iter().map(|p| (p, true)).chain(may_be.iter().map(|p| (p, false))) {
                    match after.remove(path) {
                        Some(Some(bytes)) => {
                            let found = read(&bytes, &good.extension).map_err(|e| format!("{:?} cannot be read: {}", path, e))?;
                            same(&found, &expected(&good_file, &good.extension).0).map_err(|e| format!("{:?} is not the library's result: {}", path, e))?;
                        }
                        _ => ensure!(!needed, "{:?}: no result for the file before the unusable one", args),
                    }
                }
                for (path, contents) in &before {
                    ensure!(after.remove(path).as_ref() == Some(contents), "{:?} changed {:?}", args, path);
                }
                let rest: Vec<_> = after.iter().filter(|(_, contents)| contents.is_some()).map(|(path, _)| path).collect();
                ensure!(rest.is_empty(), "{:?} leaves {:?}", args, rest);
                if !matches!(way, Way::BadInput { .. }) {
                    ensure!(after.is_empty(), "{:?} makes folders: {:?}", args, after.keys());
                }
                Ok(())
            });
        },
    )
}
