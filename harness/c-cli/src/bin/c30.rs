//! C30: the program writes the marked picture of every file, under the right name, and nothing else.
use c_cli::*;
use kit::ensure;
use kit::prelude::*;
use serde::{Deserialize, Serialize};
use std::path::PathBuf;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Input {
    folder: String,
    stem: String,
    picture: Picture,
    /// Whether an older, longer file has the name of the result.
    stale: bool,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Scenario {
    inputs: Vec<Input>,
    suffix: String,
    /// How the output folder is named, which folder that is, and whether it exists already.
    out: Option<(String, String, bool)>,
    absolute: bool,
    arrangement: u8,
}

fn scenario() -> impl Strategy<Value = Scenario> {
    let stem = prop_oneof![
        3 => "[a-z]{1,8}",
        1 => "[a-zA-Z0-9_ +.-]{0,6}[a-z0-9]",
        1 => prop::sample::select(vec!["ünï", "日本", "x.y.z", "a-b", "-x", "..a", "png", "x.png", ".hidden", "--s", "-s"]).prop_map(|s| s.to_string()),
        // names as long as file systems allow, nearly
        1 => (prop::sample::select(vec!["a", "long name ", "日", "v.1-"]), 20usize..170).prop_map(|(part, n)| part.repeat(n / part.len()) + "z"),
    ];
    let folder = prop::sample::select(vec!["", "", "in", "in/deep", "a b", "./in", "in/../in"]).prop_map(|s| s.to_string());
    let input = (folder, stem, picture(good_size()), prop::bool::weighted(0.2))
        .prop_map(|(folder, stem, picture, stale)| Input { folder, stem, picture, stale })
        .boxed();
    let suffix = prop_oneof![
        3 => "[a-z]{1,6}",
        1 => "[a-zA-Z0-9_ .+]{0,8}",
        1 => prop::sample::select(vec!["", "v1.2", "-", "ø", "--x", ".png", "a b"]).prop_map(|s| s.to_string()),
        1 => (prop::sample::select(vec!["s", "ß", "-w"]), 4usize..50).prop_map(|(part, n)| part.repeat(n / part.len())),
    ];
    let out = prop::option::weighted(0.65, prop::sample::select(vec![
        ("out", "out", true), ("out", "out", false), ("out/", "out", true), ("x/y/z", "x/y/z", false), ("in/../res", "res", true),
        (".", "", true), ("ö ü", "ö ü", false), ("in", "in", true), ("./out/.", "out", true),
    ])).prop_map(|o| o.map(|(given, meant, there)| (given.to_string(), meant.to_string(), there)));
    // more inputs are grey ones, for the sake of time
    let many = prop::collection::vec(input.clone(), 3..6).prop_map(|mut inputs| {
        for input in &mut inputs {
            input.picture.kind = Kind::L8;
            input.picture.planes.truncate(1);
            if !FORMATS.iter().any(|(e, kinds)| *e == input.picture.extension && kinds.contains(&Kind::L8)) {
                input.picture.extension = "png".to_string();
            }
        }
        inputs
    });
    let inputs = prop_oneof![6 => prop::collection::vec(input.clone(), 1..2), 2 => prop::collection::vec(input, 2..3), 1 => many];
    (inputs, suffix, out, any::<bool>(), any::<u8>(), prop::bool::weighted(0.7)).prop_map(|(mut inputs, suffix, out, absolute, arrangement, differ)| {
        // mostly the names differ, so that every file leaves a result
        for i in 0..inputs.len() {
            if differ {
                inputs[i].stem = format!("{}{}", inputs[i].stem, i);
            } else {
                inputs[i].stem = inputs[0].stem.clone();
            }
        }
        Scenario { inputs, suffix, out, absolute, arrangement }
    })
}

fn main() {
    kit::engine::run(
        "C30",
        "runs of the built program over 1..2 pictures of seven file formats and eight sample types, in nested folders, with plain, \
         spaced, dotted and non-ASCII names and suffixes, output folders which exist, do not, or are left out, options before, \
         between and after the files, also behind two hyphens, names of up to 230 bytes, and older results in the way; non-trivial: every run",
        &["oracle: the library's result for the same file, written in the same file format", "readers and writers of the file formats are trusted"],
        |suite| {
            suite.sub_shrink("runs", scenario(), 48, 1_200, 8, |scenario, obs| {
                obs.nontrivial();
                let scratch = Scratch::new();
                scratch.folder("in");
                let mut paths = vec![];
                let mut results: Vec<(PathBuf, &Input, Vec<u8>)> = vec![];
                let behind = scenario.arrangement / 2 % 4 == 3;
                let base = |relative: &str| if scenario.absolute { format!("{}/{}", scratch.work().display(), relative) } else { relative.to_string() };
                if let Some((_, meant, true)) = &scenario.out {
                    scratch.folder(meant);
                    scratch.put(&format!("{}/kept.txt", meant), b"something else");
                }
                for input in &scenario.inputs {
                    obs.label(format!("{} {:?}", input.picture.extension.to_lowercase(), input.picture.kind));
                    let file = input.picture.file();
                    let name = format!("{}.{}", input.stem, input.picture.extension);
                    let path = if input.folder.is_empty() { name } else { format!("{}/{}", input.folder, name) };
                    scratch.put(&path, &file);
                    if let Some(i) = results.iter().position(|(_, earlier, _)| earlier.folder == input.folder && earlier.stem == input.stem && earlier.picture.extension == input.picture.extension) {
                        // the same file once more
                        results[i].2 = file.clone();
                    }
                    let given = base(&path);
                    // behind two hyphens every argument is a file
                    paths.push(if given.starts_with('-') && !behind { format!("./{}", given) } else { given });
                    let result = format!("{}-{}.{}", input.stem, scenario.suffix, input.picture.extension);
                    let result = match &scenario.out {
                        Some((_, meant, _)) if !meant.is_empty() => format!("{}/{}", meant, result),
                        _ => result,
                    };
                    // of inputs with the same name the last one counts
                    results.retain(|(earlier, _, _)| *earlier != PathBuf::from(&result));
                    if input.stale && scenario.out.as_ref().map_or(true, |out| out.2) {
                        scratch.put(&result, &vec![7; 600_000]);
                    }
                    results.push((PathBuf::from(result), input, file));
                }
                let mut options = vec![];
                if scenario.arrangement & 1 == 0 || scenario.suffix.is_empty() {
                    options.extend(["-s".to_string(), scenario.suffix.clone()]);
                } else {
                    options.push(format!("-s{}", scenario.suffix));
                }
                if let Some((given, _, _)) = &scenario.out {
                    options.extend(["-o".to_string(), base(given)]);
                }
                let args: Vec<String> = match scenario.arrangement / 2 % 4 {
                    _ if behind => options.into_iter().chain(["--".to_string()]).chain(paths).collect(),
                    0 => options.into_iter().chain(paths).collect(),
                    1 => paths.into_iter().chain(options).collect(),
                    _ => paths[..1].iter().cloned().chain(options).chain(paths[1..].iter().cloned()).collect(),
                };
                let before = scratch.files();
                let ending = scratch.run(&args)?;
                ensure!(ending.code == Some(0), "{:?} ends with {:?}: {}", args, ending.code, ending.stderr);
                let mut after = scratch.files();
                for (path, input, file) in &results {
                    let bytes = match after.remove(path) {
                        Some(Some(bytes)) => bytes,
                        _ => return Err(format!("{:?} leaves no {:?}, but {:?}", args, path, after.keys())),
                    };
                    let found = read(&bytes, &input.picture.extension).map_err(|e| format!("{:?} cannot be read: {}", path, e))?;
                    let (wanted, length) = expected(file, &input.picture.extension);
                    ensure!(bytes.len() <= length * 5 / 4 + 4096, "{:?} has {} bytes, where {} suffice", path, bytes.len(), length);
                    same(&found, &wanted).map_err(|e| format!("{:?} is not the library's result: {}", path, e))?;
                }
                for (path, contents) in &before {
                    if results.iter().any(|(result, _, _)| result == path) {
                        continue;
                    }
                    ensure!(after.remove(path).as_ref() == Some(contents), "{:?} changed {:?}", args, path);
                }
                // new folders are fine, if they lead to the results
                let rest: Vec<_> = after.keys().filter(|path| !results.iter().any(|(result, _, _)| result.starts_with(path))).collect();
                ensure!(rest.is_empty(), "{:?} also leaves {:?}", args, rest);
                Ok(())
            });
        },
    )
}
