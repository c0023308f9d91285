//! C37: the program reports what it wrote, and how long it took, truly.
use c_cli::*;
use kit::prelude::*;
use kit::{ensure, must};
use serde::{Deserialize, Serialize};
use std::time::{Duration, Instant};

#[cfg(sia_verif_hooks)]
#[allow(dead_code)]
#[path = "/repo/lib/sia/rust/cli/src/timer.rs"]
mod timer;

/// The shortest and the longest time a text stands for.
fn span(text: &str) -> Option<(Duration, Duration)> {
    let (number, unit) = text.split_once(' ')?;
    let plain = |least: u64, most: u64, unit: fn(u64) -> Duration| {
        let n: u64 = number.parse().ok()?;
        // the largest unit which gives a whole number, and no leading zeros
        if n < least || n >= most || n.to_string() != number {
            return None;
        }
        Some((unit(n), unit(n + 1)))
    };
    match unit {
        "ns" => plain(0, 1000, Duration::from_nanos),
        "µs" => plain(1, 1000, Duration::from_micros),
        "ms" => plain(1, 1000, Duration::from_millis),
        "s" => match number.split_once('.') {
            None => plain(10, u64::MAX, Duration::from_secs),
            Some((whole, part)) => {
                let (n, hundredths): (u64, u64) = (whole.parse().ok()?, part.parse().ok()?);
                if part.len() != 2 || n == 0 || n >= 10 || n.to_string() != whole {
                    return None;
                }
                let start = Duration::from_millis(1000 * n + 10 * hundredths);
                Some((start, start + Duration::from_millis(10)))
            }
        },
        _ => None,
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Run {
    inputs: Vec<(String, Picture)>,
    suffix: String,
    out: Option<String>,
}

fn report() -> impl Strategy<Value = Run> {
    let input = ("[a-z]{1,6}", picture(good_size()))
        .prop_map(|(stem, mut picture)| {
        picture.extension = picture.extension.to_lowercase();
        (stem, picture)
    })
    .boxed();
    let out = prop::option::of(prop::sample::select(vec!["out", "a/b", "ö", "out/../res", "."]).prop_map(|s| s.to_string()));
    (prop_oneof![3 => prop::collection::vec(input.clone(), 1..2), 1 => prop::collection::vec(input, 2..3)], "[a-zA-Z0-9.]{1,6}", out)
        .prop_map(|(mut inputs, suffix, out)| {
            for (i, (stem, _)) in inputs.iter_mut().enumerate() {
                *stem = format!("{}{}", stem, i);
            }
            Run { inputs, suffix, out }
        })
}

fn main() {
    kit::engine::run(
        "C37",
        "times from nothing to hours, dense around the changes of the unit, shown by the program's own clock; runs of the built \
         program over 1..2 pictures of all formats and channels; calls which show the usage; non-trivial: every one of them",
        &["the clock goes on while it is read: what is shown has to lie between the times just before and just after", "a clock which started later than the time asked for is passed over"],
        |suite| {
            #[cfg(sia_verif_hooks)]
            {
                let near = prop::sample::select(vec![1_000u64, 1_000_000, 10_000_000, 1_000_000_000, 2_000_000_000, 9_990_000_000, 10_000_000_000, 11_000_000_000, 60_000_000_000, 3_600_000_000_000]);
                let nanos = prop_oneof![
                    3 => (0f64..43.).prop_map(|bits| 2f64.powf(bits) as u64),
                    2 => (near, -3_000_000i64..3_000).prop_map(|(at, off)| (at as i64 + off).max(0) as u64),
                    2 => 1_000_000_000u64..10_000_000_000,
                    1 => 0u64..1_000_000,
                ];
                suite.sub("times", nanos, 3_000, 300_000, |nanos, obs| {
                    let start = match Instant::now().checked_sub(Duration::from_nanos(*nanos)) {
                        None => {
                            obs.skipped = true;
                            return Ok(());
                        }
                        Some(start) => start,
                    };
                    let (before, text, after) = must("the time", || {
                        let before = start.elapsed();
                        let text = timer::Elapsed::from(&start).to_string();
                        (before, text, start.elapsed())
                    })?;
                    obs.nontrivial();
                    obs.label(text.split(' ').last().unwrap_or("").to_string());
                    let (least, most) = match span(&text) {
                        None => return Err(format!("{:?} is no time in the fitting unit, after {:?}", text, before)),
                        Some(span) => span,
                    };
                    ensure!(least <= after && before < most, "{:?} is shown for a time between {:?} and {:?}", text, before, after);
                    Ok(())
                });
            }
            suite.sub_shrink("reports", report(), 14, 400, 6, |run, obs| {
                obs.nontrivial();
                let scratch = Scratch::new();
                let mut args = vec!["-s".to_string(), run.suffix.clone()];
                let mut wanted = vec![];
                for (stem, picture) in &run.inputs {
                    let file = picture.file();
                    let name = format!("{}.{}", stem, picture.extension);
                    scratch.put(&name, &file);
                    args.push(name);
                    let channels = read(&file, &picture.extension)?.color().channel_count();
                    let marked = watermarking::watermark(read(&file, &picture.extension)?, 100., 1., 11).color().channel_count();
                    wanted.push((format!("{}-{}.{}", stem, run.suffix, picture.extension), channels, marked));
                    obs.label(format!("{} channels", channels));
                }
                if let Some(out) = &run.out {
                    args.extend(["-o".to_string(), out.clone()]);
                }
                let start = Instant::now();
                let ending = scratch.run(&args)?;
                let took = start.elapsed();
                ensure!(ending.code == Some(0), "{:?} ends with {:?}: {}", args, ending.code, ending.stderr);
                let lines: Vec<&str> = ending.stdout.lines().filter(|line| line.starts_with("Watermarked ")).collect();
                ensure!(lines.len() == wanted.len(), "{} results are reported, not {}: {:?}", lines.len(), wanted.len(), lines);
                let folder = run.out.as_ref().map(|out| scratch.work().join(out).canonicalize().unwrap());
                let mut least = Duration::ZERO;
                for (line, (name, channels, marked)) in lines.iter().zip(&wanted) {
                    let path = match &folder {
                        None => name.clone(),
                        Some(folder) => format!("{}/{}", folder.display(), name),
                    };
                    let head = format!("Watermarked {} ({} -> {} channels) in ", path, channels, marked);
                    let time = line.strip_prefix(&head).ok_or(format!("{:?} is not the report of {:?}", line, head))?;
                    least += span(time).ok_or(format!("{:?} is no time in the fitting unit", time))?.0;
                }
                ensure!(least <= took, "{:?} is reported for a run of {:?}", least, took);
                Ok(())
            });
            let usage = (prop::sample::select(vec!["-h", "--help", "", "suffix only"]).prop_map(|s| s.to_string()), any::<bool>());
            suite.sub_shrink("usage", usage, 8, 60, 6, |(how, input), obs| {
                obs.nontrivial();
                let scratch = Scratch::new();
                let mut args: Vec<String> = match how.as_str() {
                    "" => vec![],
                    "suffix only" => vec!["-s".to_string(), "m".to_string()],
                    how => vec![how.to_string()],
                };
                if *input && how.starts_with('-') {
                    args.push("a.png".to_string());
                }
                let ending = scratch.run(&args)?;
                ensure!(ending.code == Some(0), "{:?} ends with {:?}: {}", args, ending.code, ending.stderr);
                for part in ["Usage: ", " FILE [options]", "-s", "SUFFIX", "-o", "OUT", "-h, --help"] {
                    ensure!(ending.stdout.contains(part), "{:?} does not show {:?}: {}", args, part, ending.stdout);
                }
                Ok(())
            });
        },
    )
}
