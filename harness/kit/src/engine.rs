use proptest::strategy::Strategy;
use proptest::test_runner::{Config, RngAlgorithm, RngSeed, TestCaseError, TestError, TestRunner};
use serde::de::DeserializeOwned;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Debug;
use std::fs;
use std::io::Write;
use std::os::unix::fs::FileExt;
use std::os::unix::process::ExitStatusExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::PathBuf;
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

/// What a case says about itself: whether it is non-trivial, and which classes it belongs to.
#[derive(Default)]
pub struct Obs {
    pub nontrivial: bool,
    pub labels: Vec<String>,
    pub known: Vec<String>,
    pub skipped: bool,
}

impl Obs {
    pub fn nontrivial(&mut self) {
        self.nontrivial = true;
    }
    pub fn label<S: Into<String>>(&mut self, label: S) {
        self.labels.push(label.into());
    }
    /// The case fails in a way that may be listed in the known-findings file.
    pub fn finding<S: Into<String>>(&mut self, signature: S) {
        self.known.push(signature.into());
    }
}

pub type Verdict = Result<(), String>;

/// Fails the case unless `condition` holds.
#[macro_export]
macro_rules! ensure {
    ($condition:expr, $($arg:tt)+) => {
        if !$condition { return Err(format!($($arg)+)); }
    };
}

thread_local! {
    static LAST_PANIC: RefCell<String> = RefCell::new(String::new());
}

/// Runs `f`; Err holds the panic message if it panics.
pub fn quiet<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(value) => Ok(value),
        Err(_) => Err(LAST_PANIC.with(|last| last.borrow().clone())),
    }
}

/// The code under test must not panic here: a panic becomes a failure of the case.
pub fn must<T>(what: &str, f: impl FnOnce() -> T) -> Result<T, String> {
    quiet(f).map_err(|message| format!("{}: unexpected panic: {}", what, message))
}

pub fn panics<T>(f: impl FnOnce() -> T) -> bool {
    quiet(f).is_err()
}

fn fnv(bytes: &[u8]) -> u64 {
    let mut hash = 0xcbf29ce484222325u64;
    for byte in bytes {
        hash ^= *byte as u64;
        hash = hash.wrapping_mul(0x100000001b3);
    }
    hash
}

#[derive(Serialize, Deserialize, Default)]
struct SubReport {
    name: String,
    evaluations: u64,
    skipped: u64,
    #[serde(default)]
    cut_off: u64,
    nontrivial: u64,
    hashes: Vec<u64>,
    labels: BTreeMap<String, u64>,
    samples: Vec<Value>,
    known: BTreeMap<String, u64>,
    failure: Option<Failure>,
    aborted: Option<String>,
    exhaustive: bool,
    seconds: f64,
}

#[derive(Serialize, Deserialize, Clone)]
struct Failure {
    sub: String,
    message: String,
    case: Value,
}

#[derive(PartialEq, Clone, Copy)]
enum Mode {
    Shard,
    Replay,
}

pub struct Suite {
    mode: Mode,
    pub thorough: bool,
    pub seed: u64,
    shard: u64,
    shards: u64,
    reports: Vec<SubReport>,
    replay: Option<Failure>,
    replay_result: Option<Verdict>,
    current: Option<fs::File>,
    known_list: HashSet<String>,
    only: Option<String>,
    /// Multiplies the number of generated cases.
    pub scale: f64,
    begun: Instant,
}

/// After this time no further cases are generated, so that a slow machine ends with fewer cases.
fn soft_limit(thorough: bool) -> Duration {
    let limit = env("VERIF_SOFT").and_then(|s| s.parse().ok());
    Duration::from_secs(limit.unwrap_or(if thorough { 3 * 3600 } else { 420 }))
}

/// A case which has been under way for so long is tried again on its own.
const STUCK: Duration = Duration::from_secs(150);
/// Processor time after which a case does not end.
const ENDLESS: u64 = 100;

/// Does this case, on its own, run for ever or wait for ever?
fn endless(this: &std::path::Path, replay: &std::path::Path) -> bool {
    use std::os::unix::process::CommandExt;
    let mut again = Command::new(this);
    again.arg("--replay").arg(replay).stdin(Stdio::null()).stdout(Stdio::null()).stderr(Stdio::null());
    unsafe {
        again.pre_exec(|| {
            let limit = libc::rlimit { rlim_cur: ENDLESS, rlim_max: ENDLESS + 5 };
            libc::setrlimit(libc::RLIMIT_CPU, &limit);
            Ok(())
        });
    }
    let start = Instant::now();
    let mut child = match again.spawn() {
        Ok(child) => child,
        Err(_) => return false,
    };
    loop {
        if let Some(status) = child.try_wait().unwrap() {
            return status.signal() == Some(libc::SIGXCPU);
        }
        if start.elapsed() > STUCK {
            // fields 14 and 15 of stat: processor time in ticks
            let stat = fs::read_to_string(format!("/proc/{}/stat", child.id())).unwrap_or_default();
            let after = stat.rsplit(')').next().unwrap_or("");
            let fields: Vec<&str> = after.split_whitespace().collect();
            let ticks = |i: usize| fields.get(i).and_then(|f| f.parse::<u64>().ok()).unwrap_or(u64::MAX / 4);
            let mut idle = ticks(11) + ticks(12) < 300;
            for task in fs::read_dir(format!("/proc/{}/task", child.id())).into_iter().flatten().flatten() {
                // it may wait for a process of its own
                idle &= fs::read_to_string(task.path().join("children")).map_or(false, |text| text.trim().is_empty());
            }
            if idle || start.elapsed() > 2 * STUCK {
                let _ = child.kill();
                let _ = child.wait();
                return idle;
            }
        }
        std::thread::sleep(Duration::from_millis(50));
    }
}

fn known_findings(property: &str) -> Vec<(String, String)> {
    let path = root().join("KNOWN_FINDINGS.txt");
    let text = fs::read_to_string(path).unwrap_or_default();
    let mut out = vec![];
    for line in text.lines() {
        let mut words = line.split_whitespace();
        if words.next() == Some("known:")
            && words.next() == Some(&format!("property={}", property))
        {
            if let Some(signature) = words.next().and_then(|word| word.strip_prefix("sig=")) {
                out.push((signature.to_string(), words.collect::<Vec<_>>().join(" ")));
            }
        }
    }
    out
}

pub fn root() -> PathBuf {
    PathBuf::from(std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".to_string()))
}

impl Suite {
    /// `quick` and `thorough` are the numbers of cases over all shards.
    pub fn sub<S, F>(&mut self, name: &str, strategy: S, quick: u64, thorough: u64, check: F)
    where
        S: Strategy,
        S::Value: Debug + Clone + Serialize + DeserializeOwned,
        F: Fn(&S::Value, &mut Obs) -> Verdict,
    {
        self.sub_shrink(name, strategy, quick, thorough, 400, check)
    }

    pub fn sub_shrink<S, F>(
        &mut self,
        name: &str,
        strategy: S,
        quick: u64,
        thorough: u64,
        max_shrink: u32,
        check: F,
    ) where
        S: Strategy,
        S::Value: Debug + Clone + Serialize + DeserializeOwned,
        F: Fn(&S::Value, &mut Obs) -> Verdict,
    {
        if self.mode == Mode::Replay {
            self.do_replay::<S::Value, _>(name, &check);
            return;
        }
        if !self.selected(name) {
            return;
        }
        let total = if self.thorough { thorough } else { quick };
        let total = ((total as f64 * self.scale) as u64).max(1);
        let cases = total / self.shards + u64::from(self.shard < total % self.shards);
        let report = RefCell::new(SubReport { name: name.to_string(), ..Default::default() });
        let hashes = RefCell::new(HashSet::new());
        let start = Instant::now();
        if cases > 0 {
            let seed = fnv(format!("{}/{}/{}", self.seed, name, self.shard).as_bytes());
            let config = Config {
                cases: cases as u32,
                failure_persistence: None,
                max_shrink_iters: max_shrink,
                max_shrink_time: 90_000,
                rng_algorithm: RngAlgorithm::ChaCha,
                rng_seed: RngSeed::Fixed(seed),
                max_global_rejects: 1_000_000,
                max_local_rejects: 1_000_000,
                ..Config::default()
            };
            let failed = std::cell::Cell::new(false);
            let soft = soft_limit(self.thorough);
            let result = TestRunner::new(config).run(&strategy, |case| {
                if self.begun.elapsed() > soft {
                    report.borrow_mut().cut_off += 1;
                    return Ok(());
                }
                let outcome = self.evaluate(name, &case, &check, &report, &hashes, failed.get());
                if outcome.is_err() {
                    failed.set(true);
                }
                outcome.map_err(TestCaseError::fail)
            });
            let mut report = report.borrow_mut();
            match result {
                Ok(()) => (),
                Err(TestError::Fail(reason, case)) => {
                    report.failure = Some(Failure {
                        sub: name.to_string(),
                        message: reason.message().to_string(),
                        case: serde_json::to_value(&case).unwrap(),
                    })
                }
                Err(TestError::Abort(reason)) => {
                    report.aborted = Some(reason.message().to_string())
                }
            }
        }
        let mut report = report.into_inner();
        report.seconds = start.elapsed().as_secs_f64();
        report.hashes = hashes.into_inner().into_iter().collect();
        self.reports.push(report);
    }

    /// Checks every case of a finite space.
    pub fn exhaustive<T, F>(&mut self, name: &str, cases: impl Iterator<Item = T>, check: F)
    where
        T: Debug + Clone + Serialize + DeserializeOwned,
        F: Fn(&T, &mut Obs) -> Verdict,
    {
        if self.mode == Mode::Replay {
            self.do_replay::<T, _>(name, &check);
            return;
        }
        if !self.selected(name) {
            return;
        }
        let report = RefCell::new(SubReport {
            name: name.to_string(),
            exhaustive: true,
            ..Default::default()
        });
        let hashes = RefCell::new(HashSet::new());
        let start = Instant::now();
        let mut failure = None;
        for (i, case) in cases.enumerate() {
            if i as u64 % self.shards != self.shard {
                continue;
            }
            if self.begun.elapsed() > soft_limit(self.thorough) {
                report.borrow_mut().cut_off += 1;
                continue;
            }
            if let Err(message) = self.evaluate(name, &case, &check, &report, &hashes, false) {
                failure = Some(Failure {
                    sub: name.to_string(),
                    message,
                    case: serde_json::to_value(&case).unwrap(),
                });
                break;
            }
        }
        let mut report = report.into_inner();
        report.failure = failure;
        report.seconds = start.elapsed().as_secs_f64();
        report.hashes = hashes.into_inner().into_iter().collect();
        self.reports.push(report);
    }

    fn selected(&self, name: &str) -> bool {
        self.only.as_ref().map_or(true, |only| only == name)
    }

    fn do_replay<T, F>(&mut self, name: &str, check: &F)
    where
        T: DeserializeOwned,
        F: Fn(&T, &mut Obs) -> Verdict,
    {
        let replay = self.replay.as_ref().unwrap();
        if replay.sub != name {
            return;
        }
        let case: T = serde_json::from_value(replay.case.clone()).expect("replay file");
        let mut obs = Obs::default();
        let verdict = match quiet(|| check(&case, &mut obs)) {
            Ok(verdict) => verdict,
            Err(message) => Err(format!("unexpected panic: {}", message)),
        };
        self.replay_result = Some(verdict);
    }

    fn evaluate<T, F>(
        &self,
        name: &str,
        case: &T,
        check: &F,
        report: &RefCell<SubReport>,
        hashes: &RefCell<HashSet<u64>>,
        shrinking: bool,
    ) -> Verdict
    where
        T: Serialize,
        F: Fn(&T, &mut Obs) -> Verdict,
    {
        let text = serde_json::to_vec(case).unwrap();
        if let Some(file) = &self.current {
            let mut record = format!("{}\n{}\n", name, text.len()).into_bytes();
            record.extend_from_slice(&text);
            file.write_all_at(&record, 0).unwrap();
        }
        let mut obs = Obs::default();
        let verdict = match quiet(|| check(case, &mut obs)) {
            Ok(verdict) => verdict,
            Err(message) => Err(format!("unexpected panic: {}", message)),
        };
        for signature in &obs.known {
            if !self.known_list.contains(signature) {
                return Err(format!("violation not listed as a known finding: {}", signature));
            }
        }
        if shrinking {
            return verdict;
        }
        let mut report = report.borrow_mut();
        report.evaluations += 1;
        for signature in obs.known {
            *report.known.entry(signature).or_insert(0) += 1;
        }
        for label in obs.labels {
            *report.labels.entry(label).or_insert(0) += 1;
        }
        if obs.skipped {
            report.skipped += 1;
        }
        if obs.nontrivial && hashes.borrow_mut().insert(fnv(&text)) {
            report.nontrivial += 1;
            if report.samples.len() < 2 {
                let shown = if text.len() <= 700 {
                    serde_json::from_slice(&text).unwrap()
                } else {
                    let cut: String = String::from_utf8_lossy(&text).chars().take(700).collect();
                    json!(format!("{}... ({} bytes)", cut, text.len()))
                };
                report.samples.push(json!({"sub": name, "case": shown}));
            }
        }
        verdict
    }
}

fn set_hook() {
    std::panic::set_hook(Box::new(|info| {
        let message = if let Some(text) = info.payload().downcast_ref::<&str>() {
            text.to_string()
        } else if let Some(text) = info.payload().downcast_ref::<String>() {
            text.clone()
        } else {
            "?".to_string()
        };
        let message: String = message.chars().take(300).collect();
        let place = info.location().map(|l| format!(" at {}:{}", l.file(), l.line()));
        LAST_PANIC.with(|last| *last.borrow_mut() = message + &place.unwrap_or_default());
    }));
}

fn env(name: &str) -> Option<String> {
    std::env::var(name).ok().filter(|value| !value.is_empty())
}

/// Entry point of a check program: `body` declares the sub-checks of `property`.
///
/// Without arguments it runs the property; with `--replay FILE` one saved case.
pub fn run(property: &str, rule: &str, assumptions: &[&str], body: impl Fn(&mut Suite)) -> ! {
    let args: Vec<String> = std::env::args().collect();
    let thorough = env("VERIF_TIER").as_deref() == Some("thorough");
    let seed: u64 = env("VERIF_SEED").and_then(|s| s.parse().ok()).unwrap_or(1);
    let mut suite = Suite {
        mode: Mode::Shard,
        thorough,
        seed,
        shard: 0,
        shards: 1,
        reports: vec![],
        replay: None,
        replay_result: None,
        current: None,
        known_list: known_findings(property).into_iter().map(|(s, _)| s).collect(),
        only: env("VERIF_ONLY"),
        scale: env("VERIF_SCALE").and_then(|s| s.parse().ok()).unwrap_or(1.),
        begun: Instant::now(),
    };
    if let Some(at) = args.iter().position(|arg| arg == "--replay") {
        let report_fd = unsafe { libc::dup(1) };
        silence();
        set_hook();
        let file: Value = serde_json::from_slice(&fs::read(&args[at + 1]).unwrap()).unwrap();
        suite.mode = Mode::Replay;
        suite.replay = Some(serde_json::from_value(file["failure"].clone()).unwrap());
        body(&mut suite);
        let (code, text) = match suite.replay_result {
            None => (2, "no such sub-check".to_string()),
            Some(Ok(())) => (0, "replay: the property holds on this case".to_string()),
            Some(Err(message)) => {
                (1, format!("replay: {}\nVIOLATION property={} replay={}", message, property, args[at + 1]))
            }
        };
        let text = text + "\n";
        unsafe { libc::write(report_fd, text.as_ptr() as *const _, text.len()) };
        std::process::exit(code);
    }
    if let Some(shard) = env("KIT_SHARD") {
        let parts: Vec<&str> = shard.split('/').collect();
        suite.shard = parts[0].parse().unwrap();
        suite.shards = parts[1].parse().unwrap();
        let out = PathBuf::from(env("KIT_OUT").unwrap());
        suite.current = Some(fs::File::create(out.with_extension("case")).unwrap());
        silence();
        set_hook();
        body(&mut suite);
        let bytes = serde_json::to_vec(&suite.reports).unwrap();
        fs::write(out.with_extension("part"), bytes).unwrap();
        fs::rename(out.with_extension("part"), &out).unwrap();
        std::process::exit(0);
    }
    parent(property, rule, assumptions, thorough, seed)
}

/// The sub-check and the case a child process has recorded as under way.
fn under_way(record: &[u8]) -> Option<(String, Vec<u8>)> {
    let mut lines = record.splitn(3, |byte| *byte == b'\n');
    let name = String::from_utf8_lossy(lines.next()?).to_string();
    let length: usize = String::from_utf8_lossy(lines.next()?).parse().ok()?;
    let text = lines.next()?;
    if length == 0 || text.len() < length {
        return None;
    }
    Some((name, text[..length].to_vec()))
}

/// The code under test prints a lot.
fn silence() {
    unsafe {
        let null = libc::open(b"/dev/null\0".as_ptr() as *const _, libc::O_WRONLY);
        libc::dup2(null, 1);
    }
}

fn error(property: &str, message: &str) -> ! {
    println!("ERROR property={} {}", property, message);
    std::process::exit(2);
}

fn parent(property: &str, rule: &str, assumptions: &[&str], thorough: bool, seed: u64) -> ! {
    let start = Instant::now();
    let shards: u64 = env("VERIF_SHARDS").and_then(|s| s.parse().ok()).unwrap_or(8);
    let limit = env("VERIF_LIMIT").and_then(|s| s.parse().ok());
    let limit = Duration::from_secs(limit.unwrap_or(if thorough { 4 * 3600 } else { 600 }));
    let scratch = std::env::temp_dir().join(format!("kit-{}-{}", property, std::process::id()));
    fs::create_dir_all(&scratch).unwrap();
    let this = std::env::current_exe().unwrap();
    let mut children = vec![];
    for shard in 0..shards {
        let out = scratch.join(format!("{}.json", shard));
        let child = Command::new(&this)
            .args(std::env::args().skip(1))
            .env("KIT_SHARD", format!("{}/{}", shard, shards))
            .env("KIT_OUT", &out)
            .env("RUST_BACKTRACE", "0")
            .stdin(Stdio::null())
            .stdout(Stdio::null())
            .spawn()
            .unwrap();
        children.push((child, out));
    }
    let replays = root().join("replays");
    fs::create_dir_all(&replays).unwrap();
    let save = |failure: &Failure| {
        let text = serde_json::to_vec(failure).unwrap();
        let path = replays.join(format!("{}-{}-{:016x}.json", property, failure.sub, fnv(&text)));
        let file = json!({"property": property, "failure": failure, "tier": if thorough {"thorough"} else {"quick"},
            "seed": seed, "shards": shards});
        fs::write(&path, serde_json::to_vec_pretty(&file).unwrap()).unwrap();
        path
    };
    let mut merged: BTreeMap<String, SubReport> = BTreeMap::new();
    let mut order = vec![];
    let mut all_hashes: HashSet<(String, u64)> = HashSet::new();
    let mut failures: Vec<Failure> = vec![];
    let mut trouble = None;
    let stuck = std::sync::atomic::AtomicBool::new(false);
    let mut tried = HashSet::new();
    let pids: Vec<i32> = children.iter().map(|(child, _)| child.id() as i32).collect();
    'children: for (mut child, out) in children {
        let mut looked = Instant::now();
        let status = loop {
            if let Some(status) = child.try_wait().unwrap() {
                break Some(status);
            }
            if !failures.is_empty() && stuck.load(std::sync::atomic::Ordering::SeqCst) {
                // one case is known not to end: do not wait for the same in other processes
                let _ = child.kill();
                let _ = child.wait();
                continue 'children;
            }
            if looked.elapsed() > Duration::from_secs(2) {
                looked = Instant::now();
                let path = out.with_extension("case");
                let age = fs::metadata(&path).and_then(|m| m.modified()).ok().and_then(|t| t.elapsed().ok());
                if age.map_or(false, |age| age > STUCK) {
                    if let Some((sub, text)) = under_way(&fs::read(&path).unwrap_or_default()) {
                        if tried.insert(fnv(&text)) {
                            let failure = Failure {
                                sub,
                                message: "the case does not end".to_string(),
                                case: serde_json::from_slice(&text).unwrap(),
                            };
                            let path = save(&failure);
                            // the other processes leave it the processor
                            let signal = |signal| pids.iter().for_each(|pid| drop(unsafe { libc::kill(*pid, signal) }));
                            signal(libc::SIGSTOP);
                            let endless = endless(&this, &path);
                            signal(libc::SIGCONT);
                            if endless {
                                failures.push(failure);
                                stuck.store(true, std::sync::atomic::Ordering::SeqCst);
                                continue;
                            }
                            let _ = fs::remove_file(&path);
                        }
                    }
                }
            }
            if start.elapsed() > limit {
                let _ = child.kill();
                let _ = child.wait();
                break None;
            }
            std::thread::sleep(Duration::from_millis(10));
        };
        let status = match status {
            Some(status) => status,
            None => {
                if failures.is_empty() || !stuck.load(std::sync::atomic::Ordering::SeqCst) {
                    trouble = Some("time limit reached: inconclusive".to_string());
                }
                continue;
            }
        };
        if !status.success() || !out.exists() {
            // Did the code under test bring the process down? Only a crash which a second process
            // repeats on the same case counts.
            let crash = [libc::SIGSEGV, libc::SIGABRT, libc::SIGILL, libc::SIGBUS, libc::SIGFPE];
            let case = under_way(&fs::read(out.with_extension("case")).unwrap_or_default());
            let signal = status.signal().unwrap_or(0);
            let mut explained = false;
            if let (true, Some((sub, text))) = (crash.contains(&signal), case) {
                let failure = Failure {
                    sub,
                    message: format!("the process was ended by signal {}", signal),
                    case: serde_json::from_slice(&text).unwrap(),
                };
                let path = save(&failure);
                let again = Command::new(&this).arg("--replay").arg(&path).stdout(Stdio::null()).stderr(Stdio::null()).status();
                if again.map_or(false, |s| s.signal().map_or(false, |s| crash.contains(&s))) {
                    failures.push(failure);
                    explained = true;
                }
            }
            if !explained {
                trouble = Some(format!("a worker ended with {}", status));
            }
            continue;
        }
        let reports: Vec<SubReport> = serde_json::from_slice(&fs::read(&out).unwrap()).unwrap();
        for report in reports {
            if !merged.contains_key(&report.name) {
                order.push(report.name.clone());
            }
            let entry = merged.entry(report.name.clone()).or_default();
            entry.name = report.name.clone();
            entry.evaluations += report.evaluations;
            entry.skipped += report.skipped;
            entry.cut_off += report.cut_off;
            entry.exhaustive = report.exhaustive;
            entry.seconds = entry.seconds.max(report.seconds);
            for hash in report.hashes {
                if all_hashes.insert((report.name.clone(), hash)) {
                    entry.nontrivial += 1;
                }
            }
            for (label, count) in report.labels {
                *entry.labels.entry(label).or_insert(0) += count;
            }
            for (signature, count) in report.known {
                *entry.known.entry(signature).or_insert(0) += count;
            }
            if entry.samples.len() < 3 {
                entry.samples.extend(report.samples.into_iter().take(1));
            }
            if let Some(failure) = report.failure {
                failures.push(failure);
            }
            if let Some(reason) = report.aborted {
                trouble = Some(format!("generator gave up in {}: {}", entry.name, reason));
            }
        }
    }
    let _ = fs::remove_dir_all(&scratch);

    let evaluations: u64 = merged.values().map(|r| r.evaluations).sum();
    let nontrivial: u64 = merged.values().map(|r| r.nontrivial).sum();
    let samples: Vec<Value> = order.iter().flat_map(|n| merged[n].samples.clone()).collect();
    let subs: Vec<Value> = order
        .iter()
        .map(|n| {
            let r = &merged[n];
            json!({"name": n, "evaluations": r.evaluations, "distinct_nontrivial": r.nontrivial,
                "outside_precondition": r.skipped, "cut_off_by_time": r.cut_off, "classes": r.labels,
                "exhaustive": r.exhaustive, "slowest_shard_s": r.seconds})
        })
        .collect();
    let mut known_hits: BTreeMap<String, u64> = BTreeMap::new();
    for report in merged.values() {
        for (signature, count) in &report.known {
            *known_hits.entry(signature.clone()).or_insert(0) += count;
        }
    }
    let evidence = json!({
        "property": property,
        "tier": if thorough { "thorough" } else { "quick" },
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": evaluations,
            "distinct_nontrivial": nontrivial,
            "rule": rule,
            "samples": samples,
            "sub_checks": subs,
            "known_finding_cases": known_hits,
            "workers": shards,
        },
        "assumptions": assumptions,
        "wall_s": start.elapsed().as_secs_f64(),
        "violations": failures.len(),
    });
    fs::create_dir_all(root().join("evidence")).unwrap();
    let mut file = fs::File::create(root().join("evidence").join(format!("{}.json", property))).unwrap();
    file.write_all(&serde_json::to_vec_pretty(&evidence).unwrap()).unwrap();
    file.write_all(b"\n").unwrap();

    for (signature, what) in known_findings(property) {
        if known_hits.contains_key(&signature) {
            println!("KNOWN-FINDING: property={} {} ({})", property, what, signature);
        }
    }
    for n in &order {
        let r = &merged[n];
        println!(
            "{} {}: {} cases, {} distinct non-trivial, {} outside the precondition, {:.1}s {:?}",
            property, n, r.evaluations, r.nontrivial, r.skipped, r.seconds, r.labels
        );
    }
    if !failures.is_empty() {
        // one report per sub-check: the smallest case found
        let mut best: BTreeMap<String, Failure> = BTreeMap::new();
        for failure in failures {
            let size = |f: &Failure| f.case.to_string().len();
            match best.get(&failure.sub) {
                Some(known) if size(known) <= size(&failure) => (),
                _ => {
                    best.insert(failure.sub.clone(), failure);
                }
            }
        }
        for failure in best.values() {
            let path = save(failure);
            println!("{}: {}", failure.sub, failure.message);
            println!("VIOLATION property={} replay={}", property, path.display());
        }
        std::process::exit(1);
    }
    if let Some(message) = trouble {
        error(property, &message);
    }
    if evaluations == 0 {
        error(property, "nothing was evaluated");
    }
    println!("OK property={} {} cases in {:.1}s", property, evaluations, start.elapsed().as_secs_f64());
    std::process::exit(0);
}
