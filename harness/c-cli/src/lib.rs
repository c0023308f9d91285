//! Runs the command line program on generated files in a scratch directory of its own.
use image::{DynamicImage, GrayAlphaImage, GrayImage, ImageBuffer, ImageFormat, RgbImage, RgbaImage};
use kit::imgs::{ImgSpec, Mix};
use kit::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::fs;
use std::io::Cursor;
use std::os::unix::fs::PermissionsExt;
use std::os::unix::process::CommandExt;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::{Duration, Instant};

const NOBODY: u32 = 65534;

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum Kind {
    L8,
    La8,
    Rgb8,
    Rgba8,
    L16,
    La16,
    Rgb16,
    Rgba16,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Picture {
    pub kind: Kind,
    pub extension: String,
    pub planes: Vec<ImgSpec>,
    pub fine: u64,
}

/// File types and the sample types they can hold.
pub const FORMATS: [(&str, &[Kind]); 13] = [
    ("png", &[Kind::L8, Kind::La8, Kind::Rgb8, Kind::Rgba8, Kind::L16, Kind::La16, Kind::Rgb16, Kind::Rgba16]),
    ("PNG", &[Kind::Rgb8, Kind::La8]),
    ("jpg", &[Kind::L8, Kind::Rgb8]),
    ("jpeg", &[Kind::L8, Kind::Rgb8]),
    ("JPG", &[Kind::L8]),
    ("bmp", &[Kind::L8, Kind::Rgb8, Kind::Rgba8]),
    ("Bmp", &[Kind::Rgb8]),
    ("tiff", &[Kind::L8, Kind::Rgb8, Kind::Rgba8, Kind::L16, Kind::Rgb16]),
    ("tif", &[Kind::L8, Kind::Rgba16]),
    ("gif", &[Kind::Rgba8]),
    ("pgm", &[Kind::L8, Kind::L16]),
    ("ppm", &[Kind::Rgb8]),
    ("pam", &[Kind::Rgb8]),
];

impl Picture {
    pub fn render(&self) -> DynamicImage {
        let planes: Vec<_> = self.planes.iter().map(|spec| spec.render()).collect();
        let (h, w, n) = (planes[0].h as u32, planes[0].w as u32, planes.len());
        let samples: Vec<u8> = (0..planes[0].px.len() * n).map(|i| planes[i % n].px[i / n]).collect();
        let mut mix = Mix(self.fine);
        let wide: Vec<u16> = samples.iter().map(|v| (*v as i32 * 257 + mix.below(255) as i32 - 127).clamp(0, 65535) as u16).collect();
        match self.kind {
            Kind::L8 => GrayImage::from_raw(w, h, samples).unwrap().into(),
            Kind::La8 => GrayAlphaImage::from_raw(w, h, samples).unwrap().into(),
            Kind::Rgb8 => RgbImage::from_raw(w, h, samples).unwrap().into(),
            Kind::Rgba8 => RgbaImage::from_raw(w, h, samples).unwrap().into(),
            Kind::L16 => DynamicImage::ImageLuma16(ImageBuffer::from_raw(w, h, wide).unwrap()),
            Kind::La16 => DynamicImage::ImageLumaA16(ImageBuffer::from_raw(w, h, wide).unwrap()),
            Kind::Rgb16 => DynamicImage::ImageRgb16(ImageBuffer::from_raw(w, h, wide).unwrap()),
            Kind::Rgba16 => DynamicImage::ImageRgba16(ImageBuffer::from_raw(w, h, wide).unwrap()),
        }
    }

    /// The contents of the file.
    pub fn file(&self) -> Vec<u8> {
        if self.extension == "pgm" && self.kind == Kind::L16 {
            // the library reads, but does not write, wide samples in this format
            let image = self.render().into_luma16();
            let mut out = format!("P5\n{} {}\n65535\n", image.width(), image.height()).into_bytes();
            out.extend(image.as_raw().iter().flat_map(|v| v.to_be_bytes()));
            return out;
        }
        write(&self.render(), &self.extension)
    }
}

pub fn write(image: &DynamicImage, extension: &str) -> Vec<u8> {
    let mut out = Cursor::new(vec![]);
    image.write_to(&mut out, ImageFormat::from_path(format!("x.{}", extension)).unwrap()).unwrap();
    out.into_inner()
}

pub fn read(bytes: &[u8], extension: &str) -> Result<DynamicImage, String> {
    image::load_from_memory_with_format(bytes, ImageFormat::from_path(format!("x.{}", extension)).unwrap()).map_err(|e| e.to_string())
}

pub fn planes(kind: Kind) -> usize {
    match kind {
        Kind::L8 | Kind::L16 => 1,
        Kind::La8 | Kind::La16 => 2,
        Kind::Rgb8 | Kind::Rgb16 => 3,
        Kind::Rgba8 | Kind::Rgba16 => 4,
    }
}

/// What the program has to write for this file: the marked picture in the same file format.
pub fn expected(file: &[u8], extension: &str) -> (DynamicImage, usize) {
    let marked = watermarking::watermark(read(file, extension).unwrap(), 100., 1., 11);
    let written = write(&marked, extension);
    (read(&written, extension).unwrap(), written.len())
}

pub fn picture(size: impl Strategy<Value = (usize, usize)> + 'static) -> impl Strategy<Value = Picture> {
    let format = prop::sample::select(&FORMATS[..]).prop_flat_map(|(extension, kinds)| (Just(extension), prop::sample::select(kinds)));
    (size, format, any::<u64>()).prop_flat_map(|(size, (extension, kind), fine)| {
        let planes = prop::collection::vec(prop_oneof![3 => kit::imgs::photo(Just(size), 0, 255), 1 => kit::imgs::img(Just(size))], planes(kind));
        planes.prop_map(move |planes| Picture { kind, extension: extension.to_string(), planes, fine })
    })
}

/// Sizes with room for the record of eleven features, just about.
pub fn good_size() -> impl Strategy<Value = (usize, usize)> {
    prop::sample::select(vec![(208usize, 224usize), (224, 208), (216, 216), (200, 232)])
}

pub type Files = BTreeMap<PathBuf, Option<Vec<u8>>>;

pub struct Scratch {
    pub root: PathBuf,
    program: PathBuf,
}

static COUNT: AtomicU64 = AtomicU64::new(0);

impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = fs::remove_dir_all(&self.root);
    }
}

pub struct Ending {
    /// None: ended by a signal.
    pub code: Option<i32>,
    pub stdout: String,
    pub stderr: String,
    /// Whether permissions bound the program.
    pub bound: bool,
}

impl Scratch {
    pub fn new() -> Scratch {
        let name = format!("c-cli-{}-{}", std::process::id(), COUNT.fetch_add(1, Ordering::Relaxed));
        let root = std::env::temp_dir().join(name);
        let _ = fs::remove_dir_all(&root);
        fs::create_dir_all(root.join("work")).unwrap();
        fs::set_permissions(&root, fs::Permissions::from_mode(0o755)).unwrap();
        let program = root.join("program");
        let built = std::env::current_exe().unwrap().with_file_name("cli-under-test");
        // a link would do, but the program has to be reachable for everybody
        fs::copy(built, &program).unwrap();
        fs::set_permissions(&program, fs::Permissions::from_mode(0o755)).unwrap();
        Scratch { root, program }
    }

    pub fn work(&self) -> PathBuf {
        self.root.join("work")
    }

    pub fn folder(&self, relative: &str) {
        fs::create_dir_all(self.work().join(relative)).unwrap();
    }

    pub fn put(&self, relative: &str, bytes: &[u8]) {
        let path = self.work().join(relative);
        fs::create_dir_all(path.parent().unwrap()).unwrap();
        fs::write(path, bytes).unwrap();
    }

    /// Takes the right to change what the folder holds.
    pub fn lock(&self, relative: &str) {
        fs::set_permissions(self.work().join(relative), fs::Permissions::from_mode(0o555)).unwrap();
    }

    pub fn deny(&self, relative: &str) {
        fs::set_permissions(self.work().join(relative), fs::Permissions::from_mode(0o444)).unwrap();
    }

    /// Every file (Some) and folder (None) below the working directory.
    pub fn files(&self) -> Files {
        fn walk(at: &Path, base: &Path, out: &mut Files) {
            for entry in fs::read_dir(at).unwrap() {
                let path = entry.unwrap().path();
                let name = path.strip_prefix(base).unwrap().to_path_buf();
                if path.is_dir() {
                    out.insert(name, None);
                    walk(&path, base, out);
                } else {
                    out.insert(name, Some(fs::read(&path).unwrap_or_default()));
                }
            }
        }
        let mut out = Files::new();
        walk(&self.work(), &self.work(), &mut out);
        out
    }

    /// Runs the program in the working directory as a user who owns nothing else.
    pub fn run(&self, args: &[String]) -> Result<Ending, String> {
        own(&self.work());
        let root = unsafe { libc::geteuid() } == 0;
        let mut ending = self.spawn(args, root);
        if root && matches!(&ending, Err(reason) if reason.starts_with("the program cannot be started")) {
            ending = self.spawn(args, false);
        }
        ending
    }

    fn spawn(&self, args: &[String], other_user: bool) -> Result<Ending, String> {
        let (out, err) = (self.root.join("stdout"), self.root.join("stderr"));
        let mut command = Command::new(&self.program);
        command.args(args).current_dir(self.work()).stdin(Stdio::null());
        command.stdout(fs::File::create(&out).unwrap()).stderr(fs::File::create(&err).unwrap());
        command.env_clear().env("PATH", "/usr/bin:/bin");
        if other_user {
            command.uid(NOBODY).gid(NOBODY);
        }
        // once a program did not end, the search for the smallest such case is not to wait as long
        static SLOW: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
        let slow = SLOW.load(std::sync::atomic::Ordering::SeqCst);
        let (processor, wall) = if slow { (15, 40) } else { (90, 200) };
        unsafe {
            command.pre_exec(move || {
                let limit = libc::rlimit { rlim_cur: processor, rlim_max: processor + 5 };
                libc::setrlimit(libc::RLIMIT_CPU, &limit);
                Ok(())
            });
        }
        let mut child = command.spawn().map_err(|e| format!("the program cannot be started: {}", e))?;
        let start = Instant::now();
        let status = loop {
            if let Some(status) = child.try_wait().unwrap() {
                break status;
            }
            if start.elapsed() > Duration::from_secs(wall) {
                SLOW.store(true, std::sync::atomic::Ordering::SeqCst);
                let _ = child.kill();
                let _ = child.wait();
                return Err("the program does not end".to_string());
            }
            std::thread::sleep(Duration::from_millis(5));
        };
        if std::os::unix::process::ExitStatusExt::signal(&status) == Some(libc::SIGXCPU) {
            SLOW.store(true, std::sync::atomic::Ordering::SeqCst);
            return Err("the program does not end".to_string());
        }
        let text = |path| String::from_utf8_lossy(&fs::read(path).unwrap_or_default()).to_string();
        Ok(Ending { code: status.code(), stdout: text(&out), stderr: text(&err), bound: other_user || unsafe { libc::geteuid() } != 0 })
    }
}

fn own(path: &Path) {
    use std::os::unix::ffi::OsStrExt;
    let name = std::ffi::CString::new(path.as_os_str().as_bytes()).unwrap();
    unsafe { libc::lchown(name.as_ptr(), NOBODY, NOBODY) };
    if path.is_dir() {
        for entry in fs::read_dir(path).unwrap() {
            own(&entry.unwrap().path());
        }
    }
}

/// Same size, same kind of samples, same samples.
pub fn same(a: &DynamicImage, b: &DynamicImage) -> Result<(), String> {
    kit::ensure!(a.color() == b.color(), "{:?} instead of {:?}", a.color(), b.color());
    kit::ensure!((a.width(), a.height()) == (b.width(), b.height()), "{}x{} instead of {}x{}", a.height(), a.width(), b.height(), b.width());
    let at = a.as_bytes().iter().zip(b.as_bytes()).position(|(x, y)| x != y);
    kit::ensure!(at.is_none(), "sample {} differs", at.unwrap());
    Ok(())
}
