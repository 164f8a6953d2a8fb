//! The decoder under test, called only through its public interface, with
//! every way a call can end made observable.
use std::cell::RefCell;
use std::num::NonZeroU32;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;
use zune_jpeg::{ColorSpace, Decoder, ZuneJpegOptions};

pub static LAST_PANIC: Mutex<String> = Mutex::new(String::new());
thread_local! { static _T: RefCell<()> = const { RefCell::new(()) }; }

pub fn install_hook() {
    std::panic::set_hook(Box::new(|i| {
        let loc = i.location().map(|l| format!("{}:{}", l.file().rsplit('/').next().unwrap_or(""), l.line())).unwrap_or_default();
        let msg = i
            .payload()
            .downcast_ref::<&str>()
            .map(|s| (*s).to_string())
            .or_else(|| i.payload().downcast_ref::<String>().cloned())
            .unwrap_or_default();
        if std::env::var_os("ZJV_TRACE").is_some() { eprintln!("panic {loc} {msg}\n{}", std::backtrace::Backtrace::force_capture()); }
        let mut g = LAST_PANIC.lock().unwrap_or_else(|e| e.into_inner());
        if g.is_empty() {
            *g = format!("{loc} {msg}");
        }
    }));
}
fn take_panic() -> String {
    std::mem::take(&mut *LAST_PANIC.lock().unwrap_or_else(|e| e.into_inner()))
}

#[derive(Clone, Copy, Debug)]
pub struct Opt {
    pub cs: ColorSpace,
    pub threads: u32,
    pub unsafe_: bool,
    pub strict: bool,
    pub maxw: u16,
    pub maxh: u16,
    pub max_scans: usize,
}
impl Opt {
    pub fn new(cs: ColorSpace) -> Opt {
        Opt { cs, threads: 4, unsafe_: true, strict: false, maxw: 1 << 14, maxh: 1 << 14, max_scans: 4096 }
    }
    pub fn build(&self) -> ZuneJpegOptions {
        ZuneJpegOptions::new()
            .set_out_colorspace(self.cs)
            .set_num_threads(NonZeroU32::new(self.threads).unwrap())
            .set_use_unsafe(self.unsafe_)
            .set_strict_mode(self.strict)
            .set_max_width(self.maxw)
            .set_max_height(self.maxh)
            .set_max_scans(self.max_scans)
    }
    pub fn text(&self) -> String {
        format!("cs={:?} threads={} unsafe={} strict={} max={}x{} scans={}", self.cs, self.threads, self.unsafe_, self.strict, self.maxw, self.maxh, self.max_scans)
    }
    pub fn cs(mut self, cs: ColorSpace) -> Opt {
        self.cs = cs;
        self
    }
    pub fn threads(mut self, n: u32) -> Opt {
        self.threads = n;
        self
    }
    pub fn safe(mut self) -> Opt {
        self.unsafe_ = false;
        self
    }
    pub fn strict(mut self) -> Opt {
        self.strict = true;
        self
    }
}

#[derive(Clone, PartialEq, Debug)]
pub enum Out {
    Ok(Vec<u8>),
    Err(String),
    Panic(String),
}
impl Out {
    pub fn kind(&self) -> &'static str {
        match self {
            Out::Ok(_) => "ok",
            Out::Err(_) => "err",
            Out::Panic(_) => "panic",
        }
    }
    pub fn ok(&self) -> Option<&Vec<u8>> {
        if let Out::Ok(v) = self {
            Some(v)
        } else {
            None
        }
    }
    pub fn brief(&self) -> String {
        match self {
            Out::Ok(v) => format!("Ok({} bytes)", v.len()),
            Out::Err(e) => format!("Err({})", e.chars().take(120).collect::<String>().replace('\n', " ")),
            Out::Panic(e) => format!("PANIC({})", e.chars().take(160).collect::<String>().replace('\n', " ")),
        }
    }
}

pub fn guarded<T>(f: impl FnOnce() -> Result<T, String>) -> Result<Result<T, String>, String> {
    take_panic();
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => {
            // a worker thread may have panicked without the call noticing
            let p = take_panic();
            if p.is_empty() {
                Ok(r)
            } else {
                Err(format!("worker: {p}"))
            }
        }
        Err(_) => Err(take_panic()),
    }
}

#[derive(Clone, PartialEq, Debug)]
pub struct Info {
    pub w: u16,
    pub h: u16,
    pub comps: u8,
    pub density: u8,
    pub sof: String,
}
pub struct Res {
    pub out: Out,
    pub w: u16,
    pub h: u16,
    pub info: Option<Info>,
    pub cs: ColorSpace,
}

pub fn info_of(d: &Decoder) -> Option<Info> {
    d.info().map(|i| Info { w: i.width, h: i.height, comps: i.components, density: i.pixel_density, sof: format!("{:?}", i.sof) })
}

/// both texts of an error, each must be producible
fn say(e: &zune_jpeg::errors::DecodeErrors) -> String {
    let shown = format!("{e}");
    let s = format!("{e:?}");
    if shown.is_empty() || s.is_empty() {
        panic!("an error without a text");
    }
    s
}

/// Receives what the decoder logs, formats it, throws it away.
struct Sink;
pub static LOGGED: AtomicU64 = AtomicU64::new(0);
struct Count(u64);
impl std::fmt::Write for Count {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        self.0 += s.len() as u64;
        Ok(())
    }
}
impl log::Log for Sink {
    fn enabled(&self, _: &log::Metadata) -> bool {
        true
    }
    fn log(&self, r: &log::Record) {
        let mut c = Count(0);
        let _ = std::fmt::write(&mut c, *r.args());
        let n = LOGGED.fetch_add(1, Ordering::Relaxed);
        if let (true, Some(b)) = (n % 7 == 3, REENTER.get()) {
            thread_local! { static WITHIN: std::cell::Cell<bool> = const { std::cell::Cell::new(false) }; }
            if REENTERING.load(Ordering::Relaxed) && !WITHIN.with(|w| w.replace(true)) {
                let same = match Decoder::new().decode_buffer(&b.0) {
                    Ok(v) => v == b.1,
                    Err(_) => false,
                };
                REENTERED.fetch_add(1, Ordering::Relaxed);
                if !same {
                    WRONG.fetch_add(1, Ordering::Relaxed);
                }
                WITHIN.with(|w| w.set(false));
            }
        }
    }
    fn flush(&self) {}
}
/// a logger may use the decoder itself: a file and its pixels
pub static REENTER: std::sync::OnceLock<(Vec<u8>, Vec<u8>)> = std::sync::OnceLock::new();
pub static REENTERING: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
pub static REENTERED: AtomicU64 = AtomicU64::new(0);
pub static WRONG: AtomicU64 = AtomicU64::new(0);
static SINK: Sink = Sink;
pub fn install_logger() {
    let _ = log::set_logger(&SINK);
    log::set_max_level(log::LevelFilter::Off);
}
pub const LEVELS: [log::LevelFilter; 6] =
    [log::LevelFilter::Off, log::LevelFilter::Error, log::LevelFilter::Warn, log::LevelFilter::Info, log::LevelFilter::Debug, log::LevelFilter::Trace];
pub fn log_level(k: usize) {
    log::set_max_level(LEVELS[k]);
}

pub fn decode_with(d: &mut Decoder, b: &[u8]) -> Out {
    match guarded(|| d.decode_buffer(b).map_err(|e| say(&e))) {
        Ok(Ok(v)) => Out::Ok(v),
        Ok(Err(e)) => Out::Err(e),
        Err(p) => Out::Panic(p),
    }
}
pub fn headers_with(d: &mut Decoder, b: &[u8]) -> Out {
    match guarded(|| d.read_headers(b).map_err(|e| say(&e))) {
        Ok(Ok(())) => Out::Ok(vec![]),
        Ok(Err(e)) => Out::Err(e),
        Err(p) => Out::Panic(p),
    }
}
pub fn decode(b: &[u8], o: &Opt) -> Out {
    decode_with(&mut Decoder::new_with_options(o.build()), b)
}
pub fn decode_full(b: &[u8], o: &Opt) -> Res {
    let mut d = Decoder::new_with_options(o.build());
    let out = decode_with(&mut d, b);
    Res { out, w: d.width(), h: d.height(), info: info_of(&d), cs: d.get_output_colorspace() }
}

/// Act as a CPU with fewer features (0 none, 1 SSE, 2 everything). False if the
/// build under test has no such hook.
pub fn tier(t: u8) -> bool {
    #[cfg(verif_hooks)]
    zune_jpeg::verif::set_tier(t);
    let _ = t;
    cfg!(verif_hooks)
}

/// let everything that is created once be created
pub fn warm_up() {
    crate::strips::install();
    if cfg!(miri) {
        return;
    }
    let mut r = crate::rng::Rng::new(7, "warm", 0);
    let img = crate::gen::gen_image_sized(&mut r, 40, 40, 3, (2, 2));
    let e = crate::jpeg::encode(&img, &crate::jpeg::EncOpts::plain(&img), &mut r);
    for _ in 0..2 {
        let _ = decode(&e.bytes, &Opt::new(ColorSpace::RGB));
    }
    let _ = decode(&e.bytes[..10], &Opt::new(ColorSpace::RGB));
}

// Which code runs: builds with `-C instrument-coverage` count every region of code.

#[cfg(feature = "cov")]
extern "C" {
    fn __llvm_profile_reset_counters();
    fn __llvm_profile_write_file() -> i32;
    fn __llvm_profile_begin_counters() -> *mut u64;
    fn __llvm_profile_end_counters() -> *mut u64;
}

#[cfg(feature = "cov")]
pub fn counters_reset() {
    unsafe { __llvm_profile_reset_counters() }
}

#[cfg(feature = "cov")]
pub fn counters_write() {
    if unsafe { __llvm_profile_write_file() } != 0 {
        eprintln!("no profile written");
        unsafe { libc::_exit(3) };
    }
}

/// what runs in here is not counted
pub fn uncounted<T>(f: impl FnOnce() -> T) -> T {
    #[cfg(feature = "cov")]
    unsafe {
        let (a, z) = (__llvm_profile_begin_counters(), __llvm_profile_end_counters());
        let n = (z as usize - a as usize) / 8;
        let kept = std::slice::from_raw_parts(a, n).to_vec();
        let r = f();
        std::ptr::copy_nonoverlapping(kept.as_ptr(), a, n);
        return r;
    }
    #[cfg(not(feature = "cov"))]
    f()
}
