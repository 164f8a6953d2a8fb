//! Every thread the process creates passes through here, so live worker threads
//! can be counted exactly. (Left out of sanitizer builds, which intercept the
//! same call.)
use libc::{c_int, c_void, pthread_attr_t, pthread_t};
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};

pub static LIVE: AtomicUsize = AtomicUsize::new(0);
pub static PEAK: AtomicUsize = AtomicUsize::new(0);
pub static CREATED: AtomicUsize = AtomicUsize::new(0);

/// threads of the harness itself
pub static BASE: AtomicUsize = AtomicUsize::new(0);

/// Like a system which cannot start more threads than this. No image the checks decode has that
/// many strips, a decoder that gets here wanted threads it has no work for.
const SYSTEM_LIMIT: usize = 1200;

/// wait until no more than `n` threads are left, at most 20 s; how many there are
pub fn settle(n: usize) -> usize {
    let t = std::time::Instant::now();
    while LIVE.load(SeqCst) > n && t.elapsed().as_secs() < 20 {
        std::thread::sleep(std::time::Duration::from_micros(100));
    }
    LIVE.load(SeqCst)
}

type Start = extern "C" fn(*mut c_void) -> *mut c_void;
type Create = unsafe extern "C" fn(*mut pthread_t, *const pthread_attr_t, Start, *mut c_void) -> c_int;

struct Box2 {
    f: Start,
    arg: *mut c_void,
}

extern "C" fn trampoline(p: *mut c_void) -> *mut c_void {
    let b = unsafe { (p as *mut Box2).read() };
    unsafe { libc::free(p) };
    crate::strips::point(true);
    let r = (b.f)(b.arg);
    LIVE.fetch_sub(1, SeqCst);
    r
}

static REAL: AtomicUsize = AtomicUsize::new(0);

/// # Safety
/// same contract as pthread_create(3)
#[no_mangle]
pub unsafe extern "C" fn pthread_create(t: *mut pthread_t, a: *const pthread_attr_t, f: Start, arg: *mut c_void) -> c_int {
    let mut real = REAL.load(SeqCst);
    if real == 0 {
        real = libc::dlsym(libc::RTLD_NEXT, c"pthread_create".as_ptr()) as usize;
        REAL.store(real, SeqCst);
    }
    let real: Create = std::mem::transmute(real);
    let b = libc::malloc(std::mem::size_of::<Box2>()) as *mut Box2;
    b.write(Box2 { f, arg });
    let n = LIVE.fetch_add(1, SeqCst) + 1;
    if n > SYSTEM_LIMIT {
        LIVE.fetch_sub(1, SeqCst);
        libc::free(b.cast());
        return libc::EAGAIN;
    }
    PEAK.fetch_max(n, SeqCst);
    CREATED.fetch_add(1, SeqCst);
    let r = real(t, a, trampoline, b.cast());
    if r != 0 {
        LIVE.fetch_sub(1, SeqCst);
        libc::free(b.cast());
    }
    r
}
