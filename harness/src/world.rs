//! The process around a call: what a library has no business to touch.
use libc::{c_char, c_int, c_void};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::SeqCst};
use std::sync::Mutex;

/// files opened, processes and sockets made while `WATCH` is set
pub static EVENTS: Mutex<Vec<String>> = Mutex::new(vec![]);
static WATCH: AtomicBool = AtomicBool::new(false);
pub static SIGNALS: AtomicU64 = AtomicU64::new(0);

pub fn watch(on: bool) -> Vec<String> {
    WATCH.store(on, SeqCst);
    std::mem::take(&mut *EVENTS.lock().unwrap_or_else(|e| e.into_inner()))
}

fn event(s: String) {
    EVENTS.lock().unwrap_or_else(|e| e.into_inner()).push(s);
}

fn opened(p: *const c_char, flags: c_int) {
    if WATCH.load(SeqCst) && !p.is_null() {
        let p = unsafe { std::ffi::CStr::from_ptr(p) }.to_string_lossy().into_owned();
        let how = if flags & libc::O_ACCMODE != libc::O_RDONLY || flags & (libc::O_CREAT | libc::O_TRUNC) != 0 { "opened for writing" } else { "opened" };
        event(format!("{how}: {p}"));
    }
}

unsafe fn next(slot: &AtomicUsize, name: &std::ffi::CStr) -> usize {
    let mut f = slot.load(SeqCst);
    if f == 0 {
        f = libc::dlsym(libc::RTLD_NEXT, name.as_ptr()) as usize;
        slot.store(f, SeqCst);
    }
    f
}

// the mode argument is variadic in C, which makes no difference to this calling convention
macro_rules! open_like {
    ($name:ident, $lit:expr, ($($a:ident: $t:ty),*), $path:ident, $flags:ident) => {
        /// # Safety
        /// that of the function of the same name
        #[no_mangle]
        pub unsafe extern "C" fn $name($($a: $t),*) -> c_int {
            static F: AtomicUsize = AtomicUsize::new(0);
            let f: unsafe extern "C" fn($($t),*) -> c_int = std::mem::transmute(next(&F, $lit));
            opened($path, $flags);
            f($($a),*)
        }
    };
}
open_like!(open64, c"open64", (path: *const c_char, flags: c_int, mode: c_int), path, flags);
open_like!(openat, c"openat", (dir: c_int, path: *const c_char, flags: c_int, mode: c_int), path, flags);
open_like!(openat64, c"openat64", (dir: c_int, path: *const c_char, flags: c_int, mode: c_int), path, flags);

/// # Safety
/// that of socket(2)
#[no_mangle]
pub unsafe extern "C" fn socket(a: c_int, b: c_int, c: c_int) -> c_int {
    static F: AtomicUsize = AtomicUsize::new(0);
    let f: unsafe extern "C" fn(c_int, c_int, c_int) -> c_int = std::mem::transmute(next(&F, c"socket"));
    if WATCH.load(SeqCst) {
        event("made a socket".into());
    }
    f(a, b, c)
}

/// # Safety
/// that of fork(2)
#[no_mangle]
pub unsafe extern "C" fn fork() -> libc::pid_t {
    static F: AtomicUsize = AtomicUsize::new(0);
    let f: unsafe extern "C" fn() -> libc::pid_t = std::mem::transmute(next(&F, c"fork"));
    if WATCH.load(SeqCst) {
        event("made a process".into());
    }
    f()
}

/// # Safety
/// that of posix_spawnp(3)
#[no_mangle]
pub unsafe extern "C" fn posix_spawnp(a: *mut c_void, b: *const c_char, c: *const c_void, d: *const c_void, e: *const c_void, g: *const c_void) -> c_int {
    static F: AtomicUsize = AtomicUsize::new(0);
    type P = *const c_void;
    let f: unsafe extern "C" fn(*mut c_void, *const c_char, P, P, P, P) -> c_int = std::mem::transmute(next(&F, c"posix_spawnp"));
    if WATCH.load(SeqCst) {
        event("made a process".into());
    }
    f(a, b, c, d, e, g)
}

/// while set, variables the environment does not have are found in it
pub static LIE: AtomicBool = AtomicBool::new(false);

/// # Safety
/// that of getenv(3)
#[no_mangle]
pub unsafe extern "C" fn getenv(name: *const c_char) -> *mut c_char {
    static F: AtomicUsize = AtomicUsize::new(0);
    let f: unsafe extern "C" fn(*const c_char) -> *mut c_char = std::mem::transmute(next(&F, c"getenv"));
    let v = f(name);
    if v.is_null() && WATCH.load(SeqCst) && LIE.load(SeqCst) && !std::ffi::CStr::from_ptr(name).to_bytes().starts_with(b"RUST_") {
        LIES.fetch_add(1, SeqCst);
        return c"1".as_ptr().cast_mut();
    }
    v
}
pub static LIES: AtomicU64 = AtomicU64::new(0);

/// the control bits of the floating point units: (SSE, x87)
pub fn fpu() -> (u32, u16) {
    let (mut m, mut w) = (0u32, 0u16);
    unsafe {
        std::arch::asm!("stmxcsr [{}]", in(reg) &mut m, options(nostack));
        std::arch::asm!("fnstcw [{}]", in(reg) &mut w, options(nostack));
    }
    (m & 0xFFC0, w)
}

pub fn set_fpu(s: (u32, u16)) {
    let (m, w) = s;
    unsafe {
        std::arch::asm!("ldmxcsr [{}]", in(reg) &m, options(nostack));
        std::arch::asm!("fldcw [{}]", in(reg) &w, options(nostack));
    }
}

extern "C" fn on_signal(_: c_int) {
    SIGNALS.fetch_add(1, SeqCst);
}

/// a signal every `us` microseconds to this thread or one it makes, 0: no more. System calls
/// are interrupted and not restarted.
pub fn signals(us: i64) {
    unsafe {
        let mut set: libc::sigset_t = std::mem::zeroed();
        libc::sigemptyset(&mut set);
        libc::sigaddset(&mut set, libc::SIGALRM);
        if us > 0 {
            let mut a: libc::sigaction = std::mem::zeroed();
            a.sa_sigaction = on_signal as extern "C" fn(c_int) as usize;
            libc::sigaction(libc::SIGALRM, &a, std::ptr::null_mut());
            libc::pthread_sigmask(libc::SIG_UNBLOCK, &set, std::ptr::null_mut());
        }
        let t = libc::timeval { tv_sec: 0, tv_usec: us };
        let t = libc::itimerval { it_interval: t, it_value: t };
        libc::setitimer(libc::ITIMER_REAL, &t, std::ptr::null_mut());
        if us == 0 {
            libc::pthread_sigmask(libc::SIG_BLOCK, &set, std::ptr::null_mut());
        }
    }
}

/// signals are for those who ask for them
pub fn block_alarm() {
    unsafe {
        let mut set: libc::sigset_t = std::mem::zeroed();
        libc::sigemptyset(&mut set);
        libc::sigaddset(&mut set, libc::SIGALRM);
        libc::pthread_sigmask(libc::SIG_BLOCK, &set, std::ptr::null_mut());
    }
}

fn hash(b: &[u8]) -> u64 {
    crate::ctx::hash_bytes(b)
}

/// everything about this process and thread a call must leave alone
pub fn state() -> Vec<(String, u64)> {
    use std::os::unix::ffi::OsStrExt;
    let mut v: Vec<(String, u64)> = vec![];
    let mut env = 0u64;
    for (k, x) in std::env::vars_os() {
        env = env.wrapping_add(hash(&[k.as_bytes(), b"=", x.as_bytes()].concat()));
    }
    v.push(("environment".into(), env));
    v.push(("working directory".into(), std::env::current_dir().map_or(0, |d| hash(d.as_os_str().as_bytes()))));
    let (m, w) = fpu();
    v.push(("SSE control word".into(), u64::from(m)));
    v.push(("x87 control word".into(), u64::from(w)));
    v.push(("log level".into(), log::max_level() as u64));
    unsafe {
        let u = libc::umask(0o22);
        libc::umask(u);
        v.push(("umask".into(), u64::from(u)));
        for s in (1..32).chain(34..65) {
            let mut a: libc::sigaction = std::mem::zeroed();
            if libc::sigaction(s, std::ptr::null(), &mut a) == 0 {
                v.push((format!("action of signal {s}"), (a.sa_sigaction as u64).wrapping_mul(31) ^ a.sa_flags as u64));
            }
        }
        let mut set: libc::sigset_t = std::mem::zeroed();
        libc::pthread_sigmask(libc::SIG_SETMASK, std::ptr::null(), &mut set);
        let mask = (1..65).filter(|&s| libc::sigismember(&set, s) == 1).fold(0u64, |m, s| m | 1 << (s - 1));
        v.push(("signal mask".into(), mask));
        for k in 0..16u32 {
            let mut l: libc::rlimit = std::mem::zeroed();
            libc::getrlimit(k, &mut l);
            v.push((format!("resource limit {k}"), l.rlim_cur ^ l.rlim_max.rotate_left(7)));
        }
        for k in [libc::ITIMER_REAL, libc::ITIMER_VIRTUAL, libc::ITIMER_PROF] {
            let mut t: libc::itimerval = std::mem::zeroed();
            libc::getitimer(k, &mut t);
            v.push((format!("timer {k}"), (t.it_interval.tv_sec * 1_000_000 + t.it_interval.tv_usec) as u64));
        }
        v.push(("priority".into(), libc::getpriority(libc::PRIO_PROCESS, 0) as u64));
        v.push(("scheduler".into(), libc::sched_getscheduler(0) as u64));
        let mut cpus: libc::cpu_set_t = std::mem::zeroed();
        libc::sched_getaffinity(0, std::mem::size_of::<libc::cpu_set_t>(), &mut cpus);
        v.push(("CPU affinity".into(), (0..1024).filter(|&k| libc::CPU_ISSET(k, &cpus)).fold(1, |h: u64, k| h.wrapping_mul(31).wrapping_add(k as u64))));
        let mut name = [0u8; 16];
        libc::pthread_getname_np(libc::pthread_self(), name.as_mut_ptr().cast(), 16);
        v.push(("name of the thread".into(), hash(&name)));
        for (k, n) in [(libc::PR_GET_DUMPABLE, "dumpable"), (libc::PR_GET_NO_NEW_PRIVS, "no_new_privs"), (libc::PR_GET_TIMERSLACK, "timer slack"), (libc::PR_GET_PDEATHSIG, "parent death signal")] {
            let mut out = 0i32;
            let r = libc::prctl(k, &mut out as *mut i32 as libc::c_ulong * u64::from(k == libc::PR_GET_PDEATHSIG), 0, 0, 0);
            v.push((n.into(), if k == libc::PR_GET_PDEATHSIG { out as u64 } else { r as u64 }));
        }
        let loc = libc::setlocale(libc::LC_ALL, std::ptr::null());
        v.push(("locale".into(), if loc.is_null() { 0 } else { hash(std::ffi::CStr::from_ptr(loc).to_bytes()) }));
        let mut st: libc::stack_t = std::mem::zeroed();
        libc::sigaltstack(std::ptr::null(), &mut st);
        v.push(("signal stack".into(), st.ss_sp as u64 ^ st.ss_flags as u64));
        let mut fds = 0u64;
        for fd in 0..128 {
            let f = libc::fcntl(fd, libc::F_GETFD);
            if f >= 0 {
                let mut s: libc::stat = std::mem::zeroed();
                libc::fstat(fd, &mut s);
                fds = fds.wrapping_add(hash(&[(fd as u64).to_le_bytes(), (f as u64 ^ libc::fcntl(fd, libc::F_GETFL) as u64).to_le_bytes(), s.st_dev.to_le_bytes(), s.st_ino.to_le_bytes()].concat()));
            }
        }
        v.push(("open files".into(), fds));
    }
    // the panic hook of the harness is still there and called
    let p = std::panic::catch_unwind(|| panic!("probe"));
    let seen = std::mem::take(&mut *crate::dut::LAST_PANIC.lock().unwrap_or_else(|e| e.into_inner()));
    v.push(("panic hook".into(), u64::from(p.is_err() && seen.ends_with("probe"))));
    v
}

/// Standard input, output and error taken away from the process for a while.
pub struct Streams {
    kept: [c_int; 3],
    new: [c_int; 3],
    closed: bool,
}

impl Streams {
    pub fn take(closed: bool) -> Streams {
        use std::io::Write;
        let _ = std::io::stdout().flush();
        let mut s = Streams { kept: [0; 3], new: [-1; 3], closed };
        unsafe {
            for k in 0..3 {
                s.kept[k] = libc::fcntl(k as c_int, libc::F_DUPFD_CLOEXEC, 100);
                if closed {
                    libc::close(k as c_int);
                } else {
                    let m = libc::memfd_create(c"stream".as_ptr(), libc::MFD_CLOEXEC);
                    s.new[k] = libc::fcntl(m, libc::F_DUPFD_CLOEXEC, 90);
                    libc::close(m);
                    libc::dup2(s.new[k], k as c_int);
                    if k == 0 {
                        libc::write(0, b"some input\n".as_ptr().cast(), 11);
                        libc::lseek(0, 0, libc::SEEK_SET);
                    }
                }
            }
        }
        s
    }
    /// put them back: what was read from the first, what was written to the others
    pub fn give_back(self) -> (u64, String) {
        use std::io::Write;
        let _ = std::io::stdout().flush();
        let (mut read, mut said) = (0, String::new());
        unsafe {
            for k in 0..3usize {
                if !self.closed {
                    let at = libc::lseek(self.new[k], 0, libc::SEEK_CUR);
                    if k == 0 {
                        read = at as u64;
                    } else if at > 0 {
                        let mut b = vec![0u8; (at as usize).min(200)];
                        libc::pread(self.new[k], b.as_mut_ptr().cast(), b.len(), 0);
                        said += &String::from_utf8_lossy(&b);
                    }
                    libc::close(self.new[k]);
                }
                libc::dup2(self.kept[k], k as c_int);
                libc::close(self.kept[k]);
            }
        }
        (read, said)
    }
}

/// A copy of some bytes that cannot be written and ends where accessible memory ends.
pub struct Locked {
    base: *mut c_void,
    size: usize,
    at: *const u8,
    n: usize,
}

impl Locked {
    pub fn new(b: &[u8]) -> Locked {
        let pages = b.len().div_ceil(4096) * 4096;
        let size = pages + 4096;
        unsafe {
            let base = libc::mmap(std::ptr::null_mut(), size, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS, -1, 0);
            assert!(base != libc::MAP_FAILED, "mmap");
            let at = base.cast::<u8>().add(pages - b.len());
            std::ptr::copy_nonoverlapping(b.as_ptr(), at, b.len());
            if pages > 0 {
                libc::mprotect(base, pages, libc::PROT_READ);
            }
            libc::mprotect(base.cast::<u8>().add(pages).cast(), 4096, libc::PROT_NONE);
            Locked { base, size, at, n: b.len() }
        }
    }
    pub fn bytes(&self) -> &[u8] {
        unsafe { std::slice::from_raw_parts(self.at, self.n) }
    }
}

impl Drop for Locked {
    fn drop(&mut self) {
        unsafe { libc::munmap(self.base, self.size) };
    }
}
