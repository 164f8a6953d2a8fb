//! Monitor of the post-processing workers: injects delays and records in which
//! order strips of the output were started and finished, and by how many threads.
use crate::rng::mix;
use std::collections::HashSet;
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering::SeqCst};
use std::sync::Mutex;

static SEED: AtomicU64 = AtomicU64::new(0);
static SPAN: AtomicU64 = AtomicU64::new(0);
static SEQ: AtomicUsize = AtomicUsize::new(0);
static LOG: Mutex<Vec<(bool, usize, usize, u64)>> = Mutex::new(Vec::new());

#[derive(Default)]
pub struct Trace {
    pub strips: usize,
    pub threads: usize,
    pub overlap: bool,
    pub max_running: usize,
    /// order of starts and ends, in strip numbers
    pub sig: u64,
    pub unfinished: usize,
}

#[cfg(verif_hooks)]
fn monitor(start: bool, addr: usize, len: usize) {
    let span = SPAN.load(SeqCst);
    let n = SEQ.fetch_add(1, SeqCst);
    let seed = SEED.load(SeqCst);
    if span == 0 && seed == 0 {
        return;
    }
    let tid = unsafe { libc::pthread_self() } as u64;
    if start {
        LOG.lock().unwrap().push((start, addr, len, tid));
    }
    if span > 0 {
        let h = mix(seed ^ mix(n as u64));
        match h % 4 {
            0 => std::thread::yield_now(),
            1 => std::thread::sleep(std::time::Duration::from_micros((h >> 8) % span)),
            2 => {
                for _ in 0..(h >> 8) % (span * 20) {
                    std::hint::spin_loop();
                }
            }
            _ => {}
        }
    }
    if !start {
        LOG.lock().unwrap().push((start, addr, len, tid));
    }
}

static POINTS: AtomicU64 = AtomicU64::new(0);
/// delays injected at the start of threads and where memory is allocated
pub static DELAYS: AtomicU64 = AtomicU64::new(0);

/// Called where threads start and memory is allocated, by workers and by the caller's thread:
/// lets others run first, now and then.
pub fn point(thread_start: bool) {
    let span = SPAN.load(SeqCst);
    if span == 0 {
        return;
    }
    let h = mix(SEED.load(SeqCst) ^ mix(!POINTS.fetch_add(1, SeqCst)));
    if thread_start && h % 3 != 0 {
        DELAYS.fetch_add(1, SeqCst);
        std::thread::sleep(std::time::Duration::from_micros((h >> 8) % (span * 2)));
    } else if h % 61 == 0 {
        DELAYS.fetch_add(1, SeqCst);
        unsafe { libc::sched_yield() };
    } else if h % 701 == 1 {
        DELAYS.fetch_add(1, SeqCst);
        let t = libc::timespec { tv_sec: 0, tv_nsec: ((h >> 8) % (span * 1000)) as libc::c_long };
        unsafe { libc::nanosleep(&t, std::ptr::null_mut()) };
    }
}

pub fn install() {
    #[cfg(verif_hooks)]
    zune_jpeg::verif::set_strip_monitor(monitor);
}

pub fn begin(seed: u64, span_us: u64) {
    LOG.lock().unwrap().clear();
    SEQ.store(0, SeqCst);
    SPAN.store(span_us, SeqCst);
    SEED.store(seed | 1, SeqCst);
}

pub fn end() -> Trace {
    SEED.store(0, SeqCst);
    SPAN.store(0, SeqCst);
    let log = std::mem::take(&mut *LOG.lock().unwrap());
    let mut addrs: Vec<(usize, usize)> = log.iter().filter(|e| e.0).map(|e| (e.1, e.2)).collect();
    addrs.sort_unstable();
    let overlap = addrs.windows(2).any(|w| w[0].0 + w[0].1 > w[1].0);
    let mut t = Trace { strips: addrs.len(), overlap, ..Default::default() };
    t.threads = log.iter().map(|e| e.3).collect::<HashSet<_>>().len();
    let mut run = 0usize;
    for e in &log {
        let k = addrs.binary_search(&(e.1, e.2)).unwrap_or(0) as u64;
        t.sig = mix(t.sig ^ (k << 1 | u64::from(e.0)));
        if e.0 {
            run += 1;
            t.max_running = t.max_running.max(run);
        } else {
            run = run.saturating_sub(1);
        }
    }
    t.unfinished = run;
    t
}
