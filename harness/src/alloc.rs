//! Hostile, watching allocator.
//!  * every block starts at the *least* aligned address its layout allows
//!  * guard bytes on both sides, verified when the block is released
//!  * fresh memory is filled with a pattern, released memory is scribbled over
//!  * live bytes, peak, largest request and block count are tracked
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicBool, AtomicU8, AtomicUsize, Ordering::Relaxed};

pub struct Hostile;
pub static LIVE: AtomicUsize = AtomicUsize::new(0);
pub static PEAK: AtomicUsize = AtomicUsize::new(0);
pub static BIGGEST: AtomicUsize = AtomicUsize::new(0);
pub static BLOCKS: AtomicUsize = AtomicUsize::new(0);
pub static TOTAL: AtomicUsize = AtomicUsize::new(0);
pub static CORRUPT: AtomicUsize = AtomicUsize::new(0);
pub static SCRIBBLE: AtomicBool = AtomicBool::new(true);
/// what fresh memory holds
pub static FILL: AtomicU8 = AtomicU8::new(0xA7);

const GUARD: usize = 64;
const CANARY: u8 = 0xC9;

fn geometry(l: &Layout) -> (usize, Layout) {
    // offset is an odd multiple of align, at least GUARD
    let a = l.align();
    let base = a.max(32) * 2;
    let mut off = base + a;
    while off < GUARD {
        off += 2 * a.max(base);
    }
    let total = off + l.size() + GUARD;
    (off, Layout::from_size_align(total, base).unwrap())
}

unsafe impl GlobalAlloc for Hostile {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let p = self.raw(l, false);
        if !p.is_null() && SCRIBBLE.load(Relaxed) && l.size() <= 1 << 22 {
            std::ptr::write_bytes(p, FILL.load(Relaxed), l.size());
        }
        p
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        self.raw(l, true)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let (off, big) = geometry(&l);
        let b = p.sub(off);
        let pre = std::slice::from_raw_parts(p.sub(GUARD.min(off)), GUARD.min(off));
        let post = std::slice::from_raw_parts(p.add(l.size()), GUARD);
        if pre.iter().any(|&x| x != CANARY) || post.iter().any(|&x| x != CANARY) {
            CORRUPT.fetch_add(1, Relaxed);
        }
        if SCRIBBLE.load(Relaxed) && l.size() <= 1 << 22 {
            std::ptr::write_bytes(p, 0xDD, l.size());
        }
        LIVE.fetch_sub(l.size(), Relaxed);
        BLOCKS.fetch_sub(1, Relaxed);
        System.dealloc(b, big);
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let nl = Layout::from_size_align_unchecked(n, l.align());
        let q = self.alloc(nl);
        if !q.is_null() {
            std::ptr::copy_nonoverlapping(p, q, l.size().min(n));
            self.dealloc(p, l);
        }
        q
    }
}

impl Hostile {
    unsafe fn raw(&self, l: Layout, zero: bool) -> *mut u8 {
        crate::strips::point(false);
        let (off, big) = geometry(&l);
        let b = if zero { System.alloc_zeroed(big) } else { System.alloc(big) };
        if b.is_null() {
            return b;
        }
        let p = b.add(off);
        std::ptr::write_bytes(p.sub(GUARD.min(off)), CANARY, GUARD.min(off));
        std::ptr::write_bytes(p.add(l.size()), CANARY, GUARD);
        BLOCKS.fetch_add(1, Relaxed);
        TOTAL.fetch_add(1, Relaxed);
        BIGGEST.fetch_max(l.size(), Relaxed);
        let live = LIVE.fetch_add(l.size(), Relaxed) + l.size();
        PEAK.fetch_max(live, Relaxed);
        p
    }
}

#[derive(Clone, Copy)]
pub struct Mark {
    pub live: usize,
    pub blocks: usize,
}
/// start a measurement window
pub fn mark() -> Mark {
    let m = Mark { live: LIVE.load(Relaxed), blocks: BLOCKS.load(Relaxed) };
    PEAK.store(m.live, Relaxed);
    BIGGEST.store(0, Relaxed);
    m
}
pub fn peak_since(m: &Mark) -> usize {
    PEAK.load(Relaxed).saturating_sub(m.live)
}
