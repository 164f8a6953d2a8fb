#![allow(clippy::needless_range_loop)]
mod alloc;
mod ctx;
mod dut;
mod gen;
mod jpeg;
mod mutate;
mod play;
mod props;
mod rng;
mod strips;
#[cfg(not(feature = "plain_alloc"))]
mod threads;
mod truth;
#[cfg(not(feature = "plain_alloc"))]
mod world;

#[cfg(not(feature = "plain_alloc"))]
#[global_allocator]
static A: alloc::Hostile = alloc::Hostile;

use std::os::unix::fs::FileExt;
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::Instant;

static STARTED: AtomicU64 = AtomicU64::new(0); // ms since t0 + 1, 0 = no case running

fn arg(a: &[String], k: &str) -> Option<String> {
    a.iter().position(|x| x == k).and_then(|i| a.get(i + 1).cloned())
}

/// zjv run --prop C03 --seed 1 --shard 0 --shards 8 --count N --deadline S --out F [--thorough]
/// zjv run ... --from I --count 1 --shards 1   replays case I
fn main() {
    #[cfg(not(feature = "plain_alloc"))]
    world::block_alarm();
    // with the stack a thread has by default, sanitizers need more
    let size = if cfg!(feature = "plain_alloc") { 64 << 20 } else { 2 << 20 };
    let h = std::thread::Builder::new().stack_size(size).spawn(run).expect("thread");
    if h.join().is_err() {
        std::process::exit(101);
    }
}

fn run() {
    let a: Vec<String> = std::env::args().collect();
    dut::install_hook();
    dut::install_logger();
    if a.get(1).map(String::as_str) == Some("play") {
        return play::play(&a[2..]);
    }
    if a.get(1).map(String::as_str) == Some("record") {
        return play::record(&a[2..]);
    }
    let get = |k: &str, d: u64| arg(&a, k).map_or(d, |v| v.parse().expect("number"));
    let prop = arg(&a, "--prop").expect("--prop");
    let seed = get("--seed", 1);
    let (shard, shards) = (get("--shard", 0), get("--shards", 1));
    let (from, count) = (get("--from", 0), get("--count", 100));
    let deadline = get("--deadline", 600) as f64;
    let watchdog = get("--watchdog", 90);
    let out = arg(&a, "--out").expect("--out");
    let thorough = a.iter().any(|x| x == "--thorough");
    // go on after violations, for surveys
    let keep = a.iter().any(|x| x == "--keep");
    let t0 = Instant::now();
    let scratch = std::path::PathBuf::from(format!("{out}.scratch"));
    let _ = std::fs::create_dir_all(&scratch);
    let mut c = ctx::Ctx::new(&prop, seed, thorough, scratch.clone());
    let p = props::get(&prop).unwrap_or_else(|| {
        eprintln!("no such property {prop}");
        std::process::exit(3)
    });
    let journal = std::fs::File::create(format!("{out}.journal")).expect("journal");
    if !cfg!(miri) {
        std::thread::spawn(move || loop {
            std::thread::sleep(std::time::Duration::from_millis(500));
            let s = STARTED.load(Ordering::SeqCst);
            if s != 0 && t0.elapsed().as_millis() as u64 > s - 1 + watchdog * 1000 {
                eprintln!("ZJV-WATCHDOG a case did not finish");
                unsafe { libc::_exit(77) };
            }
        });
    }
    #[cfg(not(feature = "plain_alloc"))]
    threads::BASE.store(threads::LIVE.load(Ordering::SeqCst), Ordering::SeqCst);
    dut::warm_up();
    #[cfg(feature = "cov")]
    dut::counters_reset();
    let mut i = from + shard;
    let mut complete = true;
    while i < from + count {
        if t0.elapsed().as_secs_f64() > deadline {
            complete = false;
            break;
        }
        journal.write_all_at(&i.to_le_bytes(), 0).expect("journal");
        c.begin(i);
        // a logger that listens to everything, now and then
        dut::log_level(if prop != "C20" && i % 5 == 3 { 5 } else { 0 });
        STARTED.store(t0.elapsed().as_millis() as u64 + 1, Ordering::SeqCst);
        p(&mut c);
        STARTED.store(0, Ordering::SeqCst);
        if !c.viols.is_empty() && !keep {
            complete = false;
            break;
        }
        i += shards;
    }
    let _ = std::fs::remove_dir_all(&scratch);
    c.write(&out, t0.elapsed().as_secs_f64(), i, complete).expect("write");
    for v in &c.viols {
        println!("FAIL prop={prop} case={} {}: {}", v.idx, v.sig, v.msg);
    }
    if arg(&a, "--print").is_some() {
        println!("{:?} {:?} evals {} distinct {}", c.notes, c.maxima, c.evaluations, c.distinct.len());
    }
    #[cfg(feature = "cov")]
    dut::counters_write();
    // no destructors: a damaged heap must not spoil the report
    if cfg!(miri) {
        std::process::exit(i32::from(!c.viols.is_empty()));
    }
    unsafe { libc::_exit(i32::from(!c.viols.is_empty())) }
}
