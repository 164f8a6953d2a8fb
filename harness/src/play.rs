//! Inputs prepared by a native run for interpreters in which preparing them
//! would be too slow: `record SEED FROM COUNT DIR` writes them, `play FILE...` decodes them.
use crate::dut::{decode_with, headers_with, tier, Opt, Out};
use crate::gen::*;
use crate::jpeg::*;
use crate::mutate;
use crate::props::CS;
use crate::rng::Rng;
use zune_jpeg::Decoder;

const SAMPS: [(usize, usize); 4] = [(1, 1), (2, 1), (1, 2), (2, 2)];

pub fn record(a: &[String]) {
    let n = |i: usize| a[i].parse::<u64>().expect("number");
    let (seed, from, count, dir) = (n(0), n(1), n(2), &a[3]);
    for i in from..from + count {
        let mut r = Rng::new(seed, "play", i);
        let comps = if r.chance(1, 6) { 1 } else { 3 };
        let samp = SAMPS[(i % 4) as usize];
        let (w, h) = match r.below(4) {
            0 => (r.range(1, 9) as usize, r.range(1, 9) as usize),
            1 => (r.range(1, 50) as usize, r.range(1, 4) as usize),
            2 => (r.range(17, 40) as usize, r.range(1, 17) as usize),
            _ => (r.range(1, 24) as usize, r.range(1, 24) as usize),
        };
        let img = gen_image_sized(&mut r, w, h, comps, samp);
        let mut o = if (i / 4) % 2 == 0 { gen_baseline(&img, &mut r) } else { gen_progressive(&img, &mut r) };
        if o.progressive {
            o.scans = std_script(&img);
        }
        let mut b = encode(&img, &o, &mut r).bytes;
        let hostile = r.chance(1, 5);
        if hostile {
            for _ in 0..8 {
                let c = mutate::hostile(&mut r).0;
                if c.len() < 1500 {
                    b = c;
                    break;
                }
            }
        }
        let cs = ((i / 8) % 5) as u8;
        // 3: without unsafe code
        let t = [2u8, 2, 2, 3][r.below(4)];
        let mut f = vec![cs, t, 1 + r.below(2) as u8, u8::from(hostile)];
        f.extend_from_slice(&b);
        std::fs::write(format!("{dir}/{i}.case"), f).expect("write");
    }
}

pub fn play(files: &[String]) {
    for f in files {
        let v = std::fs::read(f).expect("read");
        let mut o = Opt::new(CS[usize::from(v[0])]).threads(u32::from(v[2]));
        o.maxw = 100;
        o.maxh = 100;
        o.max_scans = 64;
        o.unsafe_ = v[1] != 3;
        tier(2);
        println!("PLAY {f}");
        let mut d = Decoder::new_with_options(o.build());
        let r = decode_with(&mut d, &v[4..]);
        println!("PLAYED {f} {} {}", r.kind(), if v[3] == 1 { "hostile" } else { "conforming" });
        if let Out::Panic(m) = &r {
            println!("PANIC {m}");
        }
        if files.len() == 1 {
            let _ = headers_with(&mut d, &v[4..]);
        }
    }
}
