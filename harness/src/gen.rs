//! Workload generation: image contents, encodings, scan scripts.
use crate::jpeg::*;
use crate::rng::Rng;

pub const SAMPS: [(usize, usize); 4] = [(1, 1), (2, 1), (1, 2), (2, 2)];

fn ctab() -> [[f64; 8]; 8] {
    let mut c = [[0.0; 8]; 8];
    for (u, row) in c.iter_mut().enumerate() {
        for (x, v) in row.iter_mut().enumerate() {
            let cu = if u == 0 { (0.125f64).sqrt() } else { 0.5 };
            *v = cu * (((2 * x + 1) as f64) * u as f64 * std::f64::consts::PI / 16.0).cos();
        }
    }
    c
}
thread_local! { static C: [[f64; 8]; 8] = ctab(); }

pub fn fdct(s: &[f64; 64]) -> [f64; 64] {
    C.with(|c| {
        let mut t = [0.0; 64];
        for y in 0..8 {
            for u in 0..8 {
                let mut a = 0.0;
                for x in 0..8 {
                    a += c[u][x] * s[y * 8 + x];
                }
                t[y * 8 + u] = a;
            }
        }
        let mut o = [0.0; 64];
        for u in 0..8 {
            for v in 0..8 {
                let mut a = 0.0;
                for y in 0..8 {
                    a += c[v][y] * t[y * 8 + u];
                }
                o[v * 8 + u] = a;
            }
        }
        o
    })
}
pub fn idct(s: &[f64; 64]) -> [f64; 64] {
    C.with(|c| {
        let mut t = [0.0; 64];
        for v in 0..8 {
            for x in 0..8 {
                let mut a = 0.0;
                for u in 0..8 {
                    a += c[u][x] * s[v * 8 + u];
                }
                t[v * 8 + x] = a;
            }
        }
        let mut o = [0.0; 64];
        for x in 0..8 {
            for y in 0..8 {
                let mut a = 0.0;
                for v in 0..8 {
                    a += c[v][y] * t[v * 8 + x];
                }
                o[y * 8 + x] = a;
            }
        }
        o
    })
}

#[rustfmt::skip]
const STD_Q: [u8; 64] = [
    16,11,10,16,24,40,51,61,12,12,14,19,26,58,60,55,14,13,16,24,40,57,69,56,14,17,22,29,51,87,80,62,
    18,22,37,56,68,109,103,77,24,35,55,64,81,104,113,92,49,64,78,87,103,121,120,101,72,92,95,98,112,100,103,99,
];

pub fn gen_qt(rng: &mut Rng) -> [u8; 64] {
    let mut q = [1u8; 64];
    match rng.below(6) {
        0 => {}
        1 => q = [rng.range(1, 16) as u8; 64],
        2 | 3 => {
            let s = rng.range(5, 150) as u32;
            for k in 0..64 {
                q[k] = (u32::from(STD_Q[k]) * s / 100).clamp(1, 255) as u8;
            }
        }
        4 => {
            for v in &mut q {
                *v = rng.range(1, 40) as u8;
            }
        }
        _ => {
            for v in &mut q {
                *v = rng.range(1, 255) as u8;
            }
        }
    }
    q
}

/// sizes: heavily tiny / block-boundary
pub fn gen_dim(rng: &mut Rng, max: usize) -> usize {
    let m = match rng.below(10) {
        0..=2 => rng.range(1, 17) as usize,
        3..=5 => {
            let k = rng.range(1, 8) as usize * *rng.pick(&[8usize, 16, 32]);
            (k as i64 + rng.range(-2, 2)).max(1) as usize
        }
        6..=7 => rng.range(1, 70) as usize,
        8 => rng.range(1, 200) as usize,
        _ => rng.range(1, max as i64) as usize,
    };
    m.min(max)
}

fn limit(v: f64, lim: f64) -> i16 {
    v.round().clamp(-lim, lim) as i16
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Content {
    Noise,
    Smooth,
    Edges,
    Flat,
    Extremes,
    Sparse,
    DcOnly,
    Mixed,
}
pub const CONTENTS: [Content; 8] = [
    Content::Noise,
    Content::Smooth,
    Content::Edges,
    Content::Flat,
    Content::Extremes,
    Content::Sparse,
    Content::DcOnly,
    Content::Mixed,
];

pub fn quantise(s: &[f64; 64], qt: &[u8; 64]) -> [i16; 64] {
    let f = fdct(s);
    let mut b = [0i16; 64];
    for k in 0..64 {
        let lim = if k == 0 { 1023.0 } else { 1023.0 };
        b[k] = limit(f[k] / f64::from(qt[k]), lim);
    }
    b
}

fn fill_block(rng: &mut Rng, kind: Content, qt: &[u8; 64], bx: usize, by: usize, p: &[f64; 6]) -> [i16; 64] {
    let mut s = [0.0f64; 64];
    match kind {
        Content::Noise => {
            for v in &mut s {
                *v = rng.range(-128, 127) as f64;
            }
        }
        Content::Smooth => {
            for i in 0..64 {
                let x = (bx * 8 + i % 8) as f64;
                let y = (by * 8 + i / 8) as f64;
                s[i] = (p[0] * 60.0 * ((x * p[1] + y * p[2]) * 0.2 + p[5]).sin() + p[3] * x + p[4] * y).clamp(-128.0, 127.0);
            }
        }
        Content::Edges => {
            let a = rng.range(-128, 127) as f64;
            let b = rng.range(-128, 127) as f64;
            let cut = rng.below(9);
            let vert = rng.chance(1, 2);
            for i in 0..64 {
                let c = if vert { i % 8 } else { i / 8 };
                s[i] = if c < cut { a } else { b };
            }
        }
        Content::Flat => {
            for v in &mut s {
                *v = (p[0] * 128.0).floor();
            }
        }
        Content::Extremes => {
            for v in &mut s {
                *v = if rng.chance(1, 2) { -128.0 } else { 127.0 };
            }
        }
        Content::DcOnly => {
            let mut b = [0i16; 64];
            let m = 1023 / i64::from(qt[0]);
            b[0] = rng.range(-m, m) as i16;
            return b;
        }
        Content::Sparse => {
            let mut b = [0i16; 64];
            // bounded sample excursion: sum |dequantised| stays small enough
            // that no conforming 32 bit IDCT can overflow
            let mut left = 6000i64;
            let m = 1023 / i64::from(qt[0]);
            b[0] = rng.range(-m, m) as i16;
            let n = match rng.below(4) {
                0 => 1,
                1 => rng.below(4),
                2 => rng.below(12),
                _ => rng.below(40),
            };
            for _ in 0..n {
                let k = 1 + rng.below(63);
                let q = i64::from(qt[k]);
                let mag = match rng.below(4) {
                    0 => 1,
                    1 => rng.range(1, 8),
                    2 => rng.range(1, 64),
                    _ => rng.range(1, 1023),
                };
                let mag = mag.min(1023).min(left / q).min(2047 / q);
                if mag < 1 {
                    continue;
                }
                if b[k] != 0 {
                    continue;
                }
                left -= mag * q;
                b[k] = if rng.chance(1, 2) { mag } else { -mag } as i16;
            }
            return b;
        }
        Content::Mixed => {
            let k = CONTENTS[rng.below(7)];
            return fill_block(rng, k, qt, bx, by, p);
        }
    }
    quantise(&s, qt)
}

/// Fill every component of the image
pub fn fill(img: &mut Image, kind: Content, rng: &mut Rng) {
    let qt = img.qt;
    for c in &mut img.comps {
        let p = [rng.f() * 2.0 - 1.0, rng.f() * 2.0, rng.f() * 2.0, rng.f() - 0.5, rng.f() - 0.5, rng.f() * 6.0];
        let mut cache: Vec<[i16; 64]> = vec![];
        let cap = 1500;
        for by in 0..c.bh {
            for bx in 0..c.bw {
                let b = if cache.len() >= cap && kind != Content::Smooth {
                    cache[rng.below(cache.len())]
                } else {
                    let b = fill_block(rng, kind, &qt[c.tq], bx, by, &p);
                    cache.push(b);
                    b
                };
                c.coefs[by * c.bw + bx] = b;
            }
        }
    }
    img.zero_padding();
}

#[derive(Clone, Copy)]
pub struct GenCfg {
    pub maxdim: usize,
    pub gray_pct: usize,
}

pub fn gen_image(rng: &mut Rng, g: &GenCfg) -> Image {
    let gray = rng.below(100) < g.gray_pct;
    let samp = if gray {
        // a lone component may carry any sampling factors, they mean nothing
        if rng.chance(1, 6) {
            SAMPS[rng.below(4)]
        } else {
            (1, 1)
        }
    } else {
        SAMPS[rng.below(4)]
    };
    let w = gen_dim(rng, g.maxdim);
    let h = gen_dim(rng, g.maxdim);
    gen_image_sized(rng, w, h, if gray { 1 } else { 3 }, samp)
}

pub fn gen_image_sized(rng: &mut Rng, w: usize, h: usize, ncomp: usize, samp: (usize, usize)) -> Image {
    let mut img = Image::new(w, h, ncomp, samp);
    for t in 0..4 {
        img.qt[t] = gen_qt(rng);
    }
    for c in &mut img.comps {
        c.tq = rng.below(4);
    }
    if rng.chance(1, 3) {
        for (i, c) in img.comps.iter_mut().enumerate() {
            c.tq = usize::from(i > 0);
        }
    }
    let kind = CONTENTS[rng.below(8)];
    fill(&mut img, kind, rng);
    img
}

pub fn gen_slots(rng: &mut Rng, n: usize) -> Vec<u8> {
    match rng.below(3) {
        0 => vec![rng.below(4) as u8; n],
        1 => (0..n).map(|c| u8::from(c > 0)).collect(),
        _ => (0..n).map(|_| rng.below(4) as u8).collect(),
    }
}

pub fn gen_huff(rng: &mut Rng) -> HuffKind {
    *rng.pick(&[HuffKind::Std, HuffKind::Opt, HuffKind::Rand, HuffKind::Inv, HuffKind::Long, HuffKind::Full, HuffKind::Sparse])
}

pub fn gen_ri(rng: &mut Rng, img: &Image) -> usize {
    let total = img.mcux * img.mcuy;
    match rng.below(8) {
        7 => *rng.pick(&[7usize, 8, 9, 255, 256, 257, total + 1, total - 1, 32767, 32768, 65535]),
        0 => 1,
        1 => rng.range(1, 4) as usize,
        2 => img.mcux,
        3 => img.mcux * rng.range(1, 3) as usize,
        4 => rng.range(1, total.max(2) as i64) as usize,
        5 => total,
        _ => (img.mcux as i64 + rng.range(-1, 1)).max(1) as usize,
    }
    .clamp(1, 65535)
}

/// container decorations that never change the decoded picture
pub fn decorate(o: &mut EncOpts, rng: &mut Rng) {
    o.split_dqt = rng.chance(1, 2);
    o.split_dht = rng.chance(1, 2);
    o.dht_first = rng.chance(1, 2);
    o.dri_first = rng.chance(1, 2);
    o.extra_segs = rng.below(5);
    o.fill_den = if rng.chance(1, 3) { 3 } else { 0 };
    o.trailing = if rng.chance(1, 3) { rng.below(20) } else { 0 };
    o.app0 = rng.chance(2, 3);
    o.extra_between = rng.chance(1, 3);
    o.fill_in_scan = rng.chance(1, 4);
    o.decoys = rng.chance(1, 4);
    if rng.chance(1, 40) {
        o.long_segs = 1 + rng.below(4);
    }
}

pub fn gen_baseline(img: &Image, rng: &mut Rng) -> EncOpts {
    let mut o = EncOpts::plain(img);
    o.huff = gen_huff(rng);
    let n = img.ncomp();
    o.dcs = gen_slots(rng, n);
    o.acs = gen_slots(rng, n);
    o
}

/// A legal, complete progressive script: every bit of every coefficient sent.
pub fn gen_script(img: &Image, rng: &mut Rng) -> Vec<Scan> {
    let n = img.ncomp();
    // dependency chains: each chain is an ordered list of scans; chains are
    // interleaved at random, DC chain first entries lead.
    let mut chains: Vec<Vec<Scan>> = vec![];
    let mut head: Vec<Scan> = vec![];
    let mk = |comps: Vec<usize>, ss, se, ah, al| Scan { comps, ss, se, ah, al, ri: 0 };
    // DC
    let groups: Vec<Vec<usize>> = if n == 1 {
        vec![vec![0]]
    } else {
        let mut g: Vec<Vec<usize>> = match rng.below(8) {
            0..=3 => vec![vec![0, 1, 2]],
            4 => vec![vec![0], vec![1], vec![2]],
            5 => vec![vec![0], vec![1, 2]],
            6 => vec![vec![0, 1], vec![2]],
            _ => vec![vec![0, 2], vec![1]],
        };
        if rng.chance(1, 3) {
            let i = rng.below(g.len());
            g.swap(0, i);
        }
        g
    };
    for g in groups {
        let al = if rng.chance(1, 25) { rng.below(14) } else { rng.below(3) };
        head.push(mk(g.clone(), 0, 0, 0, al));
        let mut ch = vec![];
        for a in (0..al).rev() {
            ch.push(mk(g.clone(), 0, 0, a + 1, a));
        }
        if !ch.is_empty() {
            chains.push(ch);
        }
    }
    for c in 0..n {
        let mut lo = 1;
        while lo <= 63 {
            let hi = match rng.below(4) {
                0 => 63,
                1 => rng.range(lo as i64, 63) as usize,
                2 => (lo + rng.below(8)).min(63),
                _ => {
                    if lo == 1 {
                        5
                    } else {
                        63
                    }
                }
            }
            .max(lo);
            let al = if rng.chance(1, 60) { rng.below(14) } else { rng.below(4) };
            let mut ch = vec![mk(vec![c], lo, hi, 0, al)];
            for a in (0..al).rev() {
                ch.push(mk(vec![c], lo, hi, a + 1, a));
            }
            chains.push(ch);
            lo = hi + 1;
            if chains.len() > 10 && lo <= 63 {
                chains.push(vec![mk(vec![c], lo, 63, 0, 0)]);
                lo = 64;
            }
        }
    }
    // either all DC coefficients first, or every component's before its own others
    let late = rng.chance(1, 3);
    let mut out = if late { vec![head.remove(0)] } else { std::mem::take(&mut head) };
    let mut idx = vec![0usize; chains.len()];
    loop {
        let have = |c: usize, out: &Vec<Scan>| out.iter().any(|s| s.ss == 0 && s.comps.contains(&c));
        let live: Vec<usize> = (0..chains.len())
            .filter(|&i| idx[i] < chains[i].len() && have(chains[i][0].comps[0], &out))
            .collect();
        if !head.is_empty() && (live.is_empty() || rng.chance(1, 4)) {
            out.push(head.remove(0));
            continue;
        }
        if live.is_empty() {
            break;
        }
        let i = if rng.chance(1, 2) { live[0] } else { *rng.pick(&live) };
        out.push(chains[i][idx[i]].clone());
        idx[i] += 1;
    }
    out
}

/// what is left of an image if only these scans are sent
pub fn sent(img: &Image, scans: &[Scan]) -> Image {
    let mut img = img.clone();
    for (ci, c) in img.comps.iter_mut().enumerate() {
        let mut low = [99usize; 64];
        for s in scans.iter().filter(|s| s.comps.contains(&ci)) {
            for l in &mut low[s.ss..=s.se] {
                *l = (*l).min(s.al);
            }
        }
        for b in &mut c.coefs {
            for (z, &l) in low.iter().enumerate() {
                let v = &mut b[crate::jpeg::ZZ[z]];
                *v = if l == 99 {
                    0
                } else if z == 0 {
                    (*v >> l) << l
                } else {
                    v.signum() * ((v.abs() >> l) << l)
                };
            }
        }
    }
    img
}

/// a legal, complete script of `want` scans (as near as possible)
pub fn many_scans(img: &Image, want: usize, rng: &mut Rng) -> Vec<Scan> {
    let n = img.ncomp();
    // (components, first, last, bits sent later)
    let mut bands: Vec<(Vec<usize>, usize, usize, usize)> = vec![((0..n).collect(), 0, 0, 0)];
    for c in 0..n {
        bands.push((vec![c], 1, 63, 0));
    }
    let mut have = bands.len();
    let deep = rng.below(5);
    for _ in 0..20_000 {
        if have >= want {
            break;
        }
        let i = rng.below(bands.len());
        let (cs, a, b, al) = bands[i].clone();
        if b > a && al == 0 && rng.below(5) >= deep {
            let m = a + rng.below(b - a);
            bands[i].2 = m;
            bands.push((cs, m + 1, b, 0));
            have += 1;
        } else if al < 13 && (deep > 0 || a == b) {
            bands[i].3 += 1;
            have += 1;
        }
    }
    let mut out = vec![];
    let first = bands[0].clone();
    out.push(Scan { comps: first.0, ss: 0, se: 0, ah: 0, al: first.3, ri: 0 });
    let mut next: Vec<usize> = bands.iter().map(|b| b.3 + 1).collect();
    next[0] -= 1;
    loop {
        let live: Vec<usize> = (0..bands.len()).filter(|&i| next[i] > 0).collect();
        if live.is_empty() {
            return out;
        }
        let i = *rng.pick(&live);
        let b = &bands[i];
        let al = next[i] - 1;
        let ah = if al == b.3 { 0 } else { al + 1 };
        out.push(Scan { comps: b.0.clone(), ss: b.1, se: b.2, ah, al, ri: 0 });
        next[i] -= 1;
    }
}

/// the scan script libjpeg's -progressive uses
pub fn std_script(img: &Image) -> Vec<Scan> {
    let mk = |comps: Vec<usize>, ss, se, ah, al| Scan { comps, ss, se, ah, al, ri: 0 };
    if img.ncomp() == 1 {
        vec![
            mk(vec![0], 0, 0, 0, 1),
            mk(vec![0], 1, 5, 0, 2),
            mk(vec![0], 6, 63, 0, 2),
            mk(vec![0], 1, 63, 2, 1),
            mk(vec![0], 0, 0, 1, 0),
            mk(vec![0], 1, 63, 1, 0),
        ]
    } else {
        vec![
            mk(vec![0, 1, 2], 0, 0, 0, 1),
            mk(vec![0], 1, 5, 0, 2),
            mk(vec![2], 1, 63, 0, 1),
            mk(vec![1], 1, 63, 0, 1),
            mk(vec![0], 6, 63, 0, 2),
            mk(vec![0], 1, 63, 2, 1),
            mk(vec![0, 1, 2], 0, 0, 1, 0),
            mk(vec![2], 1, 63, 1, 0),
            mk(vec![1], 1, 63, 1, 0),
            mk(vec![0], 1, 63, 1, 0),
        ]
    }
}

pub fn gen_progressive(img: &Image, rng: &mut Rng) -> EncOpts {
    let mut o = EncOpts::plain(img);
    o.progressive = true;
    o.huff = *rng.pick(&[HuffKind::Opt, HuffKind::Opt, HuffKind::Rand, HuffKind::Inv, HuffKind::Long, HuffKind::Full, HuffKind::Sparse]);
    o.scans = if rng.chance(1, 4) { std_script(img) } else { gen_script(img, rng) };
    let n = img.ncomp();
    o.dcs = gen_slots(rng, n);
    o.acs = gen_slots(rng, n);
    o.eob_flush_den = *rng.pick(&[0, 0, 4, 40]);
    o
}
