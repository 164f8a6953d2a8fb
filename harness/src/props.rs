//! The properties, each as a workload plus the oracle that watches it.
use crate::alloc;
use crate::ctx::{hash_bytes, Ctx};
use crate::dut::*;
use crate::gen::*;
use crate::jpeg::*;
use crate::mutate;
use crate::rng::{mix, Rng};
use crate::strips;
use crate::truth;
use std::sync::atomic::Ordering::Relaxed;
use zune_jpeg::ColorSpace::{self, *};
use zune_jpeg::Decoder;

pub fn get(p: &str) -> Option<fn(&mut Ctx)> {
    Some(match p {
        "C01" => c01_totality,
        "C02" => c02_memory,
        "C03" => c03_baseline,
        "C04" => c04_progressive,
        "C05" => c05_colour,
        "C06" => c06_tiers,
        "C07" => c07_schedules,
        "C08" => c08_geometry,
        "C09" => c09_limits,
        "C10" => c10_resources,
        "C11" => c11_restart,
        "C12" => c12_container,
        "C13" => c13_damage,
        "C14" => c14_headers,
        "C15" => c15_history,
        "C16" => c16_reject,
        "C17" => c17_strict,
        "C18" => c18_file,
        "C19" => c19_options,
        "C20" => c20_logging,
        "C21" => c21_cost,
        "C22" => c22_reasons,
        "C23" => c23_switch,
        "C24" => c24_surroundings,
        _ => return None,
    })
}

// ------------------------------------------------------------------ helpers

pub const CS: [ColorSpace; 5] = [RGB, RGBA, RGBX, YCbCr, GRAYSCALE];

fn ncs(cs: ColorSpace) -> usize {
    match cs {
        RGB | YCbCr => 3,
        RGBA | RGBX | CMYK | YCCK => 4,
        GRAYSCALE => 1,
    }
}

/// sizes with the occasional large image
fn pick_image(r: &mut Rng, gray_pct: usize) -> Image {
    if r.chance(1, 3000) {
        // more than 32767 blocks in a row, counts beyond 16 bits
        let (w, h) = match r.below(3) {
            0 => (r.range(1460, 2100) as usize, r.range(1460, 2100) as usize),
            1 => (r.range(4000, 9000) as usize, r.range(200, 400) as usize),
            _ => (r.range(200, 400) as usize, r.range(4000, 9000) as usize),
        };
        let n = if r.chance(1, 2) { 1 } else { 3 };
        let samp = if n == 1 { (1, 1) } else { SAMPS[r.below(4)] };
        let mut img = gen_image_sized(r, 8, 8, n, samp);
        let (qt, tqs) = (img.qt.clone(), img.comps.iter().map(|c| c.tq).collect::<Vec<_>>());
        img = Image::new(w, h, n, samp);
        img.qt = qt;
        let every = 1 + r.below(60_000);
        for (k, t) in img.comps.iter_mut().zip(tqs) {
            k.tq = t;
            let nb = k.coefs.len();
            let mut at = r.below(every);
            while at < nb {
                k.coefs[at][r.below(64)] = r.range(-3, 3) as i16;
                at += 1 + r.below(every);
            }
        }
        return img;
    }
    if r.chance(1, 300) {
        let gray = r.below(100) < gray_pct;
        let samp = SAMPS[r.below(4)];
        let (w, h) = (if r.chance(1, 2) { r.range(2600, 8300) } else { r.range(8000, 16384) } as usize, r.range(1, 20) as usize);
        let (w, h) = if r.chance(2, 3) { (w, h) } else { (h, w) };
        return gen_image_sized(r, w, h, if gray { 1 } else { 3 }, samp);
    }
    if r.chance(1, 40) {
        let gray = r.below(100) < gray_pct;
        let samp = SAMPS[r.below(4)];
        let (w, h) = match r.below(4) {
            0 => (r.range(300, 2600) as usize, r.range(1, 40) as usize),
            1 => (r.range(1, 40) as usize, r.range(300, 2600) as usize),
            2 => (r.range(200, 700) as usize, r.range(200, 700) as usize),
            _ => (*r.pick(&[1024usize, 2048, 4096, 1023, 1025, 4097]), r.range(1, 33) as usize),
        };
        return gen_image_sized(r, w, h, if gray { 1 } else { 3 }, samp);
    }
    gen_image(r, &GenCfg { maxdim: 260, gray_pct })
}

/// beyond the default limits, now and then
fn pick_any(c: &mut Ctx, gray_pct: usize) -> Image {
    if c.idx % 1200 != 700 {
        return pick_image(&mut c.rng, gray_pct);
    }
    let r = &mut c.rng;
    let gray = r.below(100) < gray_pct;
    let samp = SAMPS[r.below(4)];
    let long = if r.chance(1, 3) { *r.pick(&[65535i64, 65534, 65529, 65528, 65520, 65519, 32768, 32769, 32767, 21846, 16385]) } else { r.range(16385, 65535) };
    let (w, h) = (long as usize, 1 + r.below(20));
    let (w, h) = if r.chance(3, 5) { (w, h) } else { (h, w) };
    c.note("beyond 16384 in one direction");
    gen_image_sized(&mut c.rng, w, h, if gray { 1 } else { 3 }, samp)
}

/// limits that let the image pass
fn fit(o: &mut Opt, img: &Image) {
    if img.w > 16384 || img.h > 16384 {
        o.maxw = 65535;
        o.maxh = 65535;
    }
}

fn pick_enc(img: &Image, r: &mut Rng, prog_num: usize, prog_den: usize) -> EncOpts {
    let mut o = if r.chance(prog_num, prog_den) { gen_progressive(img, r) } else { gen_baseline(img, r) };
    if r.chance(1, 4) {
        let ri = gen_ri(r, img);
        o = o.with_ri(ri);
    }
    if r.chance(1, 4) {
        decorate(&mut o, r);
    }
    o
}

fn desc(img: &Image, o: &EncOpts) -> String {
    format!(
        "{}x{} {}c {}x{} {} {:?} ri={} scans={}",
        img.w, img.h, img.ncomp(), img.hmax, img.vmax,
        if o.progressive { "prog" } else { "base" },
        o.huff, o.scans[0].ri, o.scans.len()
    )
}

fn pick_tier(r: &mut Rng, opt: &mut Opt) -> &'static str {
    match r.below(4) {
        0 => {
            tier(2);
            "avx2"
        }
        1 => {
            tier(1);
            "sse"
        }
        2 => {
            tier(0);
            "scalar"
        }
        _ => {
            tier(2);
            opt.unsafe_ = false;
            "safe"
        }
    }
}

fn nontrivial(img: &Image) -> bool {
    img.mcux * img.mcuy > 1 || img.comps.iter().any(|c| c.coefs.iter().any(|b| b[1..].iter().any(|&v| v != 0)))
}

fn first_diff(a: &[u8], b: &[u8], w: usize, n: usize) -> String {
    if a.len() != b.len() {
        return format!("lengths {} and {}", a.len(), b.len());
    }
    match a.iter().zip(b).position(|(x, y)| x != y) {
        Some(p) => format!("pixel ({},{}) channel {}: {} and {}", (p / n) % w, p / n / w, p % n, a[p], b[p]),
        None => "no difference".into(),
    }
}

/// decode and insist on pixels
fn must(c: &mut Ctx, what: &str, b: &[u8], o: &Opt) -> Option<Vec<u8>> {
    match decode(b, o) {
        Out::Ok(v) => Some(v),
        x => {
            c.fail("not-decoded", format!("{what}: a valid image was not decoded ({}): {}", o.text(), x.brief()), Some(b));
            None
        }
    }
}

fn thr(r: &mut Rng) -> u32 {
    if r.chance(1, 40) {
        return *r.pick(&[9u32, 16, 17, 33, 64]);
    }
    *r.pick(&[1u32, 1, 2, 3, 4, 4, 5, 6, 7, 8])
}

// ------------------------------------------------------------------ C01

fn any_opt(r: &mut Rng) -> Opt {
    let cs = match r.below(12) {
        0 => CMYK,
        1 => YCCK,
        _ => CS[r.below(5)],
    };
    let mut o = Opt::new(cs).threads(thr(r));
    o.strict = r.chance(1, 5);
    let lim = if r.chance(1, 60) { 3000 } else { 520 };
    o.maxw = lim;
    o.maxh = lim;
    o.max_scans = *r.pick(&[64usize, 64, 10, 1, 0, 200]);
    o
}

fn input(c: &mut Ctx, conf_num: usize, conf_den: usize) -> (Vec<u8>, &'static str) {
    if c.rng.chance(conf_num, conf_den) {
        let (_, _, e) = mutate::conforming(&mut c.rng, 150);
        (e.bytes, "conforming")
    } else {
        mutate::hostile(&mut c.rng)
    }
}

/// few inputs that make a decoder do a lot of work per byte
fn slow_input(r: &mut Rng) -> Vec<u8> {
    let mut o = vec![0xFF, 0xD8];
    match r.below(5) {
        0 => {
            for _ in 0..50_000 {
                o.extend_from_slice(&[0xFF, 0xFE, 0, 2]);
            }
        }
        1 => {
            for _ in 0..200_000 {
                o.push(*r.pick(&[0xFFu8, 0xFF, 0x00]));
            }
        }
        2 => {
            let mut b = vec![0xFF, 0xC4, 0, 19, 0];
            b.extend_from_slice(&[0; 16]);
            for _ in 0..20_000 {
                o.extend_from_slice(&b);
            }
        }
        3 => {
            // huge picture, no data
            let img = Image::new(2900, 2900, 3, SAMPS[r.below(4)]);
            let mut e = EncOpts::plain(&img);
            if r.chance(1, 2) {
                e.progressive = true;
                e.scans = std_script(&img);
                e.huff = HuffKind::Opt;
            }
            let small = Image::new(8, 8, 3, (img.hmax, img.vmax));
            let mut v = encode(&small, &e, r).bytes;
            if let Some(p) = v.windows(2).position(|w| w == [0xFF, 0xC0] || w == [0xFF, 0xC2]) {
                v[p + 5] = (2900u16 >> 8) as u8;
                v[p + 6] = 2900u16 as u8;
                v[p + 7] = (2900u16 >> 8) as u8;
                v[p + 8] = 2900u16 as u8;
            }
            return v;
        }
        _ => {
            // restart marker after restart marker
            let img = Image::new(500, 500, 3, (1, 1));
            let v = encode(&img, &EncOpts::plain(&img).with_ri(1), r).bytes;
            return v;
        }
    }
    o
}

fn c01_totality(c: &mut Ctx) {
    let slow = c.idx % 1501 == 7;
    let (b, kind) = if slow { (slow_input(&mut c.rng), "slow") } else { input(c, 1, 12) };
    let mut o = any_opt(&mut c.rng);
    if slow {
        o.maxw = 3000;
        o.maxh = 3000;
    } else if cfg!(not(feature = "plain_alloc")) && c.rng.chance(1, 50) {
        // more threads than the system can start (see threads.rs)
        o.threads = *c.rng.pick(&[1500u32, 5_000, 20_000, 70_000]);
        c.add("giant_thread_counts", 1);
    }
    let t = pick_tier(&mut c.rng, &mut o);
    let mut d = Decoder::new_with_options(o.build());
    let mut calls = 1 + usize::from(c.rng.chance(1, 3)) + usize::from(c.rng.chance(1, 6));
    if c.idx % 2503 == 5 && b.len() < 3000 {
        // a decoder that is used again and again
        calls = 300;
        o.threads = 1;
        d = Decoder::new_with_options(o.build());
        c.add("long_lives", 1);
    }
    let mut key = hash_bytes(&b);
    for k in 0..calls {
        let hdr = c.rng.chance(1, 5);
        let r = if hdr { headers_with(&mut d, &b) } else { decode_with(&mut d, &b) };
        c.note(&format!("{kind}: {}", r.kind()));
        if let Out::Panic(m) = &r {
            c.fail("panic", format!("{} of {} bytes ({kind}, call {k}, {t}, {}) panicked: {m}", if hdr { "read_headers" } else { "decode_buffer" }, b.len(), o.text()), Some(&b));
            return;
        }
        // getters stay usable
        let _ = (d.width(), d.height(), info_of(&d), d.get_output_colorspace());
        key = mix(key ^ u64::from(hdr));
        if b.len() > 20 {
            c.eval(key);
        } else {
            c.eval_trivial();
        }
    }
    let b2 = b.len();
    c.sample(|| format!("{kind}, {b2} bytes, {}, {t}", o.text()));
}

// ------------------------------------------------------------------ C02

fn c02_memory(c: &mut Ctx) {
    let small = cfg!(miri);
    let (b, kind) = if small {
        let w = c.rng.range(1, 20) as usize;
        let h = c.rng.range(1, 20) as usize;
        let n = if c.rng.chance(1, 5) { 1 } else { 3 };
        let samp = SAMPS[(c.idx % 4) as usize];
        let img = gen_image_sized(&mut c.rng, w, h, n, samp);
        let mut o = if c.rng.chance(1, 2) { gen_baseline(&img, &mut c.rng) } else { gen_progressive(&img, &mut c.rng) };
        if o.progressive {
            o.scans = std_script(&img);
        }
        (encode(&img, &o, &mut c.rng).bytes, "conforming")
    } else if c.rng.chance(1, 250) {
        // long rows, long columns
        let (w, h) = (c.rng.range(500, 4200) as usize, c.rng.range(1, 40) as usize);
        let (w, h) = if c.rng.chance(1, 2) { (w, h) } else { (h, w) };
        let n = if c.rng.chance(1, 6) { 1 } else { 3 };
        let samp = SAMPS[c.rng.below(4)];
        let img = gen_image_sized(&mut c.rng, w, h, n, samp);
        let o = pick_enc(&img, &mut c.rng, 1, 2);
        (encode(&img, &o, &mut c.rng).bytes, "large")
    } else if c.rng.chance(1, 3) {
        // widths around every vector size
        let w = c.rng.range(1, 100) as usize;
        let h = c.rng.range(1, 40) as usize;
        let n = if c.rng.chance(1, 6) { 1 } else { 3 };
        let samp = SAMPS[c.rng.below(4)];
        let img = gen_image_sized(&mut c.rng, w, h, n, samp);
        let o = pick_enc(&img, &mut c.rng, 1, 2);
        (encode(&img, &o, &mut c.rng).bytes, "conforming")
    } else {
        input(c, 1, 3)
    };
    let css: Vec<ColorSpace> = if small { vec![CS[c.rng.below(5)]] } else { vec![CS[c.rng.below(5)], CS[c.rng.below(5)]] };
    for cs in css {
        let mut o = any_opt(&mut c.rng).cs(cs);
        if kind == "conforming" || kind == "large" {
            o.max_scans = 200;
            o.strict = false;
        }
        if kind == "large" {
            o.maxw = 1 << 14;
            o.maxh = 1 << 14;
        }
        let t = pick_tier(&mut c.rng, &mut o);
        let before = alloc::CORRUPT.load(Relaxed);
        let r = decode(&b, &o);
        if let Some(v) = r.ok() {
            // look at every byte: MemorySanitizer reports a branch on uninitialised memory
            if hash_bytes(v) == 0 {
                c.note("zero hash");
            }
            // pixels must not depend on what fresh memory happens to hold
            if cfg!(not(feature = "plain_alloc")) && c.rng.chance(1, 2) {
                let old = alloc::FILL.swap(*c.rng.pick(&[0x00u8, 0x58, 0xFF, 0x01, 0x7F]), Relaxed);
                let r2 = decode(&b, &o);
                alloc::FILL.store(old, Relaxed);
                c.add("decoded_again_over_other_garbage", 1);
                if masked(o.cs, r2.clone()) != masked(o.cs, r.clone()) {
                    c.fail("uninitialised", format!("the result depends on the content of fresh memory ({t}, {}): {}", o.text(), r.brief()), Some(&b));
                    return;
                }
            }
        }
        if kind == "conforming" && r.ok().is_some() {
            c.eval(hash_bytes(&b) ^ mix(cs as u64) ^ mix(hash_bytes(t.as_bytes())));
        } else if r.ok().is_some() {
            c.eval(hash_bytes(&b) ^ mix(cs as u64 + 9));
        } else {
            c.eval_trivial();
        }
        c.note(&format!("{kind} {t} {}", r.kind()));
        if alloc::CORRUPT.load(Relaxed) != before {
            c.fail("heap-overrun", format!("guard bytes around a heap block overwritten ({t}, {}): {}", o.text(), r.brief()), Some(&b));
            return;
        }
        c.sample(|| format!("{kind} {} bytes {} {t} -> {}", b.len(), o.text(), r.brief()));
    }
}

// ------------------------------------------------------------------ C03

fn check_pixels(c: &mut Ctx, img: &Image, t: &truth::Truth, b: &[u8], o: &Opt, tn: &str, what: &str) -> Option<Vec<u8>> {
    let v = must(c, what, b, o)?;
    let mut acc = c.acc;
    let r = if o.cs == GRAYSCALE && img.ncomp() == 3 {
        if v.len() == img.w * img.h {
            truth::check_channel(img, t, 0, &v, 1, 0, img.h, &mut acc)
        } else {
            Err(format!("{} bytes for {}x{}", v.len(), img.w, img.h))
        }
    } else {
        truth::check_ycc(img, t, &v, &mut acc)
    };
    let (over, all) = (acc.over - c.acc.over, acc.all - c.acc.all);
    acc.images += 1;
    acc.over_images += u64::from(over > 0);
    c.acc = acc;
    if over > 64 + all / 100 || acc.over_images > 3 + acc.images / 20_000 {
        c.fail("inaccurate", format!("{what} ({tn}, {}): {over} of {all} samples are off by more than 1, {} of {} images so far have such samples", o.text(), acc.over_images, acc.images), Some(b));
        return None;
    }
    if let Err(m) = r {
        c.fail("wrong-pixel", format!("{what} ({tn}, {}): {m}", o.text()), Some(b));
        return None;
    }
    Some(v)
}

fn bias(c: &mut Ctx) {
    // the rounding of the inverse transform must not drift
    if c.acc.n > 200_000 {
        let m = c.acc.sum / c.acc.n as f64;
        c.max("abs_mean_error", m.abs());
        if m.abs() > 0.15 {
            let n = c.acc.n;
            c.fail("biased", format!("mean error of {n} unsaturated samples is {m:.3}"), None);
        }
    }
    for (k, name) in ["horizontal", "vertical", "both"].iter().enumerate() {
        // rounding quarters half up is worth 1/8 each time
        let n = c.acc.cn[k];
        if n > 1_000_000 {
            let m = c.acc.csum[k] / n as f64;
            c.max(&format!("abs_mean_chroma_error_{name}"), m.abs());
            if m.abs() > 0.28 {
                c.fail("biased-chroma", format!("mean error of {n} interpolated chroma samples ({name}) is {m:.3}"), None);
            }
        }
    }
    let m = c.acc.max;
    c.max("max_error", m);
    if c.acc.n > 200_000 {
        let m = c.acc.sumsq / c.acc.n as f64;
        c.max("mean_square_error", m);
    }
    let m = c.acc.over_images as f64;
    c.max("images_with_samples_off_by_more_than_1", m);
    let m = c.acc.all as f64;
    c.max("samples_compared", m);
}

fn c03_baseline(c: &mut Ctx) {
    let img = pick_any(c, 20);
    let mut eo = gen_baseline(&img, &mut c.rng);
    if c.rng.chance(1, 5) {
        let ri = gen_ri(&mut c.rng, &img);
        eo = eo.with_ri(ri);
    }
    let e = encode(&img, &eo, &mut c.rng);
    let t = truth::truth(&img);
    let mut o = Opt::new(if c.rng.chance(1, 6) { GRAYSCALE } else { YCbCr }).threads(thr(&mut c.rng));
    fit(&mut o, &img);
    let tn = pick_tier(&mut c.rng, &mut o);
    let what = desc(&img, &eo);
    if check_pixels(c, &img, &t, &e.bytes, &o, tn, &what).is_none() {
        return;
    }
    bias(c);
    c.note(&format!("{}c {}x{}", img.ncomp(), img.hmax, img.vmax));
    c.note(&format!("huffman {:?}", eo.huff));
    c.note(tn);
    c.add("pixels", (img.w * img.h) as u64);
    c.add("blocks", e.stats.blocks);
    c.max("longest_code", f64::from(e.max_code));
    if nontrivial(&img) {
        c.eval(hash_bytes(&e.bytes));
    } else {
        c.eval_trivial();
    }
    c.sample(|| format!("{what} {tn}"));
}

// ------------------------------------------------------------------ C04

fn c04_progressive(c: &mut Ctx) {
    let img = pick_any(c, 20);
    let mut po = gen_progressive(&img, &mut c.rng);
    if c.rng.chance(1, 4) {
        // restart intervals may differ from scan to scan
        for s in &mut po.scans {
            s.ri = if c.rng.chance(1, 2) { gen_ri(&mut c.rng, &img) } else { 0 };
        }
    }
    if c.rng.chance(1, 5) {
        decorate(&mut po, &mut c.rng);
    }
    if c.rng.chance(1, 60) && img.w * img.h < 3000 {
        let want = 2 + c.rng.below(600);
        po.scans = many_scans(&img, want, &mut c.rng);
    }
    let pe = encode(&img, &po, &mut c.rng);
    let mut img = img;
    let mut pe = pe;
    if c.rng.chance(1, 6) && po.scans.len() > 1 && po.scans.iter().all(|s| s.ss > 0 || s.al < 4) {
        // the transmission stops after some of the scans
        let k = 1 + c.rng.below(po.scans.len() - 1);
        po.scans.truncate(k);
        pe = encode(&img, &po, &mut c.rng);
        img = sent(&img, &po.scans);
        c.add("incomplete_scripts", 1);
    }
    let bo = EncOpts { huff: HuffKind::Opt, ..EncOpts::plain(&img) };
    let be = encode(&img, &bo, &mut c.rng);
    let t = truth::truth(&img);
    let mut o = Opt::new(YCbCr).threads(thr(&mut c.rng));
    fit(&mut o, &img);
    let tn = pick_tier(&mut c.rng, &mut o);
    let what = desc(&img, &po);
    let Some(p) = check_pixels(c, &img, &t, &pe.bytes, &o, tn, &what) else { return };
    bias(c);
    let Some(b) = must(c, "baseline twin", &be.bytes, &o) else { return };
    if p != b {
        c.fail("progressive-differs", format!("{what} ({tn}): same coefficients, progressive and baseline give {}", first_diff(&p, &b, img.w, img.ncomp())), Some(&pe.bytes));
        return;
    }
    let cs = CS[c.rng.below(5)];
    let o2 = o.cs(cs);
    let (Some(p), Some(b)) = (must(c, &what, &pe.bytes, &o2), must(c, "baseline twin", &be.bytes, &o2)) else { return };
    if p != b {
        let n = if img.ncomp() == 1 { 1 } else { ncs(cs) };
        c.fail("progressive-differs", format!("{what} ({tn}, {cs:?}): progressive and baseline give {}", first_diff(&p, &b, img.w, n)), Some(&pe.bytes));
        return;
    }
    c.note(&format!("{}c {}x{}", img.ncomp(), img.hmax, img.vmax));
    c.add("scans", po.scans.len() as u64);
    c.add("refinement_bits", pe.stats.corr_bits);
    c.add("restarts", pe.stats.restarts);
    c.max("longest_eob_run", f64::from(pe.stats.max_eobrun));
    if nontrivial(&img) {
        c.eval(hash_bytes(&pe.bytes));
    } else {
        c.eval_trivial();
    }
    c.sample(|| format!("{what} {tn}"));
}

// ------------------------------------------------------------------ C05

/// flat 8x8 tiles of chosen colours
fn palette(r: &mut Rng) -> Image {
    let w = r.range(1, 260) as usize;
    let h = r.range(1, 130) as usize;
    let samp = if r.chance(3, 4) { (1, 1) } else { SAMPS[r.below(4)] };
    let mut img = Image::new(w, h, 3, samp);
    img.qt = [[8; 64]; 4];
    for c in &mut img.comps {
        for b in &mut c.coefs {
            b[0] = match r.below(3) {
                0 => r.range(-128, 127) as i16,
                1 => *r.pick(&[-128i16, -127, -1, 0, 1, 126, 127]),
                _ => *r.pick(&[-128i16, 127]),
            };
        }
    }
    img
}

fn c05_colour(c: &mut Ctx) {
    let pal = c.rng.chance(1, 2);
    let img = if pal { palette(&mut c.rng) } else { pick_any(c, 8) };
    let eo = pick_enc(&img, &mut c.rng, 1, 3);
    let e = encode(&img, &eo, &mut c.rng);
    let mut o = Opt::new(YCbCr).threads(thr(&mut c.rng));
    fit(&mut o, &img);
    let tn = pick_tier(&mut c.rng, &mut o);
    let what = desc(&img, &eo);
    let mut outs = vec![];
    for cs in [YCbCr, RGB, RGBA, RGBX, GRAYSCALE] {
        let Some(v) = must(c, &what, &e.bytes, &o.cs(cs)) else { return };
        outs.push(v);
    }
    let n = img.w * img.h;
    if img.ncomp() == 1 {
        for (k, v) in outs.iter().enumerate() {
            if *v != outs[4] || v.len() != n {
                c.fail("gray", format!("{what} ({tn}): a grayscale image decoded for colourspace #{k} differs from its luma: {}", first_diff(v, &outs[4], img.w, 1)), Some(&e.bytes));
                return;
            }
        }
        c.eval(hash_bytes(&e.bytes));
        return;
    }
    let (ycc, rgb, rgba, rgbx, gray) = (&outs[0], &outs[1], &outs[2], &outs[3], &outs[4]);
    for (v, k, nm) in [(ycc, 3, "YCbCr"), (rgb, 3, "RGB"), (rgba, 4, "RGBA"), (rgbx, 4, "RGBX"), (gray, 1, "GRAYSCALE")] {
        if v.len() != n * k {
            c.fail("size", format!("{what} ({tn}): {nm} output has {} bytes, expected {}", v.len(), n * k), Some(&e.bytes));
            return;
        }
    }
    if c.colours.is_empty() {
        c.colours = vec![0; 1 << 24];
    }
    let mut new = 0u64;
    let mut worst = 0.0f64;
    for i in 0..n {
        let p = [ycc[i * 3], ycc[i * 3 + 1], ycc[i * 3 + 2]];
        let q = [rgb[i * 3], rgb[i * 3 + 1], rgb[i * 3 + 2]];
        let (x, y) = (i % img.w, i / img.w);
        let (yy, cb, cr) = (f64::from(p[0]), f64::from(p[1]) - 128.0, f64::from(p[2]) - 128.0);
        let ideal = [yy + 1.402 * cr, yy - 0.344_136 * cb - 0.714_136 * cr, yy + 1.772 * cb];
        for k in 0..3 {
            let d = (f64::from(q[k]) - ideal[k].clamp(0.0, 255.0)).abs();
            worst = worst.max(d);
            if d > 2.0 {
                c.fail("rgb", format!("{what} ({tn}) pixel ({x},{y}): YCbCr {p:?} became RGB {q:?}, BT.601 gives {:.1},{:.1},{:.1}", ideal[0], ideal[1], ideal[2]), Some(&e.bytes));
                return;
            }
        }
        let key = usize::from(p[0]) << 16 | usize::from(p[1]) << 8 | usize::from(p[2]);
        let val = 0xFF00_0000 | u32::from(q[0]) << 16 | u32::from(q[1]) << 8 | u32::from(q[2]);
        if c.colours[key] == 0 {
            c.colours[key] = val;
            new += 1;
            // cells of 4x4x4 colours
            c.distinct.insert(mix((key & 0xFC_FCFC) as u64));
        } else if c.colours[key] != val {
            let other = c.colours[key];
            c.fail("rgb-position", format!("{what} ({tn}): YCbCr {p:?} is RGB {q:?} at ({x},{y}) but {:06x} elsewhere, in this file or an earlier one", other & 0xFF_FFFF), Some(&e.bytes));
            return;
        }
        if rgba[i * 4..i * 4 + 4] != [q[0], q[1], q[2], 255] {
            c.fail("rgba", format!("{what} ({tn}) pixel ({x},{y}): RGB {q:?} but RGBA {:?}", &rgba[i * 4..i * 4 + 4]), Some(&e.bytes));
            return;
        }
        if rgbx[i * 4..i * 4 + 3] != q {
            c.fail("rgbx", format!("{what} ({tn}) pixel ({x},{y}): RGB {q:?} but RGBX {:?}", &rgbx[i * 4..i * 4 + 4]), Some(&e.bytes));
            return;
        }
        if gray[i] != p[0] {
            c.fail("gray", format!("{what} ({tn}) pixel ({x},{y}): luma {} but grayscale {}", p[0], gray[i]), Some(&e.bytes));
            return;
        }
    }
    c.max("max_rgb_error", worst);
    c.add("pixels", n as u64);
    c.note(tn);
    c.add("colours_new_to_their_shard", new);
    c.evaluations += n as u64;
    c.sample(|| format!("{what} {tn}, {new} new colours"));
}

// ------------------------------------------------------------------ C06

fn masked(cs: ColorSpace, o: Out) -> Out {
    match (cs, o) {
        (RGBX, Out::Ok(mut v)) => {
            if v.len() % 4 == 0 {
                v.chunks_exact_mut(4).for_each(|p| p[3] = 0);
            }
            Out::Ok(v)
        }
        (_, Out::Err(_)) => Out::Err(String::new()),
        (_, o) => o,
    }
}

fn c06_tiers(c: &mut Ctx) {
    let kind;
    let b = match c.rng.below(10) {
        0..=5 => {
            kind = "conforming";
            let img = pick_any(c, 15);
            let eo = pick_enc(&img, &mut c.rng, 1, 3);
            encode(&img, &eo, &mut c.rng).bytes
        }
        6..=8 => {
            // valid entropy coding, absurd coefficients: the transform overflows
            kind = "overflowing";
            let w = gen_dim(&mut c.rng, 64);
            let h = gen_dim(&mut c.rng, 64);
            let samp = SAMPS[c.rng.below(4)];
            let mut img = gen_image_sized(&mut c.rng, w, h, 3, samp);
            let big = c.rng.range(100, 1023);
            for t in 0..4 {
                if c.rng.chance(1, 2) {
                    img.qt[t] = [255; 64];
                }
            }
            for k in &mut img.comps {
                for blk in &mut k.coefs {
                    let n = c.rng.below(64);
                    for _ in 0..n {
                        blk[c.rng.below(64)] = c.rng.range(-big, big) as i16;
                    }
                }
            }
            let eo = EncOpts { huff: HuffKind::Opt, ..EncOpts::plain(&img) };
            encode(&img, &eo, &mut c.rng).bytes
        }
        _ => {
            kind = "hostile";
            mutate::hostile(&mut c.rng).0
        }
    };
    let cs = CS[c.rng.below(5)];
    let mut o = Opt::new(cs).threads(thr(&mut c.rng));
    o.maxw = if kind == "hostile" { 1 << 14 } else { 65535 };
    o.maxh = o.maxw;
    o.max_scans = 100;
    if kind == "hostile" {
        o.maxw = 600;
        o.maxh = 600;
    }
    tier(2);
    let base = masked(cs, decode(&b, &o.safe()));
    if let Ok(p) = std::env::var("ZJV_DIGEST") {
        use std::io::Write;
        let h = match &base {
            Out::Ok(v) => hash_bytes(v),
            Out::Err(_) => 1,
            Out::Panic(_) => 2,
        };
        if let Ok(mut f) = std::fs::OpenOptions::new().append(true).create(true).open(p) {
            let _ = writeln!(f, "{} {h:016x}", c.idx);
        }
    }
    if cfg!(feature = "x86") {
        for (t, nm) in [(2u8, "avx2"), (1, "sse"), (0, "scalar")] {
            tier(t);
            let r = masked(cs, decode(&b, &o));
            if r != base {
                let d = match (&base, &r) {
                    (Out::Ok(x), Out::Ok(y)) => format!("first difference at byte {:?} of {}", x.iter().zip(y).position(|(a, b)| a != b), x.len()),
                    _ => format!("{} / {}", base.brief(), r.brief()),
                };
                tier(2);
                c.fail("tiers-differ", format!("{kind} input, {}: {nm} code and portable code disagree: {d}", o.text()), Some(&b));
                return;
            }
        }
        tier(2);
    }
    c.note(&format!("{kind} {}", base.kind()));
    c.note(&format!("{cs:?}"));
    if base.ok().is_some() {
        c.eval(hash_bytes(&b) ^ mix(cs as u64));
    } else {
        c.eval_trivial();
    }
    c.sample(|| format!("{kind} {} bytes {}", b.len(), o.text()));
}

// ------------------------------------------------------------------ C07

fn strip_image(r: &mut Rng) -> (Image, EncOpts) {
    let gray = r.chance(1, 6);
    let samp = SAMPS[r.below(4)];
    let w = r.range(1, 90) as usize;
    let h = r.range(20, 330) as usize;
    let img = gen_image_sized(r, w, h, if gray { 1 } else { 3 }, samp);
    let o = pick_enc(&img, r, 1, 2);
    (img, o)
}

fn c07_schedules(c: &mut Ctx) {
    tier(2);
    let tsan = std::env::var_os("ZJV_TSAN").is_some();
    if c.idx % 3 != 2 {
        // one decoder, its workers delayed at random
        let (b, kind) = if c.rng.chance(1, 4) {
            (mutate::hostile(&mut c.rng).0, "hostile")
        } else {
            let (img, eo) = strip_image(&mut c.rng);
            (encode(&img, &eo, &mut c.rng).bytes, "conforming")
        };
        let mut o = Opt::new(CS[c.rng.below(5)]).threads(1);
        o.maxw = 600;
        o.maxh = 600;
        o.max_scans = 100;
        if c.rng.chance(1, 4) {
            o = o.safe();
        }
        let base = masked(o.cs, decode(&b, &o));
        for k in 0..if tsan { 1 } else { 3 } {
            let n = *c.rng.pick(&[2u32, 3, 4, 5, 6, 7, 8, 16, 16, 33]);
            let s = c.rng.next();
            strips::begin(s, if k == 0 { 200 } else { 40 });
            let r = masked(o.cs, decode(&b, &o.threads(n)));
            let t = strips::end();
            if r != base {
                c.fail("schedule", format!("{kind} input, {}: {n} threads give {}, one thread {}", o.text(), r.brief(), base.brief()), Some(&b));
                return;
            }
            if t.unfinished > 0 {
                c.fail("unfinished", format!("{kind} input, {}: the call returned while {} strips were still being written", o.text(), t.unfinished), Some(&b));
                return;
            }
            c.add("strips", t.strips as u64);
            c.max("workers_in_parallel", t.max_running as f64);
            c.max("worker_threads", t.threads as f64);
            if t.overlap {
                c.note("strips sharing output bytes");
            }
            if t.strips > 1 {
                c.eval(t.sig ^ mix(hash_bytes(&b)));
            } else {
                c.eval_trivial();
            }
        }
        c.note(&format!("{kind} {}", base.kind()));
        c.sample(|| format!("{kind} {} bytes {}", b.len(), o.text()));
    } else {
        // several decoders at once
        let k = 2 + c.rng.below(5);
        let mut jobs: Vec<(Vec<u8>, Opt, Out)> = vec![];
        // often the pictures are alike: same file, or same size with other contents
        let alike = c.rng.below(3);
        let first = strip_image(&mut c.rng);
        for _ in 0..k {
            let b = if alike == 1 && !jobs.is_empty() {
                jobs[0].0.clone()
            } else if alike == 2 {
                let img = gen_image_sized(&mut c.rng, first.0.w, first.0.h, first.0.ncomp(), (first.0.hmax, first.0.vmax));
                let eo = pick_enc(&img, &mut c.rng, 1, 2);
                encode(&img, &eo, &mut c.rng).bytes
            } else if c.rng.chance(1, 5) {
                mutate::hostile(&mut c.rng).0
            } else {
                let (img, eo) = strip_image(&mut c.rng);
                encode(&img, &eo, &mut c.rng).bytes
            };
            let mut o = Opt::new(CS[c.rng.below(5)]).threads(1 + c.rng.below(4) as u32);
            o.maxw = 600;
            o.maxh = 600;
            o.max_scans = 100;
            let base = masked(o.cs, decode(&b, &o));
            jobs.push((b, o, base));
        }
        strips::begin(c.rng.next(), 60);
        let res: Vec<Out> = std::thread::scope(|s| {
            let hs: Vec<_> = jobs
                .iter()
                .map(|(b, o, _)| {
                    s.spawn(move || {
                        let mut d = Decoder::new_with_options(o.build());
                        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| d.decode_buffer(b)));
                        masked(
                            o.cs,
                            match r {
                                Ok(Ok(v)) => Out::Ok(v),
                                Ok(Err(e)) => Out::Err(format!("{e:?}")),
                                Err(_) => Out::Panic(String::new()),
                            },
                        )
                    })
                })
                .collect();
            hs.into_iter().map(|h| h.join().unwrap_or(Out::Panic("thread".into()))).collect()
        });
        let t = strips::end();
        c.add("strips", t.strips as u64);
        c.max("worker_threads", t.threads as f64);
        for ((b, o, base), r) in jobs.iter().zip(&res) {
            let same = match (base, r) {
                (Out::Panic(_), Out::Panic(_)) => true,
                (a, b) => a == b,
            };
            if !same {
                c.fail("concurrent-decoders", format!("{}: alone {}, next to {} other decoders {}", o.text(), base.brief(), k - 1, r.brief()), Some(b));
                return;
            }
            c.eval(t.sig ^ mix(hash_bytes(b)));
        }
        c.note("concurrent decoders");
    }
    c.add("delays outside of strips", strips::DELAYS.swap(0, Relaxed));
}

// ------------------------------------------------------------------ C08

/// frame header as an independent reader of the container sees it
pub fn sof_of(b: &[u8]) -> Option<(u16, u16, u8, bool)> {
    let mut p = 2;
    loop {
        while *b.get(p)? != 0xFF {
            p += 1;
        }
        while *b.get(p)? == 0xFF {
            p += 1;
        }
        let m = *b.get(p)?;
        let l = usize::from(*b.get(p + 1)?) << 8 | usize::from(*b.get(p + 2)?);
        if m == 0xC0 || m == 0xC2 {
            let h = u16::from_be_bytes([*b.get(p + 4)?, *b.get(p + 5)?]);
            let w = u16::from_be_bytes([*b.get(p + 6)?, *b.get(p + 7)?]);
            return Some((w, h, *b.get(p + 8)?, m == 0xC2));
        }
        if m == 0xDA {
            return None;
        }
        p += 1 + l;
    }
}

fn geometry_ok(d: &Decoder, out: &[u8], cs: ColorSpace, w: usize, h: usize, n: u8, prog: bool) -> Result<(), String> {
    let want = if n == 1 { GRAYSCALE } else { cs };
    if usize::from(d.width()) != w || usize::from(d.height()) != h {
        return Err(format!("width/height report {}x{}", d.width(), d.height()));
    }
    let Some(i) = info_of(d) else { return Err("info() is None".into()) };
    if usize::from(i.w) != w || usize::from(i.h) != h || i.comps != n {
        return Err(format!("info() reports {}x{} with {} components", i.w, i.h, i.comps));
    }
    if i.sof.contains("rogressive") != prog || i.sof.contains("aseline") == prog {
        return Err(format!("info() reports coding process {}", i.sof));
    }
    if d.get_output_colorspace() != want {
        return Err(format!("output colourspace reported {:?}", d.get_output_colorspace()));
    }
    if out.len() != w * h * ncs(want) {
        return Err(format!("{} bytes of pixels, expected {}", out.len(), w * h * ncs(want)));
    }
    Ok(())
}

fn c08_geometry(c: &mut Ctx) {
    let cs = CS[c.rng.below(5)];
    let mut o = Opt::new(cs).threads(thr(&mut c.rng));
    o.maxw = 65535;
    o.maxh = 65535;
    let t = pick_tier(&mut c.rng, &mut o);
    let (b, exp, kind, what);
    match c.rng.below(8) {
        0..=5 => {
            // every small size turns up
            let (w, h) = match c.rng.below(6) {
                0..=2 => (c.rng.range(1, 70) as usize, c.rng.range(1, 70) as usize),
                3 => (c.rng.range(1, 3000) as usize, c.rng.range(1, 9) as usize),
                4 => (c.rng.range(1, 9) as usize, c.rng.range(1, 3000) as usize),
                _ => {
                    if c.rng.chance(1, 8) {
                        if c.rng.chance(1, 2) { (65535, 1 + c.rng.below(2)) } else { (1 + c.rng.below(2), 65535) }
                    } else {
                        (gen_dim(&mut c.rng, 300), gen_dim(&mut c.rng, 300))
                    }
                }
            };
            let n = if c.rng.chance(1, 5) { 1 } else { 3 };
            let samp = SAMPS[c.rng.below(4)];
            let mut img = Image::new(w, h, n, samp);
            if w * h < 40_000 {
                img = gen_image_sized(&mut c.rng, w, h, n, samp);
            }
            let eo = pick_enc(&img, &mut c.rng, 1, 2);
            b = encode(&img, &eo, &mut c.rng).bytes;
            exp = Some((w as u16, h as u16, n as u8, eo.progressive));
            kind = "conforming";
            what = desc(&img, &eo);
        }
        _ => {
            b = mutate::hostile(&mut c.rng).0;
            o.maxw = 600;
            o.maxh = 600;
            o.max_scans = 100;
            exp = sof_of(&b);
            kind = "hostile";
            what = format!("{} bytes", b.len());
        }
    }
    let mut d = Decoder::new_with_options(o.build());
    let r = decode_with(&mut d, &b);
    match (&r, kind) {
        (Out::Ok(v), _) => {
            if let Some((w, h, n, p)) = exp {
                if let Err(m) = geometry_ok(&d, v, cs, w.into(), h.into(), n, p) {
                    c.fail("geometry", format!("{kind} {what}, {}, {t}: {m}", o.text()), Some(&b));
                    return;
                }
                c.eval(mix(u64::from(w) << 24 | u64::from(h) << 8 | u64::from(n)) ^ mix(cs as u64) ^ u64::from(p));
            } else {
                // the container is damaged: only self-consistency
                let k = ncs(d.get_output_colorspace());
                if v.len() != usize::from(d.width()) * usize::from(d.height()) * k {
                    c.fail("geometry", format!("{kind} {what}, {}: {} bytes for {}x{}x{k}", o.text(), v.len(), d.width(), d.height()), Some(&b));
                    return;
                }
                c.eval_trivial();
            }
        }
        (x, "conforming") => {
            c.fail("not-decoded", format!("{what}, {}, {t}: {}", o.text(), x.brief()), Some(&b));
            return;
        }
        _ => c.eval_trivial(),
    }
    c.note(&format!("{kind} {}", r.kind()));
    c.sample(|| format!("{kind} {what} {}", o.text()));
}

// ------------------------------------------------------------------ C09

fn c09_limits(c: &mut Ctx) {
    let r = &mut c.rng;
    let img = match r.below(40) {
        0 => {
            // around the default limit
            let d = *r.pick(&[16383usize, 16384, 16385, 20000, 65535]);
            let k = 1 + r.below(9);
            let samp = SAMPS[r.below(4)];
            let n = *r.pick(&[1, 3]);
            if r.chance(1, 2) { Image::new(d, k, n, samp) } else { Image::new(k, d, n, samp) }
        }
        1..=2 => gen_image(r, &GenCfg { maxdim: 16, gray_pct: 30 }),
        _ => gen_image(r, &GenCfg { maxdim: 300, gray_pct: 20 }),
    };
    let mut eo = pick_enc(&img, r, 2, 3);
    if img.w <= 16 && img.h <= 16 && img.mcux * img.mcuy <= 4 && r.chance(1, 2) {
        eo = gen_progressive(&img, r);
        let want = *r.pick(&[2usize, 62, 63, 64, 65, 66, 126, 127, 128, 129, 254, 255, 256, 257, 258, 300, 511, 512, 513, 800]);
        eo.scans = many_scans(&img, want, r);
    }
    let e = encode(&img, &eo, r);
    let b = &e.bytes;
    let what = desc(&img, &eo);
    let (w, h, n) = (img.w as u16, img.h as u16, eo.scans.len());
    tier(2);
    let cs = CS[r.below(5)];
    let mut full = Opt::new(cs).threads(2);
    full.maxw = 65535;
    full.maxh = 65535;
    full.max_scans = usize::MAX;
    // the limits hold whatever the other options
    full.strict = img.ncomp() == 3 && r.chance(1, 3);
    full = full.threads(thr(r));
    pick_tier(r, &mut full);
    let Some(base) = must(c, &what, b, &full) else { return };
    let r = &mut c.rng;
    let mut tries: Vec<(Opt, bool, bool)> = vec![]; // options, decode ok, headers ok
    let mk = |mw: u16, mh: u16, s: usize| {
        let mut o = full;
        o.maxw = mw;
        o.maxh = mh;
        o.max_scans = s;
        o
    };
    tries.push((mk(w, h, n), true, true));
    if w > 0 {
        tries.push((mk(w - 1, 65535, usize::MAX), false, false));
        tries.push((mk(r.below(usize::from(w)) as u16, h, n), false, false));
    }
    tries.push((mk(65535, h - 1, usize::MAX), false, false));
    if r.chance(1, 4) {
        tries.push((mk(0, 65535, usize::MAX), false, false));
        tries.push((mk(65535, 0, usize::MAX), false, false));
    }
    tries.push((mk(w, r.below(usize::from(h)) as u16, n), false, false));
    tries.push((mk(w.saturating_add(r.below(300) as u16), h.saturating_add(r.below(300) as u16), n + r.below(4)), true, true));
    if eo.progressive && n > 1 {
        tries.push((mk(65535, 65535, n - 1), false, true));
        tries.push((mk(65535, 65535, 1 + r.below(n - 1)), false, true));
    }
    if !eo.progressive {
        // a scan limit is for progressive images
        tries.push((mk(w, h, 1), true, true));
    }
    for (o, dec, hdr) in tries {
        let x = decode(b, &o);
        let good = match (&x, dec) {
            (Out::Ok(v), true) => *v == base,
            (Out::Err(_), false) => true,
            _ => false,
        };
        if !good {
            c.fail("limit", format!("{what} under {}: expected {}, got {}", o.text(), if dec { "the image" } else { "an error" }, x.brief()), Some(b));
            return;
        }
        let y = headers_with(&mut Decoder::new_with_options(o.build()), b);
        if (y.kind() == "ok") != hdr || y.kind() == "panic" {
            c.fail("limit-headers", format!("{what} under {}: read_headers gave {}", o.text(), y.brief()), Some(b));
            return;
        }
        c.eval(hash_bytes(b) ^ mix(u64::from(o.maxw) << 32 | u64::from(o.maxh) << 16 | o.max_scans as u64 & 0xffff));
    }
    // a fresh decoder has the documented defaults
    let over = w > 16384 || h > 16384;
    let big = eo.progressive && n > 64;
    let x = decode_with(&mut Decoder::new(), b);
    if (x.kind() == "ok") == (over || big) || x.kind() == "panic" {
        c.fail("default-limit", format!("{what} with default limits: {}", x.brief()), Some(b));
        return;
    }
    // the deprecated setter sets the same limits
    #[allow(deprecated)]
    {
        let mut d = Decoder::new_with_options(full.build());
        d.set_limits(w, h);
        let a = decode_with(&mut d, b);
        let mut d = Decoder::new_with_options(full.build());
        let (lw, lh) = if c.rng.chance(1, 2) { (w - 1, h) } else { (w, h - 1) };
        d.set_limits(lw, lh);
        let z = decode_with(&mut d, b);
        if a.ok() != Some(&base) || z.kind() != "err" {
            c.fail("set-limits", format!("{what}: set_limits at the size gave {}, below it {}", a.brief(), z.brief()), Some(b));
            return;
        }
    }
    c.note(if eo.progressive { "progressive" } else { "baseline" });
    if over {
        c.note("over default limit");
    }
    if big {
        c.note("over default scan limit");
    }
    c.sample(|| what.clone());
}

// ------------------------------------------------------------------ C10

#[cfg(not(feature = "plain_alloc"))]
static KEPT: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
#[cfg(not(feature = "plain_alloc"))]
static KEPT_BYTES: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
#[cfg(feature = "plain_alloc")]
fn c10_resources(_: &mut Ctx) {}

#[cfg(not(feature = "plain_alloc"))]
fn c10_resources(c: &mut Ctx) {
    use crate::threads;
    use std::sync::atomic::Ordering::SeqCst;
    tier(2);
    let kind;
    let b = match c.rng.below(10) {
        0..=4 => {
            kind = "conforming";
            let img = pick_image(&mut c.rng, 20);
            let eo = pick_enc(&img, &mut c.rng, 1, 2);
            encode(&img, &eo, &mut c.rng).bytes
        }
        5 => {
            kind = "huge-declared";
            // a tiny file that claims to be large
            let e = mutate::small(&mut c.rng);
            let mut b = e.bytes;
            if let (true, Some(x)) = (c.rng.chance(1, 2), e.ecs.first()) {
                // only the first scan, perhaps not all of it, and no end
                b.truncate(if c.rng.chance(1, 2) { x.1 } else { c.rng.range(x.0 as i64, x.1 as i64) as usize });
            }
            if let Some(p) = b.windows(2).position(|w| w == [0xFF, 0xC0] || w == [0xFF, 0xC2]) {
                let v = (c.rng.range(1000, 65535) as u16).to_be_bytes();
                let u = (c.rng.range(1, 65535) as u16).to_be_bytes();
                let (v, u) = if c.rng.chance(1, 2) { (v, u) } else { (u, v) };
                if p + 8 < b.len() {
                    b[p + 5..p + 9].copy_from_slice(&[v[0], v[1], u[0], u[1]]);
                }
            }
            b
        }
        _ => {
            kind = "hostile";
            mutate::hostile(&mut c.rng).0
        }
    };
    let mut o = any_opt(&mut c.rng);
    o.threads = *c.rng.pick(&[1u32, 2, 3, 4, 6, 9]);
    if kind == "conforming" {
        o.maxw = 1 << 14;
        o.maxh = 1 << 14;
        o.max_scans = 200;
    }
    let hdr_only = c.rng.chance(1, 5);
    let headers_fine = headers_with(&mut Decoder::new_with_options(o.build()), &b).kind() == "ok";
    let mut lives = vec![];
    let mut res = None;
    threads::settle(threads::BASE.load(SeqCst));
    let held0 = alloc::LIVE.load(Relaxed);
    for round in 0..3 {
        let live0 = threads::BASE.load(SeqCst);
        threads::settle(live0);
        threads::PEAK.store(live0, SeqCst);
        let m = alloc::mark();
        let made0 = alloc::TOTAL.load(Relaxed);
        let (r, w, h, comps);
        {
            let mut d = Decoder::new_with_options(o.build());
            r = if hdr_only { headers_with(&mut d, &b) } else { decode_with(&mut d, &b) };
            w = usize::from(d.width());
            h = usize::from(d.height());
            comps = info_of(&d).map_or(0, |i| i.comps);
        }
        let _ = (made0, comps);
        let peak = alloc::peak_since(&m);
        let biggest = alloc::BIGGEST.load(Relaxed);
        let peakt = threads::PEAK.load(SeqCst) - live0;
        // workers wind down on their own once the call has let go of them
        let live1 = threads::settle(live0);
        if live1 > live0 {
            c.fail("thread-left", format!("{kind} input, {}: {} worker threads still alive 20 s after the call returned {}", o.text(), live1 as i64 - live0 as i64, r.brief()), Some(&b));
            return;
        }
        if peakt > o.threads as usize {
            c.fail("too-many-threads", format!("{kind} input, {}: {peakt} worker threads at once", o.text()), Some(&b));
            return;
        }
        if hdr_only && peakt != 0 {
            c.fail("too-many-threads", format!("{kind} input, {}: reading headers started {peakt} threads", o.text()), Some(&b));
            return;
        }
        // what the image may cost: whole MCUs of the largest sampling, two MCU rows per strip
        let pad = |v: usize, k: usize| v.div_ceil(k) * k;
        let within = w <= usize::from(o.maxw) && h <= usize::from(o.maxh);
        // nothing for pixels if the headers alone are refused
        let px = if within && !hdr_only && headers_fine { pad(w, 32) * pad(h, 32) } else { 0 };
        let bound = 300_000 + 6 * b.len() + 24 * px;
        c.max("peak_bytes_over_bound", peak as f64 / bound as f64);
        if px > 100_000 {
            c.max("heap_bytes_per_pixel", peak as f64 / px as f64);
        }
        if peak > bound || biggest > bound {
            c.fail("heap", format!("{kind} input of {} bytes, {w}x{h}, {}{}: {peak} bytes of heap at once (bound {bound}), result {}", b.len(), o.text(), if hdr_only { " headers only" } else { "" }, r.brief()), Some(&b));
            return;
        }
        if round == 0 {
            c.note(&format!("{kind} {}", r.kind()));
            c.max("worker_threads", peakt as f64);
        }
        let ok = r.kind();
        res = Some(ok);
        drop(r);
        lives.push((alloc::LIVE.load(Relaxed), alloc::BLOCKS.load(Relaxed)));
    }
    if alloc::LIVE.load(Relaxed) > held0 + 512 {
        // something was kept. Threads being torn down are not it, neither is what is made once
        // and for all; a store that grows with every new kind of file is.
        let t = std::time::Instant::now();
        while alloc::LIVE.load(Relaxed) > held0 + 512 && t.elapsed().as_millis() < 400 {
            std::thread::sleep(std::time::Duration::from_micros(200));
        }
        let now = alloc::LIVE.load(Relaxed);
        if now > held0 + 512 {
            let times = KEPT.fetch_add(1, SeqCst) + 1;
            let bytes = KEPT_BYTES.fetch_add(now - held0, SeqCst) + now - held0;
            c.max("calls_that_kept_memory", times as f64);
            c.max("bytes_kept", bytes as f64);
            if times >= 25 {
                c.fail("kept", format!("{times} of the calls so far, the last one on this {kind} input of {n} bytes, kept memory after their decoder and result were gone, {bytes} bytes in all", n = b.len()), Some(&b));
                return;
            }
        }
    }
    if lives[0].0 < lives[1].0 && lives[1].0 < lives[2].0 {
        // give threads that are still being torn down time, then ask for steady growth
        let mut grown = vec![];
        for _ in 0..12 {
            {
                let mut d = Decoder::new_with_options(o.build());
                let _ = if hdr_only { headers_with(&mut d, &b) } else { decode_with(&mut d, &b) };
            }
            std::thread::sleep(std::time::Duration::from_millis(20));
            grown.push(alloc::LIVE.load(Relaxed));
        }
        if !grown.windows(2).all(|w| w[0] < w[1]) {
            c.note("growth not confirmed");
            c.eval_trivial();
            return;
        }
        c.fail("leak", format!("{kind} input, {}: every call leaves {} more bytes in {} blocks allocated", o.text(), lives[2].0 - lives[1].0, lives[2].1 as i64 - lives[1].1 as i64), Some(&b));
        return;
    }
    if res == Some("ok") {
        c.eval(hash_bytes(&b) ^ mix(u64::from(o.threads)));
    } else {
        c.eval_trivial();
    }
    c.sample(|| format!("{kind} {} bytes {}", b.len(), o.text()));
}

// ------------------------------------------------------------------ C11

fn c11_restart(c: &mut Ctx) {
    let img = pick_any(c, 20);
    let mut o = if c.rng.chance(1, 2) { gen_progressive(&img, &mut c.rng) } else { gen_baseline(&img, &mut c.rng) };
    if c.rng.chance(1, 6) {
        decorate(&mut o, &mut c.rng);
    }
    let plain = encode(&img, &o, &mut c.rng);
    let mut opt = Opt::new(if c.rng.chance(1, 2) { YCbCr } else { CS[c.rng.below(5)] }).threads(thr(&mut c.rng));
    fit(&mut opt, &img);
    let tn = pick_tier(&mut c.rng, &mut opt);
    let Some(base) = must(c, &desc(&img, &o), &plain.bytes, &opt) else { return };
    for _ in 0..3 {
        let mut ro = o.clone();
        let ri = gen_ri(&mut c.rng, &img);
        ro = ro.with_ri(ri);
        if o.progressive && c.rng.chance(1, 3) {
            for s in &mut ro.scans {
                s.ri = if c.rng.chance(1, 3) { 0 } else { gen_ri(&mut c.rng, &img) };
            }
        }
        if c.rng.chance(1, 4) {
            ro.fill_in_scan = true;
        }
        if c.rng.chance(1, 3) {
            ro.dri_first = !ro.dri_first;
        }
        let e = encode(&img, &ro, &mut c.rng);
        let what = desc(&img, &ro);
        let Some(v) = must(c, &what, &e.bytes, &opt) else { return };
        if v != base {
            let n = if img.ncomp() == 1 { 1 } else { ncs(opt.cs) };
            c.fail("restart", format!("{what} ({tn}): {} restart markers changed {}", e.stats.restarts, first_diff(&v, &base, img.w, n)), Some(&e.bytes));
            return;
        }
        c.add("restart_markers", e.stats.restarts);
        if e.stats.restarts > 0 {
            c.eval(hash_bytes(&e.bytes));
        } else {
            c.eval_trivial();
        }
        c.sample(|| format!("{what} {tn}, {} markers", e.stats.restarts));
    }
    c.note(&format!("{}c {}x{} {}", img.ncomp(), img.hmax, img.vmax, if o.progressive { "prog" } else { "base" }));
}

// ------------------------------------------------------------------ C12

fn c12_container(c: &mut Ctx) {
    let img = pick_any(c, 20);
    let prog = c.rng.chance(1, 3);
    let mut a = if prog { gen_progressive(&img, &mut c.rng) } else { EncOpts::plain(&img) };
    a.huff = HuffKind::Opt;
    a.eob_flush_den = 0;
    let ea = encode(&img, &a, &mut c.rng);
    let mut opt = Opt::new(if c.rng.chance(1, 2) { YCbCr } else { CS[c.rng.below(5)] }).threads(thr(&mut c.rng));
    fit(&mut opt, &img);
    let tn = pick_tier(&mut c.rng, &mut opt);
    let Some(base) = must(c, &desc(&img, &a), &ea.bytes, &opt) else { return };
    for k in 0..3 {
        let mut b = a.clone();
        b.huff = gen_huff(&mut c.rng);
        if prog && b.huff == HuffKind::Std {
            b.huff = HuffKind::Long;
        }
        b.dcs = gen_slots(&mut c.rng, img.ncomp());
        b.acs = gen_slots(&mut c.rng, img.ncomp());
        if prog {
            b.eob_flush_den = *c.rng.pick(&[0, 1, 3, 30]);
        }
        if k > 0 {
            decorate(&mut b, &mut c.rng);
            if c.rng.chance(1, 2) {
                let ri = gen_ri(&mut c.rng, &img);
                b = b.with_ri(ri);
            }
        }
        // quantisation tables under other numbers
        let mut im2 = img.clone();
        if c.rng.chance(1, 2) {
            let mut perm = [0usize, 1, 2, 3];
            c.rng.shuffle(&mut perm);
            for t in 0..4 {
                im2.qt[perm[t]] = img.qt[t];
            }
            for k in &mut im2.comps {
                k.tq = perm[k.tq];
            }
            if im2.ncomp() == 3 && im2.comps[1].tq == im2.comps[2].tq && c.rng.chance(1, 2) {
                // or the same table under two numbers
                let free = (0..4).find(|t| im2.comps.iter().all(|k| k.tq != *t)).unwrap();
                im2.qt[free] = im2.qt[im2.comps[2].tq];
                im2.comps[2].tq = free;
            }
        }
        let eb = encode(&im2, &b, &mut c.rng);
        let what = format!("{} {:?}/{:?} extra={} fill={} dhtfirst={}", desc(&img, &b), b.dcs, b.acs, b.extra_segs, b.fill_den, b.dht_first);
        let Some(v) = must(c, &what, &eb.bytes, &opt) else { return };
        if v != base {
            let n = if img.ncomp() == 1 { 1 } else { ncs(opt.cs) };
            c.fail("coding", format!("{what} ({tn}): another encoding of the same coefficients changed {}", first_diff(&v, &base, img.w, n)), Some(&eb.bytes));
            return;
        }
        c.note(&format!("huffman {:?}", b.huff));
        c.max("longest_code", f64::from(eb.max_code));
        c.add("extra_segments", eb.segs.iter().filter(|s| s.marker >= 0xE0).count() as u64);
        c.eval(hash_bytes(&eb.bytes));
        c.sample(|| format!("{what} {tn}"));
    }
}

// ------------------------------------------------------------------ C13

fn c13_damage(c: &mut Ctx) {
    let img = {
        let r = &mut c.rng;
        let gray = r.chance(1, 5);
        let samp = SAMPS[r.below(4)];
        let (w, h) = if r.chance(1, 4) {
            (r.range(1, 40) as usize, r.range(1, 40) as usize)
        } else {
            (gen_dim(r, 200), r.range(8, 200) as usize)
        };
        gen_image_sized(r, w, h, if gray { 1 } else { 3 }, if gray { (1, 1) } else { samp })
    };
    let mut o = gen_baseline(&img, &mut c.rng);
    let with_rst = c.rng.chance(2, 3);
    if with_rst {
        let ri = gen_ri(&mut c.rng, &img);
        o = o.with_ri(ri);
    }
    let e = encode(&img, &o, &mut c.rng);
    let what = desc(&img, &o);
    let mut opt = Opt::new(CS[c.rng.below(5)]).threads(thr(&mut c.rng));
    let tn = pick_tier(&mut c.rng, &mut opt);
    let Some(full) = must(c, &what, &e.bytes, &opt) else { return };
    let n = if img.ncomp() == 1 { 1 } else { ncs(opt.cs) };
    let (ecs0, ecs1) = e.ecs[0];
    // rows of pixels that share a strip (chroma is interpolated within it)
    let strip = match (img.ncomp(), img.hmax, img.vmax) {
        (1, ..) => 8,
        (_, 2, 1) => 16,
        (_, 2, 2) => 32,
        (_, _, v) => 8 * v,
    };
    for _ in 0..4 {
        // cut inside the picture data (or the headers)
        let in_header = c.rng.chance(1, 6);
        let cut = if in_header {
            match c.rng.below(3) {
                0 => ecs0 - 1 - c.rng.below(12),
                1 => c.rng.pick(&e.segs).start.min(ecs0 - 1),
                _ => c.rng.below(ecs0),
            }
        } else {
            let near = c.rng.range(-2, 4);
            let at = match c.rng.below(5) {
                // just behind the last byte of an MCU, of a row of MCUs, of the picture
                0 => *c.rng.pick(&e.mcu_end) as i64 + near,
                1 => {
                    let k = img.mcux * (1 + c.rng.below(img.mcuy)) - 1;
                    e.mcu_end[k] as i64 + near
                }
                2 => {
                    let per = (strip / (8 * img.vmax)).max(1);
                    let k = (img.mcux * per * (1 + c.rng.below(img.mcuy.div_ceil(per)))).min(e.mcu_end.len()) - 1;
                    e.mcu_end[k] as i64 + near.clamp(0, 1)
                }
                3 if c.rng.chance(1, 3) => ecs1 as i64 + near,
                _ => (ecs0 + c.rng.below(ecs1 - ecs0)) as i64,
            };
            (at.max(ecs0 as i64) as usize).min(e.bytes.len())
        };
        let mut b = e.bytes[..cut].to_vec();
        let tail = c.rng.below(3);
        if tail == 1 && !in_header {
            b.extend_from_slice(&[0xFF, 0xD9]);
        }
        let r = decode(&b, &opt);
        match r {
            Out::Panic(m) => {
                c.fail("panic", format!("{what} cut at {cut}: {m}"), Some(&b));
                return;
            }
            Out::Err(_) => {
                c.note("cut: error");
                c.eval_trivial();
            }
            Out::Ok(v) => {
                if in_header {
                    c.fail("cut-header", format!("{what}: cut at byte {cut}, before the picture data at {ecs0}, yet pixels were returned"), Some(&b));
                    return;
                }
                // MCUs that are there completely. A cut right behind an FF needs the next byte too.
                let done = e.mcu_end.iter().take_while(|&&p| p + usize::from(e.bytes[p - 1] == 0xFF && e.bytes[p] == 0) <= cut).count();
                let rows = (done / img.mcux) * 8 * img.vmax;
                // the last line of chroma may be interpolated with the next one
                let rows = if img.ncomp() > 1 && img.vmax > 1 && rows % strip != 0 { rows.saturating_sub(2) } else { rows };
                let rows = rows.min(img.h);
                let len = rows * img.w * n;
                if v.len() != full.len() || v[..len] != full[..len] {
                    c.fail("cut", format!("{what} ({tn}, {}): cut at byte {cut} of {}, {rows} rows are complete, but {}", opt.text(), e.bytes.len(), first_diff(&v[..len.min(v.len())], &full[..len], img.w, n)), Some(&b));
                    return;
                }
                c.note("cut: pixels");
                c.add("rows_compared", rows as u64);
                if rows > 0 {
                    c.eval(hash_bytes(&b));
                } else {
                    c.eval_trivial();
                }
            }
        }
    }
    // damage one restart interval
    if with_rst && !e.rst_pos.is_empty() && img.ncomp() >= 1 {
        let ri = o.scans[0].ri;
        for _ in 0..3 {
            let k = c.rng.below(e.rst_pos.len() + 1);
            let s = if k == 0 { ecs0 } else { e.rst_pos[k - 1] + 2 };
            let t = if k == e.rst_pos.len() { ecs1 } else { e.rst_pos[k] };
            if t <= s {
                continue;
            }
            let mut b = e.bytes.clone();
            let mut drop = 0;
            if c.rng.chance(1, 3) && t - s > 2 {
                // lose some bytes
                let q = s + c.rng.below(t - s);
                drop = (1 + c.rng.below(5)).min(t - q);
                b.drain(q..q + drop);
            } else {
                for _ in 0..1 + c.rng.below(4) {
                    let q = s + c.rng.below(t - s);
                    b[q] = c.rng.byte();
                }
            }
            // keep the damage free of new markers
            let t2 = t - drop;
            let mut bad = false;
            for q in s.saturating_sub(1)..t2 {
                if b[q] == 0xFF && q >= s && (q + 1 >= t2 || b[q + 1] != 0) {
                    bad = true;
                }
            }
            if bad {
                continue;
            }
            match decode(&b, &opt) {
                Out::Panic(m) => {
                    c.fail("panic", format!("{what}, interval {k} damaged: {m}"), Some(&b));
                    return;
                }
                Out::Err(_) => {
                    c.note("interval: error");
                    c.eval_trivial();
                }
                Out::Ok(v) => {
                    let (first, last) = (k * ri, ((k + 1) * ri).min(img.mcux * img.mcuy) - 1);
                    let (mw, mh) = if img.ncomp() == 1 { (8, 8) } else { (8 * img.hmax, 8 * img.vmax) };
                    let mut compared = 0;
                    for y in 0..img.h {
                        for x in 0..img.w {
                            let m = y / mh * img.mcux + x / mw;
                            // neighbours lend chroma samples to each other
                            let near = if img.ncomp() == 1 {
                                m >= first && m <= last
                            } else {
                                let (my, mx) = ((y / mh) as i64, (x / mw) as i64);
                                (-1..=1).any(|dy| {
                                    (-1..=1).any(|dx| {
                                        let (a, b) = (my + dy, mx + dx);
                                        if b < 0 || b >= img.mcux as i64 || a < 0 {
                                            return false;
                                        }
                                        let q = (a * img.mcux as i64 + b) as usize;
                                        q >= first && q <= last
                                    })
                                })
                            };
                            if !near {
                                let p = (y * img.w + x) * n;
                                if v.get(p..p + n) != full.get(p..p + n) {
                                    c.fail("interval", format!("{what} ({tn}, {}): damage in restart interval {k} (MCUs {first}..={last}) changed pixel ({x},{y}) of MCU {m}", opt.text()), Some(&b));
                                    return;
                                }
                                compared += 1;
                            }
                        }
                    }
                    c.note("interval: pixels");
                    c.add("pixels_outside_damage", compared);
                    if compared > 0 {
                        c.eval(hash_bytes(&b));
                    } else {
                        c.eval_trivial();
                    }
                }
            }
        }
    }
    c.sample(|| format!("{what} {tn}"));
}

// ------------------------------------------------------------------ C14

fn c14_headers(c: &mut Ctx) {
    let (b, kind, cut) = if c.rng.chance(1, 2) {
        let (img, mut eo, mut e) = mutate::conforming(&mut c.rng, 120);
        if c.rng.chance(1, 150) {
            // headers of several hundred kilobytes
            eo.long_segs = 1 + c.rng.below(12);
            e = encode(&img, &eo, &mut c.rng);
        }
        let cut = e.ecs[0].0;
        (e.bytes, "conforming", Some(cut))
    } else {
        (mutate::hostile(&mut c.rng).0, "hostile", None)
    };
    let mut o = any_opt(&mut c.rng);
    o.max_scans = 200;
    o.cs = CS[c.rng.below(5)];
    if kind == "conforming" && c.rng.chance(1, 2) {
        o.maxw = 65535;
        o.maxh = 65535;
    }
    tier(2);
    let mut dd = Decoder::new_with_options(o.build());
    let rd = decode_with(&mut dd, &b);
    let mut dh = Decoder::new_with_options(o.build());
    let rh = headers_with(&mut dh, &b);
    let bad = |c: &mut Ctx, m: String| c.fail("headers", format!("{kind} input of {} bytes, {}: {m}", b.len(), o.text()), Some(&b));
    if let Out::Panic(m) = &rh {
        bad(c, format!("read_headers panicked: {m}"));
        return;
    }
    let same = |x: &Decoder, y: &Decoder| (x.width(), x.height(), info_of(x), x.get_output_colorspace()) == (y.width(), y.height(), info_of(y), y.get_output_colorspace());
    match (&rd, &rh) {
        (Out::Ok(_), Out::Ok(_)) => {
            if !same(&dd, &dh) {
                bad(c, format!("decode reports {}x{} {:?} {:?}, read_headers {}x{} {:?} {:?}", dd.width(), dd.height(), info_of(&dd), dd.get_output_colorspace(), dh.width(), dh.height(), info_of(&dh), dh.get_output_colorspace()));
                return;
            }
            c.eval(hash_bytes(&b));
        }
        (Out::Ok(_), x) => {
            bad(c, format!("decodes, but read_headers says {}", x.brief()));
            return;
        }
        (_, Out::Ok(_)) => {
            c.note("headers fine, picture not");
            c.eval(hash_bytes(&b));
        }
        _ => c.eval_trivial(),
    }
    if rh.kind() == "ok" && dh.info().is_none() {
        bad(c, "read_headers succeeded but there is no info".into());
        return;
    }
    // the picture data is not looked at
    if let (Some(cut), "ok") = (cut, rh.kind()) {
        let mut b2 = b[..cut].to_vec();
        let mut d2 = Decoder::new_with_options(o.build());
        let r2 = headers_with(&mut d2, &b2);
        if r2.kind() != "ok" || !same(&d2, &dh) {
            bad(c, format!("without picture data read_headers gives {}", r2.brief()));
            return;
        }
        match c.rng.below(5) {
            0 => b2.extend_from_slice(&[0xFF, 0xD9]),
            1 => {
                let x = mutate::small(&mut c.rng).bytes;
                let p = c.rng.below(2) * 2;
                b2.extend_from_slice(&x[p..]);
            }
            2 => {
                let x = *c.rng.pick(&[0u8, 0xFF, 0xD9]);
                let n = c.rng.below(3000);
                b2.extend((0..n).map(|_| x));
            }
            _ => {
                for _ in 0..1 + c.rng.below(40) {
                    b2.push(c.rng.byte());
                }
            }
        }
        let mut d3 = Decoder::new_with_options(o.build());
        let r3 = headers_with(&mut d3, &b2);
        if r3.kind() != "ok" || !same(&d3, &dh) {
            bad(c, format!("with other picture data read_headers gives {}", r3.brief()));
            return;
        }
        // shorter than the headers: an error
        let k = if c.rng.chance(1, 2) { c.rng.below(cut) } else { cut - 1 - c.rng.below(14) };
        let mut d4 = Decoder::new_with_options(o.build());
        let r4 = headers_with(&mut d4, &b[..k]);
        if r4.kind() != "err" {
            bad(c, format!("headers cut at {k} of {cut}: {}", r4.brief()));
            return;
        }
        // reading headers first does not change the decode that follows
        let r5 = decode_with(&mut dh, &b);
        if r5 != rd && !(r5.kind() == "err" && rd.kind() == "err") {
            bad(c, format!("decode alone {}, after read_headers {}", rd.brief(), r5.brief()));
            return;
        }
    }
    c.note(&format!("{kind} decode {} headers {}", rd.kind(), rh.kind()));
    c.sample(|| format!("{kind} {} bytes {}", b.len(), o.text()));
}

// ------------------------------------------------------------------ C15

fn c15_history(c: &mut Ctx) {
    tier(2);
    let mut o = Opt::new(CS[c.rng.below(5)]).threads(thr(&mut c.rng));
    o.maxw = 600;
    o.maxh = 600;
    o.max_scans = 100;
    o.unsafe_ = c.rng.chance(3, 4);
    o.strict = c.rng.chance(1, 8);
    // half of the histories draw from few files, used again and again
    let mut pool: Vec<(Vec<u8>, &'static str)> = vec![];
    let mut last = None;
    let mut steps = 2 + c.rng.below(5);
    if c.rng.chance(1, 2) {
        let one_kind = c.rng.below(4);
        for _ in 0..1 + c.rng.below(3) {
            let (img, eo, e) = mutate::conforming(&mut c.rng, 40);
            let k = match one_kind {
                // cut between scans, or inside the last
                0 => {
                    let (s, t) = *c.rng.pick(&e.ecs);
                    if c.rng.chance(1, 2) { t } else { s + c.rng.below(t - s + 1) }
                }
                1 => c.rng.below(e.bytes.len()),
                _ => e.bytes.len(),
            };
            let _ = (img, eo);
            pool.push((e.bytes[..k].to_vec(), if k < e.bytes.len() { "cut" } else { "conforming" }));
        }
        if c.rng.chance(1, 3) {
            pool.push((mutate::hostile(&mut c.rng).0, "hostile"));
        }
        let (_, eo, e) = mutate::conforming(&mut c.rng, 60);
        // no scan to spare
        if c.rng.chance(1, 2) {
            o.max_scans = eo.scans.len().max(1);
        }
        last = Some((e.bytes, "conforming"));
        steps = 2 + c.rng.below(14);
    } else if c.idx % 500 == 3 {
        // a long life
        for _ in 0..3 {
            let (_, _, e) = mutate::conforming(&mut c.rng, 12);
            let k = c.rng.below(e.bytes.len());
            pool.push((e.bytes[..k].to_vec(), "cut"));
            pool.push((e.bytes, "conforming"));
        }
        o.threads = 1;
        steps = 330;
        c.add("long_lives", 1);
    }
    let travels = !cfg!(miri) && c.rng.chance(1, 5);
    let mut d = Decoder::new_with_options(o.build());
    let mut hist: Vec<String> = vec![];
    let mut key = 0;
    for s in 0..steps {
        // sometimes change the options between calls
        #[allow(deprecated)]
        if s > 0 && c.rng.chance(1, 4) {
            match c.rng.below(4) {
                0 => {
                    o.cs = CS[c.rng.below(5)];
                    d.set_output_colorspace(o.cs);
                    hist.push(format!("set {:?}", o.cs));
                }
                1 => {
                    o.cs = RGBA;
                    d.rgba();
                    hist.push("rgba".into());
                }
                2 => {
                    o.maxw = c.rng.range(20, 600) as u16;
                    o.maxh = c.rng.range(20, 600) as u16;
                    d.set_limits(o.maxw, o.maxh);
                    hist.push(format!("limits {}x{}", o.maxw, o.maxh));
                }
                _ => {
                    o.threads = 1 + c.rng.below(6) as u32;
                    if d.set_num_threads(o.threads as usize).is_err() {
                        c.fail("history", "set_num_threads refused a valid number".into(), None);
                        return;
                    }
                    hist.push(format!("threads {}", o.threads));
                }
            }
        }
        let (b, kind) = if s + 1 == steps && last.is_some() {
            last.take().unwrap()
        } else if !pool.is_empty() {
            c.rng.pick(&pool).clone()
        } else if c.rng.chance(3, 5) {
            let (_, _, e) = mutate::conforming(&mut c.rng, 80);
            (e.bytes, "conforming")
        } else if c.rng.chance(1, 3) {
            // valid up to some point
            let (_, _, e) = mutate::conforming(&mut c.rng, 60);
            let k = c.rng.below(e.bytes.len());
            (e.bytes[..k].to_vec(), "cut")
        } else {
            (mutate::hostile(&mut c.rng).0, "hostile")
        };
        let hdr = c.rng.chance(1, 4);
        let mut f = Decoder::new_with_options(o.build());
        let y = if hdr { headers_with(&mut f, &b) } else { decode_with(&mut f, &b) };
        let mut go = || if hdr { headers_with(&mut d, &b) } else { decode_with(&mut d, &b) };
        let x = if travels && c.rng.chance(1, 2) {
            c.add("calls_from_another_thread", 1);
            std::thread::scope(|s| s.spawn(go).join().expect("thread"))
        } else {
            go()
        };
        if hist.len() > 40 {
            hist.remove(0);
        }
        hist.push(format!("{} {kind} -> {}", if hdr { "headers" } else { "decode" }, y.kind()));
        let same = match (&x, &y) {
            (Out::Err(_), Out::Err(_)) | (Out::Panic(_), Out::Panic(_)) => true,
            (a, b) => a == b,
        };
        let meta = |k: &Decoder| (k.width(), k.height(), info_of(k), k.get_output_colorspace());
        if !same || (y.kind() == "ok" && meta(&d) != meta(&f)) {
            c.fail("history", format!("after [{}] ({}): this decoder gives {} {:?}, a fresh one {} {:?}", hist.join(", "), o.text(), x.brief(), meta(&d), y.brief(), meta(&f)), Some(&b));
            return;
        }
        key = mix(key ^ hash_bytes(&b));
        if s > 0 {
            c.eval(key);
        } else {
            c.eval_trivial();
        }
        c.note(&format!("{kind} {}", y.kind()));
    }
    c.sample(|| hist.join(", "));
}

// ------------------------------------------------------------------ C16

/// a file with one fault that no decoder may accept: the file, the fault, whether the headers
/// alone show it, options, the file it was made of
fn refused(c: &mut Ctx) -> Option<(Vec<u8>, String, bool, Opt, String)> {
    tier(2);
    let r = &mut c.rng;
    let gray = r.chance(1, 5);
    let samp = if gray { (1, 1) } else { SAMPS[r.below(4)] };
    let w = r.range(1, 60) as usize;
    let h = r.range(1, 60) as usize;
    let img = gen_image_sized(r, w, h, if gray { 1 } else { 3 }, samp);
    let mut eo = pick_enc(&img, r, 1, 2);
    eo.decoys = false;
    let e = encode(&img, &eo, r);
    let mut b = e.bytes.clone();
    let find = |m: &[u8]| e.segs.iter().find(|s| m.contains(&s.marker)).map(|s| {
        let mut p = s.start;
        while e.bytes[p] == 0xFF {
            p += 1;
        }
        (p, s.end)
    });
    let (sof, sof_end) = find(&[0xC0, 0xC2]).unwrap();
    let (sos, _) = find(&[0xDA]).unwrap();
    let mut opt = Opt::new(CS[r.below(5)]).threads(2);
    opt.maxw = 65535;
    opt.maxh = 65535;
    let n = img.ncomp();
    let mut hdr_too = true; // visible in the headers alone
    // the scans behind the first are read while decoding
    let later = {
        let all: Vec<usize> = e.segs.iter().filter(|s| s.marker == 0xDA).map(|s| (s.start..).find(|&p| e.bytes[p] != 0xFF).unwrap()).collect();
        *r.pick(&all)
    };
    let class: String = match r.below(33) {
        24 => {
            // a segment that ends before its length field does
            let hdr: Vec<_> = e.segs.iter().filter(|s| s.start > 0 && s.end <= e.ecs[0].0).collect();
            let s = r.pick(&hdr);
            let p = (s.start..).find(|&p| e.bytes[p] != 0xFF).unwrap();
            b[p + 1] = 0;
            b[p + 2] = r.below(2) as u8;
            format!("segment FF{:02X} of length {}", s.marker, b[p + 2])
        }
        25 => {
            // restart interval segment of another size
            let k = *r.pick(&[2usize, 3, 5, 6, 10]);
            let mut s = vec![0xFF, 0xDD, 0, k as u8];
            s.resize(k + 2, 0);
            b.splice(sos - 1..sos - 1, s);
            format!("restart interval segment of length {k}")
        }
        26 => {
            // bit positions
            let ns = usize::from(b[later + 3]);
            let p = later + 3 + 1 + 2 * ns + 2;
            hdr_too = later == sos;
            b[p] = if r.chance(1, 2) { *r.pick(&[0x0Eu8, 0x0F, 0x1E, 0xDF]) } else { *r.pick(&[0xE0u8, 0xF0, 0xED, 0xFE]) };
            format!("successive approximation {:02x}", b[p])
        }
        27 if eo.progressive => {
            // spectral selection that makes no sense
            let ns = usize::from(b[later + 3]);
            let p = later + 3 + 1 + 2 * ns;
            let (ss, se) = match r.below(5) {
                0 => (r.range(2, 63) as u8, 1),
                1 => (r.range(1, 63) as u8, r.range(64, 255) as u8),
                2 => (r.range(64, 255) as u8, 63),
                3 => (0, r.range(1, 63) as u8),
                _ => (r.range(1, 63) as u8, 0),
            };
            b[p] = ss;
            b[p + 1] = se;
            hdr_too = false;
            format!("spectral selection {ss}..{se}")
        }
        28 if eo.progressive => {
            // a refinement of bits that are not next
            let ns = usize::from(b[later + 3]);
            let p = later + 3 + 1 + 2 * ns + 2;
            let ah = r.range(1, 13) as u8;
            let al = loop {
                let v = r.range(0, 13) as u8;
                if v + 1 != ah {
                    break v;
                }
            };
            b[p] = ah << 4 | al;
            hdr_too = false;
            format!("refinement from bit {ah} to bit {al}")
        }
        29 if eo.progressive && n == 3 => {
            // coefficients other than DC of several components
            let l = 6 + 2 * 2;
            let (a, z) = (1 + r.below(2) as u8, 3u8);
            let se = r.range(1, 63) as u8;
            let s = vec![0xFF, 0xDA, 0, l, 2, a, 0, z, 0, 1, se, 0];
            b.splice(sos - 1..e.ecs[0].0, s);
            hdr_too = false;
            "interleaved AC scan".into()
        }
        30 => {
            // Huffman segment with bytes to spare, or too few
            let (p, end) = find(&[0xC4]).unwrap();
            let l = u16::from_be_bytes([b[p + 1], b[p + 2]]);
            if r.chance(1, 2) {
                let k = 1 + r.below(16);
                b.splice(end..end, vec![0u8; k]);
                let l = l + k as u16;
                b[p + 1..p + 3].copy_from_slice(&l.to_be_bytes());
                format!("Huffman segment with {k} bytes to spare")
            } else {
                let l = l - 1;
                b.remove(end - 1);
                b[p + 1..p + 3].copy_from_slice(&l.to_be_bytes());
                "Huffman segment one byte short".into()
            }
        }
        31 => {
            let (p, end) = find(&[0xDB]).unwrap();
            let l = u16::from_be_bytes([b[p + 1], b[p + 2]]);
            if r.chance(1, 2) {
                let k = 1 + r.below(64);
                b.splice(end..end, vec![0u8; k]);
                let l = l + k as u16;
                b[p + 1..p + 3].copy_from_slice(&l.to_be_bytes());
                format!("quantisation segment with {k} bytes to spare")
            } else {
                let k = 1 + r.below(64);
                b.drain(end - k..end);
                let l = l - k as u16;
                b[p + 1..p + 3].copy_from_slice(&l.to_be_bytes());
                format!("quantisation segment {k} bytes short")
            }
        }
        32 => {
            // Huffman tables that are no tables
            let (class, bits, vals): (u8, [u8; 16], Vec<u8>) = match r.below(3) {
                0 => {
                    // DC category above 15
                    let mut bits = [0u8; 16];
                    bits[3] = 3;
                    (0, bits, vec![1, *r.pick(&[16u8, 17, 32, 128, 255]), 2])
                }
                1 => {
                    // 257 symbols or more
                    let mut bits = [0u8; 16];
                    bits[9] = 200;
                    bits[10] = 57 + r.below(3) as u8;
                    let n = 200 + usize::from(bits[10]);
                    (1, bits, (0..n).map(|i| i as u8).collect())
                }
                _ => {
                    // codes beyond the last one, at any length
                    let k = 1 + r.below(15);
                    let mut bits = [0u8; 16];
                    let mut room = 2usize;
                    for i in 0..k {
                        if i == k - 1 {
                            bits[i] = (room + r.below(2)).min(250) as u8;
                        } else {
                            let u = room - 1;
                            let u = if u > 3 { 3 } else { u };
                            // leave one code open on each level
                            bits[i] = if room > 1 { u.min(room - 1) as u8 } else { 0 };
                            room = (room - usize::from(bits[i])) * 2;
                        }
                    }
                    if room > 250 {
                        return None;
                    }
                    let n: usize = bits.iter().map(|&x| usize::from(x)).sum();
                    (1, bits, (0..n).map(|i| i as u8).collect())
                }
            };
            let mut body = vec![class << 4 | r.below(4) as u8];
            body.extend_from_slice(&bits);
            body.extend(vals);
            let l = (body.len() + 2) as u16;
            let mut s = vec![0xFF, 0xC4, (l >> 8) as u8, l as u8];
            s.extend(body);
            // anywhere in the headers
            let at = if r.chance(1, 2) { sof - 1 } else { sos - 1 };
            b.splice(at..at, s);
            "impossible Huffman table".into()
        }
        0 => {
            let m = *r.pick(&[0xC1u8, 0xC3, 0xC5, 0xC6, 0xC7, 0xC9, 0xCA, 0xCB, 0xCD, 0xCE, 0xCF]);
            b[sof] = m;
            format!("coding process FF{m:02X}")
        }
        1 => {
            let p = *r.pick(&[0u8, 1, 7, 9, 12, 16, 255]);
            b[sof + 3] = p;
            format!("{p} bit samples")
        }
        2 => {
            let k = r.below(3);
            if k != 1 {
                b[sof + 4] = 0;
                b[sof + 5] = 0;
            }
            if k != 0 {
                b[sof + 6] = 0;
                b[sof + 7] = 0;
            }
            "zero size".into()
        }
        3 => {
            // 2 or 4 components
            let k = *r.pick(&[0u8, 2, 4, 5, 255]);
            let mut body = b[sof + 3..sof + 9].to_vec();
            body[5] = k;
            for i in 0..k {
                body.extend_from_slice(&[if r.chance(1, 2) { i + 1 } else { i % 3 + 1 }, 0x11, e.bytes[sof + 11]]);
            }
            let l = (body.len() + 2) as u16;
            let mut s = vec![e.bytes[sof], (l >> 8) as u8, l as u8];
            s.extend(body);
            b.splice(sof..sof_end, s);
            format!("{k} components")
        }
        4 => {
            let k = r.below(n);
            let f = loop {
                let f = *r.pick(&[0x00u8, 0x01, 0x10, 0x13, 0x31, 0x33, 0x41, 0x14, 0x44, 0x24, 0x42, 0x88, 0x18, 0x81, 0x50]);
                // a power of two is fine for a lone component as long as it is known
                if !(gray && f == 0x11) {
                    break f;
                }
            };
            b[sof + 10 + 3 * k] = f;
            hdr_too = false;
            format!("sampling {f:02x} for component {k}")
        }
        5 if n == 3 => {
            // chroma sampled more finely than luma
            let k = 1 + r.below(2);
            let y = b[sof + 10];
            let f = *r.pick(&[0x12u8, 0x21, 0x22]);
            if r.chance(1, 2) {
                b[sof + 10] = 0x11;
            }
            b[sof + 10 + 3 * k] = f;
            hdr_too = false;
            format!("chroma sampling {f:02x}, luma {y:02x}")
        }
        6 => {
            // component ids
            let k = r.below(n);
            let old = b[sof + 9 + 3 * k];
            let new = loop {
                let v = *r.pick(&[0u8, 1, 2, 3, 4, 82, 255]);
                if v != old {
                    break v;
                }
            };
            b[sof + 9 + 3 * k] = new;
            format!("component id {new} for {old}")
        }
        7 => {
            // a quantisation table that was never defined
            let used: Vec<usize> = img.comps.iter().map(|c| c.tq).collect();
            let k = r.below(n);
            let v = loop {
                let v = r.below(7);
                if !used.contains(&v) {
                    break v;
                }
            };
            b[sof + 11 + 3 * k] = v as u8;
            format!("quantisation table {v} missing")
        }
        8 => {
            let d = *r.pick(&[-3i32, -1, 1, 3]);
            let l = i32::from(b[sof + 1]) << 8 | i32::from(b[sof + 2]);
            let l = l + d;
            b[sof + 1] = (l >> 8) as u8;
            b[sof + 2] = l as u8;
            format!("frame header length off by {d}")
        }
        9 => {
            // not a JPEG
            let k = r.below(2);
            let v = loop {
                let v = r.byte();
                if v != b[k] {
                    break v;
                }
            };
            b[k] = v;
            "wrong magic".into()
        }
        10 => {
            // 16 bit or bogus quantisation table
            let (p, _) = find(&[0xDB]).unwrap();
            let v = *r.pick(&[0x10u8, 0x20, 0x80, 0xF0]);
            b[p + 3] = (b[p + 3] & 15) | v;
            format!("quantisation table precision {v:02x}")
        }
        11 => {
            let (p, _) = find(&[0xDB]).unwrap();
            b[p + 3] = *r.pick(&[4u8, 5, 9, 15]);
            "quantisation table number".into()
        }
        12 => {
            let (p, _) = find(&[0xC4]).unwrap();
            b[p + 3] = *r.pick(&[0x04u8, 0x14, 0x0F, 0x20, 0x30, 0x2F, 0xF0]);
            "Huffman table class or number".into()
        }
        13 => {
            // code lengths that cannot be a prefix code: too many short codes
            let (p, end) = find(&[0xC4]).unwrap();
            let k = 1 + r.below(4); // length
            let total: usize = (0..16).map(|i| usize::from(b[p + 4 + i])).sum();
            let want = (1usize << k) + r.below(3);
            if total < want {
                // extend the segment with a table of its own
                let mut body = vec![b[p + 3]];
                let mut bits = [0u8; 16];
                bits[k - 1] = want as u8;
                body.extend_from_slice(&bits);
                body.extend((0..want).map(|i| (i % 12) as u8));
                let l = (body.len() + 2) as u16;
                let mut s = vec![0xFF, 0xC4, (l >> 8) as u8, l as u8];
                s.extend(body);
                b.splice(end..end, s);
            } else {
                for i in 0..16 {
                    b[p + 4 + i] = 0;
                }
                b[p + 4 + k - 1] = want as u8;
                b[p + 4 + 15] = (total - want).min(255) as u8;
            }
            "oversubscribed Huffman table".into()
        }
        14 => {
            // more symbols than the segment holds
            let (p, _) = find(&[0xC4]).unwrap();
            for i in 0..16 {
                b[p + 4 + i] = if i > 7 { 200 } else { 0 };
            }
            "Huffman table larger than its segment".into()
        }
        15 => {
            // scan names a component that does not exist
            let v = *r.pick(&[0u8, 4, 5, 77, 255]);
            hdr_too = later == sos;
            b[later + 4] = v;
            format!("scan of component {v}")
        }
        16 => {
            hdr_too = later == sos;
            let sos = later;
            let ns = b[sos + 3];
            let k = loop {
                let k = *r.pick(&[0u8, 1, 2, 3, 4, 5, 200]);
                if k != ns {
                    break k;
                }
            };
            b[sos + 3] = k;
            format!("scan header says {k} components, holds {ns}")
        }
        17 if n == 3 && b[sos + 3] >= 2 => {
            b[sos + 6] = b[sos + 4];
            "component twice in a scan".into()
        }
        18 => {
            // one component of a scan uses a Huffman table that was never defined
            let ns = usize::from(b[later + 3]);
            let k = r.below(ns);
            let p = later + 5 + 2 * k;
            let q = later + 4 + 2 * ns;
            let (ss, ah) = (b[q], b[q + 2] >> 4);
            let ac = if eo.progressive { ss > 0 } else { r.chance(1, 2) };
            if eo.progressive && ss == 0 && ah > 0 {
                return None; // needs none
            }
            let used = if ac { &eo.acs } else { &eo.dcs };
            let free: Vec<u8> = (0..if r.chance(1, 3) { 16u8 } else { 4 }).filter(|v| !used.contains(v)).collect();
            if free.is_empty() {
                return None;
            }
            let v = *r.pick(&free);
            hdr_too = false;
            b[p] = if ac { b[p] & 0xF0 | v } else { b[p] & 15 | v << 4 };
            format!("Huffman table {v} missing for component {k} of a scan, ac {ac}")
        }
        19 if !eo.progressive && n == 3 => {
            // baseline in one scan per component
            let k = r.below(3) as u8;
            let l = 8u16;
            let s = vec![0xDA, (l >> 8) as u8, l as u8, 1, k + 1, e.bytes[sos + 5], 0, 63, 0];
            b.splice(sos..sos + 1 + 12, s);
            format!("baseline scan of component {} only", k + 1)
        }
        20 => {
            // a second frame header
            let s = e.bytes[sof - 1..sof_end].to_vec();
            b.splice(sof_end..sof_end, s);
            "two frame headers".into()
        }
        21 => {
            // no frame header / picture before it
            if r.chance(1, 2) {
                b.drain(sof - 1..sof_end);
                "no frame header".into()
            } else {
                b.splice(sof - 1..sof - 1, [0xFF, 0xD9]);
                "ends before the frame header".into()
            }
        }
        22 => {
            let m = *r.pick(&[0xCCu8, 0xDC]);
            b.splice(sos - 1..sos - 1, [0xFF, m, 0, 4, 0, 1]);
            format!("marker FF{m:02X}")
        }
        _ => {
            opt.cs = *r.pick(&[CMYK, YCCK]);
            if n == 1 {
                return None;
            }
            hdr_too = false;
            format!("{:?} requested", opt.cs)
        }
    };
    Some((b, class, hdr_too, opt, desc(&img, &eo)))
}

fn c16_reject(c: &mut Ctx) {
    let Some((b, class, hdr_too, opt, what)) = refused(c) else { return };
    let x = decode(&b, &opt);
    if x.kind() != "err" {
        c.fail("accepted", format!("{class} ({}): {}", what, x.brief()), Some(&b));
        return;
    }
    if hdr_too {
        let y = headers_with(&mut Decoder::new_with_options(opt.build()), &b);
        if y.kind() != "err" {
            c.fail("accepted-headers", format!("{class} ({}): read_headers gave {}", what, y.brief()), Some(&b));
            return;
        }
    }
    c.note(&class);
    c.eval(hash_bytes(&b));
    c.sample(|| format!("{class} in {} -> {}", what, x.brief()));
}

// ------------------------------------------------------------------ C17

fn c17_strict(c: &mut Ctx) {
    tier(2);
    let mode = c.rng.below(3);
    let mut must_reject = None;
    let mut must_accept = false;
    let (b, kind);
    match mode {
        0 => {
            let (img, _, e) = mutate::conforming(&mut c.rng, 100);
            b = e.bytes;
            kind = "conforming";
            // sampling factors on a lone component are what strict mode calls suspicious
            must_accept = !(img.ncomp() == 1 && (img.hmax, img.vmax) != (1, 1));
            if !must_accept {
                must_reject = Some("sampled grayscale");
            }
        }
        1 => {
            // junk between segments
            let (_, _, e) = mutate::conforming(&mut c.rng, 100);
            let hdr: Vec<_> = e.segs.iter().filter(|s| s.start > 0 && s.start < e.ecs[0].0).collect();
            let p = c.rng.pick(&hdr).start;
            let k = 4 + c.rng.below(40);
            let junk: Vec<u8> = (0..k).map(|_| c.rng.below(255) as u8).collect();
            let mut v = e.bytes.clone();
            v.splice(p..p, junk);
            b = v;
            kind = "junk between segments";
            must_reject = Some("junk between segments");
        }
        _ => {
            b = mutate::hostile(&mut c.rng).0;
            kind = "hostile";
        }
    }
    let mut o = Opt::new(CS[c.rng.below(5)]).threads(thr(&mut c.rng));
    o.maxw = 600;
    o.maxh = 600;
    o.max_scans = 200;
    let lax = decode_full(&b, &o);
    let st = decode_full(&b, &o.strict());
    if let (Out::Ok(v), x) = (&st.out, &lax.out) {
        if x.ok() != Some(v) || (st.w, st.h, &st.info, st.cs) != (lax.w, lax.h, &lax.info, lax.cs) {
            c.fail("strict-differs", format!("{kind}, {}: strict mode gives {}, normal mode {}", o.text(), st.out.brief(), x.brief()), Some(&b));
            return;
        }
    }
    if must_accept && (st.out.kind() != "ok" || lax.out.kind() != "ok") {
        c.fail("strict-refuses", format!("{kind}, {}: strict {}, normal {}", o.text(), st.out.brief(), lax.out.brief()), Some(&b));
        return;
    }
    if let Some(w) = must_reject {
        if st.out.kind() != "err" {
            c.fail("strict-accepts", format!("{w}, {}: strict mode gives {}", o.text(), st.out.brief()), Some(&b));
            return;
        }
        if lax.out.kind() != "ok" {
            c.fail("lenient-refuses", format!("{w}, {}: normal mode gives {}", o.text(), lax.out.brief()), Some(&b));
            return;
        }
    }
    c.note(&format!("{kind}: strict {} normal {}", st.out.kind(), lax.out.kind()));
    if lax.out.kind() == "ok" {
        c.eval(hash_bytes(&b));
    } else {
        c.eval_trivial();
    }
    c.sample(|| format!("{kind} {} bytes", b.len()));
}

// ------------------------------------------------------------------ C18

extern "C" {
    fn mkfifo(path: *const std::ffi::c_char, mode: u32) -> i32;
    fn fcntl(fd: i32, cmd: i32, ...) -> i32;
    fn setfsuid(uid: u32) -> i32;
}
fn fds() -> usize {
    std::fs::read_dir("/proc/self/fd").map_or(0, Iterator::count)
}

fn c18_file(c: &mut Ctx) {
    tier(2);
    let (mut b, mut kind) = input(c, 1, 2);
    let mut o = any_opt(&mut c.rng);
    o.cs = CS[c.rng.below(5)];
    o.max_scans = 200;
    use std::ffi::OsString;
    use std::os::unix::ffi::OsStringExt;
    let name: OsString = match c.rng.below(14) {
        0 => "a b'c\"d.jpg".into(),
        1 => "ünïcødé-图.jpeg".into(),
        2 => "noext".into(),
        3 => "x".repeat(200).into(),
        4 => OsString::from_vec(b"not\xff\xfeutf8\x80.jpg".to_vec()),
        5 => " lead and trail ".into(),
        6 => "trail.jpg \n".into(),
        7 => "tab\t\nnewline".into(),
        8 => "%41%00$HOME~*?[x].jpg".into(),
        9 => "-".into(),
        10 => "a\\b:c|d.JPG".into(),
        11 => ".hidden".into(),
        _ => "plain.jpg".into(),
    };
    let utf8 = name.to_str().is_some();
    if c.rng.chance(1, 80) {
        // beyond any buffer
        let w = c.rng.range(300, 900) as usize;
        let mut img = gen_image_sized(&mut c.rng, w, 400, 3, (1, 1));
        fill(&mut img, Content::Noise, &mut c.rng);
        let mut eo = gen_baseline(&img, &mut c.rng);
        if c.rng.chance(1, 2) {
            eo.trailing = c.rng.below(200_000);
        }
        b = encode(&img, &eo, &mut c.rng).bytes;
        o.maxw = 1000;
        o.maxh = 1000;
        kind = "large";
    } else if c.rng.chance(1, 100) {
        let n = *c.rng.pick(&[4096usize, 8192, 65536, 65537, 131_072, 1 << 20]);
        if n > b.len() {
            b.resize(n - c.rng.below(2), 0xA5);
        }
    }
    let dir = c.scratch.clone();
    let path = dir.join(&name);
    std::fs::write(&path, &b).expect("scratch");
    let before = std::fs::metadata(&path).and_then(|m| m.modified()).ok();
    let mem = decode_full(&b, &o);
    let nf = fds();
    let mut d = Decoder::new_with_options(o.build());
    let call = |d: &mut Decoder, k: usize, p: &std::path::Path| {
        let r = guarded(|| {
            let r = match k {
                0 => d.decode_file(p),
                1 => d.decode_file(p.to_path_buf()),
                2 => d.decode_file(p.as_os_str()),
                3 => d.decode_file(p.as_os_str().to_os_string()),
                4 => d.decode_file(Box::<std::path::Path>::from(p)),
                5 => d.decode_file(p.to_str().unwrap().to_string()),
                _ => d.decode_file(p.to_str().unwrap()),
            };
            r.map_err(|e| format!("{e:?}"))
        });
        match r {
            Ok(Ok(v)) => Out::Ok(v),
            Ok(Err(e)) => Out::Err(e),
            Err(p) => Out::Panic(p),
        }
    };
    let mut via = path.clone();
    let k = c.rng.below(if utf8 { 7 } else { 5 });
    let mut feeder = None;
    let mut keep = None;
    let mut back = None;
    let how = match c.rng.below(12) {
        0 | 1 => {
            via = dir.join("link");
            let _ = std::fs::remove_file(&via);
            std::os::unix::fs::symlink(&path, &via).expect("scratch");
            "symbolic link"
        }
        2 => {
            via = dir.join("hard");
            let _ = std::fs::remove_file(&via);
            std::fs::hard_link(&path, &via).expect("scratch");
            "hard link"
        }
        3 => {
            // a pipe: its size is not known beforehand
            via = dir.join("fifo");
            let _ = std::fs::remove_file(&via);
            let cp = std::ffi::CString::new(via.to_str().unwrap()).unwrap();
            if unsafe { mkfifo(cp.as_ptr(), 0o600) } == 0 {
                let (p, v, cut) = (via.clone(), b.clone(), c.rng.below(b.len().max(1)));
                feeder = Some(std::thread::spawn(move || {
                    use std::io::Write;
                    // non-blocking open until a reader is there, so that nobody waits for ever
                    use std::os::unix::fs::OpenOptionsExt;
                    let t0 = std::time::Instant::now();
                    while t0.elapsed().as_secs() < 10 {
                        if let Ok(mut f) = std::fs::OpenOptions::new().write(true).custom_flags(0o4000).open(&p) {
                            let fd = std::os::unix::io::AsRawFd::as_raw_fd(&f);
                            unsafe { fcntl(fd, 4, 0) };
                            let _ = f.write_all(&v[..cut]);
                            std::thread::sleep(std::time::Duration::from_millis(1));
                            let _ = f.write_all(&v[cut..]);
                            return true;
                        }
                        std::thread::sleep(std::time::Duration::from_micros(200));
                    }
                    false
                }));
                "pipe"
            } else {
                via = path.clone();
                "plain"
            }
        }
        4 => {
            // an open descriptor, as in /dev/stdin
            let f = std::fs::File::open(&path).expect("scratch");
            via = format!("/proc/self/fd/{}", std::os::unix::io::AsRawFd::as_raw_fd(&f)).into();
            keep = Some(f);
            "descriptor"
        }
        5 => {
            let _ = std::fs::create_dir_all(dir.join("sub"));
            via = dir.join("sub").join("..").join(".").join(&name);
            "dotted path"
        }
        6 => {
            back = std::env::current_dir().ok();
            std::env::set_current_dir(&dir).expect("scratch");
            via = std::path::PathBuf::from(&name);
            "relative path"
        }
        _ => "plain",
    };
    let piped = feeder.is_some();
    let f = call(&mut d, k, &via);
    if let Some(h) = feeder {
        // if nobody reads, let the feeder go
        let fed = h.join().unwrap_or(false);
        let _ = std::fs::remove_file(&via);
        if !fed {
            c.fail("pipe", format!("{kind}: decode_file of a pipe returned {} without reading it", f.brief()), Some(&b));
            return;
        }
    }
    let _ = (piped, keep.take());
    if let Some(p) = back {
        let _ = std::env::set_current_dir(p);
    }
    c.note(how);
    let same = match (&f, &mem.out) {
        (Out::Err(a), Out::Err(b)) => a == b,
        (a, b) => a == b,
    };
    if !same || f.kind() == "panic" || (d.width(), d.height(), info_of(&d), d.get_output_colorspace()) != (mem.w, mem.h, mem.info.clone(), mem.cs) {
        c.fail("file", format!("{kind}, {how} {name:?}, {}: from a file {}, from memory {}", o.text(), f.brief(), mem.out.brief()), Some(&b));
        return;
    }
    let after = std::fs::metadata(&path).and_then(|m| m.modified()).ok();
    let now = std::fs::read(&path).unwrap_or_default();
    if now != b || before != after {
        c.fail("file-changed", format!("{kind}: decoding changed the file"), Some(&b));
        return;
    }
    c.eval(hash_bytes(&b));
    if c.rng.chance(1, 4) && b.len() > 4 {
        // other content of the same length under the same name
        let mut b2 = b.clone();
        for _ in 0..1 + c.rng.below(3) {
            let k = b2.len() / 2 + c.rng.below(b2.len() - b2.len() / 2);
            b2[k] ^= 1 << c.rng.below(8);
        }
        std::fs::write(&path, &b2).expect("scratch");
        if let (true, Some(t)) = (c.rng.chance(1, 2), before) {
            let _ = std::fs::File::options().write(true).open(&path).and_then(|f| f.set_modified(t));
        }
        let mem = decode(&b2, &o);
        let f = call(&mut d, k, &path);
        let g = call(&mut Decoder::new_with_options(o.build()), k, &path);
        if f.kind() != mem.kind() || f.ok() != mem.ok() || g != mem {
            c.fail("file", format!("{kind}, the file was rewritten: from memory {}, by the same decoder {}, by a new one {}", mem.brief(), f.brief(), g.brief()), Some(&b2));
            return;
        }
        std::fs::write(&path, &b).expect("scratch");
        c.add("rewritten_files", 1);
    }
    // what cannot be read is an error
    let missing = dir.join("no/such/file.jpg");
    let empty = dir.join("empty.jpg");
    std::fs::write(&empty, b"").expect("scratch");
    let dangling = dir.join("dangling");
    let _ = std::os::unix::fs::symlink(dir.join("nowhere"), &dangling);
    let below_file = path.join("x.jpg");
    let mut long = dir.clone();
    long.push("y".repeat(300));
    let loop_ = dir.join("loop");
    let _ = std::os::unix::fs::symlink(&loop_, &loop_);
    for p in [
        missing.as_path(),
        dir.as_path(),
        empty.as_path(),
        dangling.as_path(),
        below_file.as_path(),
        long.as_path(),
        loop_.as_path(),
        std::path::Path::new("/dev/null"),
        std::path::Path::new(""),
        std::path::Path::new("nul\0byte.jpg"),
    ] {
        let k = if p.to_str().is_some() { k } else { 0 };
        let r = call(&mut d, k, p);
        if r.kind() != "err" {
            c.fail("bad-path", format!("{}: {}", p.display(), r.brief()), None);
            return;
        }
        c.note("unreadable path");
        c.evaluations += 1;
    }
    // and the decoder is still good
    let g = call(&mut d, k, &path);
    if g.kind() != mem.out.kind() || (g.ok().is_some() && g != mem.out) {
        c.fail("file-after-error", format!("{kind}: after unreadable files {}, expected {}", g.brief(), mem.out.brief()), Some(&b));
        return;
    }
    // permissions, as an ordinary user meets them (file system user id of this thread only)
    if c.rng.chance(1, 4) {
        use std::os::unix::fs::PermissionsExt;
        let mode = *c.rng.pick(&[0o444u32, 0o400, 0o000, 0o222, 0o004, 0o555]);
        let _ = std::fs::set_permissions(&path, std::fs::Permissions::from_mode(mode));
        let (readable, h) = unsafe {
            setfsuid(65534);
            let ok = std::fs::File::open(&path).is_ok();
            let h = call(&mut d, k, &path);
            setfsuid(0);
            (ok, h)
        };
        let _ = std::fs::set_permissions(&path, std::fs::Permissions::from_mode(0o644));
        let good = if readable { h.kind() == mem.out.kind() && (h.ok().is_none() || h == mem.out) } else { h.kind() == "err" };
        c.note(if readable { "read-only file" } else { "forbidden file" });
        if !good {
            c.fail("permissions", format!("{kind}: a file of mode {mode:o} the user can{} read gave {}, in memory {}", if readable { "" } else { "not" }, h.brief(), mem.out.brief()), Some(&b));
            return;
        }
        c.evaluations += 1;
    }
    // a file that may be read but not opened for writing by anybody: the running program
    if c.rng.chance(1, 200) {
        let p = std::path::Path::new("/proc/self/exe");
        let head = std::fs::read(p).unwrap_or_default();
        let (x, y) = (call(&mut d, 0, p), decode(&head, &o));
        if !head.is_empty() && x != y {
            c.fail("permissions", format!("the running program as a file: {}, in memory: {}", x.brief(), y.brief()), None);
            return;
        }
    }
    if fds() > nf {
        c.fail("fd-leak", format!("{kind}: {} file descriptors before, {} after", nf, fds()), Some(&b));
        return;
    }
    let _ = std::fs::remove_file(&path);
    c.note(&format!("{kind} {}", mem.out.kind()));
    c.sample(|| format!("{kind} {} bytes as {name:?}", b.len()));
}

// ------------------------------------------------------------------ C19

fn c19_options(c: &mut Ctx) {
    use std::num::NonZeroU32;
    use zune_jpeg::ZuneJpegOptions;
    tier(2);
    // setters in any order; each sets its own value and nothing else
    let mut o = if c.idx % 2 == 0 { ZuneJpegOptions::new() } else { ZuneJpegOptions::default() };
    let mut m = (true, RGB, 4u32, 16384u16, 16384u16, 64usize, false);
    let snap = |o: &ZuneJpegOptions| (o.get_use_unsafe(), o.get_out_colorspace(), o.get_threads(), o.get_max_width(), o.get_max_height(), o.get_max_scans(), o.get_strict_mode());
    let mut trail = vec![];
    for _ in 0..c.rng.below(12) + 1 {
        if snap(&o) != m {
            c.fail("options", format!("after {trail:?}: options read {:?}, expected {m:?}", snap(&o)), None);
            return;
        }
        let k = c.rng.below(7);
        let mut v = c.rng.next();
        if c.rng.chance(1, 3) {
            // the ends of the ranges
            v = *c.rng.pick(&[0u64, 1, 2, 63, 64, 65, 127, 128, 255, 256, 1 << 14, (1 << 14) + 1, 0x7FFF, 0x8000, 0xFFFE, 0xFFFF, 0x1_0000, 0x7FFF_FFFF, 0xFFFF_FFFF, 1 << 32, u64::MAX - 1, u64::MAX]);
        }
        match k {
            0 => {
                m.0 = v & 1 == 1;
                o = o.set_use_unsafe(m.0);
            }
            1 => {
                m.1 = [RGB, RGBA, RGBX, YCbCr, GRAYSCALE, CMYK, YCCK][(v % 7) as usize];
                o = o.set_out_colorspace(m.1);
            }
            2 => {
                m.2 = if v & 1 == 1 { 1 + (v >> 8) as u32 % 64 } else { v as u32 | 1 };
                if c.rng.chance(1, 4) {
                    m.2 = *c.rng.pick(&[1u32, 2, 4, 8, 16, 255, 256, 257, 65535, 65536, i32::MAX as u32, u32::MAX]);
                }
                o = o.set_num_threads(NonZeroU32::new(m.2).unwrap());
            }
            3 => {
                m.3 = v as u16;
                o = o.set_max_width(m.3);
            }
            4 => {
                m.4 = v as u16;
                o = o.set_max_height(m.4);
            }
            5 => {
                m.5 = v as usize;
                o = o.set_max_scans(m.5);
            }
            _ => {
                m.6 = v & 1 == 1;
                o = o.set_strict_mode(m.6);
            }
        }
        trail.push(k);
        c.evaluations += 1;
    }
    if snap(&o) != m {
        c.fail("options", format!("after {trail:?}: options read {:?}, expected {m:?}", snap(&o)), None);
        return;
    }
    c.distinct.insert(mix(trail.iter().fold(1u64, |a, &k| a * 7 + k as u64)));
    let d = Decoder::new_with_options(o);
    if d.get_output_colorspace() != m.1 || d.info().is_some() || d.width() != 0 || d.height() != 0 {
        c.fail("options", "a new decoder does not start from its options".into(), None);
        return;
    }
    // effects: deprecated setters equal options, defaults equal explicit defaults
    let (img, eo, e) = mutate::conforming(&mut c.rng, 60);
    let b = &e.bytes;
    let cs = CS[c.rng.below(5)];
    let th = 1 + c.rng.below(6);
    let base = decode(b, &Opt { max_scans: 64, ..Opt::new(cs).threads(th as u32) });
    #[allow(deprecated)]
    let (x, bad) = {
        let mut d = Decoder::new();
        let mut bad = vec![];
        if d.set_num_threads(0).is_ok() {
            bad.push("set_num_threads(0) accepted");
        }
        match guarded(|| d.set_num_threads(th).map_err(|e| format!("{e:?}"))) {
            Ok(Ok(())) => {}
            _ => bad.push("set_num_threads refused a valid number"),
        }
        // any number that fits the option is fine, and decoding works with it
        let many = *c.rng.pick(&[255usize, 256, 257, 65535, 65536, 65537, 1 << 31, u32::MAX as usize]);
        if Decoder::new().set_num_threads(many).is_err() {
            bad.push("set_num_threads refused a large number");
        }
        if guarded(|| Ok(Decoder::new().set_num_threads(usize::MAX).is_ok())).is_err() || guarded(|| Ok(Decoder::new().set_num_threads(1 << 32).is_ok())).is_err() {
            bad.push("set_num_threads panicked");
        }
        if cs == RGBA && c.rng.chance(1, 2) {
            d.rgba();
        } else {
            d.set_output_colorspace(cs);
        }
        if d.get_output_colorspace() != cs {
            bad.push("colourspace setter");
        }
        (decode_with(&mut d, b), bad)
    };
    if !bad.is_empty() {
        c.fail("setters", bad.join(", "), None);
        return;
    }
    if masked(cs, x.clone()) != masked(cs, base.clone()) {
        c.fail("setters", format!("{}: options give {}, setters {}", desc(&img, &eo), base.brief(), x.brief()), Some(b));
        return;
    }
    let p = decode_with(&mut Decoder::new(), b);
    let q = decode(b, &Opt { max_scans: 64, ..Opt::new(RGB) });
    if masked(RGB, p.clone()) != masked(RGB, q.clone()) {
        c.fail("defaults", format!("{}: Decoder::new() gives {}, documented defaults {}", desc(&img, &eo), p.brief(), q.brief()), Some(b));
        return;
    }
    // and with the same number of workers
    #[cfg(not(feature = "plain_alloc"))]
    if c.rng.chance(1, 3) {
        use crate::threads::CREATED;
        use std::sync::atomic::Ordering::SeqCst;
        let th = if c.rng.chance(1, 4) { 4 } else { 1 + c.rng.below(20) };
        let count = |f: &mut dyn FnMut() -> Out| {
            let n = CREATED.load(SeqCst);
            f();
            CREATED.load(SeqCst) - n
        };
        let mut pairs: Vec<(usize, usize)> = vec![];
        while pairs.len() < 2 || (pairs.len() < 6 && pairs.iter().all(|p| p == &pairs[0] && p.0 != p.1)) {
            let a = count(&mut || decode(b, &Opt { max_scans: 64, ..Opt::new(RGB).threads(th as u32) }));
            #[allow(deprecated)]
            let z = count(&mut || {
                let mut d = Decoder::new();
                if th != 4 || pairs.len() % 2 == 1 {
                    let _ = d.set_num_threads(th);
                }
                decode_with(&mut d, b)
            });
            pairs.push((a, z));
        }
        c.add("threads_counted", pairs[0].0 as u64);
        if pairs.len() == 6 && pairs.iter().all(|p| p == &pairs[0]) {
            c.fail("setters", format!("{}: with {th} threads by option {} workers are started, by the setter of the decoder (or its default) {}", desc(&img, &eo), pairs[0].0, pairs[0].1), Some(b));
            return;
        }
    }
    c.evaluations += 2;
    c.note(&format!("{cs:?} {}", base.kind()));
    c.sample(|| format!("setters {trail:?}, {}", desc(&img, &eo)));
}

// ------------------------------------------------------------------ C20

fn c20_logging(c: &mut Ctx) {
    let (b, kind) = input(c, 2, 5);
    let mut o = any_opt(&mut c.rng);
    let t = pick_tier(&mut c.rng, &mut o);
    let hdr = c.rng.chance(1, 5);
    let run = || {
        let mut d = Decoder::new_with_options(o.build());
        let r = if hdr { headers_with(&mut d, &b) } else { decode_with(&mut d, &b) };
        (r, d.width(), d.height(), info_of(&d), d.get_output_colorspace())
    };
    log_level(0);
    let quiet = run();
    // the logger decodes, too
    let again = c.idx % 48 == 5;
    REENTER.get_or_init(|| {
        let mut r = Rng::new(9, "within", 0);
        let img = gen_image_sized(&mut r, 20, 18, 3, (2, 2));
        let e = encode(&img, &EncOpts::plain(&img), &mut r);
        let v = Decoder::new().decode_buffer(&e.bytes).unwrap_or_default();
        (e.bytes, v)
    });
    REENTERING.store(again, Relaxed);
    for k in [1 + c.rng.below(4), 5] {
        log_level(k);
        let n0 = LOGGED.load(Relaxed);
        let loud = run();
        log_level(0);
        let said = LOGGED.load(Relaxed) - n0;
        c.add("messages", said);
        c.add("decodes by the logger", REENTERED.swap(0, Relaxed));
        if WRONG.swap(0, Relaxed) > 0 {
            c.fail("logging", format!("{kind} input, {}, {t}: a decode made by the logger went wrong", o.text()), Some(&b));
            return;
        }
        let same = match (&loud.0, &quiet.0) {
            (Out::Panic(_), Out::Panic(_)) => true,
            (a, b) => a == b,
        };
        if !same || (loud.1, loud.2, &loud.3, loud.4) != (quiet.1, quiet.2, &quiet.3, quiet.4) {
            c.fail("logging", format!("{kind} input, {}, {t}: without logging {}, at level {:?} {}", o.text(), quiet.0.brief(), LEVELS[k], loud.0.brief()), Some(&b));
            return;
        }
        if said > 0 {
            c.eval(hash_bytes(&b) ^ k as u64);
        } else {
            c.eval_trivial();
        }
        c.note(&format!("{kind} {:?} {}", LEVELS[k], loud.0.kind()));
    }
    REENTERING.store(false, Relaxed);
    c.sample(|| format!("{kind} {} bytes {}", b.len(), o.text()));
}

// ------------------------------------------------------------------ C21

/// processor time used by the whole process, in milliseconds
fn cpu_ms() -> f64 {
    let mut t: libc::timespec = unsafe { std::mem::zeroed() };
    unsafe { libc::clock_gettime(libc::CLOCK_PROCESS_CPUTIME_ID, &mut t) };
    t.tv_sec as f64 * 1e3 + t.tv_nsec as f64 / 1e6
}

/// about n bytes of small things that may stand between segments
fn flood(r: &mut Rng, n: usize) -> (Vec<u8>, &'static str) {
    let mut o = Vec::with_capacity(n + 300);
    let k = r.below(11);
    let kind = ["comments", "application segments", "restart intervals", "empty Huffman tables", "Huffman tables", "quantisation tables", "long segments", "fill bytes", "stray bytes", "unknown segments", "a mixture"][k];
    let many = r.chance(2, 3);
    let small = |o: &mut Vec<u8>, k: usize, r: &mut Rng| match k {
        0 if r.chance(1, 2) => o.extend_from_slice(&[0xFF, 0xFE, 0, 2]),
        0 => o.extend_from_slice(&[0xFF, 0xFE, 0, 5, r.byte(), r.byte(), r.byte()]),
        1 => o.extend_from_slice(&[0xFF, 0xE0 + r.below(16) as u8, 0, 3, r.byte()]),
        2 => o.extend_from_slice(&[0xFF, 0xDD, 0, 4, 0, r.byte()]),
        3 => {
            o.extend_from_slice(&[0xFF, 0xC4, 0, 19, (r.below(2) << 4 | r.below(4)) as u8]);
            o.extend_from_slice(&[0; 16]);
        }
        // all different
        4 if many => {
            let at = o.len() + 5 + r.range(3, 15) as usize;
            o.extend_from_slice(&[0xFF, 0xC4, 0, 22, 0x10 | r.below(4) as u8]);
            o.extend_from_slice(&[0; 16]);
            o[at] = 3;
            o.extend_from_slice(&[r.byte(), r.byte(), r.byte()]);
        }
        4 => {
            let c = r.chance(1, 2);
            let h = std_ac(c);
            o.extend_from_slice(&[0xFF, 0xC4]);
            o.extend_from_slice(&((19 + h.vals.len()) as u16).to_be_bytes());
            o.push(0x10 | u8::from(c));
            o.extend_from_slice(&h.bits[1..]);
            o.extend_from_slice(&h.vals);
        }
        5 => {
            o.extend_from_slice(&[0xFF, 0xDB, 0, 67, r.below(4) as u8]);
            let q = r.byte() | 1;
            o.extend_from_slice(&[q; 64]);
        }
        6 => {
            o.extend_from_slice(&[0xFF, 0xE1, 0xFF, 0xFF]);
            let l = o.len();
            o.resize(l + 65533, 0xFF);
        }
        7 => o.extend_from_slice(&[0xFF; 16]),
        8 => o.extend_from_slice(&[r.byte() & 0x7F, 0, 0x55, 0xD9]),
        _ => o.extend_from_slice(&[0xFF, *r.pick(&[0x02u8, 0xBF, 0xF0, 0xFD, 0x01]), 0, 2]),
    };
    while o.len() < n {
        let k = if k == 10 { r.below(8) } else { k };
        small(&mut o, k, r);
    }
    (o, kind)
}

/// declare another size, up to four million pixels
fn enlarge(b: &mut [u8], r: &mut Rng) {
    if let Some(p) = b.windows(2).position(|w| w == [0xFF, 0xC0] || w == [0xFF, 0xC2]) {
        let d = 1i64 << r.range(5, 22);
        let w = r.range(1, d.min(16384));
        let h = (d / w).clamp(1, 16384);
        let (v, u) = ((w as u16).to_be_bytes(), (h as u16).to_be_bytes());
        if p + 8 < b.len() {
            b[p + 5..p + 9].copy_from_slice(&[v[0], v[1], u[0], u[1]]);
        }
    }
}

/// restart intervals announced, now and then, whether there are any or not
fn announce(b: &mut Vec<u8>, r: &mut Rng) {
    let i = (1 + r.below(3)) as u8;
    if let (true, Some(p)) = (r.chance(1, 2), b.windows(2).position(|w| w == [0xFF, 0xDA])) {
        b.splice(p..p, [0xFF, 0xDD, 0, 4, 0, i]);
    }
}

fn c21_cost(c: &mut Ctx) {
    tier(2);
    let n = 1usize << c.rng.below(23);
    let n = n + c.rng.below(n);
    let mut o = any_opt(&mut c.rng);
    o.threads = *c.rng.pick(&[1u32, 2, 4, 4, 8]);
    (o.maxw, o.maxh) = (1 << 14, 1 << 14);
    if c.rng.chance(1, 2) {
        o.strict = false;
    }
    let (b, kind): (Vec<u8>, String) = match c.rng.below(12) {
        // in front of a segment, so also between the scans of a progressive file
        0..=3 => {
            let (_, _, e) = mutate::conforming(&mut c.rng, 60);
            let (f, k) = flood(&mut c.rng, n);
            let at = e.segs[c.rng.below(e.segs.len())].start.max(2);
            let mut b = e.bytes;
            b.splice(at..at, f);
            (b, format!("flood of {k}"))
        }
        4 => {
            // within or behind the picture data
            let e = mutate::small(&mut c.rng);
            let at = if e.ecs.is_empty() { e.bytes.len() } else { let (x, y) = *c.rng.pick(&e.ecs); c.rng.range(x as i64, y as i64) as usize };
            let k = c.rng.below(5);
            let f: Vec<u8> = match k {
                0 => flood(&mut c.rng, n).0,
                1 => (0..n).map(|i| if i % 2 == 0 { 0xFF } else { 0 }).collect(),
                2 => {
                    // restart markers with up to a few bytes between them
                    let gap = c.rng.below(8);
                    let fill = c.rng.byte() & 0x7F;
                    (0..n).map(|i| match i % (gap + 2) { 0 => 0xFF, 1 => 0xD0 | (i / (gap + 2) % 8) as u8, _ => fill }).collect()
                }
                3 => vec![0; n],
                _ => (0..n).map(|_| c.rng.byte()).collect(),
            };
            let mut b = e.bytes;
            b.splice(at..at, f);
            if c.rng.chance(1, 2) {
                enlarge(&mut b, &mut c.rng);
                announce(&mut b, &mut c.rng);
            }
            (b, "flood in the data".into())
        }
        5 | 6 => {
            // one scan again and again
            let w = 1 + c.rng.below(100);
            let h = 1 + c.rng.below(100);
            let samp = *c.rng.pick(&SAMPS);
            let nc = *c.rng.pick(&[1usize, 3, 3]);
            let mut img = Image::new(w, h, nc, if nc == 1 { (1, 1) } else { samp });
            fill(&mut img, Content::Sparse, &mut c.rng);
            let mut eo = EncOpts::plain(&img);
            eo.progressive = true;
            eo.huff = HuffKind::Std;
            eo.scans = std_script(&img);
            let e = encode(&img, &eo, &mut c.rng);
            let mut b = e.bytes;
            if let Some(s) = e.segs.iter().rev().find(|s| s.marker == 0xDA) {
                let end = e.ecs.last().map_or(b.len(), |x| x.1);
                let scan = b[s.start..end].to_vec();
                let mut x = vec![];
                // each costs a pass over the picture; a second at most
                let most = (1 << 27) / ((w + 16) * (h + 16));
                let mut k = 0;
                while x.len() < n && k < most {
                    k += 1;
                    x.extend_from_slice(&scan);
                }
                b.splice(end..end, x);
            }
            o.max_scans = *c.rng.pick(&[1usize, 64, 1000, 100_000, usize::MAX]);
            (b, "many scans".into())
        }
        7 => {
            // a large picture, most of it missing
            let e = mutate::small(&mut c.rng);
            let mut b = e.bytes;
            if let (true, Some(x)) = (c.rng.chance(1, 2), e.ecs.first()) {
                // only the first scan, perhaps not all of it, and no end
                b.truncate(if c.rng.chance(1, 2) { x.1 } else { c.rng.range(x.0 as i64, x.1 as i64) as usize });
            }
            enlarge(&mut b, &mut c.rng);
            if c.rng.chance(1, 2) {
                let l = b.len();
                let v = if c.rng.chance(1, 2) { 0 } else { c.rng.byte() };
                b.resize(l + n, v);
            }
            announce(&mut b, &mut c.rng);
            (b, "little data".into())
        }
        8 => (slow_input(&mut c.rng), "slow".into()),
        9 => {
            let img = pick_image(&mut c.rng, 20);
            let eo = pick_enc(&img, &mut c.rng, 1, 2);
            (encode(&img, &eo, &mut c.rng).bytes, "conforming".into())
        }
        _ => {
            let (b, k) = mutate::hostile(&mut c.rng);
            (b, k.into())
        }
    };
    let hdr = c.rng.chance(1, 5);
    let mut d0 = Decoder::new_with_options(o.build());
    let headers_fine = headers_with(&mut d0, &b).kind() == "ok";
    // a decoder that gets older must not get slower
    let calls = if b.len() < 2000 && usize::from(d0.width()) * usize::from(d0.height()) < 40_000 && c.rng.chance(1, 40) { *c.rng.pick(&[400i32, 400, 1500]) } else { 1 };
    if calls > 1 {
        c.add("long_lives", 1);
    }
    c.add("bytes", b.len() as u64);
    let sos = b.windows(2).filter(|w| *w == [0xFF, 0xDA]).count().min(o.max_scans.saturating_add(1));
    let mut least = f64::MAX;
    let mut bound = 0.0;
    let mut end = "";
    let (mut young, mut old) = (0.0, 0.0);
    let mut aged = false;
    // what else the machine is doing may cost time; the least of a few tries counts
    for _ in 0..4 {
        let mut d = Decoder::new_with_options(o.build());
        let t0 = cpu_ms();
        let mut r = Out::Err(String::new());
        (young, old) = (f64::MAX, f64::MAX);
        for k in 0..calls {
            if k >= 50 && k < calls - 50 {
                r = if hdr { headers_with(&mut d, &b) } else { decode_with(&mut d, &b) };
                continue;
            }
            let t1 = cpu_ms();
            r = if hdr { headers_with(&mut d, &b) } else { decode_with(&mut d, &b) };
            let t = cpu_ms() - t1;
            if k < 50 {
                young = young.min(t);
            } else {
                old = old.min(t);
            }
        }
        least = least.min(cpu_ms() - t0);
        end = r.kind();
        let pad = |v: u16| (usize::from(v) + 31) / 32 * 32;
        // a narrow picture costs as much as one of 256 columns, for what every row of blocks costs
        let px = if headers_fine && !hdr { pad(d.width()).max(256) * pad(d.height()) } else { 0 };
        let work = (b.len() as f64) + (px as f64) * (2.0 + sos as f64) * 0.25;
        bound = f64::from(calls) * (1.0 + work * 0.3e-3) + 50.0;
        if work > 1_000_000.0 {
            c.max("ns_per_unit_of_work", least * 1e6 / work / f64::from(calls));
        }
        aged = calls > 1 && old > young * 3.0 + 0.1;
        if least <= bound && !aged || least > bound * 10.0 {
            break;
        }
    }
    c.note(&format!("{}: {end}", kind.split(" of ").next().unwrap_or("")));
    c.max("time_over_bound", least / bound);
    if least > bound {
        c.fail("cost", format!("{kind}, {} bytes, {}{}: {least:.0} ms of processor time for {calls} call(s), expected at most {bound:.0}", b.len(), o.text(), if hdr { ", headers only" } else { "" }), Some(&b));
        return;
    }
    if calls > 1 {
        c.max("old_over_young", old / young.max(1e-3));
    }
    if aged {
        c.fail("age", format!("{kind}, {} bytes, {}: a call takes {young:.3} ms of processor time at first and {old:.3} ms after {} calls", b.len(), o.text(), calls - 50), Some(&b));
        return;
    }
    c.eval(hash_bytes(&b));
    c.sample(|| format!("{kind}, {} bytes, {least:.2} ms, bound {bound:.0}", b.len()));
}

// ------------------------------------------------------------------ C22

#[derive(Clone, Copy, PartialEq, Debug)]
enum Why {
    Text,
    Magic(u16),
    Huffman,
    Zero,
    Dqt,
    Sos,
    Sof,
    Mcu,
    /// second byte of the frame marker
    Process(u8),
    Exhausted,
    Large,
}

fn why(e: &zune_jpeg::errors::DecodeErrors) -> Why {
    use zune_jpeg::errors::{DecodeErrors as E, UnsupportedSchemes as U};
    match e {
        E::IllegalMagicBytes(m) => Why::Magic(*m),
        E::HuffmanDecode(_) => Why::Huffman,
        E::ZeroError => Why::Zero,
        E::DqtError(_) => Why::Dqt,
        E::SosError(_) => Why::Sos,
        E::SofError(_) => Why::Sof,
        E::MCUError(_) => Why::Mcu,
        E::ExhaustedData => Why::Exhausted,
        E::LargeDimensions(_) => Why::Large,
        E::Unsupported(U::ExtendedSequentialHuffman) => Why::Process(0xC1),
        E::Unsupported(U::LosslessHuffman) => Why::Process(0xC3),
        E::Unsupported(U::ExtendedSequentialDctArithmetic) => Why::Process(0xC9),
        E::Unsupported(U::ProgressiveDctArithmetic) => Why::Process(0xCA),
        E::Unsupported(U::LosslessArithmetic) => Why::Process(0xCB),
        _ => Why::Text,
    }
}

/// whether a frame of no rows or no columns may have been read
fn zero_frame(b: &[u8]) -> bool {
    b.windows(9).any(|w| w[0] == 0xFF && matches!(w[1], 0xC0 | 0xC2) && (w[5] | w[6] == 0 || w[7] | w[8] == 0))
}

fn c22_reasons(c: &mut Ctx) {
    tier(2);
    // the reasons that may be given, if the fault says
    let mut expect: Option<Vec<Why>> = None;
    let (b, kind, o): (Vec<u8>, String, Opt) = match c.rng.below(10) {
        0 => {
            let n = c.rng.below(3);
            let b: Vec<u8> = [0xFFu8, 0xD8][..n.min(2)].to_vec();
            let b = if n == 1 && c.rng.chance(1, 2) { vec![c.rng.byte()] } else { b };
            if b.len() < 2 {
                expect = Some(vec![Why::Exhausted]);
            }
            (b, "nearly nothing".into(), any_opt(&mut c.rng))
        }
        1 => {
            let (mut b, _) = mutate::hostile(&mut c.rng);
            match c.rng.below(4) {
                0 => b.insert(0, c.rng.byte()),
                1 if b.len() > 1 => b.swap(0, 1),
                2 if !b.is_empty() => {
                    b.remove(0);
                }
                _ => {
                    b.truncate(2 + c.rng.below(6));
                    for x in b.iter_mut().take(2) {
                        *x = c.rng.byte();
                    }
                }
            }
            (b, "other first bytes".into(), any_opt(&mut c.rng))
        }
        2 => {
            // larger than allowed
            let e = mutate::small(&mut c.rng);
            let mut o = any_opt(&mut c.rng);
            let p = e.segs.iter().find(|s| matches!(s.marker, 0xC0 | 0xC2)).map(|s| (s.start..).find(|&p| e.bytes[p] != 0xFF).unwrap());
            let mut b = e.bytes;
            if let Some(p) = p {
                let q = p + 4 + 2 * c.rng.below(2);
                b[q..q + 2].copy_from_slice(&(600 + c.rng.below(0xFDA7) as u16).to_be_bytes());
                o.maxw = 599;
                o.maxh = 599;
                expect = Some(vec![Why::Text, Why::Large]);
            }
            (b, "too large".into(), o)
        }
        3 | 4 => {
            let (b, k) = mutate::hostile(&mut c.rng);
            (b, k.into(), any_opt(&mut c.rng))
        }
        _ => {
            let Some((b, k, _, o, _)) = refused(c) else { return };
            let starts = |x: &str| k.starts_with(x);
            expect = if starts("coding process") {
                let m = u8::from_str_radix(&k[k.len() - 2..], 16).unwrap_or(0);
                Some(vec![if matches!(m, 0xC1 | 0xC3 | 0xC9 | 0xCA | 0xCB) { Why::Process(m) } else { Why::Text }])
            } else if starts("zero size") {
                Some(vec![Why::Zero])
            } else if k.ends_with("bit samples") || k.ends_with(" components") || starts("frame header length") || starts("two frame headers") {
                Some(vec![Why::Sof])
            } else if starts("quantisation table precision") || starts("quantisation table number") {
                Some(vec![Why::Dqt])
            } else if starts("Huffman table class or number") || starts("oversubscribed") || starts("impossible Huffman") || starts("Huffman table larger") {
                Some(vec![Why::Huffman])
            } else if starts("scan ") || starts("component twice") || starts("baseline scan") || starts("successive") {
                Some(vec![Why::Sos, Why::Sof])
            } else {
                None
            };
            (b, k, o)
        }
    };
    // the public way from a marker to a process
    let m = c.rng.byte();
    let u = zune_jpeg::errors::UnsupportedSchemes::from_int(m);
    let k = u.map(|u| why(&zune_jpeg::errors::DecodeErrors::Unsupported(u)));
    if k != matches!(m, 0xC1 | 0xC3 | 0xC9 | 0xCA | 0xCB).then_some(Why::Process(m)) {
        c.fail("process", format!("from_int({m:#x}) gives {u:?}"), None);
        return;
    }
    let mut got = vec![];
    for header in [false, true] {
        let mut d = Decoder::new_with_options(o.build());
        let mut y = None;
        let r = guarded(|| {
            let r = if header { d.read_headers(&b).map(|()| vec![]) } else { d.decode_buffer(&b) };
            y = r.as_ref().err().map(why);
            r.map_err(|e| format!("{e} {e:?}"))
        });
        match r {
            Ok(_) => got.push(y),
            // C01's business
            Err(_) => return,
        }
    }
    let magic = if b.len() < 2 { None } else { Some(u16::from_be_bytes([b[0], b[1]])) };
    for (g, header) in got.iter().zip([false, true]) {
        let call = if header { "read_headers" } else { "decode_buffer" };
        let bad = match (magic, g) {
            (None, g) if *g != Some(Why::Exhausted) => Some("there are less than two bytes".into()),
            (Some(m), g) if m != 0xFFD8 && *g != Some(Why::Magic(m)) => Some(format!("the file starts with {m:04x}")),
            (Some(0xFFD8), Some(Why::Magic(_))) => Some("the file starts as a JPEG".into()),
            (_, Some(Why::Process(m))) if !b.windows(2).any(|w| w == [0xFF, *m]) => Some("there is no such frame".into()),
            (_, Some(Why::Zero)) if !zero_frame(&b) => Some("no frame has a size of zero".into()),
            _ => None,
        };
        if let Some(bad) = bad {
            c.fail("reason", format!("{kind}, {} bytes, {}: {call} gives {g:?}, but {bad}", b.len(), o.text()), Some(&b));
            return;
        }
        // what only decoding sees is no matter of reading headers
        if let (Some(x), false) = (&expect, header && g.is_none()) {
            if !g.is_some_and(|g| x.contains(&g)) {
                c.fail("reason", format!("{kind}, {} bytes, {}: {call} gives {g:?}, expected {x:?}", b.len(), o.text()), Some(&b));
                return;
            }
        }
    }
    // faults in the headers are the same to both
    if got[1].is_some() && got[0] != got[1] {
        c.fail("two-reasons", format!("{kind}, {} bytes, {}: decoding gives {:?}, reading the headers {:?}", b.len(), o.text(), got[0], got[1]), Some(&b));
        return;
    }
    match got[0] {
        Some(w) => {
            c.note(&format!("{w:?}").chars().take_while(|x| *x != '(').collect::<String>());
            c.eval(hash_bytes(&b));
        }
        None => c.eval_trivial(),
    }
    c.sample(|| format!("{kind}, {} bytes: {:?}", b.len(), got[0]));
}

// ------------------------------------------------------------------ C23

/// Decodes with unsafe code off, in all the ways in which it can be turned off. Runs in builds
/// that count what runs; the counts are judged after the run.
fn c23_switch(c: &mut Ctx) {
    tier(2);
    let on = std::env::var_os("ZJV_UNSAFE").is_some();
    let r = &mut c.rng;
    let conf = r.chance(4, 5);
    let (b, kind) = if conf {
        let img = pick_image(r, 30);
        let eo = pick_enc(&img, r, 1, 2);
        (encode(&img, &eo, r).bytes, "conforming")
    } else {
        mutate::hostile(r)
    };
    let mut o = any_opt(r);
    o.unsafe_ = on;
    // another decoder with unsafe code on comes first
    let before = !on && r.chance(1, 3);
    if before {
        let o = any_opt(r);
        crate::dut::uncounted(|| decode(&b, &o));
    }
    // the setters in any order, the last word counts
    let mut z = zune_jpeg::ZuneJpegOptions::new();
    let mut order = [0, 1, 2, 3, 4, 5, 6];
    for i in (1..order.len()).rev() {
        order.swap(i, r.below(i + 1));
    }
    for k in order {
        z = match k {
            0 => {
                if r.chance(1, 3) {
                    z = z.set_use_unsafe(!on);
                }
                z.set_use_unsafe(on)
            }
            1 => z.set_out_colorspace(o.cs),
            2 => z.set_num_threads(std::num::NonZeroU32::new(o.threads).unwrap()),
            3 => z.set_strict_mode(o.strict),
            4 => z.set_max_width(9000).set_max_height(9000),
            5 => z.set_max_scans(o.max_scans),
            _ => z,
        };
    }
    let mut d = Decoder::new_with_options(z);
    let mut how = String::new();
    let calls = 1 + r.below(3);
    let mut oks = 0;
    for _ in 0..calls {
        #[allow(deprecated)]
        match r.below(8) {
            0 => {
                d.rgba();
                how += " rgba";
            }
            1 => {
                d.set_output_colorspace(CS[r.below(5)]);
                how += " colorspace";
            }
            2 => {
                let _ = d.set_num_threads(1 + r.below(8));
                how += " threads";
            }
            3 => {
                d.set_limits(9000, 9000);
                how += " limits";
            }
            4 => {
                let _ = headers_with(&mut d, &b);
                how += " headers";
            }
            _ => {}
        }
        if decode_with(&mut d, &b).kind() == "ok" {
            oks += 1;
        }
    }
    c.note(&format!("{}: {}{}", if conf { kind } else { "hostile" }, if oks > 0 { "ok" } else { "err" }, if before { ", after another decoder" } else { "" }));
    if oks > 0 {
        c.eval(hash_bytes(&b));
    } else {
        c.eval_trivial();
    }
    c.sample(|| format!("{kind} {} bytes, {}{how}", b.len(), o.text()));
}

// ------------------------------------------------------------------ C24

#[cfg(feature = "plain_alloc")]
fn c24_surroundings(_: &mut Ctx) {}

/// The process around a call: what it must not touch is compared before and after, and it is put
/// into states a call must not care about.
#[cfg(not(feature = "plain_alloc"))]
fn c24_surroundings(c: &mut Ctx) {
    use crate::world;
    let (b, kind) = input(c, 1, 2);
    let mut o = any_opt(&mut c.rng);
    let t = pick_tier(&mut c.rng, &mut o);
    let r = &mut c.rng;
    let way = r.below(4); // 3: from a file
    let calls = if r.chance(1, 4) { 2 } else { 1 };
    // the state in which the caller is
    let csr = if r.chance(1, 2) { 0x1F80 } else { 0x1F80 | (r.below(4) as u32) << 13 | (r.below(2) as u32) << 15 | (r.below(2) as u32) << 6 };
    let cw = if r.chance(2, 3) { 0x37F } else { 0x7F | (r.below(4) as u16) << 10 | [0u16, 2, 3][r.below(3)] << 8 };
    let every = if r.chance(1, 6) { 40 + r.below(400) as i64 } else { 0 };
    let closed = r.chance(1, 8);
    let umask = r.chance(1, 6).then(|| [0u32, 0o777, 0o077][r.below(3)]);
    let vars = r.chance(1, 8);
    let away = r.chance(1, 6);
    let blocked = every == 0 && r.chance(1, 8);
    let quiet_hook = r.chance(1, 8);
    let input = world::Locked::new(&b);
    let dir = c.scratch.clone();
    let dir = std::fs::canonicalize(&dir).unwrap_or(dir);
    let relative = way == 3 && away;
    let name = if relative && r.chance(1, 3) { *r.pick(&["-", "con", "~", "0"]) } else { "p.jpg" };
    let path = dir.join(name);
    // a pipe that is filled bit by bit, while signals arrive
    let pipe = (way == 3 && every > 0 && b.len() > 1).then(|| dir.join("pipe"));
    if way == 3 {
        std::fs::write(&path, &b).expect("scratch");
    }
    let given: std::path::PathBuf = match &pipe {
        Some(p) => p.clone(),
        None if relative => name.into(),
        None => path.clone(),
    };
    let run = |given: &std::path::Path| {
        let mut d = Decoder::new_with_options(o.build());
        let mut outs = vec![];
        for k in 0..calls {
            outs.push(match if k == 0 { way } else { 1 } {
                0 => headers_with(&mut d, input.bytes()),
                3 => match guarded(|| d.decode_file(given).map_err(|e| format!("{e:?}"))) {
                    Ok(Ok(v)) => Out::Ok(v),
                    Ok(Err(e)) => Out::Err(e),
                    Err(p) => Out::Panic(p),
                },
                _ => decode_with(&mut d, input.bytes()),
            });
        }
        (outs, d.width(), d.height(), info_of(&d), d.get_output_colorspace())
    };
    let plain = run(&path);
    crate::threads::settle(crate::threads::BASE.load(Relaxed));

    let home = std::env::current_dir().ok();
    if away {
        let _ = std::env::set_current_dir(&dir);
    }
    let names = ["RUST_LOG", "RUST_BACKTRACE", "RUST_MIN_STACK", "ZUNE_THREADS", "LANG", "HOME", "TMPDIR"];
    let kept: Vec<_> = names.iter().map(|n| std::env::var_os(n)).collect();
    if vars {
        for n in names.iter().filter(|n| **n != "RUST_MIN_STACK") {
            if r.chance(1, 2) {
                std::env::remove_var(n);
            } else {
                std::env::set_var(n, *r.pick(&["", "0", "1", "trace", "full", "/nowhere", "de_DE.UTF-8"]));
            }
        }
    }
    let mask0 = umask.map(|m| unsafe { libc::umask(m) });
    let mut old: libc::sigset_t = unsafe { std::mem::zeroed() };
    if blocked {
        unsafe {
            let mut all: libc::sigset_t = std::mem::zeroed();
            libc::sigfillset(&mut all);
            for s in [libc::SIGSEGV, libc::SIGBUS, libc::SIGILL, libc::SIGFPE, libc::SIGABRT] {
                libc::sigdelset(&mut all, s);
            }
            libc::pthread_sigmask(libc::SIG_SETMASK, &all, &mut old);
        }
    }
    let feeder = pipe.as_ref().map(|p| {
        use std::os::unix::ffi::OsStrExt;
        let _ = std::fs::remove_file(p);
        let n = std::ffi::CString::new(p.as_os_str().as_bytes()).unwrap();
        assert_eq!(unsafe { libc::mkfifo(n.as_ptr(), 0o600) }, 0, "mkfifo");
        let (p, b) = (p.clone(), b.clone());
        std::thread::spawn(move || {
            use std::io::Write;
            if let Ok(mut f) = std::fs::OpenOptions::new().write(true).open(p) {
                for part in b.chunks(b.len().div_ceil(3)) {
                    if f.write_all(part).is_err() {
                        break;
                    }
                    std::thread::sleep(std::time::Duration::from_millis(1));
                }
            }
        })
    });
    if feeder.is_some() {
        c.note("through a pipe under signals");
    }
    let streams = world::Streams::take(closed);
    let signals0 = world::SIGNALS.load(Relaxed);
    if every > 0 {
        world::signals(every);
    }
    if quiet_hook {
        // what a caller would do, and the monitor must see it is still the one in place
        install_hook();
    }
    let fpu0 = world::fpu();
    world::set_fpu((csr, cw));
    let before = world::state();
    world::LIE.store(vars, Relaxed);
    world::watch(true);
    let got = run(&given);
    let events = world::watch(false);
    let after = world::state();
    let fpu1 = world::fpu();
    world::set_fpu(fpu0);
    if every > 0 {
        world::signals(0);
    }
    let (read, said) = streams.give_back();
    unsafe {
        if blocked {
            libc::pthread_sigmask(libc::SIG_SETMASK, &old, std::ptr::null_mut());
        }
        if let Some(m) = mask0 {
            libc::umask(m);
        }
    }
    if vars {
        for (n, v) in names.iter().zip(kept) {
            match v {
                Some(v) => std::env::set_var(n, v),
                None => std::env::remove_var(n),
            }
        }
    }
    if let (true, Some(h)) = (away, home) {
        let _ = std::env::set_current_dir(h);
    }
    if let (Some(f), Some(p)) = (feeder, &pipe) {
        // a call that did not open it leaves the writer waiting
        use std::os::unix::fs::OpenOptionsExt;
        let _drain = std::fs::OpenOptions::new().read(true).custom_flags(libc::O_NONBLOCK).open(p);
        while !f.is_finished() {
            let _ = _drain.as_ref().map(|mut d| std::io::Read::read(&mut d, &mut [0u8; 65536]));
            std::thread::sleep(std::time::Duration::from_micros(200));
        }
        let _ = f.join();
        let _ = std::fs::remove_file(p);
    }
    c.add("environment variables looked for", world::LIES.swap(0, Relaxed));
    let arrived = world::SIGNALS.load(Relaxed) - signals0;
    c.add("signals that arrived", arrived);

    let what = format!(
        "{kind}, {} bytes, {}, {t}, {}: caller with SSE control {csr:#x}, x87 {cw:#x}, signals every {every} us, streams {}, umask {umask:?}{}{}{}",
        b.len(),
        o.text(),
        ["headers", "decode", "decode", "decode by path"][way],
        if closed { "closed" } else { "open" },
        if vars { ", environment changed" } else { "" },
        if away { ", elsewhere" } else { "" },
        if blocked { ", signals blocked" } else { "" }
    );
    if got != plain && !got.0.iter().chain(&plain.0).any(|x| x.kind() == "panic") {
        let f = |x: &Vec<Out>| x.iter().map(Out::brief).collect::<Vec<_>>().join(" ");
        c.fail("state-of-caller", format!("{what}: {} instead of {}", f(&got.0), f(&plain.0)), Some(&b));
        return;
    }
    if fpu1 != (csr & 0xFFC0, cw) {
        c.fail("floating-point", format!("{what}: the control words are {fpu1:x?} after the call"), Some(&b));
        return;
    }
    if let Some((x, y)) = before.iter().zip(&after).find(|(x, y)| x != y) {
        c.fail("changed", format!("{what}: {} was {:#x} and is {:#x} after the call", x.0, x.1, y.1), Some(&b));
        return;
    }
    if read != 0 || !said.is_empty() {
        c.fail("streams", format!("{what}: read {read} bytes of standard input, wrote {said:?}"), Some(&b));
        return;
    }
    let own = given.to_string_lossy().into_owned();
    let fine = |e: &String| pipe.is_some() && *e == format!("opened for writing: {own}") || e.strip_prefix("opened: ").is_some_and(|p| (way == 3 && p == own) || ["/proc/", "/sys/", "/dev/"].iter().any(|x| p.starts_with(x)));
    if let Some(e) = events.iter().find(|e| !fine(e)) {
        c.fail("reached-out", format!("{what}: {e}"), Some(&b));
        return;
    }
    c.add("files opened", events.len() as u64);
    c.note(&format!("{kind}, {}: {}", ["headers", "decode", "decode", "by path"][way], got.0[0].kind()));
    if input.bytes() != &b[..] {
        c.fail("input", format!("{what}: the input was changed"), Some(&b));
        return;
    }
    if got.0[0].kind() == "ok" {
        c.eval(hash_bytes(&b) ^ u64::from(csr) << 17 ^ u64::from(cw));
    } else {
        c.eval_trivial();
    }
    c.sample(|| what.clone());
}
