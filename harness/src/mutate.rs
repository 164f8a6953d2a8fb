//! Hostile inputs: structured and blind damage to well formed streams, and
//! streams put together from semi-valid segments.
use crate::gen::*;
use crate::jpeg::*;
use crate::rng::Rng;

pub fn conforming(rng: &mut Rng, maxdim: usize) -> (Image, EncOpts, Enc) {
    let img = gen_image(rng, &GenCfg { maxdim, gray_pct: 20 });
    let mut o = if rng.chance(1, 2) { gen_progressive(&img, rng) } else { gen_baseline(&img, rng) };
    if rng.chance(1, 2) {
        let ri = gen_ri(rng, &img);
        o = o.with_ri(ri);
    }
    if rng.chance(1, 2) {
        decorate(&mut o, rng);
    }
    let e = encode(&img, &o, rng);
    (img, o, e)
}

/// small stream, cheap to decode many times
pub fn small(rng: &mut Rng) -> Enc {
    let gray = rng.chance(1, 5);
    let samp = SAMPS[rng.below(4)];
    let w = rng.range(1, 48) as usize;
    let h = rng.range(1, 48) as usize;
    let img = gen_image_sized(rng, w, h, if gray { 1 } else { 3 }, samp);
    let mut o = if rng.chance(1, 2) { gen_progressive(&img, rng) } else { gen_baseline(&img, rng) };
    if rng.chance(1, 2) {
        let ri = gen_ri(rng, &img);
        o = o.with_ri(ri);
    }
    if rng.chance(1, 3) {
        decorate(&mut o, rng);
    }
    encode(&img, &o, rng)
}

const INTERESTING: [u8; 20] = [0, 1, 2, 3, 4, 7, 8, 0x10, 0x11, 0x12, 0x21, 0x22, 0x44, 0x7f, 0x80, 0xc0, 0xd0, 0xd9, 0xfe, 0xff];

fn put16(b: &mut [u8], p: usize, v: u16) {
    if p + 1 < b.len() {
        b[p] = (v >> 8) as u8;
        b[p + 1] = v as u8;
    }
}

/// damage that understands the segment structure
pub fn structured(e: &Enc, rng: &mut Rng) -> Vec<u8> {
    let mut b = e.bytes.clone();
    // marker byte offset of each segment: skip fill bytes
    let segs: Vec<(u8, usize, usize)> = e
        .segs
        .iter()
        .map(|s| {
            let mut p = s.start;
            while b[p] == 0xFF {
                p += 1;
            }
            (s.marker, p, s.end)
        })
        .collect();
    let n = 1 + rng.below(3);
    let mut moved = false;
    for _ in 0..n {
        let (m, p, end) = *rng.pick(&segs);
        let body = p + 3;
        match rng.below(12) {
            0 => {
                // a field of the frame header
                if let Some(&(_, p, _)) = segs.iter().find(|s| s.0 == 0xC0 || s.0 == 0xC2) {
                    let body = p + 3;
                    let nc = ((b.len() > body + 5).then(|| b[body + 5])).unwrap_or(1);
                    match rng.below(8) {
                        0 => put16(&mut b, body + 1, *rng.pick(&[0u16, 1, 7, 8, 9, 16, 17, 33, 100, 257, 513, 65535])),
                        1 => put16(&mut b, body + 3, *rng.pick(&[0u16, 1, 7, 8, 9, 16, 17, 33, 100, 257, 513, 65535])),
                        2 => b[body + 5] = rng.below(6) as u8,
                        3 => {
                            let q = body + 6 + 3 * rng.below(usize::from(nc).max(1));
                            if q < b.len() {
                                b[q] = rng.below(5) as u8;
                            }
                        }
                        4 | 5 => {
                            let q = body + 7 + 3 * rng.below(usize::from(nc).max(1));
                            if q < b.len() {
                                b[q] = *rng.pick(&[0x11, 0x12, 0x21, 0x22, 0x14, 0x41, 0x44, 0x42, 0x24, 0x00, 0x31, 0x13, 0x88, 0x10, 0x01]);
                            }
                        }
                        6 => {
                            let q = body + 8 + 3 * rng.below(usize::from(nc).max(1));
                            if q < b.len() {
                                b[q] = rng.below(6) as u8;
                            }
                        }
                        _ => b[p] = *rng.pick(&[0xC0, 0xC2, 0xC0, 0xC2, 0xC1, 0xC3, 0xC9]),
                    }
                }
            }
            1 => {
                // a field of a scan header
                let sos: Vec<_> = segs.iter().filter(|s| s.0 == 0xDA).collect();
                if let Some(&&(_, p, end)) = (!sos.is_empty()).then(|| rng.pick(&sos)) {
                    let body = p + 3;
                    let q = body + rng.below(end.saturating_sub(body).max(1));
                    if q < b.len() {
                        b[q] = if rng.chance(1, 2) { rng.below(64) as u8 } else { *rng.pick(&INTERESTING) };
                    }
                }
            }
            2 => {
                // segment length
                if m != 0xD8 && m != 0xD9 && p + 2 < b.len() {
                    let l = u16::from_be_bytes([b[p + 1], b[p + 2]]);
                    let v = match rng.below(5) {
                        0 => 0,
                        1 => 1,
                        2 => 2,
                        3 => l.wrapping_add(rng.range(-3, 3) as u16),
                        _ => rng.next() as u16,
                    };
                    put16(&mut b, p + 1, v);
                }
            }
            3 if !moved => {
                // drop a segment
                b.drain(p - 1..end);
                moved = true;
                break;
            }
            4 if !moved => {
                // duplicate a segment somewhere else
                let s = b[p - 1..end].to_vec();
                let q = rng.pick(&segs).1 - 1;
                b.splice(q..q, s);
                moved = true;
                break;
            }
            5 | 6 => {
                // a marker inside entropy coded data
                if let Some(&(s, t)) = e.ecs.first() {
                    let (s, t) = if rng.chance(1, 2) { *rng.pick(&e.ecs) } else { (s, t) };
                    if t > s && t < b.len() {
                        let q = s + rng.below(t - s);
                        b[q] = 0xFF;
                        if q + 1 < b.len() {
                            b[q + 1] = *rng.pick(&[0xD0, 0xD3, 0xD7, 0xD9, 0xDA, 0xC0, 0xC2, 0xC4, 0xDB, 0xDD, 0xD8, 0xE1, 0xFE, 0xFF, 0x01, 0xCC, 0xDC, 0x00]);
                        }
                    }
                }
            }
            7 => {
                // table contents
                let t: Vec<_> = segs.iter().filter(|s| s.0 == 0xC4 || s.0 == 0xDB).collect();
                if let Some(&&(_, p, end)) = (!t.is_empty()).then(|| rng.pick(&t)) {
                    let body = p + 3;
                    let q = body + rng.below(end.saturating_sub(body).clamp(1, 20));
                    if q < b.len() {
                        b[q] = if rng.chance(1, 2) { rng.byte() } else { *rng.pick(&INTERESTING) };
                    }
                }
            }
            8 => {
                // restart interval
                if let Some(&(_, p, _)) = segs.iter().find(|s| s.0 == 0xDD) {
                    put16(&mut b, p + 3, *rng.pick(&[0u16, 1, 2, 3, 5, 100, 65535]));
                } else if !moved {
                    let q = segs.iter().find(|s| s.0 == 0xDA).map_or(2, |s| s.1 - 1);
                    b.splice(q..q, [0xFF, 0xDD, 0, 4, 0, rng.below(6) as u8]);
                    moved = true;
                    break;
                }
            }
            9 => {
                // one marker for another
                if p < b.len() {
                    b[p] = *rng.pick(&[0xC0, 0xC2, 0xC4, 0xDA, 0xDB, 0xDD, 0xD9, 0xD8, 0xE0, 0xFE, 0xCC, 0xDC, 0xC1, 0x01, 0xD0]);
                }
            }
            10 => {
                // bits of entropy coded data
                let (s, t) = *rng.pick(&e.ecs);
                if t > s && t <= b.len() {
                    for _ in 0..1 + rng.below(6) {
                        let q = s + rng.below(t - s);
                        b[q] ^= 1 << rng.below(8);
                    }
                }
            }
            _ => {
                let q = body.min(b.len() - 1);
                b[q] = *rng.pick(&INTERESTING);
            }
        }
    }
    b
}

pub fn blind(b: &mut Vec<u8>, rng: &mut Rng) {
    for _ in 0..1 + rng.below(4) {
        if b.is_empty() {
            b.push(0xFF);
        }
        let n = b.len();
        // most interesting bytes are at the front
        let p = if rng.chance(1, 2) { rng.below(n.min(700)) } else { rng.below(n) };
        match rng.below(9) {
            0 => b[p] ^= 1 << rng.below(8),
            1 => b[p] = rng.byte(),
            2 => b[p] = *rng.pick(&INTERESTING),
            3 => {
                b.truncate(p);
            }
            4 => {
                let k = rng.below(6) + 1;
                let s: Vec<u8> = (0..k).map(|_| if rng.chance(1, 3) { 0xFF } else { rng.byte() }).collect();
                b.splice(p..p, s);
            }
            5 => {
                let k = (rng.below(20) + 1).min(n - p);
                b.drain(p..p + k);
            }
            6 => {
                let k = (rng.below(60) + 1).min(n - p);
                let s = b[p..p + k].to_vec();
                let q = rng.below(n);
                b.splice(q..q, s);
            }
            7 => {
                let k = (rng.below(16) + 1).min(n - p);
                let v = *rng.pick(&[0u8, 0xFF, 0xAA]);
                b[p..p + k].iter_mut().for_each(|x| *x = v);
            }
            _ => {
                let v = (rng.next() as u16).to_be_bytes();
                b[p] = v[0];
                if p + 1 < n {
                    b[p + 1] = v[1];
                }
            }
        }
    }
}

fn seg(out: &mut Vec<u8>, m: u8, body: &[u8]) {
    out.extend_from_slice(&[0xFF, m]);
    out.extend_from_slice(&((body.len() + 2) as u16).to_be_bytes());
    out.extend_from_slice(body);
}

/// a stream composed of segments in random order with half-plausible contents
pub fn composed(rng: &mut Rng) -> Vec<u8> {
    let mut o = vec![0xFF, 0xD8];
    let order = rng.below(3);
    let mut kinds: Vec<u8> = vec![0xDB, 0xC4, 0xC4, 0xC0, 0xDA];
    for _ in 0..rng.below(5) {
        kinds.push(*rng.pick(&[0xDB, 0xC4, 0xC0, 0xC2, 0xDA, 0xDD, 0xE0, 0xFE, 0xD9, 0xD8]));
    }
    if order == 0 {
        rng.shuffle(&mut kinds);
    }
    let prog = rng.chance(1, 2);
    let mut acdc = 0;
    for m in kinds {
        match m {
            0xDB => {
                let mut b = vec![];
                for t in 0..4u8 {
                    b.push(t);
                    b.extend((0..64).map(|_| *rng.pick(&[1u8, 16, 255])));
                }
                seg(&mut o, 0xDB, &b);
            }
            0xC4 => {
                let ac = acdc % 2 == 1;
                acdc += 1;
                let mut b = vec![];
                for t in 0..4u8 {
                    let h = if rng.chance(1, 3) {
                        let mut f = [0u64; 256];
                        for _ in 0..1 + rng.below(60) {
                            let s = if ac { rng.below(256) } else { rng.below(16) };
                            f[s] = 1 + (rng.next() >> (40 + rng.below(20)));
                        }
                        Huff::from_freq(&f)
                    } else if ac {
                        std_ac(t & 1 == 1)
                    } else {
                        std_dc(t & 1 == 1)
                    };
                    b.push((u8::from(ac) << 4) | t);
                    b.extend_from_slice(&h.bits[1..]);
                    b.extend_from_slice(&h.vals);
                }
                seg(&mut o, 0xC4, &b);
            }
            0xC0 | 0xC2 => {
                let n = *rng.pick(&[1u8, 1, 3, 3, 3, 3, 2, 4]);
                let w = gen_dim(rng, 200) as u16;
                let h = gen_dim(rng, 200) as u16;
                let mut b = vec![8];
                b.extend_from_slice(&h.to_be_bytes());
                b.extend_from_slice(&w.to_be_bytes());
                b.push(n);
                let weird = rng.chance(1, 3);
                for c in 0..n {
                    let f = if weird {
                        *rng.pick(&[0x11u8, 0x12, 0x21, 0x22, 0x41, 0x14, 0x44])
                    } else if c == 0 {
                        *rng.pick(&[0x11u8, 0x12, 0x21, 0x22])
                    } else {
                        0x11
                    };
                    let id = if rng.chance(1, 12) { rng.below(5) as u8 } else { c + 1 };
                    b.extend_from_slice(&[id, f, rng.below(4) as u8]);
                }
                seg(&mut o, if prog { 0xC2 } else { 0xC0 }, &b);
            }
            0xDA => {
                let reps = if prog { 1 + rng.below(8) } else { 1 };
                for _ in 0..reps {
                    let n = *rng.pick(&[1u8, 1, 2, 3, 3, 3]);
                    let mut b = vec![n];
                    for c in 0..n {
                        let id = if rng.chance(1, 4) { rng.below(4) as u8 + 1 } else { c + 1 };
                        b.extend_from_slice(&[id, (rng.below(4) << 4 | rng.below(4)) as u8]);
                    }
                    let (ss, se) = if prog {
                        *rng.pick(&[(0u8, 0u8), (1, 63), (1, 5), (6, 63), (0, 63), (5, 2), (63, 63), (64, 70)])
                    } else {
                        (0, 63)
                    };
                    let a = if prog { *rng.pick(&[0u8, 1, 2, 0x10, 0x21, 0x32, 0x0D, 0xDC, 0x0E, 0xE0, 0x13]) } else { 0 };
                    b.extend_from_slice(&[ss, se, a]);
                    seg(&mut o, 0xDA, &b);
                    let len = rng.below(400);
                    let style = rng.below(4);
                    for _ in 0..len {
                        let x = match style {
                            0 => rng.byte(),
                            1 => 0,
                            2 => rng.byte() & 0x3F,
                            _ => rng.byte() | 0xC0,
                        };
                        o.push(x);
                        if x == 0xFF && rng.chance(9, 10) {
                            o.push(0);
                        }
                    }
                }
            }
            0xDD => seg(&mut o, 0xDD, &[0, rng.below(5) as u8]),
            0xD9 | 0xD8 => {
                if rng.chance(1, 4) {
                    o.extend_from_slice(&[0xFF, m]);
                }
            }
            m => {
                let k = rng.below(30);
                let b: Vec<u8> = (0..k).map(|_| rng.byte()).collect();
                seg(&mut o, m, &b);
            }
        }
    }
    if rng.chance(3, 4) {
        o.extend_from_slice(&[0xFF, 0xD9]);
    }
    o
}

/// one header segment at the edge of what its format allows, or beyond
fn edge_segment(m: u8, rng: &mut Rng) -> Vec<u8> {
    let mut b: Vec<u8> = vec![];
    match m {
        0xC4 => {
            for _ in 0..1 + usize::from(rng.chance(1, 4)) * rng.below(3) {
                let class = *rng.pick(&[0u8, 0, 1, 1, 1, 2, 15]);
                let slot = *rng.pick(&[0u8, 0, 1, 1, 2, 3, 3, 4, 15]);
                b.push(class << 4 | slot);
                let total = *rng.pick(&[0usize, 1, 2, 11, 12, 13, 16, 17, 127, 128, 162, 254, 255, 256, 256, 257, 257, 258, 259, 300, 511, 512, 1000, 4080]);
                let mut bits = [0usize; 16];
                let lo = *rng.pick(&[0usize, 0, 4, 7, 8, 9, 12, 15]);
                let mut left = total;
                let style = rng.below(4);
                let mut room = 1usize << (lo + 1);
                for l in lo..16 {
                    let k = match style {
                        // anything
                        0 => rng.below(left.min(255) + 1),
                        // as full as the code space allows, or one too many
                        1 => room.saturating_sub(1),
                        2 => room + rng.below(2),
                        _ => (left / (16 - l)).max(1),
                    }
                    .min(left)
                    .min(255);
                    bits[l] = k;
                    left -= k;
                    room = room.saturating_sub(k).min(1 << 20) * 2;
                }
                while left > 0 {
                    let l = 15 - rng.below(8);
                    let k = left.min(255 - bits[l]);
                    bits[l] += k;
                    left -= k;
                    if bits[8..].iter().all(|&x| x == 255) {
                        break;
                    }
                }
                b.extend(bits.iter().map(|&x| x as u8));
                let n: usize = bits.iter().sum();
                let n = match rng.below(8) {
                    0 => n.saturating_sub(1 + rng.below(3)),
                    1 => n + 1 + rng.below(20),
                    2 => n.min(256),
                    _ => n,
                };
                let ordered = rng.chance(1, 2);
                b.extend((0..n).map(|i| if ordered { i as u8 } else { rng.byte() }));
            }
        }
        0xDB => {
            for _ in 0..1 + rng.below(5) {
                let pq = *rng.pick(&[0u8, 0, 0, 0, 1, 2, 15]);
                b.push(pq << 4 | *rng.pick(&[0u8, 1, 2, 3, 3, 4, 15]));
                let n = *rng.pick(&[64usize, 64, 64, 63, 65, 128, 0, 1]);
                let v = *rng.pick(&[0u8, 1, 255, 16]);
                b.extend((0..n).map(|_| if v == 16 { rng.byte() } else { v }));
            }
        }
        0xC0 | 0xC2 => {
            let n = *rng.pick(&[0u8, 1, 1, 2, 3, 3, 3, 3, 4, 5, 254, 255]);
            b.push(*rng.pick(&[8u8, 8, 8, 8, 8, 7, 12, 0]));
            for _ in 0..2 {
                let v = *rng.pick(&[0u16, 1, 7, 8, 9, 15, 16, 17, 31, 32, 33, 255, 256, 257, 519, 520, 521, 65535]);
                b.extend_from_slice(&v.to_be_bytes());
            }
            b.push(n);
            for c in 0..n {
                let id = if rng.chance(1, 8) { *rng.pick(&[0u8, 1, 3, 4, 5, 255]) } else { c.wrapping_add(1) };
                let f = if c == 0 || rng.chance(1, 5) { *rng.pick(&[0x11u8, 0x12, 0x21, 0x22, 0x33, 0x41, 0x14, 0x44, 0x00, 0xFF, 0x10, 0x01]) } else { 0x11 };
                b.extend_from_slice(&[id, f, *rng.pick(&[0u8, 1, 2, 3, 3, 4, 255])]);
            }
        }
        0xDA => {
            let n = *rng.pick(&[0u8, 1, 1, 1, 2, 3, 3, 3, 3, 4, 5, 125, 255]);
            b.push(n);
            for c in 0..n {
                let id = if rng.chance(1, 4) { *rng.pick(&[0u8, 1, 2, 3, 4, 5, 127, 255]) } else { c.wrapping_add(1) };
                b.extend_from_slice(&[id, if rng.chance(1, 3) { rng.byte() } else { *rng.pick(&[0x00u8, 0x11, 0x33, 0x22]) }]);
            }
            let k = *rng.pick(&[0u8, 1, 2, 5, 62, 63, 64, 65, 127, 128, 255]);
            b.push(k);
            b.push(*rng.pick(&[0u8, 1, 5, 62, 63, 63, 64, 127, 128, 255, k]));
            b.push(if rng.chance(1, 2) { *rng.pick(&[0u8, 1, 0x10, 0x21, 0x0D, 0xDC, 0x0E, 0xEF, 0xFF]) } else { rng.byte() });
        }
        0xDD => {
            let n = *rng.pick(&[2usize, 2, 2, 0, 1, 3, 4, 6]);
            let v = *rng.pick(&[0u8, 1, 2, 255]);
            b.extend((0..n).map(|i| if i == 0 { v & 1 } else { v }));
        }
        _ => {
            let n = *rng.pick(&[0usize, 1, 2, 5, 6, 7, 11, 12, 13, 14, 253, 254, 255, 256, 4096, 32766, 65533]);
            let ids: [&[u8]; 5] = [b"", b"JFIF\0", b"Exif\0\0", b"Adobe\0", b"ICC_PROFILE\0"];
            b.extend_from_slice(rng.pick(&ids));
            b.resize(n, rng.byte());
        }
    }
    b.truncate(65533);
    let mut o = vec![0xFF, m];
    let l = (b.len() + 2) as u16;
    let l = match rng.below(10) {
        0 => l.wrapping_add(rng.range(-18, 18) as u16),
        1 => *rng.pick(&[0u16, 1, 2, 3, 65535]),
        _ => l,
    };
    o.extend_from_slice(&l.to_be_bytes());
    o.extend_from_slice(&b);
    o
}

/// a good stream with edge segments in place of its own or in between
pub fn edges(rng: &mut Rng) -> Vec<u8> {
    let e = small(rng);
    let mut b = e.bytes.clone();
    let mut segs: Vec<&Seg> = e.segs.iter().filter(|s| s.marker != 0xD8 && s.marker != 0xD9).collect();
    rng.shuffle(&mut segs);
    let mut picked: Vec<&Seg> = segs.into_iter().take(1 + usize::from(rng.chance(1, 4))).collect();
    picked.sort_by_key(|s| std::cmp::Reverse(s.start));
    for s in picked {
        let (m, at) = if rng.chance(1, 2) {
            // replace
            (s.marker, s.start..s.end)
        } else {
            let m = *rng.pick(&[0xC4u8, 0xC4, 0xDB, 0xDD, 0xC0, 0xC2, 0xDA, 0xE0, 0xE1, 0xEE, 0xFE]);
            let p = if rng.chance(1, 2) { s.start } else { s.end };
            (m, p..p)
        };
        let x = edge_segment(m, rng);
        b.splice(at, x);
    }
    if rng.chance(1, 8) {
        let k = rng.below(b.len());
        b.truncate(k);
    }
    b
}

/// any hostile input; returns the bytes and how they were made
pub fn hostile(rng: &mut Rng) -> (Vec<u8>, &'static str) {
    match rng.below(24) {
        20..=23 => (edges(rng), "edge segments"),
        0 => {
            let n = rng.below(300);
            let mut b: Vec<u8> = (0..n).map(|_| rng.byte()).collect();
            if rng.chance(2, 3) && n > 2 {
                b[0] = 0xFF;
                b[1] = 0xD8;
            }
            (b, "random")
        }
        1..=4 => (composed(rng), "composed"),
        5 | 6 => {
            let mut b = composed(rng);
            blind(&mut b, rng);
            (b, "composed+blind")
        }
        7..=13 => {
            let e = small(rng);
            (structured(&e, rng), "structured")
        }
        14..=16 => {
            let e = small(rng);
            let mut b = structured(&e, rng);
            blind(&mut b, rng);
            (b, "structured+blind")
        }
        17 => {
            // two streams glued together at random places
            let a = small(rng).bytes;
            let c = small(rng).bytes;
            let p = rng.below(a.len());
            let q = rng.below(c.len());
            let mut b = a[..p].to_vec();
            b.extend_from_slice(&c[q..]);
            (b, "splice")
        }
        _ => {
            let mut b = small(rng).bytes;
            blind(&mut b, rng);
            (b, "blind")
        }
    }
}
