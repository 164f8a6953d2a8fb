//! Ideal reconstruction (double precision) of the coefficients that were coded.
use crate::gen::idct;
use crate::jpeg::Image;

pub struct Plane {
    pub w: usize,
    pub h: usize,
    pub s: Vec<f32>,
    /// block has AC energy
    pub ac: Vec<bool>,
    pub bw: usize,
}

pub struct Truth {
    pub planes: Vec<Plane>,
}

pub fn truth(img: &Image) -> Truth {
    let planes = img
        .comps
        .iter()
        .map(|c| {
            let w = c.bw * 8;
            let h = c.bh * 8;
            let mut s = vec![0f32; w * h];
            let mut ac = vec![false; c.bw * c.bh];
            let q = &img.qt[c.tq];
            let mut memo: std::collections::HashMap<[i16; 64], [f64; 64]> = Default::default();
            for by in 0..c.bh {
                for bx in 0..c.bw {
                    let b = &c.coefs[by * c.bw + bx];
                    ac[by * c.bw + bx] = b[1..].iter().any(|&v| v != 0);
                    let o = *memo.entry(*b).or_insert_with(|| {
                        let mut d = [0.0; 64];
                        for k in 0..64 {
                            d[k] = f64::from(b[k]) * f64::from(q[k]);
                        }
                        idct(&d)
                    });
                    for i in 0..64 {
                        let v = (o[i] + 128.0).clamp(0.0, 255.0);
                        s[(by * 8 + i / 8) * w + bx * 8 + i % 8] = v as f32;
                    }
                }
            }
            Plane { w, h, s, ac, bw: c.bw }
        })
        .collect();
    Truth { planes }
}

#[derive(Default, Clone, Copy)]
pub struct Acc {
    /// pixels with AC energy, not saturated: sum of signed error
    pub n: u64,
    pub sum: f64,
    pub sumsq: f64,
    pub max: f64,
    /// samples more than 1 off before rounding the ideal, and all samples
    pub over: u64,
    /// images, and those with such samples
    pub images: u64,
    pub over_images: u64,
    pub all: u64,
    pub chroma_checked: u64,
    /// interpolated samples by kind (h, v, both): number, sum of signed error
    pub cn: [u64; 3],
    pub csum: [f64; 3],
}

/// within 1 of the rounded ideal
pub const TOL: f32 = 1.5;
pub const CTOL: f32 = 2.0;

/// Compare one channel of the output with the ideal plane.
/// `stride`: channels per pixel in `out`, `off`: this channel.
pub fn check_channel(
    img: &Image, t: &Truth, c: usize, out: &[u8], stride: usize, off: usize, rows: usize, acc: &mut Acc,
) -> Result<(), String> {
    let p = &t.planes[c];
    let comp = &img.comps[c];
    let (sx, sy) = (img.hmax / comp.h, img.vmax / comp.v);
    if sx == 1 && sy == 1 {
        for y in 0..rows {
            for x in 0..img.w {
                let v = f32::from(out[(y * img.w + x) * stride + off]);
                let w = p.s[y * p.w + x];
                let e = v - w;
                if e.abs() > TOL {
                    return Err(format!("component {c} pixel ({x},{y}): decoded {v}, ideal {w:.3}"));
                }
                if p.ac[(y / 8) * p.bw + x / 8] && w > 2.0 && w < 253.0 {
                    acc.n += 1;
                    acc.sum += f64::from(e);
                    acc.sumsq += f64::from(e) * f64::from(e);
                }
                acc.all += 1;
                acc.over += u64::from(e.abs() > 1.0);
                acc.max = acc.max.max(f64::from(e.abs()));
            }
        }
    } else {
        for y in 0..rows {
            let cy = y / sy;
            for x in 0..img.w {
                let cx = x / sx;
                let v = f32::from(out[(y * img.w + x) * stride + off]);
                let mut lo = f32::MAX;
                let mut hi = f32::MIN;
                let (y0, y1) = if sy > 1 { (cy.saturating_sub(1), (cy + 1).min(p.h - 1)) } else { (cy, cy) };
                let (x0, x1) = if sx > 1 { (cx.saturating_sub(1), (cx + 1).min(p.w - 1)) } else { (cx, cx) };
                for yy in y0..=y1 {
                    for xx in x0..=x1 {
                        let s = p.s[yy * p.w + xx];
                        lo = lo.min(s);
                        hi = hi.max(s);
                    }
                }
                if v < lo - CTOL || v > hi + CTOL {
                    return Err(format!(
                        "component {c} pixel ({x},{y}): decoded {v}, but chroma samples around it span {lo:.2}..{hi:.2}"
                    ));
                }
                acc.chroma_checked += 1;
                // the documented triangle filter: 3 parts of the nearest sample, 1 part of
                // the next nearest, in each subsampled direction. A decoder that works on
                // rows of MCUs may do without the sample of another such row.
                let far = |k: usize, pos: usize, n: usize| -> Option<usize> {
                    if pos % 2 == 0 { k.checked_sub(1) } else if k + 1 < n { Some(k + 1) } else { None }
                };
                let fx = if sx > 1 { far(cx, x, p.w) } else { None };
                let fy = if sy > 1 { far(cy, y, p.h) } else { None };
                let at = |yy: usize| -> f32 {
                    let n = p.s[yy * p.w + cx];
                    match fx {
                        Some(f) => (3.0 * n + p.s[yy * p.w + f]) / 4.0,
                        None => n,
                    }
                };
                let tol = if sx > 1 && sy > 1 { CTOL } else { CTOL - 0.4 };
                let near = at(cy);
                let (a, b) = match fy {
                    None => (near, near),
                    Some(f) => {
                        let w = (3.0 * near + at(f)) / 4.0;
                        if f / 8 == cy / 8 {
                            (w, w)
                        } else {
                            (w.min(near), w.max(near))
                        }
                    }
                };
                if v < a - tol || v > b + tol {
                    return Err(format!("component {c} pixel ({x},{y}): decoded {v}, the triangle filter gives {a:.2}..{b:.2}"));
                }
                if a == b && (fx.is_some() || fy.is_some()) && lo > 4.0 && hi < 251.0 && hi - lo > 1.0 {
                    let k = if sy == 1 { 0 } else if sx == 1 { 1 } else { 2 };
                    acc.cn[k] += 1;
                    acc.csum[k] += f64::from(v - a);
                }
            }
        }
    }
    Ok(())
}

pub fn check_ycc(img: &Image, t: &Truth, out: &[u8], acc: &mut Acc) -> Result<(), String> {
    let n = img.ncomp();
    if out.len() != img.w * img.h * n {
        return Err(format!("{} bytes for {}x{}x{}", out.len(), img.w, img.h, n));
    }
    for c in 0..n {
        check_channel(img, t, c, out, n, c, img.h, acc)?;
    }
    Ok(())
}
