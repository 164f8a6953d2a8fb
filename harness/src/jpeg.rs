//! An independent JPEG writer. It starts from quantised DCT coefficients the
//! harness chose itself, so every stream it emits comes with its ground truth.
//! Nothing here is shared with the decoder under test.
use crate::rng::Rng;

#[rustfmt::skip]
pub const ZZ: [usize; 64] = [
    0, 1, 8, 16, 9, 2, 3, 10, 17, 24, 32, 25, 18, 11, 4, 5,
    12, 19, 26, 33, 40, 48, 41, 34, 27, 20, 13, 6, 7, 14, 21, 28,
    35, 42, 49, 56, 57, 50, 43, 36, 29, 22, 15, 23, 30, 37, 44, 51,
    58, 59, 52, 45, 38, 31, 39, 46, 53, 60, 61, 54, 47, 55, 62, 63,
];

#[derive(Clone)]
pub struct Comp {
    pub h: usize,
    pub v: usize,
    pub tq: usize,
    /// block columns/rows padded to whole MCUs
    pub bw: usize,
    pub bh: usize,
    /// block columns/rows of a non-interleaved scan of this component
    pub cbw: usize,
    pub cbh: usize,
    /// natural (row-major) order, quantised
    pub coefs: Vec<[i16; 64]>,
}

#[derive(Clone)]
pub struct Image {
    pub w: usize,
    pub h: usize,
    pub hmax: usize,
    pub vmax: usize,
    pub mcux: usize,
    pub mcuy: usize,
    pub comps: Vec<Comp>,
    /// natural order
    pub qt: [[u8; 64]; 4],
}

impl Image {
    /// `samp` is the luma sampling; chroma is 1x1
    pub fn new(w: usize, h: usize, ncomp: usize, samp: (usize, usize)) -> Image {
        let (hmax, vmax) = samp;
        let mcux = w.div_ceil(8 * hmax);
        let mcuy = h.div_ceil(8 * vmax);
        let comps = (0..ncomp)
            .map(|c| {
                let (ch, cv) = if c == 0 { samp } else { (1, 1) };
                let cw = (w * ch).div_ceil(hmax);
                let chh = (h * cv).div_ceil(vmax);
                let bw = mcux * ch;
                let bh = mcuy * cv;
                Comp {
                    h: ch,
                    v: cv,
                    tq: 0,
                    bw,
                    bh,
                    cbw: cw.div_ceil(8),
                    cbh: chh.div_ceil(8),
                    coefs: vec![[0; 64]; bw * bh],
                }
            })
            .collect();
        Image { w, h, hmax, vmax, mcux, mcuy, comps, qt: [[1; 64]; 4] }
    }
    pub fn ncomp(&self) -> usize {
        self.comps.len()
    }
    /// blocks a single-component scan never visits carry no AC energy
    pub fn zero_padding(&mut self) {
        for c in &mut self.comps {
            for by in 0..c.bh {
                for bx in 0..c.bw {
                    if by >= c.cbh || bx >= c.cbw {
                        let b = &mut c.coefs[by * c.bw + bx];
                        for k in 1..64 {
                            b[k] = 0;
                        }
                    }
                }
            }
        }
    }
}

// ---------------------------------------------------------------- Huffman

#[derive(Clone)]
pub struct Huff {
    pub bits: [u8; 17],
    pub vals: Vec<u8>,
    pub code: [u16; 256],
    pub len: [u8; 256],
}

impl Huff {
    pub fn from_spec(bits: [u8; 17], vals: Vec<u8>) -> Huff {
        let mut code = [0u16; 256];
        let mut len = [0u8; 256];
        let mut c: u32 = 0;
        let mut p = 0;
        for l in 1..=16 {
            for _ in 0..bits[l] {
                code[vals[p] as usize] = c as u16;
                len[vals[p] as usize] = l as u8;
                c += 1;
                p += 1;
            }
            c <<= 1;
        }
        Huff { bits, vals, code, len }
    }
    /// JPEG Annex K.2: code lengths from frequencies, at most 16 bits, with the
    /// all-ones code point left unused.
    pub fn from_freq(freq_in: &[u64; 256]) -> Huff {
        let mut freq = [0u64; 257];
        freq[..256].copy_from_slice(freq_in);
        freq[256] = 1;
        let mut codesize = [0usize; 257];
        let mut others = [usize::MAX; 257];
        loop {
            let mut c1 = usize::MAX;
            let mut v = u64::MAX;
            for i in 0..257 {
                if freq[i] != 0 && freq[i] <= v {
                    v = freq[i];
                    c1 = i;
                }
            }
            let mut c2 = usize::MAX;
            v = u64::MAX;
            for i in 0..257 {
                if freq[i] != 0 && freq[i] <= v && i != c1 {
                    v = freq[i];
                    c2 = i;
                }
            }
            if c2 == usize::MAX {
                break;
            }
            freq[c1] += freq[c2];
            freq[c2] = 0;
            let mut c = c1;
            loop {
                codesize[c] += 1;
                if others[c] == usize::MAX {
                    break;
                }
                c = others[c];
            }
            others[c] = c2;
            c = c2;
            loop {
                codesize[c] += 1;
                if others[c] == usize::MAX {
                    break;
                }
                c = others[c];
            }
        }
        let mut bits = [0i32; 300];
        for i in 0..257 {
            if codesize[i] > 0 {
                bits[codesize[i]] += 1;
            }
        }
        let mut i = 299;
        while i > 16 {
            while bits[i] > 0 {
                let mut j = i - 2;
                while bits[j] == 0 {
                    j -= 1;
                }
                bits[i] -= 2;
                bits[i - 1] += 1;
                bits[j + 1] += 2;
                bits[j] -= 1;
            }
            i -= 1;
        }
        i = 16;
        while bits[i] == 0 {
            i -= 1;
        }
        bits[i] -= 1; // the reserved symbol
        let mut order: Vec<usize> = (0..256).filter(|&s| codesize[s] > 0).collect();
        order.sort_by_key(|&s| (codesize[s], s));
        let mut b = [0u8; 17];
        for l in 1..=16 {
            b[l] = bits[l] as u8;
        }
        Huff::from_spec(b, order.into_iter().map(|s| s as u8).collect())
    }
}

impl Huff {
    /// the same symbols with longer codes and in another order; still a prefix
    /// code, the all-ones code stays unused
    pub fn stretched(&self, rng: &mut Rng) -> Huff {
        let mut l: Vec<(u8, u64, u8)> = vec![];
        let den = 1 + rng.below(6);
        let single = self.vals.len() == 1;
        for &s in &self.vals {
            let mut n = self.len[s as usize];
            while n < 16 && rng.chance(1, den + 1) {
                n += 1;
            }
            if single && rng.chance(1, 2) {
                n = rng.range(1, 16) as u8;
            }
            l.push((n, rng.next(), s));
        }
        l.sort_unstable();
        let mut bits = [0u8; 17];
        for x in &l {
            bits[x.0 as usize] += 1;
        }
        Huff::from_spec(bits, l.into_iter().map(|x| x.2).collect())
    }
}

fn spec(bits: [u8; 16], vals: &[u8]) -> Huff {
    let mut b = [0u8; 17];
    b[1..].copy_from_slice(&bits);
    Huff::from_spec(b, vals.to_vec())
}
pub fn std_dc(chroma: bool) -> Huff {
    let v: Vec<u8> = (0..12).collect();
    if chroma {
        spec([0, 3, 1, 1, 1, 1, 1, 1, 1, 1, 1, 0, 0, 0, 0, 0], &v)
    } else {
        spec([0, 1, 5, 1, 1, 1, 1, 1, 1, 0, 0, 0, 0, 0, 0, 0], &v)
    }
}
#[rustfmt::skip]
pub fn std_ac(chroma: bool) -> Huff {
    if chroma {
        spec([0, 2, 1, 2, 4, 4, 3, 4, 7, 5, 4, 4, 0, 1, 2, 0x77], &[
            0x00,0x01,0x02,0x03,0x11,0x04,0x05,0x21,0x31,0x06,0x12,0x41,0x51,0x07,0x61,0x71,
            0x13,0x22,0x32,0x81,0x08,0x14,0x42,0x91,0xa1,0xb1,0xc1,0x09,0x23,0x33,0x52,0xf0,
            0x15,0x62,0x72,0xd1,0x0a,0x16,0x24,0x34,0xe1,0x25,0xf1,0x17,0x18,0x19,0x1a,0x26,
            0x27,0x28,0x29,0x2a,0x35,0x36,0x37,0x38,0x39,0x3a,0x43,0x44,0x45,0x46,0x47,0x48,
            0x49,0x4a,0x53,0x54,0x55,0x56,0x57,0x58,0x59,0x5a,0x63,0x64,0x65,0x66,0x67,0x68,
            0x69,0x6a,0x73,0x74,0x75,0x76,0x77,0x78,0x79,0x7a,0x82,0x83,0x84,0x85,0x86,0x87,
            0x88,0x89,0x8a,0x92,0x93,0x94,0x95,0x96,0x97,0x98,0x99,0x9a,0xa2,0xa3,0xa4,0xa5,
            0xa6,0xa7,0xa8,0xa9,0xaa,0xb2,0xb3,0xb4,0xb5,0xb6,0xb7,0xb8,0xb9,0xba,0xc2,0xc3,
            0xc4,0xc5,0xc6,0xc7,0xc8,0xc9,0xca,0xd2,0xd3,0xd4,0xd5,0xd6,0xd7,0xd8,0xd9,0xda,
            0xe2,0xe3,0xe4,0xe5,0xe6,0xe7,0xe8,0xe9,0xea,0xf2,0xf3,0xf4,0xf5,0xf6,0xf7,0xf8,
            0xf9,0xfa])
    } else {
        spec([0, 2, 1, 3, 3, 2, 4, 3, 5, 5, 4, 4, 0, 0, 1, 0x7d], &[
            0x01,0x02,0x03,0x00,0x04,0x11,0x05,0x12,0x21,0x31,0x41,0x06,0x13,0x51,0x61,0x07,
            0x22,0x71,0x14,0x32,0x81,0x91,0xa1,0x08,0x23,0x42,0xb1,0xc1,0x15,0x52,0xd1,0xf0,
            0x24,0x33,0x62,0x72,0x82,0x09,0x0a,0x16,0x17,0x18,0x19,0x1a,0x25,0x26,0x27,0x28,
            0x29,0x2a,0x34,0x35,0x36,0x37,0x38,0x39,0x3a,0x43,0x44,0x45,0x46,0x47,0x48,0x49,
            0x4a,0x53,0x54,0x55,0x56,0x57,0x58,0x59,0x5a,0x63,0x64,0x65,0x66,0x67,0x68,0x69,
            0x6a,0x73,0x74,0x75,0x76,0x77,0x78,0x79,0x7a,0x83,0x84,0x85,0x86,0x87,0x88,0x89,
            0x8a,0x92,0x93,0x94,0x95,0x96,0x97,0x98,0x99,0x9a,0xa2,0xa3,0xa4,0xa5,0xa6,0xa7,
            0xa8,0xa9,0xaa,0xb2,0xb3,0xb4,0xb5,0xb6,0xb7,0xb8,0xb9,0xba,0xc2,0xc3,0xc4,0xc5,
            0xc6,0xc7,0xc8,0xc9,0xca,0xd2,0xd3,0xd4,0xd5,0xd6,0xd7,0xd8,0xd9,0xda,0xe1,0xe2,
            0xe3,0xe4,0xe5,0xe6,0xe7,0xe8,0xe9,0xea,0xf1,0xf2,0xf3,0xf4,0xf5,0xf6,0xf7,0xf8,
            0xf9,0xfa])
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum HuffKind {
    /// Annex K tables (sequential scans only)
    Std,
    /// frequency optimal
    Opt,
    /// random code lengths, unused symbols included
    Rand,
    /// short codes for large magnitudes / long runs
    Inv,
    /// almost every code 9..16 bits long
    Long,
    /// every symbol a table can list has a code
    Full,
    /// code space with holes, symbols of one length in any order
    Sparse,
}

// ---------------------------------------------------------------- tokens

#[derive(Clone)]
pub enum Tok {
    Sym { ac: bool, slot: u8, sym: u8, bits: u32, n: u8 },
    Raw { bits: u32, n: u8 },
    Rst(u8),
    /// end of an MCU, nothing is written
    End,
}

#[derive(Clone, Debug)]
pub struct Scan {
    pub comps: Vec<usize>,
    pub ss: usize,
    pub se: usize,
    pub ah: usize,
    pub al: usize,
    /// restart interval in MCUs, 0 = none
    pub ri: usize,
}

fn cat(v: i32) -> u8 {
    (32 - v.unsigned_abs().leading_zeros()) as u8
}
fn magbits(v: i32, n: u8) -> u32 {
    (if v < 0 { v + (1 << n) - 1 } else { v }) as u32
}

/// Point transform of a coefficient
fn pt(v: i16, al: usize, dc: bool) -> i32 {
    let v = i32::from(v);
    if dc {
        v >> al
    } else if v < 0 {
        -((-v) >> al)
    } else {
        v >> al
    }
}

struct ProgAc {
    run: u32,
    corr: Vec<u8>, // correction bits belonging to the pending EOB run
}

impl ProgAc {
    fn flush(&mut self, slot: u8, out: &mut Vec<Tok>) {
        if self.run > 0 {
            let n = 31 - self.run.leading_zeros();
            out.push(Tok::Sym { ac: true, slot, sym: (n << 4) as u8, bits: self.run - (1 << n), n: n as u8 });
            self.run = 0;
        }
        for b in self.corr.drain(..) {
            out.push(Tok::Raw { bits: u32::from(b), n: 1 });
        }
    }
}

#[derive(Default, Clone)]
pub struct ScanStats {
    pub restarts: u64,
    pub max_eobrun: u32,
    pub corr_bits: u64,
    pub zrl: u64,
    pub blocks: u64,
}

/// Tokenise one scan.
#[allow(clippy::too_many_arguments)]
pub fn tokenise(
    img: &Image, progressive: bool, sc: &Scan, dcs: &[u8], acs: &[u8], eob_flush_den: usize, rng: &mut Rng,
    st: &mut ScanStats,
) -> Vec<Tok> {
    let mut out = Vec::new();
    let mut pred = vec![0i32; img.ncomp()];
    let single = sc.comps.len() == 1;
    let (mx, my) = if single {
        let c = &img.comps[sc.comps[0]];
        (c.cbw, c.cbh)
    } else {
        (img.mcux, img.mcuy)
    };
    let total = mx * my;
    let mut pa = ProgAc { run: 0, corr: vec![] };
    let mut rst = 0u8;
    for m in 0..total {
        if sc.ri > 0 && m > 0 && m % sc.ri == 0 {
            if progressive && sc.ss > 0 {
                pa.flush(acs[sc.comps[0]], &mut out);
            }
            out.push(Tok::Rst(rst));
            rst = (rst + 1) & 7;
            st.restarts += 1;
            pred.iter_mut().for_each(|p| *p = 0);
        }
        let (mj, mi) = (m % mx, m / mx);
        for &ci in &sc.comps {
            let c = &img.comps[ci];
            let (hh, vv) = if single { (1, 1) } else { (c.h, c.v) };
            for v in 0..vv {
                for h in 0..hh {
                    let b = &c.coefs[(mi * vv + v) * c.bw + mj * hh + h];
                    st.blocks += 1;
                    if !progressive {
                        block_seq(b, &mut pred[ci], dcs[ci], acs[ci], &mut out, st);
                    } else if sc.ss == 0 {
                        if sc.ah == 0 {
                            let d = pt(b[0], sc.al, true);
                            let diff = d - pred[ci];
                            pred[ci] = d;
                            let n = cat(diff);
                            out.push(Tok::Sym { ac: false, slot: dcs[ci], sym: n, bits: magbits(diff, n), n });
                        } else {
                            out.push(Tok::Raw { bits: ((i32::from(b[0]) >> sc.al) & 1) as u32, n: 1 });
                        }
                    } else {
                        if sc.ah == 0 {
                            block_ac_first(b, sc, acs[ci], &mut pa, &mut out, st);
                        } else {
                            block_ac_refine(b, sc, acs[ci], &mut pa, &mut out, st);
                        }
                        st.max_eobrun = st.max_eobrun.max(pa.run);
                        if pa.run == 0x7fff || pa.corr.len() > 900 || (eob_flush_den > 0 && rng.chance(1, eob_flush_den)) {
                            pa.flush(acs[ci], &mut out);
                        }
                    }
                }
            }
        }
        if !progressive {
            out.push(Tok::End);
        }
    }
    if progressive && sc.ss > 0 {
        pa.flush(acs[sc.comps[0]], &mut out);
    }
    out
}

fn block_seq(b: &[i16; 64], pred: &mut i32, dslot: u8, aslot: u8, out: &mut Vec<Tok>, st: &mut ScanStats) {
    let d = i32::from(b[0]);
    let diff = d - *pred;
    *pred = d;
    let n = cat(diff);
    out.push(Tok::Sym { ac: false, slot: dslot, sym: n, bits: magbits(diff, n), n });
    let mut r = 0u8;
    for k in 1..64 {
        let v = i32::from(b[ZZ[k]]);
        if v == 0 {
            r += 1;
            continue;
        }
        while r > 15 {
            out.push(Tok::Sym { ac: true, slot: aslot, sym: 0xF0, bits: 0, n: 0 });
            st.zrl += 1;
            r -= 16;
        }
        let n = cat(v);
        out.push(Tok::Sym { ac: true, slot: aslot, sym: (r << 4) | n, bits: magbits(v, n), n });
        r = 0;
    }
    if r > 0 {
        out.push(Tok::Sym { ac: true, slot: aslot, sym: 0, bits: 0, n: 0 });
    }
}

fn block_ac_first(b: &[i16; 64], sc: &Scan, slot: u8, pa: &mut ProgAc, out: &mut Vec<Tok>, st: &mut ScanStats) {
    let mut r = 0u8;
    for k in sc.ss..=sc.se {
        let v = pt(b[ZZ[k]], sc.al, false);
        if v == 0 {
            r += 1;
            continue;
        }
        pa.flush(slot, out);
        while r > 15 {
            out.push(Tok::Sym { ac: true, slot, sym: 0xF0, bits: 0, n: 0 });
            st.zrl += 1;
            r -= 16;
        }
        let n = cat(v);
        out.push(Tok::Sym { ac: true, slot, sym: (r << 4) | n, bits: magbits(v, n), n });
        r = 0;
    }
    if r > 0 {
        pa.run += 1;
    }
}

fn block_ac_refine(b: &[i16; 64], sc: &Scan, slot: u8, pa: &mut ProgAc, out: &mut Vec<Tok>, st: &mut ScanStats) {
    let a: Vec<i32> = (sc.ss..=sc.se).map(|k| pt(b[ZZ[k]], sc.al, false).abs()).collect();
    // index of the last newly significant coefficient
    let eob = a.iter().rposition(|&x| x == 1);
    let mut r = 0u8;
    let mut br: Vec<u8> = vec![];
    for (i, &t) in a.iter().enumerate() {
        if t == 0 {
            r += 1;
            continue;
        }
        while r > 15 && eob.is_some_and(|e| i <= e) {
            pa.flush(slot, out);
            out.push(Tok::Sym { ac: true, slot, sym: 0xF0, bits: 0, n: 0 });
            st.zrl += 1;
            r -= 16;
            for x in br.drain(..) {
                out.push(Tok::Raw { bits: u32::from(x), n: 1 });
                st.corr_bits += 1;
            }
        }
        if t > 1 {
            br.push((t & 1) as u8);
            continue;
        }
        pa.flush(slot, out);
        let neg = b[ZZ[sc.ss + i]] < 0;
        out.push(Tok::Sym { ac: true, slot, sym: (r << 4) | 1, bits: u32::from(!neg), n: 1 });
        for x in br.drain(..) {
            out.push(Tok::Raw { bits: u32::from(x), n: 1 });
            st.corr_bits += 1;
        }
        r = 0;
    }
    if r > 0 || !br.is_empty() {
        pa.run += 1;
        st.corr_bits += br.len() as u64;
        pa.corr.append(&mut br);
    }
}

// ---------------------------------------------------------------- tables

fn legal_ac_extra(progressive: bool, rng: &mut Rng) -> u8 {
    loop {
        let run = rng.below(16) as u8;
        let size = rng.below(11) as u8;
        if size == 0 && !progressive && run != 0 && run != 15 {
            continue;
        }
        return (run << 4) | size;
    }
}

/// Build the table of each (class, slot) used by the tokens
pub fn build_tables(toks: &[Tok], kind: HuffKind, progressive: bool, rng: &mut Rng) -> Vec<(bool, u8, Huff)> {
    let mut freq = vec![[0u64; 256]; 8];
    for t in toks {
        if let Tok::Sym { ac, slot, sym, .. } = t {
            freq[usize::from(*ac) * 4 + *slot as usize][*sym as usize] += 1;
        }
    }
    let mut v = vec![];
    for i in 0..8 {
        let ac = i >= 4;
        if freq[i].iter().all(|&f| f == 0) {
            continue;
        }
        let f = &mut freq[i];
        let mut kind = kind;
        if kind == HuffKind::Std {
            let t = if ac { std_ac(i & 1 == 1) } else { std_dc(i & 1 == 1) };
            if (0..256).all(|s| f[s] == 0 || t.len[s] > 0) {
                v.push((ac, (i & 3) as u8, t));
                continue;
            }
            kind = HuffKind::Opt;
        }
        match kind {
            HuffKind::Std | HuffKind::Opt | HuffKind::Sparse => {}
            HuffKind::Full => {
                let skew = rng.below(12) as f64;
                let legal_only = rng.chance(1, 3);
                for s in 0..256usize {
                    let (r, z) = (s >> 4, s & 15);
                    let legal = if ac { z <= 10 && (z != 0 || r == 0 || r == 15 || (progressive && r < 15)) } else { s <= 11 };
                    if f[s] > 0 || legal || (ac && !legal_only) {
                        f[s] = (2f64.powf(rng.f() * skew) * 64.0) as u64;
                    }
                }
            }
            HuffKind::Rand | HuffKind::Inv | HuffKind::Long => {
                let extra = rng.below(if ac { 60 } else { 8 });
                for _ in 0..extra {
                    let s = if ac { legal_ac_extra(progressive, rng) } else { rng.below(12) as u8 };
                    f[s as usize] = f[s as usize].max(1);
                }
                for s in 0..256usize {
                    if f[s] == 0 {
                        continue;
                    }
                    let e = match kind {
                        HuffKind::Rand => rng.f() * 14.0,
                        HuffKind::Inv => {
                            let m = (s & 15) as f64;
                            let r = (s >> 4) as f64;
                            m * 1.2 + r * 0.3 + rng.f()
                        }
                        _ => rng.f(),
                    };
                    f[s] = (2f64.powf(e) * 64.0) as u64 + 1;
                }
                if kind == HuffKind::Long {
                    // one symbol that is (almost) never used eats half the code
                    // space at every level, pushing all others to long codes
                    let mut big = 1u64 << 30;
                    let mut placed = 0;
                    for s in 0..256usize {
                        if placed == 8 {
                            break;
                        }
                        let legal = if ac {
                            let (r, z) = (s >> 4, s & 15);
                            z <= 10 && (z != 0 || r == 0 || r == 15)
                        } else {
                            s <= 11
                        };
                        if legal && f[s] == 0 {
                            f[s] = big << 8;
                            big >>= 1;
                            placed += 1;
                        }
                    }
                }
            }
        }
        let mut t = Huff::from_freq(f);
        if kind == HuffKind::Sparse || (kind != HuffKind::Opt && rng.chance(1, 4)) {
            t = t.stretched(rng);
        }
        v.push((ac, (i & 3) as u8, t));
    }
    v
}

/// some valid table, never the one a scan wants
fn decoy_table(ac: bool, rng: &mut Rng) -> Huff {
    match rng.below(3) {
        0 if ac => std_ac(rng.chance(1, 2)),
        0 => std_dc(rng.chance(1, 2)),
        1 => {
            let mut f = [0u64; 256];
            let k = if ac { usize::from(legal_ac_extra(false, rng)) } else { rng.below(12) };
            f[k] = 1;
            Huff::from_freq(&f).stretched(rng)
        }
        _ => {
            let mut f = [0u64; 256];
            for _ in 0..1 + rng.below(80) {
                let s = if ac { usize::from(legal_ac_extra(false, rng)) } else { rng.below(12) };
                f[s] = 1 + rng.below(1000) as u64;
            }
            Huff::from_freq(&f).stretched(rng)
        }
    }
}

// ---------------------------------------------------------------- bits

pub struct BitW<'a> {
    pub out: &'a mut Vec<u8>,
    acc: u64,
    n: u32,
}
impl<'a> BitW<'a> {
    pub fn new(out: &'a mut Vec<u8>) -> Self {
        BitW { out, acc: 0, n: 0 }
    }
    pub fn put(&mut self, bits: u32, n: u32) {
        if n == 0 {
            return;
        }
        self.acc = (self.acc << n) | (u64::from(bits) & ((1u64 << n) - 1));
        self.n += n;
        while self.n >= 8 {
            let b = (self.acc >> (self.n - 8)) as u8;
            self.out.push(b);
            if b == 0xFF {
                self.out.push(0);
            }
            self.n -= 8;
        }
    }
    pub fn align(&mut self) {
        if self.n > 0 {
            let pad = 8 - self.n;
            self.put((1 << pad) - 1, pad);
        }
    }
}

// ---------------------------------------------------------------- container

#[derive(Clone, Debug)]
pub struct EncOpts {
    pub progressive: bool,
    pub scans: Vec<Scan>,
    pub huff: HuffKind,
    pub dcs: Vec<u8>,
    pub acs: Vec<u8>,
    /// 1/den chance of ending an EOB run early; 0 = never
    pub eob_flush_den: usize,
    /// quantisation tables: one segment each, or all in one
    pub split_dqt: bool,
    pub split_dht: bool,
    /// first scan's DHT in front of the frame header
    pub dht_first: bool,
    pub dri_first: bool,
    pub extra_segs: usize,
    /// markers between scans may be preceded by application segments
    pub extra_between: bool,
    /// 0xFF fill bytes before markers: 1/den chance
    pub fill_den: usize,
    pub trailing: usize,
    pub app0: bool,
    /// fill bytes in front of the EOI/marker that ends a scan and RSTn
    pub fill_in_scan: bool,
    /// tables that are overwritten before use or never used, repeated DRI
    pub decoys: bool,
    /// segments of up to 65535 bytes
    pub long_segs: usize,
}

impl EncOpts {
    pub fn plain(img: &Image) -> EncOpts {
        let n = img.ncomp();
        EncOpts {
            progressive: false,
            scans: vec![Scan { comps: (0..n).collect(), ss: 0, se: 63, ah: 0, al: 0, ri: 0 }],
            huff: HuffKind::Std,
            dcs: (0..n).map(|c| u8::from(c > 0)).collect(),
            acs: (0..n).map(|c| u8::from(c > 0)).collect(),
            eob_flush_den: 0,
            split_dqt: true,
            split_dht: true,
            dht_first: false,
            dri_first: false,
            extra_segs: 0,
            extra_between: false,
            fill_den: 0,
            trailing: 0,
            app0: true,
            fill_in_scan: false,
            decoys: false,
            long_segs: 0,
        }
    }
    pub fn with_ri(mut self, ri: usize) -> EncOpts {
        for s in &mut self.scans {
            s.ri = ri;
        }
        self
    }
}

#[derive(Clone)]
pub struct Seg {
    pub marker: u8,
    pub start: usize,
    pub end: usize,
}

#[derive(Clone)]
pub struct Enc {
    pub bytes: Vec<u8>,
    pub segs: Vec<Seg>,
    /// (start, end) of entropy coded data per scan
    pub ecs: Vec<(usize, usize)>,
    pub stats: ScanStats,
    pub max_code: u8,
    /// sequential scans: offset behind the last byte holding bits of each MCU
    pub mcu_end: Vec<usize>,
    /// offsets of the restart markers (their 0xFF)
    pub rst_pos: Vec<usize>,
}

struct W<'a> {
    out: Vec<u8>,
    segs: Vec<Seg>,
    rng: &'a mut Rng,
    fill_den: usize,
}
impl W<'_> {
    fn marker(&mut self, m: u8) -> usize {
        let start = self.out.len();
        if self.fill_den > 0 && start > 2 {
            while self.rng.chance(1, self.fill_den) {
                self.out.push(0xFF);
            }
        }
        self.out.push(0xFF);
        self.out.push(m);
        start
    }
    fn seg(&mut self, m: u8, body: &[u8]) {
        let start = self.marker(m);
        let l = body.len() + 2;
        self.out.push((l >> 8) as u8);
        self.out.push(l as u8);
        self.out.extend_from_slice(body);
        let end = self.out.len();
        self.segs.push(Seg { marker: m, start, end });
    }
    /// an application / comment / otherwise ignorable segment with a payload
    /// full of things that look like markers
    fn junk_seg(&mut self) {
        let m = if self.rng.chance(1, 5) { 0xFE } else { 0xE0 + self.rng.below(16) as u8 };
        let n = match self.rng.below(5) {
            0 => 0,
            1 => self.rng.below(4),
            2 => self.rng.below(40),
            3 => *self.rng.pick(&[126usize, 127, 128, 254, 255, 256, 510, 511]),
            _ => self.rng.below(400),
        };
        let mut body: Vec<u8> = (0..n)
            .map(|_| if self.rng.chance(1, 3) { *self.rng.pick(&[0xFF, 0xD9, 0xD8, 0xDA, 0xC0, 0xC4, 0x00, 0xD0]) } else { self.rng.byte() })
            .collect();
        if self.rng.chance(1, 3) {
            // well known payloads, possibly cut short
            let id: &[u8] = match m {
                0xE0 => *self.rng.pick(&[b"JFIF\0\x01\x02\x01\0\x48\0\x48\0\0".as_slice(), b"JFXX\0\x10"]),
                0xE1 => *self.rng.pick(&[b"Exif\0\0MM\0*\0\0\0\x08".as_slice(), b"http://ns.adobe.com/xap/1.0/\0"]),
                0xE2 => b"ICC_PROFILE\0\x01\x01",
                0xED => b"Photoshop 3.0\0",
                // the transform flag says YCbCr, or nothing
                0xEE => b"Adobe\0\x64\0\0\0\0\x01",
                _ => b"",
            };
            for (a, b) in body.iter_mut().zip(id) {
                *a = *b;
            }
            if m == 0xEE && body.len() > 11 {
                body[11] = 1;
            }
            if m == 0xE1 && self.rng.chance(1, 3) {
                // complete, with an orientation
                body = b"Exif\0\0MM\0*\0\0\0\x08\0\x01\x01\x12\0\x03\0\0\0\x01\0\x06\0\0\0\0\0\0".to_vec();
                body[25] = 1 + self.rng.below(8) as u8;
            }
        }
        self.seg(m, &body);
    }
    fn long_seg(&mut self) {
        let m = if self.rng.chance(1, 4) { 0xFE } else { 0xE0 + self.rng.below(16) as u8 };
        let n = *self.rng.pick(&[65533usize, 65533, 65532, 65531, 32765, 32766, 32764, 16382, 40000, 8190, 4094, 60000]);
        let b = self.rng.byte();
        let style = self.rng.below(3);
        let mut x = self.rng.next();
        let body: Vec<u8> = (0..n)
            .map(|i| match style {
                0 => b,
                1 => [0xFF, 0xD9, 0xFF, 0xDA, 0x00, 0xFF, 0xD8, 0xFF][i & 7],
                _ => {
                    x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
                    (x >> 56) as u8
                }
            })
            .collect();
        self.seg(m, &body);
    }
}

pub fn encode(img: &Image, o: &EncOpts, rng: &mut Rng) -> Enc {
    let mut st = ScanStats::default();
    let mut per_scan: Vec<(Vec<Tok>, Vec<(bool, u8, Huff)>)> = vec![];
    let mut max_code = 0;
    for sc in &o.scans {
        let toks = tokenise(img, o.progressive, sc, &o.dcs, &o.acs, o.eob_flush_den, rng, &mut st);
        let tabs = build_tables(&toks, o.huff, o.progressive, rng);
        for (_, _, h) in &tabs {
            for l in 1..=16 {
                if h.bits[l] > 0 {
                    max_code = max_code.max(l as u8);
                }
            }
        }
        per_scan.push((toks, tabs));
    }
    let mut w = W { out: vec![0xFF, 0xD8], segs: vec![], rng, fill_den: o.fill_den };
    w.segs.push(Seg { marker: 0xD8, start: 0, end: 2 });
    if o.app0 {
        w.seg(0xE0, b"JFIF\0\x01\x01\0\0\x01\0\x01\0\0");
    }
    let mut extra = o.extra_segs;
    fn junk(w: &mut W, extra: &mut usize) {
        while *extra > 0 && w.rng.chance(1, 2) {
            *extra -= 1;
            w.junk_seg();
        }
    }
    junk(&mut w, &mut extra);
    let mut long = o.long_segs;
    while long > 0 && w.rng.chance(2, 3) {
        long -= 1;
        w.long_seg();
    }
    let write_dht = |w: &mut W, tabs: &[(bool, u8, Huff)]| {
        let bodies: Vec<Vec<u8>> = tabs
            .iter()
            .map(|(ac, slot, h)| {
                let mut b = vec![(u8::from(*ac) << 4) | slot];
                b.extend_from_slice(&h.bits[1..]);
                b.extend_from_slice(&h.vals);
                b
            })
            .collect();
        if o.split_dht {
            for b in &bodies {
                w.seg(0xC4, b);
            }
        } else if !bodies.is_empty() {
            w.seg(0xC4, &bodies.concat());
        }
    };
    let write_dri = |w: &mut W, ri: usize| w.seg(0xDD, &[(ri >> 8) as u8, ri as u8]);
    let mut cur_ri = 0;
    let decoy_dht = |w: &mut W| {
        let mut t: Vec<(bool, u8, Huff)> = vec![];
        for _ in 0..1 + w.rng.below(8) {
            let ac = w.rng.chance(1, 2);
            let h = decoy_table(ac, w.rng);
            t.push((ac, w.rng.below(4) as u8, h));
        }
        write_dht(w, &t);
    };
    if o.decoys && w.rng.chance(1, 2) {
        decoy_dht(&mut w);
    }
    if o.decoys && w.rng.chance(1, 3) {
        cur_ri = w.rng.below(5);
        write_dri(&mut w, cur_ri);
    }
    if o.dri_first && o.scans[0].ri > 0 {
        write_dri(&mut w, o.scans[0].ri);
        cur_ri = o.scans[0].ri;
    }
    let mut dht_done = false;
    if o.dht_first && w.rng.chance(1, 2) {
        write_dht(&mut w, &per_scan[0].1);
        dht_done = true;
        junk(&mut w, &mut extra);
    }
    // DQT
    let mut used: Vec<usize> = img.comps.iter().map(|c| c.tq).collect();
    used.sort_unstable();
    used.dedup();
    if o.decoys && w.rng.chance(1, 2) {
        for _ in 0..1 + w.rng.below(4) {
            let mut b = vec![w.rng.below(4) as u8];
            b.extend((0..64).map(|_| w.rng.range(1, 255) as u8));
            w.seg(0xDB, &b);
        }
    }
    if w.rng.chance(1, 2) {
        w.rng.shuffle(&mut used);
    }
    let bodies: Vec<Vec<u8>> = used
        .iter()
        .map(|&t| {
            let mut b = vec![t as u8];
            b.extend((0..64).map(|k| img.qt[t][ZZ[k]]));
            b
        })
        .collect();
    if o.split_dqt {
        for b in &bodies {
            w.seg(0xDB, b);
            junk(&mut w, &mut extra);
        }
    } else {
        w.seg(0xDB, &bodies.concat());
    }
    if o.dht_first && !dht_done {
        write_dht(&mut w, &per_scan[0].1);
        dht_done = true;
    }
    junk(&mut w, &mut extra);
    // SOF
    let mut b = vec![8, (img.h >> 8) as u8, img.h as u8, (img.w >> 8) as u8, img.w as u8, img.ncomp() as u8];
    for (i, c) in img.comps.iter().enumerate() {
        b.extend_from_slice(&[i as u8 + 1, ((c.h << 4) | c.v) as u8, c.tq as u8]);
    }
    w.seg(if o.progressive { 0xC2 } else { 0xC0 }, &b);
    junk(&mut w, &mut extra);
    while long > 0 {
        long -= 1;
        w.long_seg();
    }
    let mut ecs = vec![];
    let mut mcu_end = vec![];
    let mut rst_pos = vec![];
    for (i, sc) in o.scans.iter().enumerate() {
        if i > 0 && o.extra_between && w.rng.chance(1, 2) {
            w.junk_seg();
        }
        if o.decoys && w.rng.chance(1, 4) {
            cur_ri = w.rng.below(70000) % 65536;
            write_dri(&mut w, cur_ri);
        }
        if sc.ri != cur_ri || (o.decoys && w.rng.chance(1, 4)) {
            write_dri(&mut w, sc.ri);
            cur_ri = sc.ri;
        }
        if o.decoys && !(i == 0 && dht_done) && w.rng.chance(1, 4) {
            decoy_dht(&mut w);
        }
        if !(i == 0 && dht_done) {
            write_dht(&mut w, &per_scan[i].1);
        }
        if i == 0 {
            while extra > 0 {
                extra -= 1;
                w.junk_seg();
            }
        }
        let mut b = vec![sc.comps.len() as u8];
        for &c in &sc.comps {
            b.push(c as u8 + 1);
            // slots not needed by the scan may name tables that do not exist
            let need_dc = !o.progressive || (sc.ss == 0 && sc.ah == 0);
            let need_ac = !o.progressive || sc.ss > 0;
            let d = if need_dc { o.dcs[c] } else { 0 };
            let a = if need_ac { o.acs[c] } else { 0 };
            b.push((d << 4) | a);
        }
        b.extend_from_slice(&[sc.ss as u8, sc.se as u8, ((sc.ah << 4) | sc.al) as u8]);
        w.seg(0xDA, &b);
        let start = w.out.len();
        let (toks, tabs) = &per_scan[i];
        let mut lut: [Option<&Huff>; 8] = [None; 8];
        for (ac, slot, h) in tabs {
            lut[usize::from(*ac) * 4 + *slot as usize] = Some(h);
        }
        let mut rfill: Vec<usize> = vec![];
        if o.fill_in_scan {
            for _ in 0..64 {
                rfill.push(if w.rng.chance(1, 4) { w.rng.below(3) } else { 0 });
            }
        }
        let mut nr = 0;
        {
            let mut bw = BitW::new(&mut w.out);
            for t in toks {
                match t {
                    Tok::Sym { ac, slot, sym, bits, n } => {
                        let h = lut[usize::from(*ac) * 4 + *slot as usize].unwrap();
                        let l = h.len[*sym as usize];
                        assert!(l > 0, "symbol without code");
                        bw.put(u32::from(h.code[*sym as usize]), u32::from(l));
                        bw.put(*bits, u32::from(*n));
                    }
                    Tok::Raw { bits, n } => bw.put(*bits, u32::from(*n)),
                    Tok::End => mcu_end.push(bw.out.len() + usize::from(bw.n > 0)),
                    Tok::Rst(m) => {
                        bw.align();
                        rst_pos.push(bw.out.len());
                        if !rfill.is_empty() {
                            for _ in 0..rfill[nr % 64] {
                                bw.out.push(0xFF);
                            }
                            nr += 1;
                        }
                        bw.out.push(0xFF);
                        bw.out.push(0xD0 + m);
                    }
                }
            }
            bw.align();
        }
        ecs.push((start, w.out.len()));
    }
    if o.fill_in_scan {
        for _ in 0..w.rng.below(3) {
            w.out.push(0xFF);
        }
    }
    let s = w.marker(0xD9);
    let e = w.out.len();
    w.segs.push(Seg { marker: 0xD9, start: s, end: e });
    for _ in 0..o.trailing {
        let b = w.rng.byte();
        w.out.push(b);
    }
    Enc { bytes: w.out, segs: w.segs, ecs, stats: st, max_code, mcu_end, rst_pos }
}
