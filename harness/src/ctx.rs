//! One run of a check: deterministic cases, what was observed, what failed.
use crate::rng::{mix, Rng};
use std::collections::{BTreeMap, HashSet};
use std::io::Write;

pub struct Viol {
    pub idx: u64,
    pub sig: String,
    pub msg: String,
    pub bytes: Option<Vec<u8>>,
}

pub struct Ctx {
    pub prop: String,
    pub seed: u64,
    pub idx: u64,
    pub thorough: bool,
    pub rng: Rng,
    pub evaluations: u64,
    pub distinct: HashSet<u64>,
    pub notes: BTreeMap<String, u64>,
    pub maxima: BTreeMap<String, f64>,
    pub samples: Vec<String>,
    pub viols: Vec<Viol>,
    pub acc: crate::truth::Acc,
    /// C05: the RGB value every YCbCr value was turned into so far (top byte: known)
    pub colours: Vec<u32>,
    pub scratch: std::path::PathBuf,
}

pub fn hash_bytes(b: &[u8]) -> u64 {
    let mut h = mix(b.len() as u64);
    let mut it = b.chunks_exact(8);
    for c in &mut it {
        h = mix(h ^ u64::from_le_bytes(c.try_into().unwrap())).wrapping_add(h.rotate_left(17));
    }
    for &x in it.remainder() {
        h = mix(h ^ u64::from(x));
    }
    h
}

impl Ctx {
    pub fn new(prop: &str, seed: u64, thorough: bool, scratch: std::path::PathBuf) -> Ctx {
        Ctx {
            prop: prop.into(),
            seed,
            idx: 0,
            thorough,
            rng: Rng::new(seed, prop, 0),
            evaluations: 0,
            distinct: HashSet::new(),
            notes: BTreeMap::new(),
            maxima: BTreeMap::new(),
            samples: vec![],
            viols: vec![],
            acc: Default::default(),
            colours: vec![],
            scratch,
        }
    }
    pub fn begin(&mut self, idx: u64) {
        self.idx = idx;
        self.rng = Rng::new(self.seed, &self.prop, idx);
    }
    /// one oracle decision was taken; `key` identifies the (non-trivial) situation
    pub fn eval(&mut self, key: u64) {
        self.evaluations += 1;
        self.distinct.insert(key);
    }
    /// an oracle decision on a trivial situation
    pub fn eval_trivial(&mut self) {
        self.evaluations += 1;
    }
    pub fn note(&mut self, k: &str) {
        *self.notes.entry(k.to_string()).or_default() += 1;
    }
    pub fn add(&mut self, k: &str, n: u64) {
        *self.notes.entry(k.to_string()).or_default() += n;
    }
    pub fn max(&mut self, k: &str, v: f64) {
        let e = self.maxima.entry(k.to_string()).or_insert(f64::MIN);
        if v > *e {
            *e = v;
        }
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.samples.len() < 2 {
            let s = f();
            self.samples.push(format!("#{} {}", self.idx, s));
        }
    }
    pub fn fail(&mut self, sig: &str, msg: String, bytes: Option<&[u8]>) {
        if self.viols.len() < 4 {
            self.viols.push(Viol { idx: self.idx, sig: sig.into(), msg, bytes: bytes.map(<[u8]>::to_vec) });
        }
    }
    pub fn write(&self, path: &str, wall: f64, next: u64, complete: bool) -> std::io::Result<()> {
        let mut s = String::new();
        s.push_str(&format!(
            "{{\"prop\":{},\"seed\":{},\"evaluations\":{},\"wall_s\":{:.3},\"next\":{},\"complete\":{}",
            js(&self.prop), self.seed, self.evaluations, wall, next, complete
        ));
        s.push_str(",\"notes\":{");
        s.push_str(&self.notes.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect::<Vec<_>>().join(","));
        s.push_str("},\"maxima\":{");
        s.push_str(&self.maxima.iter().map(|(k, v)| format!("{}:{:.4}", js(k), v)).collect::<Vec<_>>().join(","));
        s.push_str("},\"acc\":[");
        s.push_str(&format!("{},{},{},{},{}", self.acc.n, self.acc.sum, self.acc.sumsq, self.acc.max, self.acc.chroma_checked));
        s.push_str("],\"samples\":[");
        s.push_str(&self.samples.iter().map(|x| js(x)).collect::<Vec<_>>().join(","));
        s.push_str("],\"viols\":[");
        let mut parts = vec![];
        for (i, v) in self.viols.iter().enumerate() {
            let mut f = String::new();
            if let Some(b) = &v.bytes {
                f = format!("{path}.v{i}.jpg");
                std::fs::write(&f, b)?;
            }
            parts.push(format!("{{\"idx\":{},\"sig\":{},\"msg\":{},\"file\":{}}}", v.idx, js(&v.sig), js(&v.msg), js(&f)));
        }
        s.push_str(&parts.join(","));
        s.push_str("]}");
        let mut h: Vec<u8> = Vec::with_capacity(self.distinct.len() * 8);
        for d in &self.distinct {
            h.extend_from_slice(&d.to_le_bytes());
        }
        std::fs::write(format!("{path}.hashes"), h)?;
        let mut f = std::fs::File::create(path)?;
        f.write_all(s.as_bytes())
    }
}

pub fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 || c as u32 == 0x7f => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
