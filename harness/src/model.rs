//! What the cut points of each algorithm are, by definition. Written from the definitions (windows
//! as sums over the bytes in them, by prefix sums) and not from the library's rolling code.
use crate::tables;
use adapt::{BuzH, Cfg, Table32, Table64, ZpaqHow};
use std::ops::Bound;
use std::sync::Arc;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Api {
    Search,
    Incr,
}

#[derive(Clone, Debug)]
pub enum Model {
    Bup { w: usize },
    Buz { k: usize, mask: u32, max: u64, t: Arc<[u32; 256]> },
    Gear { log2: u32 },
    FastCdc { t: &'static [u64; 256], min: u64, normal: u64, max: u64 },
    Gzip { w: usize, m: u64 },
    Pigz { bits: u32 },
    Zpaq { avg: u32, lo: Bound<u64>, hi: Bound<u64> },
    Zstd { bits: u32 },
    Mii { w: u64 },
    Ram { w: u64 },
}

pub const ALGOS: [&str; 10] =
    ["bup", "buzhash", "gear", "fastcdc", "gzip", "pigz", "zpaq", "zstd", "mii", "ram"];

pub fn algo(c: &Cfg) -> usize {
    match c {
        Cfg::Bup { .. } => 0,
        Cfg::Buz { .. } | Cfg::BuzNom { .. } => 1,
        Cfg::Gear { .. } => 2,
        Cfg::FastCdc { .. } => 3,
        Cfg::Gzip { .. } => 4,
        Cfg::Pigz { .. } => 5,
        Cfg::Zpaq(..) => 6,
        Cfg::Zstd { .. } => 7,
        Cfg::Mii { .. } => 8,
        Cfg::Ram { .. } => 9,
    }
}

const ZSTD_PRIME: u64 = 0xCF1B_BCDC_B7A5_6463;
pub const FAST_MASK_S: u64 = 0x0003_5907_0353_0000;
pub const FAST_MASK_L: u64 = 0x0000_d900_0353_0000;

pub fn table32(t: Table32) -> [u32; 256] {
    match t {
        Table32::Go => tables::GO,
        Table32::BorgBase => tables::BORG,
        Table32::Borg(s) => {
            let mut v = tables::BORG;
            v.iter_mut().for_each(|x| *x ^= s);
            v
        }
        Table32::Made(k, s) => *crate::gen::made32(k, s),
    }
}
pub fn table64(t: Table64) -> &'static [u64; 256] {
    match t {
        Table64::Std => &tables::GEAR64,
        Table64::Made(k, s) => crate::gen::made64(k, s),
    }
}

fn log2_floor(v: u64) -> u32 {
    63 - v.max(1).leading_zeros()
}

impl Model {
    pub fn new(c: &Cfg) -> Model {
        match c {
            Cfg::Bup { window } => Model::Bup { w: window.unwrap_or(64) },
            Cfg::BuzNom { salt } => {
                let mut t = [0; 256];
                for b in 0..256 {
                    t[b] = tables::GO[b ^ *salt as usize];
                }
                Model::Buz { k: 67, mask: (1 << 12) - 1, max: 1 << 24, t: Arc::new(t) }
            }
            Cfg::Buz { k, mask, max, hash } => {
                let t = match hash {
                    BuzH::Table(t) | BuzH::Buf(t) | BuzH::User(t) => table32(*t),
                    BuzH::Salt(s, t) => {
                        let base = table32(*t);
                        let mut t = [0; 256];
                        for b in 0..256 {
                            t[b] = base[b ^ *s as usize];
                        }
                        t
                    }
                };
                Model::Buz { k: *k, mask: *mask, max: *max, t: Arc::new(t) }
            }
            Cfg::Gear { log2 } => Model::Gear { log2: log2.unwrap_or(13) as u32 },
            Cfg::FastCdc { p } => {
                let (t, min, normal, max) = p.unwrap_or((Table64::Std, 2048, 8192, 65536));
                Model::FastCdc { t: table64(t), min, normal, max }
            }
            Cfg::Gzip { p } => {
                let (w, m) = p.unwrap_or((8192, 4096));
                Model::Gzip { w, m }
            }
            Cfg::Pigz { bits } => Model::Pigz { bits: bits.unwrap_or(12) as u32 },
            Cfg::Zpaq(h) => {
                use Bound::*;
                let pow2 = |n: u8| Model::Zpaq {
                    avg: n as u32,
                    lo: Included(64 << (n - 10)),
                    hi: Excluded(8128 << (n - 10)),
                };
                let quarter = |m: u64| log2_floor(m / 4);
                match h {
                    ZpaqHow::Default => pow2(16),
                    ZpaqHow::Pow2(n) => pow2(*n),
                    ZpaqHow::Max(m) => {
                        Model::Zpaq { avg: quarter(*m), lo: Included(m / 64), hi: Excluded(*m) }
                    }
                    ZpaqHow::Range(lo, hi) => {
                        let avg = match (lo, hi) {
                            (_, Included(i)) => quarter(*i),
                            (_, Excluded(i)) => quarter(i - 1),
                            (Included(i), Unbounded) => quarter(64 * i),
                            (Excluded(i), Unbounded) => quarter(64 * (i + 1)),
                            (Unbounded, Unbounded) => 16,
                        };
                        Model::Zpaq { avg, lo: *lo, hi: *hi }
                    }
                    ZpaqHow::AvgRange(n, lo, hi) => {
                        Model::Zpaq { avg: *n as u32, lo: *lo, hi: *hi }
                    }
                }
            }
            Cfg::Zstd { section } => {
                Model::Zstd { bits: 20 + log2_floor(section.unwrap_or(8 << 20) >> 20) }
            }
            Cfg::Mii { w } => Model::Mii { w: w.unwrap_or(5) },
            Cfg::Ram { w } => Model::Ram { w: *w },
        }
    }

    /// How many of the last bytes decide whether there is an edge after them, for the
    /// algorithms for which that is so.
    pub fn window(&self) -> Option<usize> {
        match self {
            Model::Bup { w } => Some(*w),
            Model::Buz { k, .. } => Some(*k),
            Model::Gear { .. } => Some(32),
            Model::Gzip { w, .. } => Some(*w),
            Model::Pigz { bits } => Some((*bits).max(1) as usize),
            Model::Zstd { .. } => Some(32),
            _ => None,
        }
    }
    /// How much already seen data a caller of the search API may be asked to keep.
    pub fn look_back(&self) -> usize {
        match self {
            Model::Bup { w } => *w,
            Model::Buz { k, .. } => *k,
            Model::Gzip { w, .. } => *w,
            Model::Zstd { .. } => 32,
            _ => 0,
        }
    }
    /// a length that is of interest for this configuration
    pub fn scale(&self) -> u64 {
        let s = match self {
            Model::Bup { w } => (*w as u64).max(8192),
            Model::Buz { k, mask, max, .. } => {
                (*k as u64).max((1u64 << mask.count_ones().min(20)).min(*max))
            }
            Model::Gear { log2 } => 1 << (*log2).min(20),
            Model::FastCdc { normal, max, .. } => normal.saturating_mul(2).min(*max),
            Model::Gzip { w, m } => (*w as u64).max(*m),
            Model::Pigz { bits } => 1 << (*bits).min(20),
            Model::Zpaq { avg, lo, hi } => {
                let lo = match lo {
                    Bound::Included(x) | Bound::Excluded(x) => *x,
                    Bound::Unbounded => 0,
                };
                let s = (1u64 << (*avg).min(20)).saturating_add(lo);
                match hi {
                    Bound::Included(x) | Bound::Excluded(x) => s.min(x.saturating_add(1)),
                    Bound::Unbounded => s,
                }
            }
            Model::Zstd { .. } => 200,
            Model::Mii { w } => match w {
                0 | 1 => 8,
                2 => 12,
                3 => 24,
                4 => 120,
                5 => 800,
                _ => 5000,
            },
            Model::Ram { w } => w.saturating_add(64),
        };
        s.clamp(1, 1 << 18)
    }

    fn over(hi: &Bound<u64>, n: u64) -> bool {
        match hi {
            Bound::Included(x) => n > *x,
            Bound::Excluded(x) => n >= *x,
            Bound::Unbounded => false,
        }
    }
    fn under(lo: &Bound<u64>, n: u64) -> bool {
        match lo {
            Bound::Included(x) => n < *x,
            Bound::Excluded(x) => n <= *x,
            Bound::Unbounded => false,
        }
    }
    /// the size limits: does a chunk of `n` bytes have to end; may it end for its content
    pub fn must_end(&self, n: u64) -> bool {
        match self {
            Model::Buz { max, .. } => n > *max,
            Model::FastCdc { max, .. } => n >= *max,
            Model::Zpaq { hi, .. } => Self::over(hi, n),
            _ => false,
        }
    }
    pub fn may_end(&self, n: u64) -> bool {
        if self.must_end(n) {
            return true;
        }
        match self {
            Model::FastCdc { min, .. } => n >= *min,
            Model::Zpaq { lo, .. } => !Self::under(lo, n),
            Model::Ram { w } => n >= w.saturating_add(2),
            _ => n >= 1,
        }
    }

    /// The end of the first chunk of `d`, which starts at a chunk start (not for zstd), and
    /// whether that edge is there only because of the size limit.
    pub fn first(&self, d: &[u8], api: Api) -> Option<(usize, bool)> {
        match self {
            Model::Bup { w } => {
                // s2 = const + sum over the window of (age + 1) * byte, where the newest byte
                // has age 0
                let w64 = *w as u64;
                let base = w64.wrapping_mul(w64.wrapping_sub(1)).wrapping_mul(31);
                let mut p0 = Vec::with_capacity(d.len().min(1 << 14) + 1); // sum x_i
                let mut p1 = Vec::with_capacity(d.len().min(1 << 14) + 1); // sum i * x_i, i from 1
                p0.push(0u64);
                p1.push(0u64);
                for (i, b) in d.iter().enumerate() {
                    let n = i as u64 + 1;
                    p0.push(p0[i] + *b as u64);
                    p1.push(p1[i].wrapping_add(n.wrapping_mul(*b as u64)));
                    let j = (i + 1).saturating_sub(*w);
                    let s2 = base
                        .wrapping_add((n + 1).wrapping_mul(p0[i + 1] - p0[j]))
                        .wrapping_sub(p1[i + 1].wrapping_sub(p1[j]));
                    if s2 & 0x1fff == 0x1fff {
                        return Some((i + 1, false));
                    }
                }
                None
            }
            Model::Buz { k, mask, max, t } => {
                // x[n] = xor of rotr(h(b_i), i): the hash of a window is a difference of those
                let mut x = Vec::with_capacity(d.len().min(1 << 14) + 1);
                x.push(0u32);
                for (i, b) in d.iter().enumerate() {
                    let n = i + 1;
                    x.push(x[i] ^ t[*b as usize].rotate_right((n % 32) as u32));
                    let j = n.saturating_sub(*k);
                    let h = (x[n] ^ x[j]).rotate_left((n % 32) as u32);
                    if h & mask == *mask {
                        return Some((n, false));
                    }
                    if n as u64 > *max {
                        return Some((n, true));
                    }
                }
                None
            }
            Model::Gear { log2 } => {
                let mut fp = 0u32;
                for (i, b) in d.iter().enumerate() {
                    fp = fp.wrapping_mul(2).wrapping_add(tables::GEAR32[*b as usize]);
                    if (fp as u64) >> (32 - log2) == 0 {
                        return Some((i + 1, false));
                    }
                }
                None
            }
            Model::FastCdc { t, min, normal, max } => {
                let mut fp = 0u64;
                let lim = (d.len() as u64).min(*max);
                for i in *min..lim {
                    fp = fp.wrapping_mul(2).wrapping_add(t[d[i as usize] as usize]);
                    let m = if i < *normal { FAST_MASK_S } else { FAST_MASK_L };
                    if fp & m == 0 {
                        let e = if api == Api::Search { i + 1 } else { i };
                        return Some((e as usize, false));
                    }
                }
                (d.len() as u64 >= *max).then_some((*max as usize, true))
            }
            Model::Gzip { w, m } => {
                let mut p = Vec::with_capacity(d.len().min(1 << 14) + 1);
                p.push(0u64);
                for (i, b) in d.iter().enumerate() {
                    p.push(p[i] + *b as u64);
                    if (p[i + 1] - p[(i + 1).saturating_sub(*w)]) % m == 0 {
                        return Some((i + 1, false));
                    }
                }
                None
            }
            Model::Pigz { bits } => {
                let n = 1u64 << bits;
                let hit = (n - 1) / 2;
                let mut h = hit;
                for (i, b) in d.iter().enumerate() {
                    h = (h * 2 ^ *b as u64) % n;
                    if h == hit {
                        return Some((i + 1, false));
                    }
                }
                None
            }
            Model::Zpaq { avg, lo, hi } => {
                let max_hash = 1u64 << (32 - avg);
                let (mut h, mut c1) = (0u32, 0u8);
                let mut o1 = [0u8; 256];
                for (i, c) in d.iter().enumerate() {
                    let hit = *c == o1[c1 as usize];
                    h = h
                        .wrapping_add(*c as u32 + 1)
                        .wrapping_mul(if hit { 314_159_265 } else { 271_828_182 });
                    o1[c1 as usize] = *c;
                    c1 = *c;
                    let n = i as u64 + 1;
                    if Self::over(hi, n) {
                        return Some((i + 1, true));
                    }
                    if (h as u64) < max_hash && !Self::under(lo, n) {
                        return Some((i + 1, false));
                    }
                }
                None
            }
            Model::Mii { w } => {
                // the run of increases that ends at this byte, within the chunk
                let mut run = 0u64;
                for i in 1..d.len() {
                    run = if d[i] > d[i - 1] { run + 1 } else { 0 };
                    if run == *w && *w > 0 {
                        return Some((i + 1, false));
                    }
                }
                None
            }
            Model::Ram { w } => {
                if d.len() as u64 <= w.saturating_add(1) {
                    return None;
                }
                let w = *w as usize;
                let max = *d[..=w].iter().max().unwrap();
                (w + 1..d.len()).find(|i| d[*i] >= max).map(|i| (i + 1, false))
            }
            Model::Zstd { .. } => unreachable!(),
        }
    }

    /// All edges in `d`, a whole stream.
    pub fn cuts(&self, d: &[u8], api: Api) -> Vec<usize> {
        let mut v = Vec::new();
        if let Model::Zstd { bits } = self {
            let mask = (1u64 << bits) - 1;
            // h[n] = sum of (b + 10) * P^age over all: windows are differences
            let mut p32 = 1u64;
            for _ in 0..32 {
                p32 = p32.wrapping_mul(ZSTD_PRIME);
            }
            let mut h = Vec::with_capacity(d.len() + 1);
            h.push(0u64);
            for (i, b) in d.iter().enumerate() {
                h.push(h[i].wrapping_mul(ZSTD_PRIME).wrapping_add(*b as u64 + 10));
                if i >= 32 {
                    let win = h[i + 1].wrapping_sub(h[i + 1 - 32].wrapping_mul(p32));
                    if win & mask == mask {
                        v.push(i + 1);
                    }
                }
            }
            return v;
        }
        let mut s = 0;
        while let Some((e, _)) = self.first(&d[s..], api) {
            if e == 0 {
                break;
            }
            s += e;
            v.push(s);
        }
        v
    }
}

/// 32 bytes each after which the zstd hash matches with a mask of `bits`: two bytes against two
/// or four others, since the hash is a sum.
pub fn zstd_hits(bits: u32, want: usize) -> Vec<[u8; 32]> {
    let mask = (1u64 << bits) - 1;
    let pow = |n: u32| ZSTD_PRIME.wrapping_pow(n);
    let mut out = vec![];
    let mut rng = crate::rng::Rng::new(&[0x2517, bits as u64]);
    while out.len() < want {
        let mut w = [0u8; 32];
        rng.fill(&mut w);
        // the four bytes to be found, by age
        let ages = [0u32, 1, 7, 20];
        let mut rest = 0u64;
        for (i, b) in w.iter().enumerate() {
            let age = 31 - i as u32;
            if !ages.contains(&age) {
                rest = rest.wrapping_add((*b as u64 + 10).wrapping_mul(pow(age)));
            }
        }
        let val = |x: u64, a: u32, b: u32| {
            (x / 256 + 10).wrapping_mul(pow(a)).wrapping_add((x % 256 + 10).wrapping_mul(pow(b)))
        };
        let mut left: Vec<(u64, u64)> =
            (0..65536).map(|x| (val(x, ages[0], ages[1]) & mask, x)).collect();
        left.sort_unstable();
        for y in 0..65536u64 {
            let need = mask.wrapping_sub(rest).wrapping_sub(val(y, ages[2], ages[3])) & mask;
            if let Ok(i) = left.binary_search_by(|p| p.0.cmp(&need)) {
                let x = left[i].1;
                let mut h = w;
                for (a, b) in ages.iter().zip([x / 256, x % 256, y / 256, y % 256]) {
                    h[31 - *a as usize] = b as u8;
                }
                out.push(h);
                if out.len() == want || out.len() % 16 == 0 {
                    break;
                }
            }
        }
    }
    out
}

/// The last four of 32 bytes such that the zstd hash of all matches, given the others; searched
/// from `seed` on.
pub fn zstd_last(bits: u32, w: &[u8; 28], seed: u64) -> Option<[u8; 4]> {
    use std::sync::{Mutex, OnceLock};
    static C: OnceLock<Mutex<std::collections::HashMap<u32, &'static [(u64, u16)]>>> = OnceLock::new();
    let mask = (1u64 << bits) - 1;
    let pow = |n: u32| ZSTD_PRIME.wrapping_pow(n);
    let left = *C
        .get_or_init(Default::default)
        .lock()
        .unwrap_or_else(|e| e.into_inner())
        .entry(bits)
        .or_insert_with(|| {
            let mut v: Vec<(u64, u16)> = (0..=65535u16)
                .map(|x| {
                    let s = (x as u64 / 256 + 10).wrapping_mul(pow(1)).wrapping_add(x as u64 % 256 + 10);
                    (s & mask, x)
                })
                .collect();
            v.sort_unstable();
            Box::leak(v.into_boxed_slice())
        });
    let mut rest = 0u64;
    for b in w {
        rest = rest.wrapping_mul(ZSTD_PRIME).wrapping_add(*b as u64 + 10);
    }
    rest = rest.wrapping_mul(pow(4));
    for i in 0..65536u64 {
        let y = (i + seed) % 65536;
        let v = (y / 256 + 10).wrapping_mul(pow(3)).wrapping_add((y % 256 + 10).wrapping_mul(pow(2)));
        let need = mask.wrapping_sub(rest).wrapping_sub(v) & mask;
        if let Ok(k) = left.binary_search_by(|p| p.0.cmp(&need)) {
            let x = left[k].1;
            return Some([(y / 256) as u8, (y % 256) as u8, (x / 256) as u8, (x % 256) as u8]);
        }
    }
    None
}
