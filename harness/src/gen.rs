//! Workloads: configurations, data and ways to hand the data over.
use crate::model::{Api, Model, FAST_MASK_L, FAST_MASK_S};
use crate::rng::Rng;
use adapt::{BuzH, Cfg, Table32, Table64, Tables, ZpaqHow};
use std::collections::{HashMap, VecDeque};
use std::ops::Bound;
use std::sync::{Mutex, OnceLock};

pub static TABLES: Tables = Tables { made32, made64 };

pub fn made32(kind: u8, seed: u8) -> &'static [u32; 256] {
    static C: Mutex<Option<HashMap<(u8, u8), &'static [u32; 256]>>> = Mutex::new(None);
    let mut g = C.lock().unwrap_or_else(|e| e.into_inner());
    g.get_or_insert_with(HashMap::new).entry((kind, seed)).or_insert_with(|| {
        let mut r = Rng::new(&[32, kind as u64, seed as u64]);
        let mut t = Box::new([0u32; 256]);
        let one = r.u64() as u32;
        for b in 0..256 {
            t[b] = match kind {
                0 => 0,
                1 => r.u64() as u32,
                2 => b as u32,
                3 => u32::MAX,
                4 => (r.u64() & r.u64() & r.u64()) as u32,
                5 => one,
                6 => (r.u64() | r.u64() | r.u64()) as u32,
                _ => {
                    if b % 16 == seed as usize % 16 {
                        u32::MAX
                    } else {
                        1 << (b % 32)
                    }
                }
            };
        }
        Box::leak(t)
    })
}

pub fn made64(kind: u8, seed: u8) -> &'static [u64; 256] {
    static C: Mutex<Option<HashMap<(u8, u8), &'static [u64; 256]>>> = Mutex::new(None);
    let mut g = C.lock().unwrap_or_else(|e| e.into_inner());
    g.get_or_insert_with(HashMap::new).entry((kind, seed)).or_insert_with(|| {
        let mut r = Rng::new(&[64, kind as u64, seed as u64]);
        let mut t = Box::new([0u64; 256]);
        for b in 0..256 {
            t[b] = match kind {
                // a hit at once
                0 => 0,
                // never a hit but after the shift out
                1 => u64::MAX,
                2 => r.u64(),
                // mostly quick hits, different for the two masks
                3 => [0, 1 << 49, 1 << 47, 1 << 47 | 1 << 49, 1 << 16][r.below(5) as usize],
                // one byte in 16 / in 64 is a hit
                4 | 5 => {
                    if r.p(1, if kind == 4 { 16 } else { 64 }) {
                        0
                    } else {
                        *r.pick(&[1 << 49, 1 << 47, 1 << 47 | 1 << 49, 3 << 46])
                    }
                }
                // hits only for the looser mask
                6 => *r.pick(&[1u64 << 49, FAST_MASK_S & !FAST_MASK_L & (1 << 28 | 1 << 49)]),
                _ => r.u64() & r.u64() & r.u64() & r.u64(),
            };
        }
        Box::leak(t)
    })
}

fn near(r: &mut Rng, v: u64) -> u64 {
    let d = *r.pick(&[0, 0, 0, 1, 1, 2, 3]);
    if r.p(1, 2) {
        v.saturating_add(d)
    } else {
        v.saturating_sub(d)
    }
}

/// a number of interest in [a, b]
pub fn number(r: &mut Rng, dict: &[u64], a: u64, b: u64) -> u64 {
    for _ in 0..20 {
        let v = match r.below(9) {
            // what is cut off in 32 bits
            8 => (r.range(1, 4) << 32) + r.log(1, 600),
            0 if !dict.is_empty() => {
                let v = *r.pick(dict);
                near(r, v)
            }
            1 => {
                let v = 1u64 << r.below(64);
                near(r, v)
            }
            2 => r.range(a, b.min(a.saturating_add(40))),
            3 => near(r, a),
            4 => near(r, b),
            _ => r.log(a, b),
        };
        if v >= a && v <= b {
            return v;
        }
    }
    r.range(a, b)
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Regime {
    /// small windows and limits, many edges
    Small,
    /// what people use
    Usual,
    /// ends of the ranges
    Extreme,
}

fn t32(r: &mut Rng) -> Table32 {
    match r.below(8) {
        0 | 1 => Table32::Go,
        2 => Table32::BorgBase,
        3 => Table32::Borg(*r.pick(&[0, 1, 0xffff_ffff, 0x8000_0000, 0x1234_5678, 0xdead_beef])),
        _ => Table32::Made(*r.pick(&[1, 1, 1, 2, 4, 6, 7, 7, 5, 0, 3]), r.below(4) as u8),
    }
}

pub fn cfg(r: &mut Rng, dict: &[u64], algo: usize, g: Regime) -> Cfg {
    use Regime::*;
    match algo {
        0 => Cfg::Bup {
            window: match g {
                Usual if r.p(1, 2) => None,
                Usual => Some(*r.pick(&[64, 64, 48, 128, 256, 31, 33, 100])),
                Small => Some(match r.below(4) {
                    0 => r.us(1, 24),
                    1 => number(r, dict, 8, 5000) as usize,
                    _ => r.us(12, 300),
                }),
                Extreme => Some(*r.pick(&[1, 2, 3, 4095, 4096, 4097, 65535, 65536, 65537, 1 << 17])),
            },
        },
        1 => {
            if g == Usual && r.p(1, 3) {
                return Cfg::BuzNom { salt: *r.pick(&[0, 1, 0x55, 0x80, 0xff, 67, 13]) };
            }
            let table = t32(r);
            let hash = match r.below(6) {
                0 => BuzH::Buf(table),
                1 | 2 => BuzH::Salt(r.u64() as u8, table),
                3 => BuzH::User(table),
                _ => BuzH::Table(table),
            };
            let k = match g {
                Small => match r.below(3) {
                    0 => r.us(1, 40),
                    1 => number(r, dict, 1, 4200) as usize,
                    _ => r.us(1, 200),
                },
                Usual => *r.pick(&[67, 64, 48, 128, 255, 4095, 32, 31, 33]),
                Extreme => number(r, dict, 1, 70000) as usize,
            };
            let bits = match r.below(4) {
                // chunks of about the window's length
                0 | 1 => ((64 - (k as u64).leading_zeros()) as u64 + r.below(4)).saturating_sub(1),
                2 => r.below(14),
                _ if g == Extreme => r.below(33),
                _ => r.below(10),
            }
            .min(32) as u32;
            let mask = match r.below(4) {
                0 => 0xffff_ffffu32.checked_shl(32 - bits).unwrap_or(0),
                1 => {
                    let mut m = 0u32;
                    while m.count_ones() < bits {
                        m |= 1 << r.below(32);
                    }
                    m
                }
                _ => 0xffff_ffffu32.checked_shr(32 - bits).unwrap_or(0),
            };
            let max = match r.below(6) {
                0 | 1 => u64::MAX,
                2 => near(r, k as u64),
                3 => r.range(0, 200),
                4 => (k as u64 * 2 + r.below(500)).max(1),
                _ => number(r, dict, if g == Extreme { 0 } else { 1 }, 1 << 20),
            };
            Cfg::Buz { k, mask, max, hash }
        }
        2 => Cfg::Gear {
            log2: match g {
                Usual if r.p(1, 3) => None,
                Usual => Some(r.us(8, 16)),
                Small => Some(r.us(0, 12)),
                Extreme => Some(*r.pick(&[0, 1, 2, 15, 16, 17, 24, 30, 31, 32])),
            },
        },
        3 => {
            let t = match r.below(4) {
                0 => Table64::Std,
                _ => Table64::Made(r.below(8) as u8, r.below(4) as u8),
            };
            match g {
                Usual => {
                    if r.p(1, 3) {
                        return Cfg::FastCdc { p: None };
                    }
                    let n = 1u64 << r.range(6, 14);
                    let t = if r.p(2, 3) { Table64::Std } else { t };
                    Cfg::FastCdc { p: Some((t, (n / 4).max(1), n, n * 8)) }
                }
                Small => {
                    let min = match r.below(3) {
                        0 => r.range(1, 8),
                        1 => r.range(1, 80),
                        _ => number(r, dict, 1, 3000),
                    };
                    let span = r.log(1, 400);
                    let max = min + span;
                    let normal = match r.below(5) {
                        0 => min,
                        1 => max,
                        2 => max - 1,
                        _ => r.range(min, max),
                    };
                    Cfg::FastCdc { p: Some((t, min, normal, max)) }
                }
                Extreme => {
                    let min = number(r, dict, 1, 1 << 20);
                    match r.below(4) {
                        0 => Cfg::FastCdc { p: Some((t, min, u64::MAX, u64::MAX)) },
                        1 => Cfg::FastCdc { p: Some((t, 1, 1, 2)) },
                        2 => Cfg::FastCdc { p: Some((t, u64::MAX - 1, u64::MAX, u64::MAX)) },
                        _ => Cfg::FastCdc { p: Some((t, min, min, u64::MAX)) },
                    }
                }
            }
        }
        4 => Cfg::Gzip {
            p: match g {
                Usual if r.p(1, 3) => None,
                Usual => Some((1 << r.range(4, 13), 1 << r.range(4, 12))),
                Small => Some((
                    if r.p(1, 2) { r.us(1, 80) } else { number(r, dict, 1, 3000) as usize },
                    match r.below(3) {
                        0 => r.range(1, 40),
                        1 => r.range(40, 700),
                        _ => number(r, dict, 1, 9000),
                    },
                )),
                Extreme => Some((
                    number(r, dict, 1, 1 << 17) as usize,
                    *r.pick(&[1, 2, 255, 256, 257, 1 << 32, (1 << 32) + 100, 65536 + 50, u64::MAX, 1 << 20, 65521]),
                )),
            },
        },
        5 => Cfg::Pigz {
            bits: match g {
                Usual if r.p(1, 2) => None,
                Usual => Some(r.range(8, 14) as u8),
                Small => Some(r.range(0, 12) as u8),
                Extreme => Some(*r.pick(&[0, 1, 7, 8, 9, 15, 16, 17, 24, 25, 30, 31, 32])),
            },
        },
        6 => {
            let b = |r: &mut Rng, v: u64| match r.below(5) {
                0 | 1 => Bound::Included(v),
                2 | 3 => Bound::Excluded(v),
                _ => Bound::Unbounded,
            };
            Cfg::Zpaq(match g {
                Usual => match r.below(5) {
                    0 => ZpaqHow::Default,
                    1 => ZpaqHow::Pow2(r.range(10, 14) as u8),
                    2 => ZpaqHow::Max(number(r, dict, 64, 1 << 16)),
                    3 => {
                        let lo = r.log(1, 4096);
                        let hi = lo * 4 + r.log(1, 1 << 16);
                        let lo = b(r, lo);
                        let hi = b(r, hi);
                        ZpaqHow::Range(lo, hi)
                    }
                    _ => {
                        let n = r.range(6, 13);
                        ZpaqHow::AvgRange(
                            n as u8,
                            Bound::Included(1 << (n - 4)),
                            Bound::Excluded(1 << (n + 3)),
                        )
                    }
                },
                Small => {
                    let lo = if r.p(1, 2) { r.range(1, 40) } else { r.log(1, 600) };
                    let hi = if r.p(1, 8) { r.range(1, lo + 1) } else { lo + r.log(1, 900) };
                    let lo = b(r, lo);
                    let hi = b(r, hi);
                    ZpaqHow::AvgRange(r.range(0, 10) as u8, lo, hi)
                }
                Extreme => match r.below(8) {
                    7 => {
                        let hi = if r.p(1, 2) { Bound::Included(u64::MAX) } else { Bound::Excluded(u64::MAX) };
                        let lo = *r.pick(&[Bound::Unbounded, Bound::Included(0), Bound::Excluded(0), Bound::Included(5)]);
                        ZpaqHow::AvgRange(r.range(2, 9) as u8, lo, hi)
                    }
                    0 => ZpaqHow::Pow2(r.range(10, 32) as u8),
                    1 => ZpaqHow::Max(*r.pick(&[1, 2, 3, 4, 63, 64, 65, 4096, (1 << 35) - 1, 1 << 34])),
                    2 => {
                        let n = *r.pick(&[0u8, 1, 31, 32]);
                        let hi = r.range(1, 5000);
                        ZpaqHow::AvgRange(n, Bound::Included(1), Bound::Included(hi))
                    }
                    3 => ZpaqHow::AvgRange(8, Bound::Unbounded, Bound::Unbounded),
                    4 => ZpaqHow::AvgRange(4, Bound::Included(u64::MAX), Bound::Excluded(u64::MAX)),
                    5 => ZpaqHow::Range(Bound::Unbounded, Bound::Included(r.log(1, 5000))),
                    _ => ZpaqHow::AvgRange(3, Bound::Excluded(r.range(0, 30)), Bound::Excluded(1)),
                },
            })
        }
        7 => Cfg::Zstd {
            section: match g {
                Usual if r.p(1, 2) => None,
                Usual | Small => {
                    Some((1u64 << r.range(20, 24)) + if r.p(1, 2) { 0 } else { r.below(1 << 20) })
                }
                Extreme => Some(match r.below(5) {
                    0 => 1 << 20,
                    1 => (1 << 52) - 1,
                    2 => 1 << r.range(20, 51),
                    3 => (1u64 << r.range(21, 52)) - 1,
                    _ => number(r, dict, 1 << 20, 1 << 34),
                }),
            },
        },
        8 => Cfg::Mii {
            w: match g {
                Usual if r.p(1, 2) => None,
                Usual => Some(r.range(3, 7)),
                Small => Some(r.range(1, 6)),
                Extreme => Some(*r.pick(&[0, 1, 2, 10, 100, 254, 255, 256, 257, 258, 65538, (1 << 32) + 2, u64::MAX])),
            },
        },
        _ => Cfg::Ram {
            w: match g {
                Usual => *r.pick(&[64, 256, 1000, 1024, 4096, 8192]),
                Small => match r.below(4) {
                    0 => r.range(0, 6),
                    1 => number(r, dict, 0, 5000),
                    _ => r.range(0, 300),
                },
                Extreme => *r.pick(&[0, 1, 65535, 65536, 1 << 17, u64::MAX, u64::MAX - 1, 1 << 40, (1 << 32) + 20]),
            },
        },
    }
}

/// A plain streaming form of the definitions, which the generator uses to place edges. Nothing
/// is judged by it.
#[derive(Clone)]
pub struct Step {
    m: Model,
    ring: VecDeque<u8>,
    a: u64,
    h: u64,
    n: u64,
    c1: u8,
    o1: [u8; 256],
    p32: u64,
}
const P: u64 = 0xCF1B_BCDC_B7A5_6463;
impl Step {
    pub fn new(m: &Model) -> Step {
        let mut s = Step {
            m: m.clone(),
            ring: VecDeque::new(),
            a: 0,
            h: 0,
            n: 0,
            c1: 0,
            o1: [0; 256],
            p32: P.wrapping_pow(32),
        };
        s.reset();
        s
    }
    pub fn reset(&mut self) {
        if let Model::Zstd { .. } = self.m {
            return;
        }
        self.ring.clear();
        (self.a, self.h, self.n, self.c1, self.o1) = (0, 0, 0, 0, [0; 256]);
        match &self.m {
            Model::Bup { w } => {
                self.a = *w as u64 * 31;
                self.h = (*w as u64).wrapping_mul((*w as u64).wrapping_sub(1)).wrapping_mul(31)
            }
            Model::Pigz { bits } => self.h = ((1u64 << bits) - 1) >> 1,
            Model::Mii { .. } => self.c1 = 255,
            _ => {}
        }
    }
    fn out(&self) -> Option<u8> {
        let w = match &self.m {
            Model::Bup { w } | Model::Gzip { w, .. } => *w,
            Model::Buz { k, .. } => *k,
            Model::Zstd { .. } => 32,
            _ => return None,
        };
        if self.ring.len() >= w {
            self.ring.front().copied()
        } else {
            None
        }
    }
    /// what the hash becomes with `b`, and is there a content edge after it
    pub fn probe(&self, b: u8) -> (u64, u64, bool) {
        let (mut a, mut h) = (self.a, self.h);
        let o = self.out();
        let n = self.n + 1;
        let hit = match &self.m {
            Model::Bup { w } => {
                let d = o.unwrap_or(0) as u64;
                a = a.wrapping_add(b as u64).wrapping_sub(d);
                h = h.wrapping_add(a).wrapping_sub((*w as u64).wrapping_mul(d + 31));
                h & 0x1fff == 0x1fff
            }
            Model::Buz { k, mask, t, .. } => {
                let mut x = (h as u32).rotate_left(1) ^ t[b as usize];
                if let Some(o) = o {
                    x ^= t[o as usize].rotate_left((*k % 32) as u32);
                }
                h = x as u64;
                x & mask == *mask
            }
            Model::Gear { log2 } => {
                let x = (h as u32).wrapping_mul(2).wrapping_add(crate::tables::GEAR32[b as usize]);
                h = x as u64;
                (x as u64) >> (32 - log2) == 0
            }
            Model::FastCdc { t, min, normal, .. } => {
                if self.n >= *min {
                    h = h.wrapping_mul(2).wrapping_add(t[b as usize]);
                    h & (if self.n < *normal { FAST_MASK_S } else { FAST_MASK_L }) == 0
                } else {
                    false
                }
            }
            Model::Gzip { m, .. } => {
                h = h + b as u64 - o.unwrap_or(0) as u64;
                h % m == 0
            }
            Model::Pigz { bits } => {
                let k = (1u64 << bits) - 1;
                h = (h << 1 ^ b as u64) & k;
                h == k >> 1
            }
            Model::Zpaq { avg, .. } => {
                let mul = if b == self.o1[self.c1 as usize] { 314_159_265 } else { 271_828_182 };
                h = (h as u32).wrapping_add(b as u32 + 1).wrapping_mul(mul) as u64;
                h < 1 << (32 - avg) && self.m.may_end(n)
            }
            Model::Zstd { bits } => {
                h = h.wrapping_mul(P).wrapping_add(b as u64 + 10);
                if let Some(o) = o {
                    h = h.wrapping_sub((o as u64 + 10).wrapping_mul(self.p32));
                }
                let k = (1u64 << bits) - 1;
                o.is_some() && h & k == k
            }
            Model::Mii { w } => {
                h = if b > self.c1 && self.n > 0 { h + 1 } else { 0 };
                h == *w && *w > 0
            }
            Model::Ram { w } => {
                if n <= w.saturating_add(1) {
                    a = a.max(b as u64);
                    false
                } else {
                    b as u64 >= a
                }
            }
        };
        (a, h, hit)
    }
    pub fn push(&mut self, b: u8) -> bool {
        let (a, h, hit) = self.probe(b);
        if self.out().is_some() {
            self.ring.pop_front();
        }
        match self.m {
            Model::Bup { .. } | Model::Gzip { .. } | Model::Buz { .. } | Model::Zstd { .. } => {
                self.ring.push_back(b)
            }
            Model::Zpaq { .. } => self.o1[self.c1 as usize] = b,
            _ => {}
        }
        (self.a, self.h, self.c1) = (a, h, b);
        self.n += 1;
        hit
    }
}

fn zstd_pool(bits: u32) -> &'static [[u8; 32]] {
    static C: Mutex<Option<HashMap<u32, &'static [[u8; 32]]>>> = Mutex::new(None);
    let mut g = C.lock().unwrap_or_else(|e| e.into_inner());
    g.get_or_insert_with(HashMap::new)
        .entry(bits)
        .or_insert_with(|| if bits > 34 { &crate::zpool::POOL[..6] } else { Box::leak(crate::model::zstd_hits(bits, if bits > 30 { 10 } else { 96 }).into_boxed_slice()) })
}
/// bits for which hits are at hand
pub fn zstd_pool_bits(bits: u32) -> Option<u32> {
    [24, 28, 34, 51].iter().copied().find(|b| *b >= bits)
}

/// Sums (gear) or xors (buzhash) of four bytes' contributions, sorted, for the search below
fn quads(t: &[u32; 256], n: usize, xor: bool, seed: u64) -> Vec<(u32, u32)> {
    let mut r = Rng::new(&[0x9a5, seed]);
    let mut v: Vec<(u32, u32)> = (0..n)
        .map(|_| {
            let x = r.u64() as u32;
            (quad(t, x, xor, 0), x)
        })
        .collect();
    v.sort_unstable();
    v
}
/// what four bytes (the first one in the low bits) give, `age` bytes before the last
fn quad(t: &[u32; 256], x: u32, xor: bool, age: u32) -> u32 {
    x.to_le_bytes().iter().enumerate().fold(0, |s, (i, b)| {
        let a = 3 - i as u32 + age;
        let v = t[*b as usize];
        if xor {
            s ^ v.rotate_left(a)
        } else {
            s.wrapping_add(v << a)
        }
    })
}
fn gear_quads() -> &'static [(u32, u32)] {
    static C: OnceLock<Vec<(u32, u32)>> = OnceLock::new();
    C.get_or_init(|| quads(&crate::tables::GEAR32, 1 << 19, false, 0))
}

pub struct Gen<'a> {
    pub r: &'a mut Rng,
    pub m: &'a Model,
    pub dict: &'a [u64],
}

/// Configurations beyond what an algorithm can be, or at the ends of it. Whether they are is for
/// the constructors to say.
pub fn beyond(r: &mut Rng, algo: usize) -> Option<Cfg> {
    use Bound::*;
    Some(match algo {
        1 => Cfg::Buz { k: 0, mask: 7, max: 100, hash: BuzH::Table(Table32::Go) },
        2 => Cfg::Gear { log2: Some(*r.pick(&[0, 1, 31, 32, 33, 34, 63, 64, 65, 96, 128, 1 << 31])) },
        5 => Cfg::Pigz { bits: Some(*r.pick(&[0, 1, 31, 32, 33, 34, 63, 64, 65, 96, 128, 255])) },
        6 => {
            let k = r.range(20, 63);
            let v = (1u64 << k).wrapping_add(r.below(3)).wrapping_sub(1);
            Cfg::Zpaq(match r.below(7) {
                0 => ZpaqHow::Pow2(*r.pick(&[0, 9, 10, 32, 33, 42, 64, 74, 255])),
                1 => ZpaqHow::Max(v),
                2 => ZpaqHow::Range(Included(v), Unbounded),
                3 => ZpaqHow::Range(Excluded(*r.pick(&[v, u64::MAX, u64::MAX - 1])), Unbounded),
                4 => ZpaqHow::Range(Included(3), Excluded(v)),
                5 => ZpaqHow::Range(Unbounded, Included(v)),
                _ => ZpaqHow::AvgRange(*r.pick(&[32, 33, 64, 255]), Included(5), Excluded(*r.pick(&[0, 90]))),
            })
        }
        7 => {
            let k = r.range(0, 63);
            let v = (1u64 << k).wrapping_add(r.below(3)).wrapping_sub(1);
            Cfg::Zstd { section: Some(v) }
        }
        _ => return None,
    })
}
/// Of those: what has to be refused, by what an instance could do at all
pub fn refused(cfg: &Cfg) -> bool {
    use Bound::*;
    let above = |m: u64| m / 4 >= 1 << 33;
    match cfg {
        Cfg::Buz { k, .. } => *k == 0,
        Cfg::Gear { log2 } => log2.unwrap_or(0) > 32,
        Cfg::Pigz { bits } => bits.unwrap_or(0) > 32,
        Cfg::Zstd { section } => section.map_or(false, |s| s >> 20 == 0 || s >> 52 != 0),
        Cfg::Zpaq(h) => match h {
            ZpaqHow::Pow2(n) => *n < 10 || *n > 32,
            ZpaqHow::Max(m) => above(*m),
            ZpaqHow::AvgRange(n, ..) => *n > 32,
            ZpaqHow::Range(_, Included(i)) => above(*i),
            ZpaqHow::Range(_, Excluded(i)) => *i == 0 || above(*i - 1),
            ZpaqHow::Range(Included(i), _) => above(i.saturating_mul(64)),
            ZpaqHow::Range(Excluded(i), _) => above(i.saturating_add(1).saturating_mul(64)),
            _ => false,
        },
        _ => false,
    }
}

impl Gen<'_> {
    pub fn params(&self) -> Vec<u64> {
        let mut v = match self.m {
            Model::Bup { w } => vec![*w as u64],
            Model::Buz { k, max, .. } => vec![*k as u64, *max, 2 * *k as u64],
            Model::Gear { log2 } => vec![32, 1 << log2],
            Model::FastCdc { min, normal, max, .. } => vec![*min, *normal, *max, *min + 1, *max - 1],
            Model::Gzip { w, m } => vec![*w as u64, 2 * *w as u64, *m],
            Model::Pigz { bits } => vec![*bits as u64, 1 << bits],
            Model::Zpaq { lo, hi, .. } => [lo, hi]
                .iter()
                .filter_map(|b| match b {
                    Bound::Included(x) | Bound::Excluded(x) => Some(*x),
                    _ => None,
                })
                .chain([4])
                .collect(),
            Model::Zstd { .. } => vec![3, 10, 20, 32, 33, 64],
            Model::Mii { w } => vec![*w, w.saturating_add(1)],
            Model::Ram { w } => vec![*w, w.saturating_add(1), w.saturating_add(2)],
        };
        v.retain(|x| *x > 0);
        v
    }
    /// a chunk length of interest
    pub fn len(&mut self, cap: usize) -> usize {
        let cap = cap.max(1) as u64;
        let p = self.params();
        for _ in 0..12 {
            let v = match self.r.below(10) {
                0..=4 if !p.is_empty() => {
                    let v = *self.r.pick(&p);
                    near(self.r, v)
                }
                5 if !p.is_empty() => {
                    let v = *self.r.pick(&p);
                    v.saturating_add(self.r.log(1, 600))
                }
                6 if !self.dict.is_empty() => {
                    let v = *self.r.pick(self.dict);
                    near(self.r, v)
                }
                7 => {
                    let v = *self.r.pick(&[16, 32, 64, 128, 255, 256, 512, 1024, 4096, 8192]);
                    near(self.r, v)
                }
                _ => self.r.log(1, cap),
            };
            if v >= 1 && v <= cap {
                return v as usize;
            }
        }
        self.r.us(1, cap as usize)
    }
    fn filler_byte(&mut self, kind: u64, i: usize, period: &[u8]) -> u8 {
        match kind {
            0 | 1 => self.r.u64() as u8,
            2 => period[0],
            3 => period[i % period.len()],
            4 => [0, 255][self.r.below(2) as usize],
            5 => period[self.r.below(period.len() as u64) as usize],
            6 => {
                if self.r.p(1, 32) {
                    self.r.u64() as u8
                } else {
                    0
                }
            }
            7 => (self.r.below(26) + 97) as u8,
            _ => self.r.below(128) as u8,
        }
    }
    /// `n` bytes, from the state `s`, without a content edge if that can be avoided
    fn avoid(&mut self, s: &mut Step, n: usize, out: &mut Vec<u8>) {
        let kind = self.r.below(9);
        let np = self.len(64);
        let period = self.r.bytes(np);
        for i in 0..n {
            let mut b = self.filler_byte(kind, i, &period);
            for t in 0..40u32 {
                if !s.probe(b).2 {
                    break;
                }
                b = if t < 20 { self.r.u64() as u8 } else { (t * 6 + 1) as u8 };
            }
            s.push(b);
            out.push(b);
        }
    }
    /// The masks are long, so that a hit or a miss by one bit is not met by chance
    fn rare(&self) -> bool {
        match self.m {
            Model::Gear { log2 } => *log2 > 15,
            Model::Buz { mask, .. } => mask.count_ones() > 15,
            Model::Zstd { .. } | Model::Zpaq { .. } => true,
            Model::Pigz { bits } => *bits > 15,
            _ => false,
        }
    }
    /// Bytes after which the hash hits, or misses by one bit or the least amount.
    fn aim(&mut self, s: &Step, hit: bool) -> Option<Vec<u8>> {
        let one = |r: &mut Rng, mask: u32| {
            // a single bit of the mask
            let k = r.below(mask.count_ones().max(1) as u64);
            (0..32).map(|b| 1u32 << b).filter(|b| mask & b != 0).nth(k as usize).unwrap_or(0)
        };
        let found = |v: &[u8], want: bool| {
            // as the state sees it, with no edge on the way
            let mut z = s.clone();
            let n = v.len();
            v.iter().enumerate().all(|(i, b)| z.push(*b) == (want && i + 1 == n)).then(|| v.to_vec())
        };
        match self.m {
            Model::Gear { log2 } => {
                let mask = !u32::MAX.checked_shr(*log2).unwrap_or(0);
                let rest = self.r.u64() as u32 & !mask;
                let aim = rest | if hit { 0 } else { one(self.r, mask) };
                let h = (s.h as u32).checked_shl(8).unwrap_or(0);
                for _ in 0..1 << 16 {
                    let x = self.r.u64() as u32;
                    let need = aim.wrapping_sub(h).wrapping_sub(quad(&crate::tables::GEAR32, x, false, 4));
                    let q = gear_quads();
                    if let Ok(i) = q.binary_search_by(|p| p.0.cmp(&need)) {
                        let mut v = x.to_le_bytes().to_vec();
                        v.extend(q[i].1.to_le_bytes());
                        return found(&v, hit);
                    }
                }
                None
            }
            Model::Buz { k, mask, t, .. } if *k >= 8 => {
                let rest = self.r.u64() as u32 & !mask;
                let aim = (mask | rest) ^ if hit { 0 } else { one(self.r, *mask) };
                let mut h = s.h as u32;
                for i in 0..8 {
                    h = h.rotate_left(1);
                    if s.ring.len() + i >= *k {
                        let o = s.ring[s.ring.len() + i - *k];
                        h ^= t[o as usize].rotate_left((*k % 32) as u32);
                    }
                }
                let seed = self.r.below(1 << 40);
                let q = quads(t, 1 << 15, true, seed);
                for _ in 0..1 << 18 {
                    let x = self.r.u64() as u32;
                    let need = aim ^ h ^ quad(t, x, true, 4);
                    if let Ok(i) = q.binary_search_by(|p| p.0.cmp(&need)) {
                        let mut v = x.to_le_bytes().to_vec();
                        v.extend(q[i].1.to_le_bytes());
                        return found(&v, hit);
                    }
                }
                None
            }
            Model::Zstd { bits } => {
                let w = if hit {
                    let j = self.r.below(51 - *bits as u64 + 6) as usize;
                    let k = if j < 6 { j } else { 6 + 2 * (*bits as usize + j - 6) };
                    crate::zpool::POOL[k.min(107)]
                } else {
                    let j = if self.r.p(1, 2) { self.r.below(*bits as u64) } else { *bits as u64 - 1 };
                    crate::zpool::POOL[6 + 2 * j as usize + self.r.below(2) as usize]
                };
                Some(w.to_vec())
            }
            Model::Pigz { bits } => {
                let mask = ((1u64 << bits) - 1) as u32;
                let aim = mask >> 1 ^ if hit { 0 } else { one(self.r, mask) };
                let n = *bits as usize;
                let mut v = self.r.bytes(n);
                for age in 0..n {
                    let i = n - 1 - age;
                    v[i] &= !1;
                    let bit = (0..8.min(age + 1)).fold(0, |s, d| s ^ (v[n - 1 - (age - d)] as u32 >> d) & 1);
                    v[i] |= (bit ^ (aim >> age & 1)) as u8;
                }
                found(&v, hit)
            }
            Model::Zpaq { avg, .. } => {
                // the last byte is one that was not foreseen, the factor is even then
                const M: u32 = 271_828_182;
                let half = M / 2;
                // its inverse
                let inv = (0..5).fold(half, |x, _| x.wrapping_mul(2u32.wrapping_sub(half.wrapping_mul(x))));
                let top = 1u64 << (32 - avg);
                let aim = if hit { top.max(2) - 2 } else { (top + 1) & !1 } as u32;
                let aim = if self.r.p(1, 8) { 0u32.wrapping_sub(2) } else { aim } & !1;
                let sum = (aim / 2).wrapping_mul(inv) & 0x7fff_ffff;
                let pre = self.r.bytes(2);
                let mut z = s.clone();
                for b in &pre {
                    z.push(*b);
                }
                for a in 0..=255u8 {
                    let mut y = z.clone();
                    y.push(a);
                    let h1 = y.h as u32;
                    let f1 = y.o1[a as usize];
                    for b in 0..=255u8 {
                        let m1 = if b == f1 { 314_159_265 } else { M };
                        let h2 = h1.wrapping_add(b as u32 + 1).wrapping_mul(m1);
                        let f2 = y.o1[b as usize];
                        for c in 0..=255u8 {
                            let m2 = if c == f2 { 314_159_265 } else { M };
                            let h3 = h2.wrapping_add(c as u32 + 1).wrapping_mul(m2);
                            // h3 + d + 1 has to be the sum, in 31 bits
                            let d = sum.wrapping_sub(h3).wrapping_sub(1) & 0x7fff_ffff;
                            if d < 256 {
                                let mut v = pre.clone();
                                v.extend([a, b, c, d as u8]);
                                let mut z = s.clone();
                                for b in &v {
                                    z.push(*b);
                                }
                                if z.h as u32 == aim {
                                    return Some(v);
                                }
                            }
                        }
                    }
                }
                None
            }
            _ => None,
        }
    }
    /// Some bytes that end in a near miss or a rare hit, now and then
    fn special(&mut self, s: &mut Step, out: &mut Vec<u8>) {
        if !self.rare() {
            return;
        }
        let one_in = match self.m {
            Model::Zpaq { .. } => 3000,
            Model::Buz { .. } => 60,
            Model::Gear { .. } => 20,
            _ => 3,
        };
        if !self.r.p(1, one_in) {
            return;
        }
        let hit = self.r.p(1, 2);
        if let Some(v) = self.aim(s, hit) {
            for b in v {
                out.push(b);
                if s.push(b) {
                    s.reset();
                }
            }
        }
    }
    /// One chunk of `n` bytes with an edge after them, if possible.
    pub fn chunk(&mut self, s: &mut Step, n: usize, out: &mut Vec<u8>) {
        let from = out.len();
        let keep = s.clone();
        let tail = match self.m {
            Model::Bup { w } => n.min(*w).min(16),
            Model::Pigz { bits } => n.min(*bits as usize),
            Model::Gzip { w, m } => n.min(*w).min((*m / 200 + 2).min(64) as usize),
            Model::Zstd { bits } => {
                if (3..32).contains(&n) && *bits < 27 && s.ring.len() >= 32 {
                    3
                } else if n < 32 || zstd_pool_bits(*bits).is_none() {
                    0
                } else {
                    32
                }
            }
            Model::Mii { w } => {
                if *w < n as u64 && *w < 250 {
                    *w as usize + 1
                } else {
                    0
                }
            }
            Model::Ram { .. } => n.min(1),
            _ => n.min(3),
        };
        self.avoid(s, n - tail, out);
        self.special(s, out);
        match self.m {
            Model::Bup { .. } => {
                // the sum over the tail of (age + 1) * byte has to be what is missing
                let mut z = s.clone();
                for _ in 0..tail {
                    z.push(0);
                }
                let mut need = 0x1fffu64.wrapping_sub(z.h) & 0x1fff;
                // spread it
                let mut v = vec![0u64; tail];
                for j in 0..tail {
                    let weight = (tail - j) as u64;
                    let most = (need / weight).min(255);
                    let x = if j + 1 < tail && self.r.p(1, 2) {
                        let rest: u64 = (1..weight).sum::<u64>() * 255;
                        let least = need.saturating_sub(rest).div_ceil(weight);
                        self.r.range(least.min(most), most)
                    } else {
                        most
                    };
                    v[j] = x;
                    need -= x * weight;
                }
                for x in v {
                    s.push(x as u8);
                    out.push(x as u8);
                }
            }
            Model::Pigz { bits } => {
                if tail == *bits as usize {
                    let hit = ((1u64 << bits) - 1) >> 1;
                    let mut t = self.r.bytes(tail);
                    for age in 0..tail {
                        let i = tail - 1 - age;
                        // bit `age` of the hash by the bytes of ages age-7..=age
                        t[i] &= !1;
                        let mut bit = 0u64;
                        for d in 0..8usize {
                            if d <= age {
                                bit ^= (t[tail - 1 - (age - d)] as u64 >> d) & 1;
                            }
                        }
                        t[i] |= (bit ^ (hit >> age & 1)) as u8;
                    }
                    for b in t {
                        s.push(b);
                        out.push(b);
                    }
                } else {
                    self.avoid(s, tail, out);
                }
            }
            Model::Gzip { m, .. } => {
                let mut z = s.clone();
                for _ in 0..tail {
                    z.push(0);
                }
                let mut need = (m - z.h % m) % m;
                if need == 0 && self.r.p(1, 2) && *m < 20000 {
                    need = *m;
                }
                for j in 0..tail {
                    let left = (tail - 1 - j) as u64 * 255;
                    let least = need.saturating_sub(left).min(255);
                    let x = self.r.range(least, need.min(255));
                    need -= x;
                    s.push(x as u8);
                    out.push(x as u8);
                }
            }
            Model::Zstd { bits } if tail == 3 => {
                // an edge within the window after another one: three bytes that make the hash hit
                let mask = (1u64 << bits) - 1;
                let mut z = s.clone();
                for _ in 0..3 {
                    z.push(0);
                }
                let r = self.r.u64();
                let mut t = (r as u32).to_le_bytes()[..3].to_vec();
                for i in 0..1u64 << 16 {
                    let i = (i + r) & 0xffff;
                    let (a, b) = (i & 255, i >> 8);
                    let h = z.h.wrapping_add(a.wrapping_mul(P).wrapping_mul(P)).wrapping_add(b.wrapping_mul(P));
                    let need = mask.wrapping_sub(h) & mask;
                    if need < 256 {
                        t = vec![a as u8, b as u8, need as u8];
                        break;
                    }
                }
                for b in t {
                    s.push(b);
                    out.push(b);
                }
            }
            Model::Zstd { bits } => {
                if tail == 32 {
                    let w = *self.r.pick(zstd_pool(zstd_pool_bits(*bits).unwrap()));
                    for b in w {
                        s.push(b);
                        out.push(b);
                    }
                }
            }
            Model::Mii { w } => {
                let mut b = self.r.below(256 - tail.max(1) as u64 + 1);
                if out.len() > from && tail > 0 {
                    // not part of an earlier increase
                    let l = *out.last().unwrap() as u64;
                    b = b.min(l);
                    if b + *w > 255 {
                        b = 255 - *w;
                    }
                }
                for j in 0..tail as u64 {
                    s.push((b + j) as u8);
                    out.push((b + j) as u8);
                }
            }
            Model::Ram { .. } => {
                for _ in 0..tail {
                    let b = if self.r.p(1, 2) { s.a as u8 } else { self.r.range(s.a.min(255), 255) as u8 };
                    s.push(b);
                    out.push(b);
                }
            }
            _ => {
                // search for three bytes
                let mut left = 150_000i64;
                let mut found = None;
                'o: while left > 0 && tail > 0 {
                    let mut z = s.clone();
                    let mut t = vec![];
                    let mut early = false;
                    for _ in 0..tail - 1 {
                        let b = self.r.u64() as u8;
                        early |= z.push(b);
                        t.push(b);
                    }
                    left -= 300;
                    if early {
                        left -= 3000;
                    }
                    let c = self.r.u64() as u8;
                    for b in 0..=255u8 {
                        let b = b.wrapping_add(c);
                        if z.probe(b).2 {
                            t.push(b);
                            found = Some(t);
                            break 'o;
                        }
                    }
                }
                let t = found.unwrap_or_else(|| self.r.bytes(tail));
                for b in t {
                    s.push(b);
                    out.push(b);
                }
            }
        }
        let _ = keep;
        s.reset();
    }
    pub fn piece(&mut self, n: usize, out: &mut Vec<u8>) {
        let kind = self.r.below(15);
        let np = self.len(300).max(1);
        let period = self.r.bytes(np);
        match kind {
            9 if !out.is_empty() => {
                // something that was there before
                let a = self.r.us(0, out.len() - 1);
                let e = (a + n).min(out.len());
                out.extend_from_within(a..e);
            }
            10 => {
                let step = self.r.range(1, 5) as u8;
                let b = self.r.u64() as u8;
                for i in 0..n {
                    out.push(b.wrapping_add(step.wrapping_mul(i as u8)));
                }
            }
            11 => {
                let b = self.r.u64() as u8;
                for i in 0..n {
                    out.push(b.wrapping_sub(i as u8));
                }
            }
            12 => {
                // bytes that the library compares with
                let v: Vec<u8> = self.dict.iter().filter(|x| **x < 256).map(|x| *x as u8).collect();
                for _ in 0..n {
                    out.push(if v.is_empty() { 1 } else { *self.r.pick(&v) });
                }
            }
            14 => {
                // few letters, and some rare ones with fixed successors
                let c = self.r.u64() as u8;
                let common = self.r.range(1, 12);
                let every = *self.r.pick(&[20u64, 50, 200]);
                let mut next: Option<u8> = None;
                for _ in 0..n {
                    let b = match next.take() {
                        Some(b) => b,
                        None if self.r.p(1, every) => {
                            let x = self.r.range(1, 30) as u8;
                            next = Some(x.wrapping_mul(37) ^ c);
                            c.wrapping_add(100 + x)
                        }
                        _ => c.wrapping_add(self.r.below(common) as u8),
                    };
                    out.push(b);
                }
            }
            13 => {
                let k = self.r.range(1, 16);
                for _ in 0..n {
                    out.push((self.r.below(k) * 255 / k) as u8);
                }
            }
            k => {
                for i in 0..n {
                    let b = self.filler_byte(k, i, &period);
                    out.push(b);
                }
            }
        }
    }
    /// A stream of about `n` bytes
    pub fn data(&mut self, n: usize) -> Vec<u8> {
        let mut out = Vec::with_capacity(n + 64);
        let style = self.r.below(10);
        match style {
            0 => self.piece(n, &mut out),
            1 => out = self.r.bytes(n),
            2..=6 => {
                // chunks of chosen lengths
                let mut s = Step::new(self.m);
                let incr = matches!(self.m, Model::FastCdc { .. }) && self.r.p(1, 2);
                let mut held: Option<u8> = None;
                while out.len() < n {
                    if self.r.p(1, 12) {
                        let l = self.len((n - out.len()).min(3000));
                        self.piece(l, &mut out);
                        s = Step::new(self.m);
                        continue;
                    }
                    let l = self.len(n - out.len());
                    if let Some(b) = held.take() {
                        s.push(b);
                    }
                    if incr {
                        // the matching byte is the first one of the next chunk
                        self.avoid(&mut s, l.saturating_sub(1), &mut out);
                        let c = self.r.u64() as u8;
                        let b = (0..=255u8).map(|b| b.wrapping_add(c)).find(|b| s.probe(*b).2);
                        let b = b.unwrap_or(c);
                        out.push(b);
                        s.reset();
                        held = Some(b);
                    } else {
                        self.chunk(&mut s, l, &mut out);
                    }
                }
                if self.r.p(1, 4) && !out.is_empty() {
                    for _ in 0..self.r.range(1, 3) {
                        let i = self.r.us(0, out.len() - 1);
                        out[i] = self.r.u64() as u8;
                    }
                }
            }
            _ => {
                while out.len() < n {
                    let l = self.len((n - out.len()).min(5000));
                    self.piece(l, &mut out);
                }
            }
        }
        out.truncate(n.max(1) * 2);
        out
    }
    /// Chunks of round lengths, which `data` is too short for
    pub fn round(&mut self) -> Vec<u8> {
        let mut out = vec![];
        let mut s = Step::new(self.m);
        if self.r.p(1, 2) {
            let l = self.len(300);
            self.chunk(&mut s, l, &mut out);
        }
        let e = self.r.range(8, 16);
        let mut l = (1usize << e) * self.r.us(1, if e > 14 { 2 } else { 6 });
        match self.r.below(5) {
            0 => l += 1,
            1 => l -= 1,
            _ => {}
        }
        self.chunk(&mut s, l, &mut out);
        let l = self.len(3000);
        self.chunk(&mut s, l, &mut out);
        let k = self.r.us(0, 300);
        out.extend_from_slice(&self.r.bytes(k));
        out
    }
    /// how long a stream to use
    pub fn size(&mut self, big: bool) -> usize {
        let s = self.m.scale();
        match self.r.below(40) {
            0 => self.r.us(0, 3),
            1..=4 => self.r.us(0, 80),
            5..=19 => self.r.log(1, 1500) as usize,
            20..=32 => (s * self.r.range(1, 6) + self.r.below(300)).min(60_000) as usize,
            33..=37 => self.r.log(1000, 60_000) as usize,
            38 => self.r.log(10_000, 200_000) as usize,
            _ if big => self.r.log(100_000, 1_000_000) as usize,
            _ => self.r.log(100, 20_000) as usize,
        }
    }
}

/// A way to split `n` bytes: lengths, zeros allowed. `at` are positions of interest.
pub fn segs(r: &mut Rng, n: usize, at: &[usize], params: &[u64], dict: &[u64]) -> (u8, Vec<usize>) {
    let mut v = vec![];
    let style = match r.below(11) {
        1 if n > 30_000 && r.p(3, 4) => 2,
        s => s,
    } as u8;
    let fixed = |k: usize, v: &mut Vec<usize>| {
        let k = k.max(1);
        let mut p = 0;
        while p < n {
            let l = k.min(n - p);
            v.push(l);
            p += l;
        }
    };
    let from_points = |mut pts: Vec<usize>, v: &mut Vec<usize>| {
        pts.retain(|p| *p <= n);
        pts.sort_unstable();
        let mut p = 0;
        for q in pts {
            v.push(q - p);
            p = q;
        }
        v.push(n - p);
    };
    match style {
        0 => v.push(n),
        1 => fixed(1, &mut v),
        2 => {
            let k = match r.below(4) {
                0 if !params.is_empty() => {
                    let p = *r.pick(params);
                    near(r, p)
                }
                1 if !dict.is_empty() => {
                    let p = *r.pick(dict);
                    near(r, p)
                }
                2 => {
                    let p = 1u64 << r.range(1, 16);
                    near(r, p)
                }
                _ => r.log(2, 5000),
            };
            fixed(k.clamp(2, 1 << 20) as usize, &mut v)
        }
        3 | 4 if !at.is_empty() => {
            // borders at and next to the edges
            let mut pts = vec![];
            for c in at {
                if r.p(1, 2) || at.len() < 4 {
                    let p = near(r, *c as u64) as usize;
                    pts.push(p);
                    if r.p(1, 4) {
                        pts.push(p + 1);
                    }
                }
            }
            from_points(pts, &mut v);
        }
        5 => from_points(vec![r.us(0, n)], &mut v),
        6 => {
            // powers of two
            let (mut p, mut k) = (0, 1);
            while p < n {
                let l = k.min(n - p);
                v.push(l);
                p += l;
                k *= 2;
            }
        }
        7 if !at.is_empty() => {
            // windows and limits counted from the edges
            let mut pts = vec![];
            for c in at.iter().take(400) {
                if !params.is_empty() {
                    let q = *r.pick(params);
                    let q = near(r, q);
                    pts.push((*c as u64).saturating_add(q).min(n as u64 + 1) as usize);
                    pts.push((*c as u64).saturating_sub(q) as usize);
                }
            }
            from_points(pts, &mut v);
        }
        8 => {
            // single bytes, then the rest, then single bytes
            let a = r.us(0, n.min(200));
            let e = r.us(0, (n - a).min(200));
            v.extend(std::iter::repeat(1).take(a));
            v.push(n - a - e);
            v.extend(std::iter::repeat(1).take(e));
        }
        _ => {
            let top = r.log(2, 4000.max(n as u64 / 3 + 2));
            let mut p = 0;
            while p < n {
                let l = (r.log(1, top) as usize).min(n - p);
                v.push(l);
                p += l;
            }
        }
    }
    if r.p(1, 3) {
        let mut w = Vec::with_capacity(v.len() + 8);
        let d = v.len() as u64 / 4 + 2;
        for x in v {
            if r.p(1, d.min(8)) {
                w.push(0);
                if r.p(1, 4) {
                    w.push(0);
                }
            }
            w.push(x);
        }
        w.push(0);
        v = w;
    }
    (style, v)
}

#[allow(dead_code)]
pub static ONCE: OnceLock<()> = OnceLock::new();

/// cuts for hints to `segs`
pub fn hints(m: &Model, d: &[u8], api: Api) -> Vec<usize> {
    m.cuts(d, api)
}
