//! xoshiro256** seeded with splitmix64
#[derive(Clone)]
pub struct Rng([u64; 4]);

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9e37_79b9_7f4a_7c15);
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
    z ^ (z >> 31)
}

impl Rng {
    pub fn new(parts: &[u64]) -> Rng {
        let mut h = 0x1234_5678u64;
        for p in parts {
            h = mix(h ^ *p);
        }
        let mut s = [0; 4];
        for x in s.iter_mut() {
            h = mix(h);
            *x = h;
        }
        Rng(s)
    }
    pub fn u64(&mut self) -> u64 {
        let s = &mut self.0;
        let r = s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = s[1] << 17;
        s[2] ^= s[0];
        s[3] ^= s[1];
        s[1] ^= s[2];
        s[0] ^= s[3];
        s[2] ^= t;
        s[3] = s[3].rotate_left(45);
        r
    }
    /// in [0, n)
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 {
            return 0;
        }
        ((self.u64() as u128 * n as u128) >> 64) as u64
    }
    /// in [a, b]
    pub fn range(&mut self, a: u64, b: u64) -> u64 {
        a + self.below((b - a).wrapping_add(1).max(1))
    }
    pub fn us(&mut self, a: usize, b: usize) -> usize {
        self.range(a as u64, b as u64) as usize
    }
    pub fn p(&mut self, num: u64, den: u64) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len() as u64) as usize]
    }
    /// roughly uniform in magnitude, in [a, b]
    pub fn log(&mut self, a: u64, b: u64) -> u64 {
        let la = 64 - a.max(1).leading_zeros() as u64;
        let lb = 64 - b.max(1).leading_zeros() as u64;
        let l = self.range(la, lb);
        let lo = if l == 0 { 0 } else { 1u64 << (l - 1) };
        let hi = if l >= 64 { u64::MAX } else { (1u64 << l) - 1 };
        self.range(lo.max(a), hi.min(b).max(lo.max(a)))
    }
    pub fn fill(&mut self, b: &mut [u8]) {
        for c in b.chunks_mut(8) {
            let v = self.u64().to_le_bytes();
            c.copy_from_slice(&v[..c.len()]);
        }
    }
    pub fn edge_byte(&mut self) -> u8 {
        match self.below(8) {
            0 | 1 => 0,
            2 => 255,
            _ => self.u64() as u8,
        }
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        let mut v = vec![0; n];
        self.fill(&mut v);
        v
    }
}
