//! The only source of randomness of a run.
#[derive(Clone, Debug)]
pub struct Rng(u64);

pub fn mix(mut z: u64) -> u64 {
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    z ^ (z >> 31)
}

/// Order-sensitive running digest of everything observable in a run.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Digest(pub u64);
impl Default for Digest {
    fn default() -> Self {
        Digest(0xcbf29ce484222325)
    }
}
impl Digest {
    pub fn bytes(&mut self, b: &[u8]) {
        let mut h = self.0 ^ (b.len() as u64).wrapping_mul(0x9e3779b97f4a7c15);
        for c in b.chunks(8) {
            let mut x = [0u8; 8];
            x[..c.len()].copy_from_slice(c);
            h = mix(h ^ u64::from_le_bytes(x)).wrapping_add(0x9e3779b97f4a7c15);
        }
        self.0 = h;
    }
    pub fn num(&mut self, n: u64) {
        self.0 = mix(self.0 ^ n).wrapping_add(0x9e3779b97f4a7c15);
    }
}

impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(mix(seed ^ 0x5851f42d4c957f2d))
    }
    pub fn u64(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15);
        mix(self.0)
    }
    /// uniform in 0..n (n > 0)
    pub fn below(&mut self, n: u64) -> u64 {
        ((self.u64() as u128 * n as u128) >> 64) as u64
    }
    pub fn idx(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        lo + self.below(hi - lo + 1)
    }
    /// true with probability p
    pub fn chance(&mut self, p: f64) -> bool {
        ((self.u64() >> 11) as f64) < p * ((1u64 << 53) as f64)
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.idx(v.len())]
    }
    pub fn weighted<T: Copy>(&mut self, v: &[(f64, T)]) -> T {
        let sum: f64 = v.iter().map(|x| x.0).sum();
        let mut x = ((self.u64() >> 11) as f64) / ((1u64 << 53) as f64) * sum;
        for (w, t) in v {
            if x < *w {
                return *t;
            }
            x -= w;
        }
        v.iter().rev().find(|x| x.0 > 0.0).expect("weights").1
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            v.swap(i, self.idx(i + 1));
        }
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        (0..n).map(|_| self.u64() as u8).collect()
    }
}
