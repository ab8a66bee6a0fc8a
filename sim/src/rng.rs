/// SplitMix64: every random choice of the simulator comes from one of these.
#[derive(Clone)]
pub struct Rng(u64);

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9e3779b97f4a7c15);
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    z ^ (z >> 31)
}

impl Rng {
    pub const fn new(seed: u64) -> Rng {
        Rng(seed)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
        z ^ (z >> 31)
    }
    /// uniform in 0..n
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 {
            return 0;
        }
        (self.next() % n as u64) as usize
    }
    /// uniform in lo..=hi
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
    /// geometric-like with the given mean, at least 1
    pub fn geo(&mut self, mean: usize) -> usize {
        let u = (self.next() >> 11) as f64 / (1u64 << 53) as f64;
        let x = -(1.0 - u).ln() * mean as f64;
        (x as usize).max(1)
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            v.swap(i, self.below(i + 1));
        }
    }
}

/// FNV-1a style running hash for event traces.
#[derive(Clone, Copy)]
pub struct Trace(pub u64);
impl Trace {
    pub fn add(&mut self, x: u64) {
        self.0 = (self.0 ^ x).wrapping_mul(0x100000001b3).rotate_left(23) ^ mix(x);
    }
    pub fn add_bytes(&mut self, b: &[u8]) {
        let mut h: u64 = 0xcbf29ce484222325;
        for x in b {
            h = (h ^ *x as u64).wrapping_mul(0x100000001b3);
        }
        self.add(h);
        self.add(b.len() as u64);
    }
}
