//! Small deterministic random number generator (splitmix64); every random choice of the
//! workloads comes from here, so a case is replayed by (property, seed, index).
#[derive(Clone)]
pub struct Rng(u64);

pub fn mix(mut z: u64) -> u64 {
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    z ^ (z >> 31)
}

pub fn hash_str(s: &str) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    mix(h)
}

impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(mix(seed.wrapping_add(0x9e3779b97f4a7c15)))
    }
    pub fn for_case(prop: &str, seed: u64, idx: u64) -> Self {
        Rng::new(mix(hash_str(prop) ^ mix(seed)) ^ mix(idx.wrapping_mul(0x2545F4914F6CDD1D)))
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15);
        mix(self.0)
    }
    /// uniform in 0..n
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 { 0 } else { (self.next() % n as u64) as usize }
    }
    /// uniform in a..=b
    pub fn range(&mut self, a: i64, b: i64) -> i64 {
        a + (self.next() % ((b - a + 1) as u64)) as i64
    }
    /// true with probability p/100
    pub fn pct(&mut self, p: u32) -> bool {
        (self.next() % 100) < p as u64
    }
    pub fn pick<'a, T: ?Sized>(&mut self, v: &'a [&'a T]) -> &'a T {
        v[self.below(v.len())]
    }
    pub fn choose<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = self.below(i + 1);
            v.swap(i, j);
        }
    }
}
