//! The only source of choice in the harness: everything is drawn from this, seeded per scenario.
#[derive(Clone)]
pub struct Rng(u64);

pub fn mix(mut x: u64) -> u64 {
    x = x.wrapping_add(0x9e37_79b9_7f4a_7c15);
    x = (x ^ (x >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
    x = (x ^ (x >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
    x ^ (x >> 31)
}

impl Rng {
    pub fn new(seed: u64) -> Rng {
        Rng(mix(seed ^ 0x5b1c_e11a))
    }
    /// the stream of scenario `k` of property `prop` under `seed`
    pub fn scenario(seed: u64, prop: &str, k: u64) -> Rng {
        let mut h = mix(seed);
        for b in prop.bytes() {
            h = mix(h ^ u64::from(b));
        }
        Rng(mix(h ^ mix(k)))
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e37_79b9_7f4a_7c15);
        mix(self.0)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 { 0 } else { self.next() % n }
    }
    /// inclusive
    pub fn range(&mut self, a: i64, b: i64) -> i64 {
        if b <= a { a } else { a + self.below((b - a + 1) as u64) as i64 }
    }
    pub fn us(&mut self, a: usize, b: usize) -> usize {
        self.range(a as i64, b as i64) as usize
    }
    pub fn chance(&mut self, pct: u64) -> bool {
        self.below(100) < pct
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len() as u64) as usize]
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = self.below(i as u64 + 1) as usize;
            v.swap(i, j);
        }
    }
    /// log-uniform in [1, max]
    pub fn logu(&mut self, max: u64) -> u64 {
        let bits = 64 - max.max(1).leading_zeros() as u64;
        let b = self.below(bits + 1);
        let hi = if b >= 63 { u64::MAX } else { 1u64 << b };
        (self.below(hi.max(1)) + 1).min(max.max(1))
    }
}
