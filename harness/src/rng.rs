//! Small deterministic PRNG (splitmix64 seeded xoshiro256**), so that every run replays from a seed.
#[derive(Clone)]
pub struct Rng {
    s: [u64; 4],
    /// After that many numbers, continue with other ones.
    fork: Option<(usize, u64)>,
}

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E3779B97F4A7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut x = seed;
        let mut s = [0u64; 4];
        for v in &mut s {
            x = x.wrapping_add(0x9E3779B97F4A7C15);
            *v = mix(x);
        }
        if s == [0; 4] {
            s[0] = 1;
        }
        Rng { s, fork: None }
    }
    /// Gives the next `n` numbers as this one would, then others.
    pub fn forked(mut self, n: usize, other: u64) -> Self {
        self.fork = Some((n, other));
        self
    }
    pub fn next(&mut self) -> u64 {
        match &mut self.fork {
            None => {}
            Some((0, other)) => *self = Rng::new(*other),
            Some((n, _)) => *n -= 1,
        }
        let r = self.s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = self.s[1] << 17;
        self.s[2] ^= self.s[0];
        self.s[3] ^= self.s[1];
        self.s[1] ^= self.s[2];
        self.s[0] ^= self.s[3];
        self.s[2] ^= t;
        self.s[3] = self.s[3].rotate_left(45);
        r
    }
    /// Uniform in 0..n (n > 0).
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % n as u64) as usize
    }
    pub fn range(&mut self, lo: usize, hi_incl: usize) -> usize {
        lo + self.below(hi_incl - lo + 1)
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
    pub fn bool(&mut self) -> bool {
        self.next() & 1 == 1
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.below(xs.len())]
    }
}

pub fn fnv(data: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in data {
        h ^= *b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h
}
