//! Deterministic pseudo-random numbers (xoshiro256**, seeded by splitmix64).

#[derive(Clone, Debug)]
pub struct Rng {
    s: [u64; 4],
}

pub fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9e37_79b9_7f4a_7c15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
    z ^ (z >> 31)
}

/// Derives one seed from several numbers.
pub fn mix(parts: &[u64]) -> u64 {
    let mut x = 0x1234_5678_9abc_def0;
    for p in parts {
        x ^= *p;
        x = splitmix(&mut x);
    }
    x
}

pub fn mix_bytes(seed: u64, bytes: &[u8]) -> u64 {
    let mut x = seed ^ (bytes.len() as u64).wrapping_mul(0x9e37_79b9);
    for c in bytes.chunks(8) {
        let mut b = [0_u8; 8];
        b[..c.len()].copy_from_slice(c);
        x ^= u64::from_le_bytes(b);
        x = splitmix(&mut x);
    }
    splitmix(&mut x)
}

impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut x = seed;
        let mut s = [0; 4];
        for v in &mut s {
            *v = splitmix(&mut x);
        }
        Self { s }
    }

    pub fn u64(&mut self) -> u64 {
        let r = self.s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = self.s[1] << 17;
        self.s[2] ^= self.s[0];
        self.s[3] ^= self.s[1];
        self.s[1] ^= self.s[2];
        self.s[0] ^= self.s[3];
        self.s[2] ^= t;
        self.s[3] = self.s[3].rotate_left(45);
        r
    }

    /// A number in `0..n` (`n > 0`).
    pub fn below(&mut self, n: usize) -> usize {
        (self.u64() % (n as u64)) as usize
    }

    /// A number in `a..=b`.
    pub fn range(&mut self, a: usize, b: usize) -> usize {
        a + self.below(b - a + 1)
    }

    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }

    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }

    pub fn fill(&mut self, b: &mut [u8]) {
        for c in b.chunks_mut(8) {
            let r = self.u64().to_le_bytes();
            c.copy_from_slice(&r[..c.len()]);
        }
    }

    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        let mut v = vec![0; n];
        self.fill(&mut v);
        v
    }

    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = self.below(i + 1);
            v.swap(i, j);
        }
    }
}
