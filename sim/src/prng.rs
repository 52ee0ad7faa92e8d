//! Pseudo-random numbers and the choice sequence that every case is made from.

#[derive(Clone)]
pub struct Rng(u64);

impl Rng {
    pub fn new(seed: u64) -> Rng {
        Rng(seed)
    }

    /// splitmix64
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e37_79b9_7f4a_7c15);
        mix(self.0)
    }

    pub fn below(&mut self, n: u64) -> u64 {
        if n <= 1 {
            return 0;
        }
        ((self.next() as u128 * n as u128) >> 64) as u64
    }
}

pub fn mix(x: u64) -> u64 {
    let mut z = x;
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
    z ^ (z >> 31)
}

/// FNV-1a, continued
pub fn hash_bytes(mut h: u64, data: &[u8]) -> u64 {
    for b in data {
        h ^= *b as u64;
        h = h.wrapping_mul(0x0000_0100_0000_01b3);
    }
    h
}

pub fn hash_u64(h: u64, v: u64) -> u64 {
    hash_bytes(h, &v.to_le_bytes())
}

pub const HASH0: u64 = 0xcbf2_9ce4_8422_2325;

/// Where all decisions of a case come from: either drawn from the PRNG (and
/// recorded), or replayed from a recording. A choice of 0 is always the
/// simplest one, and what is drawn beyond the end of a recording is 0.
pub struct Src {
    rng: Rng,
    replay: Option<Vec<u64>>,
    pos: usize,
    pub rec: Vec<u64>,
}

impl Src {
    pub fn from_seed(seed: u64) -> Src {
        Src { rng: Rng::new(seed), replay: None, pos: 0, rec: Vec::new() }
    }

    pub fn from_choices(choices: &[u64]) -> Src {
        Src { rng: Rng::new(0), replay: Some(choices.to_vec()), pos: 0, rec: Vec::new() }
    }

    /// A number in 0..n
    pub fn draw(&mut self, n: u64) -> u64 {
        let v = match self.replay {
            None => self.rng.below(n),
            Some(ref r) => {
                let v = if self.pos < r.len() { r[self.pos] } else { 0 };
                if n == 0 { 0 } else { v.min(n - 1) }
            }
        };
        self.pos += 1;
        self.rec.push(v);
        v
    }

    pub fn below(&mut self, n: usize) -> usize {
        self.draw(n as u64) as usize
    }

    /// lo..=hi
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }

    /// true `k` times out of `n`; false is the simple choice
    pub fn chance(&mut self, k: u64, n: u64) -> bool {
        self.draw(n) >= n - k
    }

    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.below(xs.len())]
    }

    /// A seed for a sub-generator. 0 is a fine seed too.
    pub fn seed(&mut self) -> u64 {
        self.draw(1 << 32)
    }
}
