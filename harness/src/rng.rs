//! Small deterministic PRNG (xoshiro256**), seeded with splitmix64.
use std::sync::OnceLock;

/// State, and the numbers drawn last: bugs often need two fields that agree.
#[derive(Clone)]
pub struct Rng([u64; 4], [u64; 4], u8);

/// Numbers written in the code under test: those its usual text does not have, and all others.
/// They only steer what is drawn, never a verdict.
static WORDS: OnceLock<(Vec<u64>, Vec<u64>)> = OnceLock::new();
/// "new,new,...:old,old,..."
pub fn set_words(s: &str) {
    let part = |x: Option<&str>| x.unwrap_or("").split(',').filter_map(|n| n.parse().ok()).collect::<Vec<u64>>();
    let mut i = s.split(':');
    let _ = WORDS.set((part(i.next()), part(i.next())));
}

pub fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E3779B97F4A7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut s = seed;
        Rng([splitmix(&mut s), splitmix(&mut s), splitmix(&mut s), splitmix(&mut s)], [0; 4], 0)
    }
    /// Independent stream `k` of `seed`.
    pub fn stream(seed: u64, k: u64) -> Self {
        let mut s = seed ^ 0xD7D7_D7D7_0000_0000;
        let a = splitmix(&mut s);
        Rng::new(a ^ k.wrapping_mul(0xA24BAED4963EE407))
    }
    pub fn next(&mut self) -> u64 {
        let s = &mut self.0;
        let r = s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = s[1] << 17;
        s[2] ^= s[0];
        s[3] ^= s[1];
        s[1] ^= s[2];
        s[0] ^= s[3];
        s[2] ^= t;
        s[3] = s[3].rotate_left(45);
        r
    }
    /// Uniform in 0..n (n > 0).
    pub fn below(&mut self, n: u64) -> u64 {
        ((self.next() as u128 * n as u128) >> 64) as u64
    }
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) < num
    }
    pub fn byte(&mut self) -> u8 {
        self.next() as u8
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.below(xs.len() as u64) as usize]
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        (0..n).map(|_| self.byte()).collect()
    }
    /// A number from the code under test, or next to one; only from its unusual ones if so wished.
    pub fn word(&mut self, unusual: bool, max: u64) -> Option<u64> {
        let (new, old) = WORDS.get()?;
        let from = if unusual || (!new.is_empty() && self.chance(3, 4)) { new } else { old };
        if from.is_empty() {
            return None;
        }
        let v = *self.pick(from);
        let v = match self.below(5) {
            0 => v.wrapping_sub(1),
            1 => v.wrapping_add(1),
            _ => v,
        };
        (v <= max).then_some(v)
    }
    /// A number of `n` bits, biased towards boundaries and sparse patterns.
    pub fn edgy(&mut self, n: u32) -> u64 {
        if n == 0 {
            return 0;
        }
        let max = if n >= 64 { u64::MAX } else { (1u64 << n) - 1 };
        let v = match self.below(13) {
            10 => self.word(false, max).unwrap_or(max >> 1),
            11 => self.1[self.2 as usize % 4],
            12 => self.1[self.2 as usize % 4].wrapping_add(1),
            0 => 0,
            1 => max,
            2 => 1u64 << self.below(n as u64),
            3 => (1u64 << self.below(n as u64)).wrapping_sub(1),
            4 => max - (self.below(4)).min(max),
            5 => self.below(8),
            _ => self.next(),
        };
        let v = v & max;
        if n > 2 {
            self.2 = self.2.wrapping_add(if v & 1 == 0 { 1 } else { 3 });
            self.1[self.2 as usize % 4] = v;
            self.2 = self.2.wrapping_add((v % 3) as u8);
        }
        v
    }
}

pub fn hash(bytes: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in bytes {
        h = (h ^ *b as u64).wrapping_mul(0x100000001b3);
    }
    let mut s = h ^ (bytes.len() as u64) << 56;
    splitmix(&mut s)
}

pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02X}", x)).collect()
}

pub fn unhex(s: &str) -> Vec<u8> {
    let s: Vec<u8> = s.bytes().filter(|c| c.is_ascii_hexdigit()).collect();
    s.chunks(2).map(|c| u8::from_str_radix(std::str::from_utf8(c).unwrap(), 16).unwrap()).collect()
}
