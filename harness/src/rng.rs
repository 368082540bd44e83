//! Small deterministic RNG (xoshiro256**), so a case is a pure function of (seed, property, index).
#[derive(Clone)]
pub struct Rng {
    s: [u64; 4],
}

fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E3779B97F4A7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut x = seed;
        Rng { s: [splitmix(&mut x), splitmix(&mut x), splitmix(&mut x), splitmix(&mut x)] }
    }
    pub fn derive(seed: u64, label: &str, index: u64) -> Self {
        let mut h: u64 = 0xcbf29ce484222325;
        for b in label.bytes() {
            h = (h ^ b as u64).wrapping_mul(0x100000001b3);
        }
        let mut x = seed ^ h.rotate_left(17) ^ index.wrapping_mul(0xD6E8FEB86659FD93);
        let _ = splitmix(&mut x);
        Rng::new(x)
    }
    pub fn u64(&mut self) -> u64 {
        let r = self.s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = self.s[1] << 17;
        self.s[2] ^= self.s[0];
        self.s[3] ^= self.s[1];
        self.s[1] ^= self.s[2];
        self.s[0] ^= self.s[3];
        self.s[2] ^= t;
        self.s[3] = self.s[3].rotate_left(45);
        r
    }
    /// Uniform in 0..n (n > 0)
    pub fn below(&mut self, n: u64) -> u64 {
        assert!(n > 0);
        ((self.u64() as u128 * n as u128) >> 64) as u64
    }
    pub fn usize(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    /// Uniform in lo..=hi
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        lo + self.below(hi - lo + 1)
    }
    /// true with probability num/den
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.usize(xs.len())]
    }
    /// Index drawn according to integer weights
    pub fn weighted(&mut self, weights: &[u64]) -> usize {
        let total: u64 = weights.iter().sum();
        let mut x = self.below(total);
        for (i, w) in weights.iter().enumerate() {
            if x < *w {
                return i;
            }
            x -= w;
        }
        unreachable!()
    }
    pub fn bytes(&mut self, max: usize) -> Vec<u8> {
        let n = self.usize(max + 1);
        (0..n).map(|_| self.u64() as u8).collect()
    }
    pub fn shuffle<T>(&mut self, xs: &mut [T]) {
        for i in (1..xs.len()).rev() {
            xs.swap(i, self.usize(i + 1));
        }
    }
    /// Integers with boundary bias
    pub fn i64_edgy(&mut self) -> i64 {
        match self.below(10) {
            0 => i64::MIN,
            1 => i64::MAX,
            2 => 0,
            3 => -1,
            4 => (self.u64() as i64) >> self.below(64),
            5 => i64::MAX - self.below(3) as i64,
            6 => i64::MIN + self.below(3) as i64,
            _ => self.range(0, 20) as i64 - 10,
        }
    }
    /// A string with awkward characters
    pub fn string_edgy(&mut self, max: usize) -> String {
        const ALPHA: &[&str] = &[
            "a", "b", "z", "0", "9", "-", "_", ".", " ", "/", "?", "#", "%", "%2F", "&", "+", "=", "'", "\"", "\\", ";", ":",
            "é", "ß", "💓", "\u{202e}", "\n", "\t", "\0", "\u{7f}", "$1", "{", "}", "[", "]", "..", "NULL", "A", "~",
        ];
        let n = self.usize(max + 1);
        (0..n).map(|_| *self.pick(ALPHA)).collect()
    }
    pub fn ident(&mut self, max: usize) -> String {
        let n = 1 + self.usize(max);
        (0..n).map(|_| (b'a' + self.below(26) as u8) as char).collect()
    }
}
