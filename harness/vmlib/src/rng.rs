/// xoshiro256** seeded by splitmix64: deterministic and dependency-free.
#[derive(Clone)]
pub struct Rng {
    s: [u64; 4],
}
pub fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E3779B97F4A7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}
pub struct Fnv(u64);
impl Fnv {
    pub fn new(s: &str) -> Self {
        let mut f = Fnv(0xcbf29ce484222325);
        std::hash::Hasher::write(&mut f, s.as_bytes());
        f
    }
    pub fn fin(&self) -> u64 {
        let mut x = self.0;
        splitmix(&mut x)
    }
}
impl std::hash::Hasher for Fnv {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for c in b {
            self.0 = (self.0 ^ *c as u64).wrapping_mul(0x100000001b3);
        }
    }
}
impl Rng {
    pub fn new(seed: u64) -> Rng {
        let mut x = seed;
        Rng { s: [splitmix(&mut x), splitmix(&mut x), splitmix(&mut x), splitmix(&mut x)] }
    }
    pub fn case(seed: u64, prop: &str, stage: &str, index: u64) -> Rng {
        let mut x = seed ^ Fnv::new(prop).fin().rotate_left(7) ^ Fnv::new(stage).fin().rotate_left(31);
        let a = splitmix(&mut x);
        Rng::new(a ^ index.wrapping_mul(0xD1342543DE82EF95))
    }
    pub fn next(&mut self) -> u64 {
        let r = self.s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = self.s[1] << 17;
        self.s[2] ^= self.s[0];
        self.s[3] ^= self.s[1];
        self.s[1] ^= self.s[2];
        self.s[0] ^= self.s[3];
        self.s[2] ^= t;
        self.s[3] = self.s[3].rotate_left(45);
        r
    }
    /// 0..n (n>0)
    pub fn below(&mut self, n: u64) -> u64 {
        ((self.next() as u128 * n as u128) >> 64) as u64
    }
    pub fn usize(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    /// lo..=hi
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.usize(hi - lo + 1)
    }
    pub fn u8(&mut self) -> u8 {
        self.next() as u8
    }
    pub fn bool(&mut self) -> bool {
        self.next() & 1 == 1
    }
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, s: &'a [T]) -> &'a T {
        &s[self.usize(s.len())]
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        (0..n).map(|_| self.u8()).collect()
    }
    pub fn array<const N: usize>(&mut self) -> [u8; N] {
        std::array::from_fn(|_| self.u8())
    }
    /// sizes biased to small values with the occasional boundary
    pub fn len(&mut self, max: usize) -> usize {
        let r = match self.below(10) {
            0 => 0,
            1..=5 => self.usize(9),
            6..=7 => self.usize(33),
            8 => *self.pick(&[1, 2, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65]),
            _ => self.usize(max + 1),
        };
        r.min(max)
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = self.usize(i + 1);
            v.swap(i, j)
        }
    }
}
