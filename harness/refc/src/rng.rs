//! Deterministic generator (xoshiro256**), with the biased draws the workloads use.
#[derive(Clone)]
pub struct Rng {
    s: [u64; 4],
}
impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut x = seed ^ 0x6a09e667f3bcc909;
        let mut n = || {
            x = x.wrapping_add(0x9e3779b97f4a7c15);
            let mut z = x;
            z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
            z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
            z ^ (z >> 31)
        };
        Rng { s: [n(), n(), n(), n()] }
    }
    /// An independent generator for a named sub-workload.
    pub fn fork(&mut self, tag: &str) -> Rng {
        let mut h = self.u64();
        for b in tag.bytes() {
            h = (h ^ b as u64).wrapping_mul(0x100000001b3);
        }
        Rng::new(h)
    }
    pub fn u64(&mut self) -> u64 {
        let r = self.s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = self.s[1] << 17;
        self.s[2] ^= self.s[0];
        self.s[3] ^= self.s[1];
        self.s[1] ^= self.s[2];
        self.s[0] ^= self.s[3];
        self.s[2] ^= t;
        self.s[3] = self.s[3].rotate_left(45);
        r
    }
    pub fn u8(&mut self) -> u8 {
        self.u64() as u8
    }
    /// Uniform in 0..n.
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 {
            return 0;
        }
        ((self.u64() as u128 * n as u128) >> 64) as usize
    }
    /// Uniform in lo..=hi.
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.below(xs.len())]
    }
    pub fn fill(&mut self, b: &mut [u8]) {
        for c in b.chunks_mut(8) {
            let v = self.u64().to_le_bytes();
            c.copy_from_slice(&v[..c.len()]);
        }
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        let mut v = vec![0; n];
        self.fill(&mut v);
        v
    }
    pub fn arr<const N: usize>(&mut self) -> [u8; N] {
        let mut v = [0; N];
        self.fill(&mut v);
        v
    }
    /// Bytes biased towards structure: constant runs, sparse, or random.
    pub fn biased_bytes(&mut self, n: usize) -> Vec<u8> {
        match self.below(8) {
            0 => vec![0; n],
            1 => vec![0xff; n],
            2 => {
                let mut v = vec![0; n];
                if n > 0 {
                    let i = self.below(n);
                    v[i] = 1 << self.below(8);
                }
                v
            },
            3 => {
                let mut v = vec![0xff; n];
                if n > 0 {
                    let i = self.below(n);
                    v[i] ^= 1 << self.below(8);
                }
                v
            },
            _ => self.bytes(n),
        }
    }
    pub fn biased_arr<const N: usize>(&mut self) -> [u8; N] {
        self.biased_bytes(N).try_into().unwrap()
    }
    /// A 64-bit digit biased towards carry and boundary structure.
    pub fn digit(&mut self) -> u64 {
        match self.below(12) {
            0 => 0,
            1 => u64::MAX,
            2 => 1,
            3 => 1 << 63,
            4 => u64::MAX - 1,
            5 => 1u64 << self.below(64),
            6 => (1u64 << self.below(64)).wrapping_sub(1),
            7 => !(1u64 << self.below(64)),
            8 => u64::MAX << self.below(64),
            9 => self.u64() >> self.below(64),
            _ => self.u64(),
        }
    }
    pub fn digits<const N: usize>(&mut self) -> [u64; N] {
        let mut d = [0; N];
        match self.below(10) {
            0 => {
                for x in d.iter_mut() {
                    *x = self.u64();
                }
            },
            1 => d = [u64::MAX; N],
            2 => {},
            3 => {
                // few significant digits
                let k = self.range(0, N);
                for x in d[..k].iter_mut() {
                    *x = self.digit();
                }
            },
            4 => {
                // a run of ones
                let a = self.below(64 * N + 1);
                let b = self.below(64 * N + 1);
                for i in a.min(b)..a.max(b) {
                    d[i / 64] |= 1 << (i % 64);
                }
            },
            _ => {
                for x in d.iter_mut() {
                    *x = self.digit();
                }
            },
        }
        if self.chance(1, 8) {
            // +-1 neighbours
            let up = self.chance(1, 2);
            for x in d.iter_mut() {
                let (v, o) = if up { x.overflowing_add(1) } else { x.overflowing_sub(1) };
                *x = v;
                if !o {
                    break;
                }
            }
        }
        d
    }
}
