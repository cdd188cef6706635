/// xoshiro256**, seeded through splitmix64. Every random choice of a case comes
/// from one of these, so a case is replayed from (seed, property, index) alone.
#[derive(Clone)]
pub struct Rng {
    s: [u64; 4],
}

pub fn splitmix(state: &mut u64) -> u64 {
    *state = state.wrapping_add(0x9e37_79b9_7f4a_7c15);
    let mut z = *state;
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
    z ^ (z >> 31)
}

pub fn mix(parts: &[u64]) -> u64 {
    let mut h = 0x1234_5678_9abc_def0u64;
    for p in parts {
        h ^= *p;
        h = splitmix(&mut h.clone());
    }
    h
}

impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut st = seed;
        Rng {
            s: [
                splitmix(&mut st),
                splitmix(&mut st),
                splitmix(&mut st),
                splitmix(&mut st),
            ],
        }
    }

    pub fn u64(&mut self) -> u64 {
        let r = self.s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = self.s[1] << 17;
        self.s[2] ^= self.s[0];
        self.s[3] ^= self.s[1];
        self.s[1] ^= self.s[2];
        self.s[0] ^= self.s[3];
        self.s[2] ^= t;
        self.s[3] = self.s[3].rotate_left(45);
        r
    }

    pub fn u32(&mut self) -> u32 {
        (self.u64() >> 32) as u32
    }

    pub fn u16(&mut self) -> u16 {
        (self.u64() >> 48) as u16
    }

    pub fn u8(&mut self) -> u8 {
        (self.u64() >> 56) as u8
    }

    /// Uniform in 0..n.
    pub fn below(&mut self, n: u64) -> u64 {
        assert!(n > 0, "Rng::below(0)");
        ((u128::from(self.u64()) * u128::from(n)) >> 64) as u64
    }

    pub fn usize_below(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }

    /// Uniform in lo..=hi.
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        if lo == 0 && hi == u64::MAX {
            self.u64()
        } else {
            lo + self.below(hi - lo + 1)
        }
    }

    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) < num
    }

    pub fn bool(&mut self) -> bool {
        self.u64() >> 63 == 1
    }

    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.usize_below(xs.len())]
    }

    pub fn fill(&mut self, buf: &mut [u8]) {
        for c in buf.chunks_mut(8) {
            let b = self.u64().to_le_bytes();
            c.copy_from_slice(&b[..c.len()]);
        }
    }

    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        let mut v = vec![0; n];
        self.fill(&mut v);
        v
    }

    pub fn array<const N: usize>(&mut self) -> [u8; N] {
        let mut v = [0; N];
        self.fill(&mut v);
        v
    }

    pub fn shuffle<T>(&mut self, xs: &mut [T]) {
        for i in (1..xs.len()).rev() {
            let j = self.usize_below(i + 1);
            xs.swap(i, j);
        }
    }

    /// A value with a uniformly chosen magnitude, so both small and huge come up.
    pub fn scaled(&mut self, max: u64) -> u64 {
        let bits = 64 - max.leading_zeros() as u64;
        let b = self.range(0, bits);
        let v = if b >= 64 {
            self.u64()
        } else if b == 0 {
            0
        } else {
            self.below(1 << b)
        };
        v.min(max)
    }

    /// Values around the places integer code breaks.
    pub fn edgy64(&mut self) -> u64 {
        match self.below(6) {
            0 => *self.pick(&[
                0,
                1,
                2,
                0x7fff,
                0x8000,
                0xffff,
                0x1_0000,
                0x7fff_ffff,
                0x8000_0000,
                0xffff_ffff,
                0x1_0000_0000,
                0x7fff_ffff_ffff_ffff,
                0x8000_0000_0000_0000,
                u64::MAX - 1,
                u64::MAX,
            ]),
            1 => {
                let b = self.below(64);
                (1u64 << b).wrapping_add(self.below(5)).wrapping_sub(2)
            }
            2 => self.scaled(u64::MAX),
            3 => self.below(64),
            _ => self.u64(),
        }
    }

    pub fn edgy32(&mut self) -> u32 {
        self.edgy64() as u32
    }

    pub fn edgy16(&mut self) -> u16 {
        self.edgy64() as u16
    }
}

/// FNV-1a, for fingerprints of cases and images.
#[derive(Clone, Copy)]
pub struct Fnv(pub u64);

impl Default for Fnv {
    fn default() -> Self {
        Fnv(0xcbf2_9ce4_8422_2325)
    }
}

impl Fnv {
    pub fn bytes(mut self, b: &[u8]) -> Self {
        for x in b {
            self.0 = (self.0 ^ u64::from(*x)).wrapping_mul(0x0000_0100_0000_01b3);
        }
        self
    }
    pub fn u64(self, v: u64) -> Self {
        self.bytes(&v.to_le_bytes())
    }
}
