//! The only source of randomness of the simulator.

#[derive(Clone)]
pub struct Rng(u64);

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E37_79B9_7F4A_7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(mix(seed ^ 0x5851_F42D_4C95_7F2D))
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    /// Uniform in 0..n (n > 0).
    pub fn below(&mut self, n: u64) -> u64 {
        ((self.next() as u128 * n as u128) >> 64) as u64
    }
    /// Uniform in lo..=hi.
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        lo + self.below(hi - lo + 1)
    }
    /// True with probability pct/100.
    pub fn pct(&mut self, pct: u64) -> bool {
        self.below(100) < pct
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.below(xs.len() as u64) as usize]
    }
}

/// Byte `pos` of the content stream `cseed`. Streams are random access, so a
/// source can re-send any part.
pub fn content_word(cseed: u64, word: u64) -> u64 {
    mix(cseed.wrapping_mul(0xD6E8_FEB8_6659_FD93) ^ word)
}

/// Mostly random bytes; some streams are monotonous.
pub fn fill_content(cseed: u64, pos: u64, out: &mut [u8]) {
    let mut each = |f: &dyn Fn(u64) -> u8| {
        for (i, b) in out.iter_mut().enumerate() {
            *b = f(pos.wrapping_add(i as u64));
        }
    };
    match cseed & 63 {
        5 => return each(&|_| 0),
        6 => return each(&|_| 0xff),
        // The same block again and again.
        10 => return each(&|p| mix(cseed ^ (p & 63)) as u8),
        // Mostly zeros.
        11 => {
            return each(&|p| match mix(cseed ^ p) {
                w if w & 63 == 0 => (w >> 8) as u8,
                _ => 0,
            })
        }
        // A ramp.
        12 => return each(&|p| p as u8),
        _ => {}
    }
    let mut i = 0;
    while i < out.len() {
        let p = pos.wrapping_add(i as u64);
        let w = content_word(cseed, p >> 3).to_le_bytes();
        let off = (p & 7) as usize;
        let n = (8 - off).min(out.len() - i);
        out[i..i + n].copy_from_slice(&w[off..off + n]);
        i += n;
    }
}
