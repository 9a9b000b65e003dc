//! Deterministic random numbers (splitmix64), one generator per case.
//!
//! Draws may be guided by a dictionary of numbers (the literals of the code under test, see `set_dictionary`):
//! in half of the cases some draws take one of these, or a neighbour, when it lies in the range asked for.
use std::sync::OnceLock;

#[derive(Clone)]
pub struct Rng(u64, u8);

struct Dictionary {
    common: Vec<u64>,
    fresh: Vec<u64>,
}
static DICTIONARY: OnceLock<Dictionary> = OnceLock::new();
static WORDS: OnceLock<(Vec<String>, Vec<String>)> = OnceLock::new();

pub fn set_words(common: Vec<String>, fresh: Vec<String>) {
    let _ = WORDS.set((common, fresh));
}

/// Numbers for guided draws; the fresh ones are preferred.
pub fn set_dictionary(common: &[u64], fresh: &[u64]) {
    let near = |v: &[u64]| {
        let mut o: Vec<u64> = v.iter().flat_map(|x| [x.saturating_sub(1), *x, x.saturating_add(1)]).collect();
        o.sort_unstable();
        o.dedup();
        o
    };
    let _ = DICTIONARY.set(Dictionary { common: near(common), fresh: near(fresh) });
}

pub fn mix(mut z: u64) -> u64 {
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
    z ^ (z >> 31)
}

impl Rng {
    pub fn new(seed: u64) -> Self {
        let s = mix(seed ^ 0x5851_f42d_4c95_7f2d);
        // how often draws are guided: not at all, in 2 of 64, in 10 of 64
        let k = match mix(s ^ 0x1f3d) & 3 {
            0 | 1 => 0,
            2 => 2,
            _ => 10,
        };
        Self(s, if DICTIONARY.get().is_some() { k } else { 0 })
    }
    /// Without guided draws.
    pub fn plain(seed: u64) -> Self {
        Self(mix(seed ^ 0x5851_f42d_4c95_7f2d), 0)
    }
    /// A number of the dictionary in a..=b, at times.
    fn guided(&mut self, a: u64, b: u64) -> Option<u64> {
        if self.1 == 0 || self.raw(64) >= self.1 as usize {
            return None;
        }
        let d = DICTIONARY.get()?;
        let fit = |v: &'static [u64]| &v[v.partition_point(|x| *x < a)..v.partition_point(|x| *x <= b)];
        let (c, f) = (fit(&d.common), fit(&d.fresh));
        let l = if !f.is_empty() && (c.is_empty() || self.raw(4) < 3) { f } else { c };
        if l.is_empty() {
            return None;
        }
        let i = self.raw(l.len());
        Some(l[i])
    }
    /// Uniform in 0..=max, unless guided.
    pub fn up_to(&mut self, max: u64) -> u64 {
        if let Some(x) = self.guided(0, max) {
            return x;
        }
        ((u128::from(self.u64()) * (u128::from(max) + 1)) >> 64) as u64
    }
    /// A word of the dictionary, at times.
    pub fn word(&mut self) -> Option<&'static str> {
        if self.1 == 0 || self.raw(64) >= 4 * self.1 as usize {
            return None;
        }
        let (c, f) = WORDS.get()?;
        let l = if !f.is_empty() && (c.is_empty() || self.raw(4) < 3) { f } else { c };
        if l.is_empty() {
            return None;
        }
        Some(&l[self.raw(l.len())])
    }
    fn raw(&mut self, n: usize) -> usize {
        debug_assert!(n > 0);
        ((u128::from(self.u64()) * n as u128) >> 64) as usize
    }
    pub fn u64(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e37_79b9_7f4a_7c15);
        mix(self.0)
    }
    pub fn u32(&mut self) -> u32 {
        if let Some(x) = self.guided(0, u64::from(u32::MAX)) {
            return x as u32;
        }
        (self.u64() >> 32) as u32
    }
    pub fn u16(&mut self) -> u16 {
        if let Some(x) = self.guided(0, u64::from(u16::MAX)) {
            return x as u16;
        }
        (self.u64() >> 48) as u16
    }
    pub fn u8(&mut self) -> u8 {
        if let Some(x) = self.guided(0, 255) {
            return x as u8;
        }
        (self.u64() >> 56) as u8
    }
    /// Uniform in 0..n (n > 0), unless guided.
    pub fn below(&mut self, n: usize) -> usize {
        if n > 16 {
            if let Some(x) = self.guided(0, n as u64 - 1) {
                return x as usize;
            }
        }
        self.raw(n)
    }
    /// Uniform in a..=b, unless guided.
    pub fn range(&mut self, a: usize, b: usize) -> usize {
        if b - a > 3 {
            if let Some(x) = self.guided(a as u64, b as u64) {
                return x as usize;
            }
        }
        a + self.raw(b - a + 1)
    }
    /// True with probability num/den.
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.raw(den) < num
    }
    pub fn bool(&mut self) -> bool {
        self.u64() >> 63 == 1
    }
    pub fn pick<'a, T>(&mut self, s: &'a [T]) -> &'a T {
        &s[self.raw(s.len())]
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        let mut v = Vec::with_capacity(n + 8);
        while v.len() < n {
            v.extend_from_slice(&self.u64().to_le_bytes());
        }
        v.truncate(n);
        if self.1 > 0 && n > 0 {
            for _ in 0..=n / 64 {
                if let Some(x) = self.guided(0, u64::from(u32::MAX)) {
                    let w = if x < 256 { 1 + self.raw(2) } else if x < 65536 { 2 } else { 4 };
                    if n >= w {
                        let at = self.raw(n - w + 1);
                        v[at..at + w].copy_from_slice(&x.to_be_bytes()[8 - w..]);
                    }
                }
            }
        }
        v
    }
    pub fn shuffle<T>(&mut self, s: &mut [T]) {
        for i in (1..s.len()).rev() {
            let j = self.raw(i + 1);
            s.swap(i, j);
        }
    }
    /// A size in a..=b that is small more often than large.
    pub fn skewed(&mut self, a: usize, b: usize) -> usize {
        if b - a > 3 {
            if let Some(x) = self.guided(a as u64, b as u64) {
                return x as usize;
            }
        }
        let span = b - a + 1;
        let bits = usize::BITS - span.leading_zeros();
        let k = self.raw(bits as usize + 1);
        let m = (1usize << k).min(span);
        a + self.raw(m)
    }
    /// A 16-bit value, at a boundary half of the time.
    pub fn edge_u16(&mut self) -> u16 {
        if self.bool() {
            *self.pick(&[
                0u16, 1, 2, 3, 4, 5, 0x7f, 0x80, 0xff, 0x100, 0x1ff, 0x7ff, 0xfff, 0x1000, 0x7fff,
                0x8000, 0xfffe, 0xffff,
            ])
        } else {
            self.u16()
        }
    }
    /// A 64-bit value spread over all magnitudes, at a boundary often.
    pub fn edge_i64(&mut self) -> i64 {
        if let Some(x) = self.guided(0, i64::MAX as u64) {
            return if self.chance(1, 3) { -(x as i64) } else { x as i64 };
        }
        let base: i64 = match self.below(6) {
            0 => *self.pick(&[0, 1, -1, i64::MAX, i64::MIN, i64::MAX - 1, i64::MIN + 1]),
            1 => {
                let unit = *self.pick(&[1i64, 1000, 60_000, 3_600_000, 86_400_000, 360_000_000]);
                let k = self.skewed(0, 2_000_000) as i64;
                unit.wrapping_mul(k)
            }
            2 => 1i64 << self.below(63),
            3 => 10i64.pow(self.below(19) as u32),
            4 => (self.u64() >> self.below(64)) as i64,
            _ => self.below(400_000_000) as i64,
        };
        let d = *self.pick(&[0i64, 0, 0, 1, -1, 2, -2, 999, -999]);
        let v = base.wrapping_add(d);
        if self.chance(1, 3) {
            v.wrapping_neg()
        } else {
            v
        }
    }
}
