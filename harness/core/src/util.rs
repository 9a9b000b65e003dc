//! Hashing and a small JSON writer.
pub fn fnv(bytes: &[u8]) -> u64 {
    let mut h = Hasher::new();
    h.bytes(bytes);
    h.get()
}

#[derive(Clone)]
pub struct Hasher(u64);
impl Default for Hasher {
    fn default() -> Self {
        Self::new()
    }
}
impl Hasher {
    pub fn new() -> Self {
        Self(0xcbf2_9ce4_8422_2325)
    }
    pub fn bytes(&mut self, b: &[u8]) -> &mut Self {
        let mut it = b.chunks_exact(8);
        for c in &mut it {
            self.u64(u64::from_le_bytes(c.try_into().unwrap()));
        }
        for &x in it.remainder() {
            self.0 = (self.0 ^ u64::from(x)).wrapping_mul(0x0000_0100_0000_01b3);
        }
        self.u64(b.len() as u64)
    }
    pub fn u64(&mut self, v: u64) -> &mut Self {
        self.0 = crate::rng::mix(self.0 ^ v).wrapping_add(0x9e37_79b9_7f4a_7c15);
        self
    }
    pub fn get(&self) -> u64 {
        crate::rng::mix(self.0)
    }
}

pub fn jstr(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 || c as u32 == 0x7f => {
                o.push_str(&format!("\\u{:04x}", c as u32));
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

/// Hexadecimal of at most `max` bytes.
pub fn hex(b: &[u8], max: usize) -> String {
    let mut s = String::new();
    for x in b.iter().take(max) {
        s.push_str(&format!("{x:02x}"));
    }
    if b.len() > max {
        s.push_str(&format!("...({} bytes)", b.len()));
    }
    s
}

/// Number of (possibly overlapping) occurrences of the MPEG pack start code.
pub fn count_pack_codes(b: &[u8]) -> usize {
    b.windows(4).filter(|w| *w == [0, 0, 1, 0xba]).count()
}
