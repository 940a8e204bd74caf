//! Deterministic random numbers and small helpers.
use std::fmt::Write;

#[derive(Clone)]
pub struct Rng(pub u64);

impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(seed.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ 0xD1B5_4A32_D192_ED03)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    /// 0..n
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 {
            0
        } else {
            (self.next() % n as u64) as usize
        }
    }
    /// a..=b
    pub fn range(&mut self, a: usize, b: usize) -> usize {
        a + self.below(b - a + 1)
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, s: &'a [T]) -> &'a T {
        &s[self.below(s.len())]
    }
    pub fn u8(&mut self) -> u8 {
        match self.below(8) {
            0 => *self.pick(&[0, 1, 2, 3, 4, 5, 6, 7, 8, 0x3f, 0x40, 0x41, 0x7f, 0x80, 0x81, 0xbf, 0xc0, 0xc1, 0xfe, 0xff]),
            _ => self.next() as u8,
        }
    }
    pub fn u16(&mut self) -> u16 {
        match self.below(4) {
            0 => *self.pick(&[0, 1, 2, 255, 256, 257, 0x3fff, 0x4000, 0x7fff, 0x8000, 0xc000, 0xfffe, 0xffff]),
            _ => self.next() as u16,
        }
    }
    pub fn u32(&mut self) -> u32 {
        match self.below(4) {
            0 => *self.pick(&[0, 1, 255, 256, 65535, 65536, 0x7fff_ffff, 0x8000_0000, u32::MAX]),
            _ => self.next() as u32,
        }
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        (0..n).map(|_| self.u8()).collect()
    }
    /// A length that is mostly small and sometimes at a boundary
    pub fn len(&mut self, max: usize) -> usize {
        match self.below(12) {
            0 => 0,
            1 => max,
            2 => max.saturating_sub(self.below(4)),
            3 => self.below(max + 1),
            _ => self.below(12.min(max) + 1),
        }
    }
    pub fn ascii(&mut self, n: usize) -> Vec<u8> {
        (0..n).map(|_| b'a' + self.below(26) as u8).collect()
    }
}

pub fn hex(b: &[u8]) -> String {
    let mut s = String::with_capacity(2 * b.len());
    for x in b {
        let _ = write!(s, "{x:02x}");
    }
    s
}

/// Shortened hex for messages
pub fn hx(b: &[u8]) -> String {
    if b.len() <= 400 {
        hex(b)
    } else {
        format!("{}..({} bytes)", hex(&b[..400]), b.len())
    }
}

pub type Res = Result<(), String>;

#[macro_export]
macro_rules! ck {
    ($c:expr, $($a:tt)*) => {
        if !$c {
            return Err(format!($($a)*));
        }
    };
}
