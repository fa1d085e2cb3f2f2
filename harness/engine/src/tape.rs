use crate::rng::Rng;

/// Literals found in the code under test (static) and operands of comparisons it made (dynamic).
/// They only bias generation: whatever is drawn is recorded literally on the tape.
#[derive(Default, Clone)]
pub struct Dict {
    pub ints: Vec<u64>,
    pub strs: Vec<Vec<u8>>,
    /// Characters that occur in `strs`, and small `ints`.
    pub chars: Vec<u32>,
}

impl Dict {
    pub fn load(path: &str) -> Dict {
        let mut d = Dict::default();
        if let Ok(s) = std::fs::read_to_string(path) {
            for l in s.lines() {
                if let Some(x) = l.strip_prefix("i ") {
                    if let Ok(v) = x.parse() {
                        d.ints.push(v);
                    }
                } else if let Some(x) = l.strip_prefix("s ") {
                    let b: Option<Vec<u8>> = (0..x.len() / 2)
                        .map(|i| u8::from_str_radix(&x[2 * i..2 * i + 2], 16).ok())
                        .collect();
                    if let Some(b) = b {
                        d.strs.push(b);
                    }
                }
            }
        }
        let mut c: Vec<u32> = d.strs.iter().flat_map(|s| String::from_utf8_lossy(s).chars().collect::<Vec<_>>()).map(|c| c as u32).collect();
        c.extend(d.ints.iter().filter(|v| **v < 0x110000).map(|v| *v as u32));
        c.sort();
        c.dedup();
        d.chars = c;
        d
    }
}

pub const BOUNDARIES: &[u64] = &[
    0, 1, 2, 9, 10, 19, 20, 21, 22, 23, 24, 25, 27, 28, 31, 32, 63, 64, 65, 126, 127, 128, 129, 254, 255,
    256, 257, 511, 512, 1023, 1024, 4095, 4096, 32767, 32768, 65534, 65535, 65536, 65537, 0x7fff_fffe, 0x7fff_ffff,
    0x8000_0000, 0xffff_fffe, 0xffff_ffff, 0x1_0000_0000, 0x1_0000_0001, 1 << 53, 0x7fff_ffff_ffff_fffe,
    0x7fff_ffff_ffff_ffff, 0x8000_0000_0000_0000, 0x8000_0000_0000_0001, u64::MAX - 1, u64::MAX,
    0xD7FF, 0xD800, 0xDFFF, 0xE000, 0x10FFFF, 0x110000,
];

pub struct Tape<'a> {
    base: &'a [u64],
    pos: usize,
    rng: Option<Rng>,
    pub rec: Vec<u64>,
    pub dict: &'a Dict,
    /// Remaining structure budget of this case (set by `set_budget`).
    pub budget: i64,
}

fn interesting(r: &mut Rng, d: &Dict) -> u64 {
    match r.below(16) {
        0..=3 => r.below(32),
        4..=6 => {
            let bits = r.below(65);
            if bits == 0 {
                0
            } else {
                r.next() >> (64 - bits)
            }
        }
        7..=10 => {
            let b = BOUNDARIES[r.below(BOUNDARIES.len() as u64) as usize];
            match r.below(4) {
                0 => b.wrapping_add(1),
                1 => b.wrapping_sub(1),
                _ => b,
            }
        }
        11..=13 if !d.ints.is_empty() => {
            let b = d.ints[r.below(d.ints.len() as u64) as usize];
            match r.below(4) {
                0 => b.wrapping_add(1),
                1 => b.wrapping_sub(1),
                _ => b,
            }
        }
        14 => !r.below(300),
        _ => r.next(),
    }
}

impl<'a> Tape<'a> {
    pub fn new(base: &'a [u64], ext: Option<u64>, dict: &'a Dict) -> Tape<'a> {
        Tape { base, pos: 0, rng: ext.map(Rng::new), rec: Vec::with_capacity(64), dict, budget: 40 }
    }

    /// One recorded decision in 0..=max. Missing decisions come from the extension generator, or are 0.
    pub fn draw(&mut self, max: u64, gen: impl FnOnce(&mut Rng, &Dict) -> u64) -> u64 {
        let v = if self.pos < self.base.len() {
            self.base[self.pos]
        } else {
            match &mut self.rng {
                Some(r) => gen(r, self.dict),
                None => 0,
            }
        };
        self.pos += 1;
        let v = if v <= max { v } else { v % (max + 1) };
        self.rec.push(v);
        v
    }

    /// Uniform in 0..n.
    pub fn below(&mut self, n: u64) -> u64 {
        debug_assert!(n > 0);
        self.draw(n - 1, |r, _| r.below(n))
    }
    /// Below one of several bounds.
    pub fn below_any(&mut self, bounds: &[u64]) -> u64 {
        let n = *self.pick(bounds);
        self.below(n)
    }
    pub fn pick<'b, T>(&mut self, xs: &'b [T]) -> &'b T {
        let i = self.below(xs.len() as u64) as usize;
        &xs[i]
    }
    /// Index chosen with the given weights.
    pub fn weighted(&mut self, w: &[u64]) -> usize {
        let n = w.len() as u64;
        let total: u64 = w.iter().sum();
        self.draw(n - 1, |r, _| {
            let mut x = r.below(total);
            for (i, w) in w.iter().enumerate() {
                if x < *w {
                    return i as u64;
                }
                x -= w;
            }
            n - 1
        }) as usize
    }
    /// True with probability num/den; false is the simpler choice.
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.draw(1, |r, _| (r.below(den) < num) as u64) == 1
    }
    /// Any 64-bit integer, biased to small ones, width boundaries and dictionary values.
    pub fn int(&mut self) -> u64 {
        self.draw(u64::MAX, interesting)
    }
    /// An integer of 0..=max with the same bias.
    pub fn int_max(&mut self, max: u64) -> u64 {
        self.draw(max, |r, d| {
            for _ in 0..4 {
                let v = interesting(r, d);
                if v <= max {
                    return v;
                }
            }
            r.below(max.saturating_add(1).max(1))
        })
    }
    /// Signed with the same bias, in min..=max.
    pub fn sint(&mut self, min: i128, max: i128) -> i128 {
        let neg = min < 0 && self.chance(1, 2);
        if neg {
            -(self.int_max((-(min + 1)) as u64) as i128) - 1
        } else {
            self.int_max(max.min(u64::MAX as i128) as u64) as i128
        }
    }
    /// A length in 0..=max: mostly small, sometimes at head-width boundaries or dictionary values.
    pub fn len(&mut self, max: u64) -> usize {
        self.draw(max, |r, d| match r.below(32) {
            0..=21 => r.below(6),
            22..=25 => r.below(12),
            26..=27 => r.below(40),
            28..=29 => [23u64, 24, 25, 31, 32, 33, 63, 64, 65, 127, 128, 255, 256, 257][r.below(14) as usize],
            30 => {
                let v = interesting(r, d);
                if v <= max {
                    v
                } else {
                    r.below(4)
                }
            }
            _ => {
                if r.below(20) == 0 {
                    [65535u64, 65536, 65537, 4096, 1000, 2000][r.below(6) as usize]
                } else {
                    r.below(300)
                }
            }
        }
        .min(max)) as usize
    }
    /// A collection size bounded by what is left of the case's budget.
    pub fn size(&mut self) -> usize {
        let max = self.budget.max(0) as u64;
        let n = self.len(max);
        self.budget -= n as i64 + 1;
        n
    }
    pub fn set_budget(&mut self) {
        let w = [30u64, 30, 20, 10, 2, 1];
        let i = self.weighted(&w);
        self.budget = [4, 12, 40, 120, 600, 3000][i];
    }
    /// `n` bytes; long runs are expanded from one draw.
    pub fn fill(&mut self, n: usize) -> Vec<u8> {
        if n <= 48 {
            (0..n)
                .map(|_| {
                    self.draw(255, |r, _| match r.below(4) {
                        0 => [0u64, 1, 0x7f, 0x80, 0xff, 0x20, 0x61, 0x18][r.below(8) as usize],
                        _ => r.below(256),
                    }) as u8
                })
                .collect()
        } else {
            let seed = self.draw(u64::MAX, |r, _| r.next());
            let mut r = Rng::new(seed);
            let mut v = Vec::with_capacity(n);
            while v.len() < n {
                v.extend_from_slice(&r.next().to_le_bytes());
            }
            v.truncate(n);
            v
        }
    }
    /// A byte string of length at most `max`.
    pub fn bytes(&mut self, max: u64) -> Vec<u8> {
        // A dictionary string is decided once and recorded byte by byte.
        let mut lit: Option<Vec<u8>> = None;
        if let (true, Some(r)) = (self.pos >= self.base.len(), &mut self.rng) {
            if !self.dict.strs.is_empty() && r.below(12) == 0 {
                let s = &self.dict.strs[r.below(self.dict.strs.len() as u64) as usize];
                if s.len() as u64 <= max && s.len() <= 48 {
                    lit = Some(s.clone());
                }
            }
        }
        if let Some(s) = lit {
            let n = self.draw(max, |_, _| s.len() as u64) as usize;
            (0..n).map(|i| self.draw(255, |_, _| s[i] as u64) as u8).collect()
        } else {
            let n = self.len(max);
            self.fill(n)
        }
    }
    /// One character, biased to UTF-8 length boundaries.
    pub fn char(&mut self) -> char {
        const C: &[u32] = &[
            0, 1, 0x20, 0x41, 0x61, 0x7a, 0x7f, 0x80, 0xff, 0x7ff, 0x800, 0xd7ff, 0xe000, 0xfffd, 0xffff, 0x10000,
            0x1f600, 0x10ffff, // and what trimming, folding and normalising would change:
            0x09, 0x0a, 0x0d, 0x1b, 0x22, 0x27, 0x2e, 0x2f, 0x30, 0x5c, 0x85, 0xa0, 0xad, 0xc5, 0xdf, 0xe9, 0x130,
            0x131, 0x17f, 0x300, 0x301, 0x1e9e, 0x200b, 0x200d, 0x2028, 0x202e, 0x212b, 0x3000, 0xac00, 0xfb01, 0xfe0f,
            0xfeff, 0xfffe,
        ];
        let v = self.draw(0x10ffff, |r, d| match r.below(8) {
            0..=3 => 0x61 + r.below(26),
            4 | 5 => C[r.below(C.len() as u64) as usize] as u64,
            6 if !d.chars.is_empty() => d.chars[r.below(d.chars.len() as u64) as usize] as u64,
            _ => r.below(0x110000),
        });
        char::from_u32(v as u32).unwrap_or('\u{d7ff}')
    }
    pub fn string(&mut self, max: u64) -> String {
        let mut lit: Option<String> = None;
        if let (true, Some(r)) = (self.pos >= self.base.len(), &mut self.rng) {
            if !self.dict.strs.is_empty() && r.below(10) == 0 {
                let s = &self.dict.strs[r.below(self.dict.strs.len() as u64) as usize];
                if s.len() as u64 <= max && s.len() <= 48 {
                    lit = String::from_utf8(s.clone()).ok();
                }
            }
        }
        if let Some(s) = lit {
            let cs: Vec<char> = s.chars().collect();
            let n = self.draw(max, |_, _| cs.len() as u64) as usize;
            return (0..n)
                .map(|i| {
                    let v = self.draw(0x10ffff, |_, _| cs[i] as u64);
                    char::from_u32(v as u32).unwrap_or('\u{d7ff}')
                })
                .collect();
        }
        let n = self.len(max);
        if n <= 48 {
            let mut s = String::new();
            for _ in 0..n {
                s.push(self.char());
            }
            s
        } else {
            // Long text: exactly n bytes of ASCII, optionally ending in a multi-byte character.
            let seed = self.draw(u64::MAX, |r, _| r.next());
            let mut r = Rng::new(seed);
            let mut s: String = (0..n).map(|_| (0x61 + r.below(26)) as u8 as char).collect();
            if r.below(3) == 0 {
                s.truncate(n - 3);
                s.push('\u{20ac}');
            }
            if r.below(6) == 0 {
                s.replace_range(..3, ["\u{feff}", "\u{3000}", "   "][r.below(3) as usize]);
            }
            s
        }
    }
}
