//! xoshiro256** seeded through splitmix64.
#[derive(Clone)]
pub struct Rng([u64; 4]);

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E37_79B9_7F4A_7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

pub fn hash_bytes(b: &[u8]) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for x in b {
        h = (h ^ *x as u64).wrapping_mul(0x100_0000_01b3);
    }
    mix(h)
}

pub fn hash_u64s(b: &[u64]) -> u64 {
    let mut h = 0x1234_5678_9abc_def1u64;
    for x in b {
        h = mix(h ^ *x).wrapping_mul(0x100_0000_01b3);
    }
    mix(h ^ b.len() as u64)
}

impl Rng {
    pub fn new(seed: u64) -> Rng {
        let mut s = seed;
        let mut o = [0; 4];
        for x in o.iter_mut() {
            s = mix(s);
            *x = s;
        }
        Rng(o)
    }
    pub fn next(&mut self) -> u64 {
        let s = &mut self.0;
        let r = s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = s[1] << 17;
        s[2] ^= s[0];
        s[3] ^= s[1];
        s[1] ^= s[2];
        s[0] ^= s[3];
        s[2] ^= t;
        s[3] = s[3].rotate_left(45);
        r
    }
    /// Uniform in 0..n (n > 0).
    pub fn below(&mut self, n: u64) -> u64 {
        ((self.next() as u128 * n as u128) >> 64) as u64
    }
}
