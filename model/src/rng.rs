//! Deterministic generator for the workloads: xoshiro256** keyed by SHAKE256 of a label.

use crate::keccak::shake256;

#[derive(Clone)]
pub struct Rng {
    s: [u64; 4],
}

impl Rng {
    pub fn new(label: &[u8]) -> Self {
        let b = shake256(label).read(32);
        Rng { s: std::array::from_fn(|i| u64::from_le_bytes(b[8 * i..8 * i + 8].try_into().unwrap()) | u64::from(i == 0)) }
    }
    pub fn case(seed: u64, prop: &str, stage: &str, index: u64) -> Self {
        Self::new(format!("{seed}/{prop}/{stage}/{index}").as_bytes())
    }
    pub fn u64(&mut self) -> u64 {
        let s = &mut self.s;
        let r = s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = s[1] << 17;
        s[2] ^= s[0];
        s[3] ^= s[1];
        s[1] ^= s[2];
        s[0] ^= s[3];
        s[2] ^= t;
        s[3] = s[3].rotate_left(45);
        r
    }
    pub fn below(&mut self, n: u64) -> u64 {
        ((u128::from(self.u64()) * u128::from(n)) >> 64) as u64
    }
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 {
        lo + self.below((hi - lo + 1) as u64) as i64
    }
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) < num
    }
    pub fn fill(&mut self, b: &mut [u8]) {
        for c in b.chunks_mut(8) {
            let v = self.u64().to_le_bytes();
            c.copy_from_slice(&v[..c.len()]);
        }
    }
    pub fn arr<const N: usize>(&mut self) -> [u8; N] {
        let mut a = [0; N];
        self.fill(&mut a);
        a
    }
    pub fn vec(&mut self, n: usize) -> Vec<u8> {
        let mut a = vec![0; n];
        self.fill(&mut a);
        a
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len() as u64) as usize]
    }
}
