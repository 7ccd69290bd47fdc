//! Keccak-f[1600], SHA-3 and SHAKE (FIPS 202), written from the standard.

fn rc(t: usize) -> u64 {
    // Algorithm 5 of FIPS 202, bit by bit.
    let bit = |t: usize| -> u64 {
        if t % 255 == 0 {
            return 1;
        }
        let mut r: u16 = 1;
        for _ in 0..(t % 255) {
            r <<= 1;
            if r & 0x100 != 0 {
                r ^= 0x171;
            }
        }
        u64::from(r & 1)
    };
    let mut out = 0u64;
    for j in 0..=6 {
        out |= bit(j + 7 * t) << ((1usize << j) - 1);
    }
    out
}

fn round_constants() -> &'static [u64; 24] {
    static RC: std::sync::OnceLock<[u64; 24]> = std::sync::OnceLock::new();
    RC.get_or_init(|| std::array::from_fn(rc))
}

const ROT: [[u32; 5]; 5] = [
    // ROT[x][y]
    [0, 36, 3, 41, 18],
    [1, 44, 10, 45, 2],
    [62, 6, 43, 15, 61],
    [28, 55, 25, 21, 56],
    [27, 20, 39, 8, 14],
];

pub fn keccak_f(a: &mut [u64; 25]) {
    let rcs = round_constants();
    for rc in rcs {
        let mut c = [0u64; 5];
        for x in 0..5 {
            c[x] = a[x] ^ a[x + 5] ^ a[x + 10] ^ a[x + 15] ^ a[x + 20];
        }
        for x in 0..5 {
            let d = c[(x + 4) % 5] ^ c[(x + 1) % 5].rotate_left(1);
            for y in 0..5 {
                a[x + 5 * y] ^= d;
            }
        }
        let mut b = [0u64; 25];
        for x in 0..5 {
            for y in 0..5 {
                b[y + 5 * ((2 * x + 3 * y) % 5)] = a[x + 5 * y].rotate_left(ROT[x][y]);
            }
        }
        for y in 0..5 {
            for x in 0..5 {
                a[x + 5 * y] = b[x + 5 * y] ^ (!b[(x + 1) % 5 + 5 * y] & b[(x + 2) % 5 + 5 * y]);
            }
        }
        a[0] ^= rc;
    }
}

/// A finished sponge that can be squeezed.
#[derive(Clone)]
pub struct Xof {
    a: [u64; 25],
    rate: usize,
    pos: usize,
}

impl Xof {
    pub fn new(rate: usize, suffix: u8, input: &[u8]) -> Self {
        let mut a = [0u64; 25];
        let mut padded = input.to_vec();
        padded.push(suffix);
        while padded.len() % rate != 0 {
            padded.push(0);
        }
        *padded.last_mut().unwrap() |= 0x80;
        for block in padded.chunks(rate) {
            for (i, lane) in block.chunks(8).enumerate() {
                a[i] ^= u64::from_le_bytes(lane.try_into().unwrap());
            }
            keccak_f(&mut a);
        }
        Xof { a, rate, pos: 0 }
    }

    pub fn byte(&mut self) -> u8 {
        if self.pos == self.rate {
            keccak_f(&mut self.a);
            self.pos = 0;
        }
        let b = (self.a[self.pos / 8] >> (8 * (self.pos % 8))) as u8;
        self.pos += 1;
        b
    }

    pub fn read(&mut self, n: usize) -> Vec<u8> {
        (0..n).map(|_| self.byte()).collect()
    }
}

pub fn shake128(input: &[u8]) -> Xof {
    Xof::new(168, 0x1f, input)
}
pub fn shake256(input: &[u8]) -> Xof {
    Xof::new(136, 0x1f, input)
}
pub fn sha3_256(input: &[u8]) -> [u8; 32] {
    Xof::new(136, 0x06, input).read(32).try_into().unwrap()
}
pub fn sha3_512(input: &[u8]) -> [u8; 64] {
    Xof::new(72, 0x06, input).read(64).try_into().unwrap()
}
