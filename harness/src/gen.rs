//! Generators of inputs for the workloads.

use refmodel::fips203::{self as f, Params, Poly, Q};
use refmodel::rng::Rng;

/// 32 bytes: mostly random, sometimes structured.
pub fn b32(r: &mut Rng) -> [u8; 32] {
    if r.chance(5, 8) {
        return r.arr();
    }
    structured32(r)
}

pub fn structured32(r: &mut Rng) -> [u8; 32] {
    let mut a = [0u8; 32];
    match r.below(8) {
        0 => {}
        1 => a = [0xff; 32],
        2 => a[r.below(32) as usize] = 1 << r.below(8),
        3 => {
            a = [0xff; 32];
            a[r.below(32) as usize] ^= 1 << r.below(8);
        }
        4 => a = [r.u64() as u8; 32],
        5 => {
            let s = r.u64() as u8;
            for (i, x) in a.iter_mut().enumerate() {
                *x = s.wrapping_add(i as u8);
            }
        }
        6 => {
            // random half, constant half
            let h: [u8; 16] = r.arr();
            let o = 16 * r.below(2) as usize;
            a[o..o + 16].copy_from_slice(&h);
        }
        _ => {
            for x in a.iter_mut() {
                *x = if r.chance(1, 2) { 0 } else { 0xff };
            }
        }
    }
    a
}

pub struct Extreme {
    pub kind: char,
    pub k: usize,
    pub seed: [u8; 32],
    /// What is extreme about it; see mine.rs.
    pub feature: String,
    pub value: usize,
}

/// Seeds found by model/src/bin/mine.rs.
pub fn extremes() -> Vec<Extreme> {
    include_str!("../../model/vectors/extreme.txt")
        .lines()
        .map(|l| {
            let w: Vec<&str> = l.split(' ').collect();
            Extreme {
                kind: w[0].chars().next().unwrap(),
                k: w[1].parse().unwrap(),
                seed: refmodel::selftest::unhex(w[2]).try_into().unwrap(),
                feature: w[3].into(),
                value: w[4].parse().unwrap(),
            }
        })
        .collect()
}

/// The ML-KEM seed d of an extreme seed.
pub fn extreme_d(e: &Extreme) -> [u8; 32] {
    if e.kind == 'x' {
        refmodel::keccak::shake128(&e.seed).read(32).try_into().unwrap()
    } else {
        e.seed
    }
}

/// The matrix seed rho of an extreme key-generation seed.
pub fn extreme_rho(e: &Extreme) -> [u8; 32] {
    let mut inp = extreme_d(e).to_vec();
    inp.push(e.k as u8);
    f::g(&inp).0
}

/// n canonical 12-bit coefficients in various shapes.
pub fn coeffs(r: &mut Rng, n: usize) -> Vec<u32> {
    let kind = r.below(12);
    let c = r.below(u64::from(Q)) as u32;
    let near = 1 + r.below(200);
    (0..n)
        .map(|i| match kind {
            0 => 0,
            1 => Q - 1,
            2 => c,
            3 => {
                if i % 2 == 0 {
                    Q - 1
                } else {
                    0
                }
            }
            4 => u32::from(r.chance(1, 64)) * (Q - 1),
            5 => *r.pick(&[0, 1, Q / 2, Q / 2 + 1, Q - 2, Q - 1]),
            6 => (i as u32 * 13) % Q,
            // close to q - 1, where sums of products are largest, or close to 0
            7 => Q - 1 - r.below(near) as u32,
            8 => r.below(near) as u32,
            _ => r.below(u64::from(Q)) as u32,
        })
        .collect()
}

/// An encapsulation key with canonical coefficients that nobody generated.
pub fn adversarial_ek(r: &mut Rng, p: &Params, ext: &[Extreme]) -> Vec<u8> {
    let mut ek = f::encode12(&coeffs(r, 256 * p.k));
    let rho = if r.chance(1, 4) {
        let c: Vec<&Extreme> = ext.iter().filter(|e| e.k == p.k).collect();
        if c.is_empty() {
            r.arr()
        } else {
            extreme_rho(c[r.below(c.len() as u64) as usize])
        }
    } else {
        b32(r)
    };
    ek.extend(rho);
    ek
}

/// n 12-bit values of which some are >= q
pub fn raw_coeffs(r: &mut Rng, n: usize) -> Vec<u32> {
    let kind = r.below(5);
    let pos = r.below(n as u64) as usize;
    (0..n)
        .map(|i| match kind {
            0 => 4095,
            1 => *r.pick(&[Q - 1, Q, Q + 1, 4094, 4095]),
            2 => {
                if i == pos {
                    Q + r.below(u64::from(4096 - Q)) as u32
                } else {
                    r.below(u64::from(Q)) as u32
                }
            }
            _ => r.below(4096) as u32,
        })
        .collect()
}

pub fn small_poly(r: &mut Rng, b: i64) -> Poly {
    std::array::from_fn(|_| r.range(-b, b).rem_euclid(i64::from(Q)) as u32)
}

/// Inverse of a degree-one element a0 + a1 X modulo X^2 - gamma, if there is one.
fn inv_pair(a0: u32, a1: u32, gamma: u32) -> Option<(u32, u32)> {
    let n = (u64::from(a0) * u64::from(a0) + u64::from(Q) * u64::from(Q) * 4
        - u64::from(a1) * u64::from(a1) % u64::from(Q) * u64::from(gamma))
        % u64::from(Q);
    if n == 0 {
        return None;
    }
    let ni = f::pow_mod(n as u32, Q - 2);
    Some((a0 * ni % Q, (Q - a1) % Q * ni % Q))
}

/// x with x * den = num in T_q, if den is invertible.
pub fn div_ntt(num: &Poly, den: &Poly) -> Option<Poly> {
    let mut inv = [0u32; 256];
    for i in 0..128u32 {
        let br: u32 = (0..7).map(|b| ((i >> b) & 1) << (6 - b)).sum();
        let gamma = f::pow_mod(17, 2 * br + 1);
        let (x, y) = inv_pair(den[2 * i as usize], den[2 * i as usize + 1], gamma)?;
        inv[2 * i as usize] = x;
        inv[2 * i as usize + 1] = y;
    }
    let r = f::mul_ntts(num, &inv);
    debug_assert_eq!(f::mul_ntts(&r, den), *num);
    Some(r)
}

/// A secret vector (encoded) under which ciphertext c decrypts to exactly the polynomial w.
pub fn steer_decrypt(r: &mut Rng, p: &Params, c: &[u8], w: &Poly) -> Option<Vec<u8>> {
    let u: Vec<Poly> = (0..p.k)
        .map(|i| {
            f::ntt(&f::byte_decode(p.du, &c[32 * p.du * i..32 * p.du * (i + 1)]).map(|x| f::decompress(p.du, x)))
        })
        .collect();
    let v = f::byte_decode(p.dv, &c[p.c1_len()..]).map(|x| f::decompress(p.dv, x));
    let free = r.below(p.k as u64) as usize;
    let mut target = f::ntt(&f::sub(&v, w));
    let mut s: Vec<Poly> = vec![[0; 256]; p.k];
    for i in 0..p.k {
        if i != free {
            let cs = coeffs(r, 256);
            s[i] = std::array::from_fn(|j| cs[j]);
            target = f::sub(&target, &f::mul_ntts(&s[i], &u[i]));
        }
    }
    s[free] = div_ntt(&target, &u[free])?;
    let out: Vec<u8> = s.iter().flat_map(|x| f::byte_encode(12, x)).collect();
    debug_assert_eq!(f::kpke_decrypt_w(p, &out, c), *w);
    Some(out)
}

/// A polynomial that Compress_1 maps to the bits of m: anywhere in the allowed half, or on its edges.
pub fn w_for(r: &mut Rng, m: &[u8; 32], edges: bool) -> Poly {
    std::array::from_fn(|i| {
        let one = (m[i / 8] >> (i % 8)) & 1 == 1;
        // 833..=2496 is one, 2497..=3328 and 0..=832 is zero
        if edges {
            if one {
                *r.pick(&[833, 2496])
            } else {
                *r.pick(&[832, 2497, 0, Q - 1])
            }
        } else if one {
            r.range(833, 2496) as u32
        } else {
            (r.range(2497, 2497 + 1664) as u32) % Q
        }
    })
}

/// The encodings of X25519 points of low order: (bytes, canonical).
pub fn low_order() -> Vec<[u8; 32]> {
    let un = |s: &str| -> [u8; 32] { refmodel::selftest::unhex(s).try_into().unwrap() };
    let mut p = [0xff; 32];
    p[0] = 0xed;
    p[31] = 0x7f;
    let mut v = vec![
        [0; 32],
        {
            let mut a = [0; 32];
            a[0] = 1;
            a
        },
        un("e0eb7a7c3b41b8ae1656e3faf19fc46ada098deb9c32b1fd866205165f49b800"),
        un("5f9c95bca3508c24b1d0b1559c83ef5b04445cc4581c8e86d8224eddd09f1157"),
        {
            let mut a = p;
            a[0] -= 1;
            a
        },
        p,
        {
            let mut a = p;
            a[0] += 1;
            a
        },
    ];
    for i in 0..7 {
        let mut a = v[i];
        a[31] |= 0x80;
        v.push(a);
    }
    v
}

/// u-coordinates for X25519: on the curve, on the twist, low order, non-canonical, masked bit.
pub fn u_coord(r: &mut Rng) -> [u8; 32] {
    match r.below(12) {
        0 => *r.pick(&low_order()),
        1 | 2 => {
            // 2^255 - 19 + (0..18): non-canonical
            let mut a = [0xff; 32];
            a[0] = 0xed + r.below(19) as u8;
            a[31] = if r.chance(1, 2) { 0x7f } else { 0xff };
            a
        }
        3 => {
            // a small number
            let mut a = [0; 32];
            a[0] = r.u64() as u8;
            if r.chance(1, 2) {
                a[31] = 0x80;
            }
            a
        }
        4 => {
            let mut a: [u8; 32] = r.arr();
            a[31] |= 0x80;
            a
        }
        5 | 6 => refmodel::x25519::base(&r.arr()),
        7 => structured32(r),
        _ => r.arr(),
    }
}
