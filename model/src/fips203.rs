//! FIPS 203 as an executable specification, with the parameters as run-time values.

use crate::keccak::{sha3_256, sha3_512, shake128, shake256};

pub const Q: u32 = 3329;
pub const N: usize = 256;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Params {
    pub name: &'static str,
    pub k: usize,
    pub eta1: usize,
    pub eta2: usize,
    pub du: usize,
    pub dv: usize,
}

pub const ML_KEM_512: Params = Params { name: "512", k: 2, eta1: 3, eta2: 2, du: 10, dv: 4 };
pub const ML_KEM_768: Params = Params { name: "768", k: 3, eta1: 2, eta2: 2, du: 10, dv: 4 };
pub const ML_KEM_1024: Params = Params { name: "1024", k: 4, eta1: 2, eta2: 2, du: 11, dv: 5 };
pub const STANDARD: [Params; 3] = [ML_KEM_512, ML_KEM_768, ML_KEM_1024];

impl Params {
    pub fn ek_len(&self) -> usize {
        384 * self.k + 32
    }
    pub fn dk_pke_len(&self) -> usize {
        384 * self.k
    }
    pub fn dk_len(&self) -> usize {
        768 * self.k + 96
    }
    pub fn ct_len(&self) -> usize {
        32 * (self.du * self.k + self.dv)
    }
    pub fn c1_len(&self) -> usize {
        32 * self.du * self.k
    }
}

pub type Poly = [u32; N];

/// What was observed while sampling matrices.
#[derive(Clone, Default, Debug)]
pub struct Stats {
    /// candidates examined for the longest polynomial
    pub max_candidates: usize,
    pub candidates: usize,
    pub rejected: usize,
    /// candidates equal to q-1 (accepted), q (rejected)
    pub at_q_minus_1: usize,
    pub at_q: usize,
    /// three-byte groups in which only the second candidate was accepted
    pub only_second: usize,
    /// polynomials whose last coefficient was a first candidate while the second was also valid
    pub dropped_second: usize,
    pub polys: usize,
    /// largest number of XOF bytes one polynomial consumed
    pub max_bytes: usize,
}

pub fn g(input: &[u8]) -> ([u8; 32], [u8; 32]) {
    let o = sha3_512(input);
    (o[..32].try_into().unwrap(), o[32..].try_into().unwrap())
}
pub fn h(input: &[u8]) -> [u8; 32] {
    sha3_256(input)
}
pub fn j(input: &[u8]) -> [u8; 32] {
    shake256(input).read(32).try_into().unwrap()
}
pub fn prf(eta: usize, s: &[u8; 32], b: u8) -> Vec<u8> {
    let mut i = s.to_vec();
    i.push(b);
    shake256(&i).read(64 * eta)
}

fn bytes_to_bits(b: &[u8]) -> Vec<u8> {
    b.iter().flat_map(|x| (0..8).map(move |i| (x >> i) & 1)).collect()
}
fn bits_to_bytes(b: &[u8]) -> Vec<u8> {
    b.chunks(8)
        .map(|c| c.iter().enumerate().map(|(i, b)| b << i).sum())
        .collect()
}

/// ByteEncode_d
pub fn byte_encode(d: usize, f: &Poly) -> Vec<u8> {
    let mut bits = Vec::with_capacity(N * d);
    for a in f {
        for i in 0..d {
            bits.push(((a >> i) & 1) as u8);
        }
    }
    bits_to_bytes(&bits)
}

/// ByteDecode_d: modulus 2^d for d < 12, q for d = 12
pub fn byte_decode(d: usize, b: &[u8]) -> Poly {
    assert_eq!(b.len(), 32 * d);
    let bits = bytes_to_bits(b);
    std::array::from_fn(|i| {
        let v: u32 = (0..d).map(|j| u32::from(bits[i * d + j]) << j).sum();
        if d == 12 {
            v % Q
        } else {
            v
        }
    })
}

/// The 12-bit values of an encoding, without reduction.
pub fn raw12(b: &[u8]) -> Vec<u32> {
    let bits = bytes_to_bits(b);
    bits.chunks(12)
        .map(|c| c.iter().enumerate().map(|(i, b)| u32::from(*b) << i).sum())
        .collect()
}

pub fn encode12(vals: &[u32]) -> Vec<u8> {
    let mut bits = Vec::new();
    for a in vals {
        for i in 0..12 {
            bits.push(((a >> i) & 1) as u8);
        }
    }
    bits_to_bytes(&bits)
}

/// Every 12-bit value reduced modulo q.
pub fn canonicalize(b: &[u8]) -> Vec<u8> {
    encode12(&raw12(b).iter().map(|v| v % Q).collect::<Vec<_>>())
}

/// round((2^d / q) x) mod 2^d, round half up, on exact integers
pub fn compress(d: usize, x: u32) -> u32 {
    assert!(x < Q);
    let num = (u64::from(x) << d) * 2 + u64::from(Q);
    ((num / (2 * u64::from(Q))) % (1u64 << d)) as u32
}

/// round((q / 2^d) y)
pub fn decompress(d: usize, y: u32) -> u32 {
    let num = 2 * u64::from(Q) * u64::from(y) + (1u64 << d);
    (num / (1u64 << (d + 1))) as u32
}

pub fn sample_ntt(rho: &[u8; 32], b1: u8, b2: u8, st: &mut Stats) -> Poly {
    let mut input = rho.to_vec();
    input.push(b1);
    input.push(b2);
    let mut xof = shake128(&input);
    let mut a = [0u32; N];
    let mut jj = 0;
    let mut cand = 0;
    let mut bytes = 0;
    while jj < N {
        let c = [xof.byte(), xof.byte(), xof.byte()].map(u32::from);
        bytes += 3;
        let d1 = c[0] + 256 * (c[1] % 16);
        let d2 = c[1] / 16 + 16 * c[2];
        for d in [d1, d2] {
            st.at_q += usize::from(d == Q);
            st.at_q_minus_1 += usize::from(d == Q - 1);
        }
        if d1 < Q {
            a[jj] = d1;
            jj += 1;
            if jj == N && d2 < Q {
                st.dropped_second += 1;
            }
        } else {
            st.rejected += 1;
            st.only_second += usize::from(d2 < Q);
        }
        if d2 < Q {
            if jj < N {
                a[jj] = d2;
                jj += 1;
            }
        } else {
            st.rejected += 1;
        }
        cand += 2;
    }
    st.candidates += cand;
    st.max_candidates = st.max_candidates.max(cand);
    st.max_bytes = st.max_bytes.max(bytes);
    st.polys += 1;
    a
}

pub fn sample_poly_cbd(eta: usize, b: &[u8]) -> Poly {
    assert_eq!(b.len(), 64 * eta);
    let bits = bytes_to_bits(b);
    std::array::from_fn(|i| {
        let x: u32 = (0..eta).map(|j| u32::from(bits[2 * i * eta + j])).sum();
        let y: u32 = (0..eta).map(|j| u32::from(bits[2 * i * eta + eta + j])).sum();
        (x + Q - y) % Q
    })
}

pub fn pow_mod(mut b: u32, mut e: u32) -> u32 {
    let mut r = 1;
    while e > 0 {
        if e & 1 == 1 {
            r = r * b % Q;
        }
        b = b * b % Q;
        e >>= 1;
    }
    r
}

fn bit_rev7(x: u32) -> u32 {
    (0..7).map(|i| ((x >> i) & 1) << (6 - i)).sum()
}

struct Tables {
    zeta: [u32; 128],
    gamma: [u32; 128],
}
fn tables() -> &'static Tables {
    static T: std::sync::OnceLock<Tables> = std::sync::OnceLock::new();
    T.get_or_init(|| Tables {
        zeta: std::array::from_fn(|i| pow_mod(17, bit_rev7(i as u32))),
        gamma: std::array::from_fn(|i| pow_mod(17, 2 * bit_rev7(i as u32) + 1)),
    })
}

pub fn ntt(f: &Poly) -> Poly {
    let mut f = *f;
    let mut i = 1;
    let mut len = 128;
    while len >= 2 {
        let mut start = 0;
        while start < 256 {
            let zeta = tables().zeta[i];
            i += 1;
            for j in start..start + len {
                let t = zeta * f[j + len] % Q;
                f[j + len] = (f[j] + Q - t) % Q;
                f[j] = (f[j] + t) % Q;
            }
            start += 2 * len;
        }
        len /= 2;
    }
    f
}

pub fn ntt_inv(f: &Poly) -> Poly {
    let mut f = *f;
    let mut i = 127;
    let mut len = 2;
    while len <= 128 {
        let mut start = 0;
        while start < 256 {
            let zeta = tables().zeta[i];
            i -= 1;
            for j in start..start + len {
                let t = f[j];
                f[j] = (t + f[j + len]) % Q;
                f[j + len] = zeta * ((f[j + len] + Q - t) % Q) % Q;
            }
            start += 2 * len;
        }
        len *= 2;
    }
    f.map(|x| x * 3303 % Q)
}

pub fn mul_ntts(f: &Poly, g: &Poly) -> Poly {
    let mut h = [0; N];
    for i in 0..128 {
        let (a0, a1, b0, b1) = (f[2 * i], f[2 * i + 1], g[2 * i], g[2 * i + 1]);
        let gamma = tables().gamma[i];
        h[2 * i] = (a0 * b0 + a1 * b1 % Q * gamma) % Q;
        h[2 * i + 1] = (a0 * b1 + a1 * b0) % Q;
    }
    h
}

pub fn add(f: &Poly, g: &Poly) -> Poly {
    std::array::from_fn(|i| (f[i] + g[i]) % Q)
}
pub fn sub(f: &Poly, g: &Poly) -> Poly {
    std::array::from_fn(|i| (f[i] + Q - g[i]) % Q)
}

/// Multiplication in Z_q[X]/(X^256+1), for the self-test.
pub fn schoolbook(f: &Poly, g: &Poly) -> Poly {
    let mut o = [0u32; N];
    for i in 0..N {
        for j in 0..N {
            let p = f[i] * g[j] % Q;
            if i + j < N {
                o[i + j] = (o[i + j] + p) % Q;
            } else {
                o[i + j - N] = (o[i + j - N] + Q - p) % Q;
            }
        }
    }
    o
}

/// A_hat[i][j]
pub fn matrix(p: &Params, rho: &[u8; 32], st: &mut Stats) -> Vec<Vec<Poly>> {
    (0..p.k)
        .map(|i| (0..p.k).map(|j| sample_ntt(rho, j as u8, i as u8, st)).collect())
        .collect()
}

/// K-PKE.KeyGen: (ek_pke, dk_pke)
pub fn kpke_keygen(p: &Params, d: &[u8; 32], st: &mut Stats) -> (Vec<u8>, Vec<u8>) {
    let mut inp = d.to_vec();
    inp.push(p.k as u8);
    let (rho, sigma) = g(&inp);
    let a = matrix(p, &rho, st);
    let mut n = 0u8;
    let mut sample = || {
        let r = sample_poly_cbd(p.eta1, &prf(p.eta1, &sigma, n));
        n += 1;
        r
    };
    let s: Vec<Poly> = (0..p.k).map(|_| sample()).collect();
    let e: Vec<Poly> = (0..p.k).map(|_| sample()).collect();
    let s_hat: Vec<Poly> = s.iter().map(ntt).collect();
    let e_hat: Vec<Poly> = e.iter().map(ntt).collect();
    assemble(p, &a, &s_hat, &e_hat, &rho)
}

fn assemble(p: &Params, a: &[Vec<Poly>], s_hat: &[Poly], e_hat: &[Poly], rho: &[u8; 32]) -> (Vec<u8>, Vec<u8>) {
    let mut ek = Vec::new();
    let mut dk = Vec::new();
    for i in 0..p.k {
        let mut t = e_hat[i];
        for j in 0..p.k {
            t = add(&t, &mul_ntts(&a[i][j], &s_hat[j]));
        }
        ek.extend(byte_encode(12, &t));
        dk.extend(byte_encode(12, &s_hat[i]));
    }
    ek.extend(rho);
    (ek, dk)
}

/// A complete decapsulation key built from chosen s and e (in coefficient form), rho and z.
pub fn key_from_noise(p: &Params, s: &[Poly], e: &[Poly], rho: &[u8; 32], z: &[u8; 32]) -> (Vec<u8>, Vec<u8>) {
    let a = matrix(p, rho, &mut Stats::default());
    let s_hat: Vec<Poly> = s.iter().map(ntt).collect();
    let e_hat: Vec<Poly> = e.iter().map(ntt).collect();
    let (ek, dk_pke) = assemble(p, &a, &s_hat, &e_hat, rho);
    let dk = concat_dk(&dk_pke, &ek, &h(&ek), z);
    (ek, dk)
}

pub fn concat_dk(dk_pke: &[u8], ek: &[u8], h: &[u8], z: &[u8]) -> Vec<u8> {
    let mut dk = dk_pke.to_vec();
    dk.extend_from_slice(ek);
    dk.extend_from_slice(h);
    dk.extend_from_slice(z);
    dk
}

/// K-PKE.Encrypt
pub fn kpke_encrypt(p: &Params, ek: &[u8], m: &[u8; 32], r: &[u8; 32], st: &mut Stats) -> Vec<u8> {
    assert_eq!(ek.len(), p.ek_len());
    let t_hat: Vec<Poly> = (0..p.k).map(|i| byte_decode(12, &ek[384 * i..384 * (i + 1)])).collect();
    let rho: [u8; 32] = ek[384 * p.k..].try_into().unwrap();
    let a = matrix(p, &rho, st);
    let mut n = 0u8;
    let mut y_hat = Vec::new();
    for _ in 0..p.k {
        y_hat.push(ntt(&sample_poly_cbd(p.eta1, &prf(p.eta1, r, n))));
        n += 1;
    }
    let mut e1 = Vec::new();
    for _ in 0..p.k {
        e1.push(sample_poly_cbd(p.eta2, &prf(p.eta2, r, n)));
        n += 1;
    }
    let e2 = sample_poly_cbd(p.eta2, &prf(p.eta2, r, n));
    let mut c = Vec::new();
    for i in 0..p.k {
        let mut acc = [0; N];
        for j in 0..p.k {
            acc = add(&acc, &mul_ntts(&a[j][i], &y_hat[j]));
        }
        let u = add(&ntt_inv(&acc), &e1[i]);
        c.extend(byte_encode(p.du, &u.map(|x| compress(p.du, x))));
    }
    let mu = byte_decode(1, m).map(|x| decompress(1, x));
    let mut acc = [0; N];
    for j in 0..p.k {
        acc = add(&acc, &mul_ntts(&t_hat[j], &y_hat[j]));
    }
    let v = add(&add(&ntt_inv(&acc), &e2), &mu);
    c.extend(byte_encode(p.dv, &v.map(|x| compress(p.dv, x))));
    c
}

/// The polynomial w of K-PKE.Decrypt, before compression to the message.
pub fn kpke_decrypt_w(p: &Params, dk_pke: &[u8], c: &[u8]) -> Poly {
    assert_eq!(c.len(), p.ct_len());
    let mut acc = [0; N];
    for i in 0..p.k {
        let u = byte_decode(p.du, &c[32 * p.du * i..32 * p.du * (i + 1)]).map(|x| decompress(p.du, x));
        let s_hat = byte_decode(12, &dk_pke[384 * i..384 * (i + 1)]);
        acc = add(&acc, &mul_ntts(&s_hat, &ntt(&u)));
    }
    let v = byte_decode(p.dv, &c[p.c1_len()..]).map(|x| decompress(p.dv, x));
    sub(&v, &ntt_inv(&acc))
}

/// K-PKE.Decrypt
pub fn kpke_decrypt(p: &Params, dk_pke: &[u8], c: &[u8]) -> [u8; 32] {
    let w = kpke_decrypt_w(p, dk_pke, c);
    byte_encode(1, &w.map(|x| compress(1, x))).try_into().unwrap()
}

/// ML-KEM.KeyGen_internal: (ek, dk)
pub fn keygen(p: &Params, d: &[u8; 32], z: &[u8; 32], st: &mut Stats) -> (Vec<u8>, Vec<u8>) {
    let (ek, dk_pke) = kpke_keygen(p, d, st);
    let dk = concat_dk(&dk_pke, &ek, &h(&ek), z);
    (ek, dk)
}

/// ML-KEM.Encaps_internal: (K, c)
pub fn encaps(p: &Params, ek: &[u8], m: &[u8; 32], st: &mut Stats) -> ([u8; 32], Vec<u8>) {
    let mut inp = m.to_vec();
    inp.extend(h(ek));
    let (k, r) = g(&inp);
    (k, kpke_encrypt(p, ek, m, &r, st))
}

/// The outcome of ML-KEM.Decaps_internal.
pub struct Decaps {
    pub k: [u8; 32],
    pub accepted: bool,
    /// K' and K-bar
    pub k_prime: [u8; 32],
    pub k_bar: [u8; 32],
    /// smallest distance of a coefficient of w to a rounding boundary of Compress_1
    pub margin: u32,
    /// number of ciphertext bytes in which the re-encryption differs
    pub diff_bytes: usize,
}

pub fn decaps(p: &Params, dk: &[u8], c: &[u8]) -> Decaps {
    assert_eq!(dk.len(), p.dk_len());
    let k384 = 384 * p.k;
    let dk_pke = &dk[..k384];
    let ek = &dk[k384..2 * k384 + 32];
    let hh = &dk[2 * k384 + 32..2 * k384 + 64];
    let z = &dk[2 * k384 + 64..];
    let w = kpke_decrypt_w(p, dk_pke, c);
    // Compress_1 changes between 832|833 and 2496|2497.
    let margin = w
        .iter()
        .map(|&x| {
            let (a, b) = (x.abs_diff(832).min(x.abs_diff(833)), x.abs_diff(2496).min(x.abs_diff(2497)));
            a.min(b)
        })
        .min()
        .unwrap();
    let m: [u8; 32] = byte_encode(1, &w.map(|x| compress(1, x))).try_into().unwrap();
    let mut inp = m.to_vec();
    inp.extend(hh);
    let (k_prime, r) = g(&inp);
    let mut inp = z.to_vec();
    inp.extend(c);
    let k_bar = j(&inp);
    let c2 = kpke_encrypt(p, ek, &m, &r, &mut Stats::default());
    let diff_bytes = c.iter().zip(&c2).filter(|(a, b)| a != b).count();
    let accepted = diff_bytes == 0;
    Decaps { k: if accepted { k_prime } else { k_bar }, accepted, k_prime, k_bar, margin, diff_bytes }
}
