//! The model against published vectors and independent arithmetic.

use crate::{ec::Curve, fips203 as f, keccak, rng::Rng, x25519, xwing};
use num_bigint::BigUint;

pub fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}
pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}
fn a32(s: &str) -> [u8; 32] {
    unhex(s).try_into().unwrap()
}

fn ensure(c: bool, what: &str) -> Result<(), String> {
    if c {
        Ok(())
    } else {
        Err(format!("model self-test failed: {what}"))
    }
}

pub fn run(curves: bool) -> Result<usize, String> {
    let mut n = 0;
    // FIPS 202
    ensure(hex(&keccak::sha3_256(b"")) == "a7ffc6f8bf1ed76651c14756a061d662f580ff4de43b49fa82d80a4b80f8434a", "sha3-256")?;
    ensure(
        hex(&keccak::sha3_512(b"abc"))
            == "b751850b1a57168a5693cd924b6b096e08f621827444f70d884f5d0240d2712e10e116e9192af3c91a7ec57647e3934057340b4cf408d5a56592f8274eec53f0",
        "sha3-512",
    )?;
    ensure(hex(&keccak::shake128(b"").read(32)) == "7f9c2ba4e88f827d616045507605853ed73b8093f6efbc88eb1a6eacfa66ef26", "shake128")?;
    ensure(hex(&keccak::shake256(b"").read(32)) == "46b9dd2b0ba88d13233b3feb743eeb243fcd52ea62b81b82b50c27646ed5762f", "shake256")?;
    // ring arithmetic
    let mut r = Rng::new(b"selftest");
    for _ in 0..4 {
        let a: f::Poly = std::array::from_fn(|_| r.below(3329) as u32);
        let b: f::Poly = std::array::from_fn(|_| r.below(3329) as u32);
        ensure(f::ntt_inv(&f::ntt(&a)) == a, "ntt inverse")?;
        ensure(f::ntt_inv(&f::mul_ntts(&f::ntt(&a), &f::ntt(&b))) == f::schoolbook(&a, &b), "ntt product")?;
        n += 2;
    }
    // rounding: |x - Decompress(Compress(x))| <= round(q / 2^{d+1}), Compress(Decompress(y)) = y
    for d in 1..12usize {
        for y in 0..1u32 << d {
            ensure(f::compress(d, f::decompress(d, y)) == y, "compress after decompress")?;
        }
        let bound = ((3329.0f64) / f64::from(1u32 << (d + 1))).round() as i64;
        for x in 0..3329u32 {
            let y = f::decompress(d, f::compress(d, x));
            let mut e = (i64::from(x) - i64::from(y)).rem_euclid(3329);
            if e > 1664 {
                e -= 3329;
            }
            ensure(e.abs() <= bound, "decompress after compress")?;
        }
        n += 1;
    }
    for line in include_str!("../vectors/kat.txt").lines() {
        let w: Vec<&str> = line.split(' ').collect();
        let p = f::STANDARD.iter().find(|p| p.name == w[1]);
        let st = &mut f::Stats::default();
        match w[0] {
            "keygen" => {
                let (ek, dk) = f::keygen(p.unwrap(), &a32(w[2]), &a32(w[3]), st);
                ensure(hex(&ek) == w[4] && hex(&dk) == w[5], "keygen vector")?;
            }
            "encaps" => {
                let (k, c) = f::encaps(p.unwrap(), &unhex(w[2]), &a32(w[3]), st);
                ensure(hex(&c) == w[4] && hex(&k) == w[5], "encaps vector")?;
            }
            "decaps" => {
                let d = f::decaps(p.unwrap(), &unhex(w[2]), &unhex(w[3]));
                ensure(hex(&d.k) == w[4], "decaps vector")?;
            }
            "xwing" => {
                // seed eseed ss sk pk ct
                let sk = a32(w[4]);
                ensure(w[1] == w[4], "xwing seed")?;
                let e = xwing::expand(&sk);
                ensure(hex(&e.pk()) == w[5], "xwing pk")?;
                let es: [u8; 64] = unhex(w[2]).try_into().unwrap();
                let (ss, ct) = xwing::encaps(&e.pk(), &es);
                ensure(hex(&ss) == w[3] && hex(&ct) == w[6], "xwing encaps")?;
                ensure(hex(&xwing::decaps(&e, &ct).ss) == w[3], "xwing decaps")?;
            }
            _ => return Err("bad vector".into()),
        }
        n += 1;
    }
    // RFC 7748 5.2 and 6.1
    let v = [
        ("a546e36bf0527c9d3b16154b82465edd62144c0ac1fc5a18506a2244ba449ac4", "e6db6867583030db3594c1a424b15f7c726624ec26b3353b10a903a6d0ab1c4c", "c3da55379de9c6908e94ea4df28d084f32eccf03491c71f754b4075577a28552"),
        ("4b66e9d4d1b4673c5ad22691957d6af5c11b6421e0ea01d42ca4169e7918ba0d", "e5210f12786811d3f4b7959d0538ae2c31dbe7106fc03c3efc4cd549c715a493", "95cbde9476e8907d7aade45cb4b873f88b595a68799fa152e6f8f7647aac7957"),
    ];
    for (k, u, o) in v {
        ensure(hex(&x25519::x25519(&a32(k), &a32(u))) == o, "x25519 vector")?;
        n += 1;
    }
    let (mut k, mut u) = (x25519::BASE, x25519::BASE);
    for i in 0..1000 {
        let o = x25519::x25519(&k, &u);
        u = k;
        k = o;
        if i == 0 {
            ensure(hex(&k) == "422c8e7a6227d7bca1350b3e2bb7279f7897b87bb6854b783c60e80311ae3079", "x25519 1 iteration")?;
        }
    }
    ensure(hex(&k) == "684cf59ba83309552800ef566f2f4d3c1c3887c49360e3875f2eb94d99532c51", "x25519 1000 iterations")?;
    n += 2;
    if curves {
        for c in [Curve::p256(), Curve::p384(), Curve::p521(), Curve::k256()] {
            let gp = (c.gx.clone(), c.gy.clone());
            ensure(c.on_curve(&Some(gp.clone())), c.name)?;
            ensure(c.mul(&c.n, &gp).is_none(), c.name)?;
            let minus1 = c.mul(&(&c.n - 1u32), &gp).unwrap();
            ensure(minus1.0 == c.gx && minus1.1 == &c.p - &c.gy, c.name)?;
            let (a, b) = (BigUint::from_bytes_be(&r.vec(c.len)) % &c.n, BigUint::from_bytes_be(&r.vec(c.len)) % &c.n);
            let ab = c.mul(&a, &c.mul_base(&b).unwrap());
            ensure(c.on_curve(&ab) && ab == c.mul(&b, &c.mul_base(&a).unwrap()) && ab == c.mul_base(&((&a * &b) % &c.n)), c.name)?;
            n += 4;
        }
    }
    Ok(n)
}

#[cfg(test)]
mod test {
    #[test]
    fn selftest() {
        let t = std::time::Instant::now();
        println!("{:?} {:?}", super::run(true), t.elapsed());
        super::run(true).unwrap();
    }
}
