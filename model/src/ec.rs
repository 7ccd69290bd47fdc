//! Short Weierstrass Diffie-Hellman on big integers.

use num_bigint::BigUint;

#[derive(Clone)]
pub struct Curve {
    pub name: &'static str,
    pub p: BigUint,
    pub a: BigUint,
    pub b: BigUint,
    pub n: BigUint,
    pub gx: BigUint,
    pub gy: BigUint,
    pub len: usize,
}

fn hx(s: &str) -> BigUint {
    BigUint::parse_bytes(s.replace(' ', "").as_bytes(), 16).unwrap()
}

pub type Point = Option<(BigUint, BigUint)>;
type Jac = (BigUint, BigUint, BigUint);

impl Curve {
    pub fn p256() -> Self {
        let p = hx("ffffffff00000001000000000000000000000000ffffffffffffffffffffffff");
        Curve {
            name: "P-256",
            a: &p - 3u32,
            p,
            b: hx("5ac635d8aa3a93e7b3ebbd55769886bc651d06b0cc53b0f63bce3c3e27d2604b"),
            n: hx("ffffffff00000000ffffffffffffffffbce6faada7179e84f3b9cac2fc632551"),
            gx: hx("6b17d1f2e12c4247f8bce6e563a440f277037d812deb33a0f4a13945d898c296"),
            gy: hx("4fe342e2fe1a7f9b8ee7eb4a7c0f9e162bce33576b315ececbb6406837bf51f5"),
            len: 32,
        }
    }
    pub fn p384() -> Self {
        let p = hx("fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffeffffffff0000000000000000ffffffff");
        Curve {
            name: "P-384",
            a: &p - 3u32,
            p,
            b: hx("b3312fa7e23ee7e4988e056be3f82d19181d9c6efe8141120314088f5013875ac656398d8a2ed19d2a85c8edd3ec2aef"),
            n: hx("ffffffffffffffffffffffffffffffffffffffffffffffffc7634d81f4372ddf581a0db248b0a77aecec196accc52973"),
            gx: hx("aa87ca22be8b05378eb1c71ef320ad746e1d3b628ba79b9859f741e082542a385502f25dbf55296c3a545e3872760ab7"),
            gy: hx("3617de4a96262c6f5d9e98bf9292dc29f8f41dbd289a147ce9da3113b5f0b8c00a60b1ce1d7e819d7a431d7c90ea0e5f"),
            len: 48,
        }
    }
    pub fn p521() -> Self {
        let p = (BigUint::from(1u32) << 521) - 1u32;
        Curve {
            name: "P-521",
            a: &p - 3u32,
            p,
            b: hx("0051953eb9618e1c9a1f929a21a0b68540eea2da725b99b315f3b8b489918ef109e156193951ec7e937b1652c0bd3bb1bf073573df883d2c34f1ef451fd46b503f00"),
            n: hx("01fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffa51868783bf2f966b7fcc0148f709a5d03bb5c9b8899c47aebb6fb71e91386409"),
            gx: hx("00c6858e06b70404e9cd9e3ecb662395b4429c648139053fb521f828af606b4d3dbaa14b5e77efe75928fe1dc127a2ffa8de3348b3c1856a429bf97e7e31c2e5bd66"),
            gy: hx("011839296a789a3bc0045c8a5fb42c7d1bd998f54449579b446817afbd17273e662c97ee72995ef42640c550b9013fad0761353c7086a272c24088be94769fd16650"),
            len: 66,
        }
    }
    pub fn k256() -> Self {
        let p = hx("fffffffffffffffffffffffffffffffffffffffffffffffffffffffefffffc2f");
        Curve {
            name: "secp256k1",
            p,
            a: BigUint::from(0u32),
            b: BigUint::from(7u32),
            n: hx("fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141"),
            gx: hx("79be667ef9dcbbac55a06295ce870b07029bfcdb2dce28d959f2815b16f81798"),
            gy: hx("483ada7726a3c4655da4fbfc0e1108a8fd17b448a68554199c47d08ffb10d4b8"),
            len: 32,
        }
    }

    fn subm(&self, a: &BigUint, b: &BigUint) -> BigUint {
        ((a + &self.p) - b) % &self.p
    }

    pub fn on_curve(&self, pt: &Point) -> bool {
        match pt {
            None => true,
            Some((x, y)) => {
                x < &self.p
                    && y < &self.p
                    && (y * y) % &self.p == (x * x * x + &self.a * x + &self.b) % &self.p
            }
        }
    }

    fn dbl(&self, j: &Jac) -> Jac {
        let (x, y, z) = j;
        let p = &self.p;
        let zero = BigUint::from(0u32);
        if *z == zero || *y == zero {
            return (BigUint::from(1u32), BigUint::from(1u32), zero);
        }
        let yy = (y * y) % p;
        let s = (x * &yy * 4u32) % p;
        let zz = (z * z) % p;
        let m = (x * x * 3u32 + &self.a * ((&zz * &zz) % p)) % p;
        let x3 = self.subm(&((&m * &m) % p), &((&s * 2u32) % p));
        let y3 = self.subm(&((&m * self.subm(&s, &x3)) % p), &((&yy * &yy * 8u32) % p));
        let z3 = (y * z * 2u32) % p;
        (x3, y3, z3)
    }

    fn addj(&self, a: &Jac, b: &Jac) -> Jac {
        let zero = BigUint::from(0u32);
        if a.2 == zero {
            return b.clone();
        }
        if b.2 == zero {
            return a.clone();
        }
        let p = &self.p;
        let z1z1 = (&a.2 * &a.2) % p;
        let z2z2 = (&b.2 * &b.2) % p;
        let u1 = (&a.0 * &z2z2) % p;
        let u2 = (&b.0 * &z1z1) % p;
        let s1 = (&a.1 * &b.2 * &z2z2) % p;
        let s2 = (&b.1 * &a.2 * &z1z1) % p;
        if u1 == u2 {
            if s1 == s2 {
                return self.dbl(a);
            }
            return (BigUint::from(1u32), BigUint::from(1u32), zero);
        }
        let h = self.subm(&u2, &u1);
        let r = self.subm(&s2, &s1);
        let hh = (&h * &h) % p;
        let hhh = (&hh * &h) % p;
        let v = (&u1 * &hh) % p;
        let x3 = self.subm(&self.subm(&((&r * &r) % p), &hhh), &((&v * 2u32) % p));
        let y3 = self.subm(&((&r * self.subm(&v, &x3)) % p), &((&s1 * &hhh) % p));
        let z3 = (&h * &a.2 % p * &b.2) % p;
        (x3, y3, z3)
    }

    pub fn mul(&self, k: &BigUint, pt: &(BigUint, BigUint)) -> Point {
        let base: Jac = (pt.0.clone(), pt.1.clone(), BigUint::from(1u32));
        let mut acc: Jac = (BigUint::from(1u32), BigUint::from(1u32), BigUint::from(0u32));
        for i in (0..k.bits()).rev() {
            acc = self.dbl(&acc);
            if k.bit(i) {
                acc = self.addj(&acc, &base);
            }
        }
        if acc.2 == BigUint::from(0u32) {
            return None;
        }
        let zi = acc.2.modpow(&(&self.p - 2u32), &self.p);
        let zi2 = (&zi * &zi) % &self.p;
        Some(((&acc.0 * &zi2) % &self.p, (&acc.1 * &zi2 % &self.p * &zi) % &self.p))
    }

    pub fn mul_base(&self, k: &BigUint) -> Point {
        self.mul(k, &(self.gx.clone(), self.gy.clone()))
    }

    pub fn fe_bytes(&self, v: &BigUint) -> Vec<u8> {
        let b = v.to_bytes_be();
        let mut o = vec![0; self.len - b.len()];
        o.extend(b);
        o
    }

    /// SEC1 encoding
    pub fn sec1(&self, pt: &(BigUint, BigUint), compress: bool) -> Vec<u8> {
        if compress {
            let mut o = vec![2 + u8::from(pt.1.bit(0))];
            o.extend(self.fe_bytes(&pt.0));
            o
        } else {
            let mut o = vec![4];
            o.extend(self.fe_bytes(&pt.0));
            o.extend(self.fe_bytes(&pt.1));
            o
        }
    }

    /// The point with this x-coordinate and even y, if there is one (p = 3 mod 4 on all curves here).
    pub fn lift_x(&self, x: &BigUint) -> Point {
        let rhs = (x * x * x + &self.a * x + &self.b) % &self.p;
        let y = rhs.modpow(&((&self.p + 1u32) >> 2), &self.p);
        if (&y * &y) % &self.p != rhs {
            return None;
        }
        let y = if y.bit(0) { &self.p - y } else { y };
        Some((x.clone(), y))
    }
}
