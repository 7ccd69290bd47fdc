//! C19, C20, C21, C23: DHKEM.

use crate::fw::*;
use crate::gen;
use crate::kemset::arr32;
use crate::rngs::{Stream, Tape};
use ::kem::{Decapsulate, Encapsulate};
use dhkem::{DhDecapsulator, DhEncapsulator, DhKem};
use elliptic_curve::sec1::ToEncodedPoint;
use num_bigint::BigUint;
use rand_core::CryptoRngCore;
use refmodel::ec::Curve;
use refmodel::rng::Rng;
use refmodel::x25519;
use std::cmp::Ordering;
use std::collections::hash_map::DefaultHasher;
use std::fmt::Debug;
use std::hash::{Hash, Hasher};
use std::rc::Rc;

/// One DHKEM with byte strings at the boundary.
pub trait Dh: 'static {
    type Dk: 'static;
    type Ek: 'static + Copy + Debug + PartialEq + From<Self::Pk>;
    type Pk: 'static + Copy + Debug + PartialEq;
    const NAME: &'static str;
    /// Length of a private key candidate.
    const LEN: usize;
    fn keypair(rng: &mut impl CryptoRngCore) -> (Self::Dk, Self::Ek);
    fn pk(b: &[u8]) -> Self::Pk;
    fn pk_bytes(p: &Self::Pk) -> Vec<u8>;
    fn inner(e: &Self::Ek) -> Self::Pk;
    fn encaps(e: &Self::Ek, rng: &mut impl CryptoRngCore) -> (Self::Pk, Vec<u8>);
    fn decaps(d: &Self::Dk, p: &Self::Pk) -> Vec<u8>;

    /// The specification: is this candidate a private key?
    fn accepts(cand: &[u8]) -> bool;
    /// The specification: public key of a candidate.
    fn public(cand: &[u8]) -> Vec<u8>;
    /// The specification: Diffie-Hellman value.
    fn dh(cand: &[u8], peer: &[u8]) -> Vec<u8>;
    /// A public key from anywhere.
    fn any_peer(r: &mut Rng) -> Vec<u8>;
    /// A private key candidate that is accepted.
    fn any_cand(r: &mut Rng) -> Vec<u8>;
    /// A candidate that must be rejected, if there is one.
    fn bad_cand(r: &mut Rng) -> Option<Vec<u8>>;
}

macro_rules! nist {
    ($name:ident, $curve:ty, $kem:ty, $model:expr) => {
        pub struct $name;
        impl $name {
            fn m() -> &'static Curve {
                static M: std::sync::OnceLock<Curve> = std::sync::OnceLock::new();
                M.get_or_init(|| $model)
            }
            fn point(b: &[u8]) -> (BigUint, BigUint) {
                assert_eq!(b[0], 4);
                let n = Self::m().len;
                (BigUint::from_bytes_be(&b[1..1 + n]), BigUint::from_bytes_be(&b[1 + n..]))
            }
        }
        impl Dh for $name {
            type Dk = <$kem as DhKem>::DecapsulatingKey;
            type Ek = <$kem as DhKem>::EncapsulatingKey;
            type Pk = elliptic_curve::PublicKey<$curve>;
            const NAME: &'static str = stringify!($name);
            const LEN: usize = <<$curve as elliptic_curve::Curve>::FieldBytesSize as elliptic_curve::generic_array::typenum::Unsigned>::USIZE;
            fn keypair(rng: &mut impl CryptoRngCore) -> (Self::Dk, Self::Ek) {
                imp(|| <$kem>::random_keypair(rng))
            }
            fn pk(b: &[u8]) -> Self::Pk {
                elliptic_curve::PublicKey::<$curve>::from_sec1_bytes(b).expect("a valid point")
            }
            fn pk_bytes(p: &Self::Pk) -> Vec<u8> {
                p.to_encoded_point(false).as_bytes().to_vec()
            }
            fn inner(e: &Self::Ek) -> Self::Pk {
                imp(|| *e.as_ref())
            }
            fn encaps(e: &Self::Ek, rng: &mut impl CryptoRngCore) -> (Self::Pk, Vec<u8>) {
                let (p, s) = imp(|| e.encapsulate(rng).unwrap());
                (p, s.raw_secret_bytes().to_vec())
            }
            fn decaps(d: &Self::Dk, p: &Self::Pk) -> Vec<u8> {
                imp(|| d.decapsulate(p).unwrap()).raw_secret_bytes().to_vec()
            }
            fn accepts(cand: &[u8]) -> bool {
                let v = BigUint::from_bytes_be(cand);
                v > BigUint::from(0u32) && v < Self::m().n
            }
            fn public(cand: &[u8]) -> Vec<u8> {
                let m = Self::m();
                m.sec1(&m.mul_base(&BigUint::from_bytes_be(cand)).unwrap(), false)
            }
            fn dh(cand: &[u8], peer: &[u8]) -> Vec<u8> {
                let m = Self::m();
                m.fe_bytes(&m.mul(&BigUint::from_bytes_be(cand), &Self::point(peer)).unwrap().0)
            }
            fn any_peer(r: &mut Rng) -> Vec<u8> {
                let m = Self::m();
                let small = r.chance(1, 2);
                let mut x = if small {
                    BigUint::from(r.below(1000))
                } else {
                    BigUint::from_bytes_be(&r.vec(m.len)) % &m.p
                };
                loop {
                    if let Some((px, py)) = m.lift_x(&x) {
                        let py = if r.chance(1, 2) { &m.p - py } else { py };
                        return m.sec1(&(px, py), false);
                    }
                    x += 1u32;
                }
            }
            fn any_cand(r: &mut Rng) -> Vec<u8> {
                let m = Self::m();
                let v = match r.below(8) {
                    0 => BigUint::from(1 + r.below(300)),
                    1 => &m.n - 1u32 - BigUint::from(r.below(300)),
                    2 => BigUint::from(1u32) << r.below(m.n.bits() - 1),
                    3 => BigUint::from_bytes_be(&r.vec(8)) + 1u32,
                    _ => BigUint::from_bytes_be(&r.vec(m.len)) % (&m.n - 1u32) + 1u32,
                };
                m.fe_bytes(&v)
            }
            fn bad_cand(r: &mut Rng) -> Option<Vec<u8>> {
                let m = Self::m();
                let top = (BigUint::from(1u32) << (8 * m.len)) - 1u32;
                Some(match r.below(5) {
                    0 => vec![0; m.len],
                    1 => m.fe_bytes(&m.n),
                    2 => m.fe_bytes(&(&m.n + r.below(300))),
                    3 => m.fe_bytes(&top),
                    _ => m.fe_bytes(&(&top - r.below(1 << 30))),
                })
            }
        }
    };
}
nist!(P256, p256::NistP256, dhkem::NistP256Kem, Curve::p256());
nist!(P384, p384::NistP384, dhkem::NistP384Kem, Curve::p384());
nist!(P521, p521::NistP521, dhkem::NistP521Kem, Curve::p521());
nist!(K256, k256::Secp256k1, dhkem::Secp256k1Kem, Curve::k256());

pub struct X25519;
impl Dh for X25519 {
    type Dk = <dhkem::X25519Kem as DhKem>::DecapsulatingKey;
    type Ek = <dhkem::X25519Kem as DhKem>::EncapsulatingKey;
    type Pk = x25519_dalek::PublicKey;
    const NAME: &'static str = "X25519";
    const LEN: usize = 32;
    fn keypair(rng: &mut impl CryptoRngCore) -> (Self::Dk, Self::Ek) {
        imp(|| dhkem::X25519Kem::random_keypair(rng))
    }
    fn pk(b: &[u8]) -> Self::Pk {
        x25519_dalek::PublicKey::from(arr32(b))
    }
    fn pk_bytes(p: &Self::Pk) -> Vec<u8> {
        p.as_bytes().to_vec()
    }
    fn inner(e: &Self::Ek) -> Self::Pk {
        imp(|| *e.as_ref())
    }
    fn encaps(e: &Self::Ek, rng: &mut impl CryptoRngCore) -> (Self::Pk, Vec<u8>) {
        let (p, s) = imp(|| e.encapsulate(rng).unwrap());
        (p, s.as_bytes().to_vec())
    }
    fn decaps(d: &Self::Dk, p: &Self::Pk) -> Vec<u8> {
        imp(|| d.decapsulate(p).unwrap()).as_bytes().to_vec()
    }
    fn accepts(_: &[u8]) -> bool {
        true
    }
    fn public(cand: &[u8]) -> Vec<u8> {
        x25519::base(&arr32(cand)).to_vec()
    }
    fn dh(cand: &[u8], peer: &[u8]) -> Vec<u8> {
        x25519::x25519(&arr32(cand), &arr32(peer)).to_vec()
    }
    fn any_peer(r: &mut Rng) -> Vec<u8> {
        loop {
            let u = gen::u_coord(r);
            // all-zero outputs are the business of C23
            if x25519::x25519(&[1; 32], &u) != [0; 32] {
                return u.to_vec();
            }
        }
    }
    fn any_cand(r: &mut Rng) -> Vec<u8> {
        gen::b32(r).to_vec()
    }
    fn bad_cand(_: &mut Rng) -> Option<Vec<u8>> {
        None
    }
}

macro_rules! each_dh {
    ($i:expr, $f:ident ( $($a:expr),* )) => {
        match ($i) % 5 {
            0 => $f::<X25519>($($a),*),
            1 => $f::<P256>($($a),*),
            2 => $f::<P384>($($a),*),
            3 => $f::<P521>($($a),*),
            _ => $f::<K256>($($a),*),
        }
    };
}

// ---------------------------------------------------------------- C19

fn exchange<D: Dh>(c: &mut Case) -> R {
    let (s, e) = (D::any_cand(&mut c.rng), D::any_cand(&mut c.rng));
    let info = || format!("DHKEM {} sk={} ephemeral={}", D::NAME, hex(&s), hex(&e));
    let (dk, ek) = D::keypair(&mut Tape::new(&s));
    let pk = D::public(&s);
    same("public key", &D::pk_bytes(&D::inner(&ek)), &pk, info)?;
    // honest exchange, the public key in several provenances
    let ek2: D::Ek = match c.rng.below(3) {
        0 => ek,
        1 => D::inner(&ek).into(),
        _ => D::pk(&pk).into(),
    };
    let (enc, ss) = D::encaps(&ek2, &mut Tape::new(&e));
    same("encapsulated key", &D::pk_bytes(&enc), &D::public(&e), info)?;
    let want = D::dh(&e, &pk);
    same("sender's secret", &ss, &want, info)?;
    let enc2 = if c.rng.chance(1, 2) { enc } else { D::pk(&D::pk_bytes(&enc)) };
    same("receiver's secret", &D::decaps(&dk, &enc2), &want, info)?;
    c.l.count(&format!("honest_{}", D::NAME), 1);
    // peers from anywhere
    let peer = D::any_peer(&mut c.rng);
    let info = || format!("DHKEM {} sk={} ephemeral={} peer={}", D::NAME, hex(&s), hex(&e), hex(&peer));
    let p = D::pk(&peer);
    let want = D::dh(&s, &peer);
    same("receiver's secret", &D::decaps(&dk, &p), &want, info)?;
    same("repeated decapsulation", &D::decaps(&dk, &p), &want, info)?;
    let (enc, ss) = D::encaps(&D::Ek::from(p), &mut Tape::new(&e));
    let want = D::dh(&e, &peer);
    same("encapsulated key", &D::pk_bytes(&enc), &D::public(&e), info)?;
    same("sender's secret", &ss, &want, info)?;
    if want[0] == 0 {
        c.l.count("secrets_with_leading_zero", 1);
    }
    c.l.count(&format!("foreign_{}", D::NAME), 1);
    c.l.nontrivial(&[D::NAME.as_bytes(), &s, &e, &peer]);
    c.sample(|| format!("{} -> {}", info(), hex(&want)));
    Ok(())
}

/// Secrets with many leading zeros: scalar one and a peer with a small x-coordinate.
fn leading_zeros<D: Dh>(c: &mut Case) -> R {
    let one = {
        let mut v = vec![0; D::LEN];
        v[D::LEN - 1] = 1;
        v
    };
    if D::NAME == "X25519" {
        return Ok(());
    }
    let peer = loop {
        let p = D::any_peer(&mut c.rng);
        if p[1..D::LEN - 2].iter().all(|b| *b == 0) {
            break p;
        }
    };
    let info = || format!("DHKEM {} scalar one, peer={}", D::NAME, hex(&peer));
    let want = peer[1..1 + D::LEN].to_vec();
    let (dk, _) = D::keypair(&mut Tape::new(&one));
    same("receiver's secret", &D::decaps(&dk, &D::pk(&peer)), &want, info)?;
    let (_, ss) = D::encaps(&D::pk(&peer).into(), &mut Tape::new(&one));
    same("sender's secret", &ss, &want, info)?;
    c.l.count("secrets_with_leading_zero", 1);
    c.l.nontrivial(&[D::NAME.as_bytes(), &peer]);
    Ok(())
}

/// Agreement alone, at volume.
fn agree<D: Dh>(c: &mut Case) -> R {
    let mut st = Stream::new(c.rng.clone());
    let (dk, ek) = D::keypair(&mut st);
    for _ in 0..4 {
        let (enc, ss) = D::encaps(&ek, &mut st);
        let got = D::decaps(&dk, &enc);
        check(got == ss, "sender and receiver disagree", || format!("DHKEM {} stream={}", D::NAME, hex(&st.rec)))?;
        c.l.count("agreed", 1);
        c.l.seen("agreed_distinct", u64::from_le_bytes(ss[ss.len() - 8..].try_into().unwrap()));
        c.l.nontrivial(&[D::NAME.as_bytes(), &D::pk_bytes(&enc)]);
    }
    Ok(())
}

pub fn c19(ctx: &mut Ctx) {
    let n = ctx.n(2_500, 120_000);
    ctx.stage("exchange", n, |c| each_dh!(c.index, exchange(c)));
    let n = ctx.n(400, 5_000);
    ctx.stage("leading-zeros", n, |c| each_dh!(c.index, leading_zeros(c)));
    let n = ctx.n(6_000, 400_000);
    ctx.stage("agreement", n, |c| each_dh!(c.index, agree(c)));
    for s in ["X25519", "P256", "P384", "P521", "K256"] {
        ctx.require(&format!("honest_{s}"), 100);
        ctx.require(&format!("foreign_{s}"), 100);
    }
    ctx.require("secrets_with_leading_zero", 300);
    ctx.require("agreed", 1000);
}

// ---------------------------------------------------------------- C20

/// The candidate the specification of rejection sampling accepts, and the bytes used up to its end.
fn accepted<D: Dh>(tape: &[u8]) -> Option<(Vec<u8>, usize)> {
    for (i, c) in tape.chunks(D::LEN).enumerate() {
        if c.len() == D::LEN && D::accepts(c) {
            return Some((c.to_vec(), (i + 1) * D::LEN));
        }
    }
    None
}

fn fresh<D: Dh>(c: &mut Case) -> R {
    let r = &mut c.rng;
    // some candidates to be rejected, then one to be accepted, then others
    let mut t = Vec::new();
    let rejected = r.below(4);
    for _ in 0..rejected {
        if let Some(b) = D::bad_cand(r) {
            t.extend(b);
            c.l.count("rejected_candidates", 1);
        }
    }
    let cand = D::any_cand(r);
    t.extend_from_slice(&cand);
    let mut t1 = t.clone();
    t1.extend(D::any_cand(r));
    t1.extend(r.vec(D::LEN));
    let mut t2 = t.clone();
    t2.extend(D::any_cand(r));
    t2.extend(r.vec(D::LEN));
    let (want, used) = accepted::<D>(&t).unwrap();
    let pk = D::public(&want);
    let info = || format!("DHKEM {} generator delivers {}", D::NAME, hex(&t1));
    let mut tape = Tape::new(&t1);
    let (dk, ek) = D::keypair(&mut tape);
    check(tape.used == used, &format!("key generation drew {} bytes, not {used}", tape.used), info)?;
    same("public key", &D::pk_bytes(&D::inner(&ek)), &pk, info)?;
    // the private key is the accepted candidate: exchange with a known peer
    let peer = D::any_peer(&mut c.rng);
    same("secret of the generated key", &D::decaps(&dk, &D::pk(&peer)), &D::dh(&want, &peer), info)?;
    // the same bytes, another tail
    let (_, ek2) = D::keypair(&mut Tape::new(&t2));
    check(D::inner(&ek2) == D::inner(&ek), "bytes beyond the drawn ones influence the key", info)?;
    // and encapsulation from the same generator output
    let mut tape = Tape::new(&t1);
    let (enc, ss) = D::encaps(&ek, &mut tape);
    check(tape.used == used, &format!("encapsulation drew {} bytes, not {used}", tape.used), info)?;
    same("ephemeral key", &D::pk_bytes(&enc), &pk, info)?;
    let (enc2, ss2) = D::encaps(&ek, &mut Tape::new(&t2));
    check(enc2 == enc && ss2 == ss, "bytes beyond the drawn ones influence the encapsulation", info)?;
    c.l.count(&format!("tapes_{}", D::NAME), 1);
    c.l.max("bytes_drawn", used as u64);
    c.l.nontrivial(&[D::NAME.as_bytes(), &t1]);
    c.sample(|| format!("{} -> {rejected} candidates rejected, key from the next", info()));
    Ok(())
}

fn bits<D: Dh>(c: &mut Case, byte: usize) -> R {
    if byte >= D::LEN {
        return Ok(());
    }
    let mut r = Rng::new(format!("c20/{}/{}", D::NAME, c.index / 330).as_bytes());
    let cand = D::any_cand(&mut r);
    let tail = D::any_cand(&mut r);
    let tape = |a: &[u8]| Tape::new(&[a, &tail[..]].concat());
    let (_, ek) = D::keypair(&mut tape(&cand));
    let (enc, ss) = D::encaps(&ek, &mut tape(&cand));
    for bit in 0..8 {
        let mut b = cand.clone();
        b[byte] ^= 1 << bit;
        let info = || format!("DHKEM {} candidate {} with bit {bit} of byte {byte} flipped", D::NAME, hex(&cand));
        let (_, ek2) = D::keypair(&mut tape(&b));
        let (enc2, ss2) = D::encaps(&ek, &mut tape(&b));
        let clamped = D::NAME == "X25519" && ((byte == 0 && bit < 3) || (byte == 31 && bit >= 6));
        if clamped {
            check(D::inner(&ek2) == D::inner(&ek) && enc2 == enc && ss2 == ss, "a bit that clamping discards has an influence", info)?;
            c.l.count("clamped_bits", 1);
        } else {
            check(D::inner(&ek2) != D::inner(&ek), "a drawn bit has no influence on the key", info)?;
            check(enc2 != enc && ss2 != ss, "a drawn bit has no influence on the encapsulation", info)?;
            c.l.count("bits", 1);
        }
    }
    c.l.nontrivial(&[D::NAME.as_bytes(), &cand, &byte.to_le_bytes()]);
    Ok(())
}

/// A long history on one stream: every key is the next accepted candidate; none repeats.
fn history<D: Dh>(c: &mut Case) -> R {
    let mut st = Stream::new(c.rng.clone());
    let mut eks: Vec<D::Ek> = Vec::new();
    let mut seen: Vec<Vec<u8>> = Vec::new();
    for step in 0..10 {
        let at = st.rec.len();
        let pk = if eks.is_empty() || c.rng.chance(1, 3) {
            let (_, ek) = D::keypair(&mut st);
            eks.push(ek);
            D::inner(&ek)
        } else {
            // often the same recipient twice in a row
            let i = if c.rng.chance(1, 2) { eks.len() - 1 } else { c.rng.below(eks.len() as u64) as usize };
            D::encaps(&eks[i], &mut st).0
        };
        let got = D::pk_bytes(&pk);
        let info = || format!("DHKEM {} step {step}, generator delivered {}", D::NAME, hex(&st.rec[at..]));
        let Some((cand, used)) = accepted::<D>(&st.rec[at..]) else {
            return bad("a key was made without drawing an acceptable candidate", info());
        };
        check(at + used == st.rec.len(), "bytes were drawn beyond the accepted candidate", info)?;
        same("public key", &got, &D::public(&cand), info)?;
        check(!seen.contains(&got), "a key repeated in one history", info)?;
        seen.push(got);
        c.l.count("history_steps", 1);
    }
    c.l.nontrivial(&[D::NAME.as_bytes(), &st.rec]);
    Ok(())
}

pub fn c20(ctx: &mut Ctx) {
    let n = ctx.n(2_000, 100_000);
    ctx.stage("tape", n, |c| each_dh!(c.index, fresh(c)));
    let n = ctx.n(2, 60);
    ctx.stage("every-bit", n * 5 * 66, |c| each_dh!(c.index, bits(c, ((c.index / 5) % 66) as usize)));
    let n = ctx.n(400, 30_000);
    ctx.stage("history", n, |c| each_dh!(c.index, history(c)));
    for s in ["X25519", "P256", "P384", "P521", "K256"] {
        ctx.require(&format!("tapes_{s}"), 100);
    }
    ctx.require("rejected_candidates", 500);
    ctx.require("bits", 1500);
    ctx.require("history_steps", 1000);
}

// ---------------------------------------------------------------- C21

/// Everything a Hasher is told.
#[derive(Default, PartialEq, Debug)]
struct Trace(Vec<u8>);
impl Hasher for Trace {
    fn finish(&self) -> u64 {
        0
    }
    fn write(&mut self, b: &[u8]) {
        self.0.push(b.len() as u8);
        self.0.extend_from_slice(b);
    }
}
fn hash_of<T: Hash>(t: &T) -> (Trace, u64) {
    let mut a = Trace::default();
    let mut b = DefaultHasher::new();
    imp(|| {
        t.hash(&mut a);
        t.hash(&mut b);
    });
    (a, b.finish())
}

fn eq_laws<X, W>(x: &X, y: &X, wrap: impl Fn(&X) -> W, info: &dyn Fn() -> String) -> R
where
    X: PartialEq,
    W: PartialEq,
{
    let (a, b) = (imp(|| wrap(x)), imp(|| wrap(y)));
    let (e, n) = imp(|| (a == b, a != b));
    check(e == (x == y) && n == (x != y), "equality of wrappers is not that of the wrapped values", info)
}

fn ord_laws<X, W>(x: &X, y: &X, wrap: impl Fn(&X) -> W, info: &dyn Fn() -> String) -> R
where
    X: PartialOrd,
    W: PartialOrd,
{
    let (a, b) = (imp(|| wrap(x)), imp(|| wrap(y)));
    let got: (Option<Ordering>, bool, bool, bool, bool) = imp(|| (a.partial_cmp(&b), a < b, a <= b, a > b, a >= b));
    let want = (x.partial_cmp(y), x < y, x <= y, x > y, x >= y);
    check(got == want, "ordering of wrappers is not that of the wrapped values", info)
}

fn total_laws<X, W>(x: &X, y: &X, wrap: impl Fn(&X) -> W, info: &dyn Fn() -> String) -> R
where
    X: Ord + Clone,
    W: Ord,
{
    let got = imp(|| wrap(x).cmp(&wrap(y)));
    check(got == x.cmp(y), "ordering of wrappers is not that of the wrapped values", info)?;
    let mx = imp(|| wrap(x).max(wrap(y)) == wrap(&x.clone().max(y.clone())));
    check(mx, "maximum of wrappers is not that of the wrapped values", info)
}

fn hash_laws<X: Hash, W: Hash>(x: &X, wrap: impl Fn(&X) -> W, info: &dyn Fn() -> String) -> R {
    let w = imp(|| wrap(x));
    check(hash_of(&w) == hash_of(x), "hash of a wrapper is not that of the wrapped value", info)
}

macro_rules! hash_both {
    ($c:expr, $x:expr, $info:expr) => {
        hash_laws($x, |v| DhEncapsulator::from(v.clone()), $info)?;
        hash_laws($x, |v| DhDecapsulator::from(v.clone()), $info)?;
        $c.l.count("hash_checks", 2);
    };
}

macro_rules! wrap_laws {
    ($c:expr, $x:expr, $y:expr, $info:expr) => {{
        let (x, y, info): (_, _, &dyn Fn() -> String) = ($x, $y, $info);
        eq_laws(&x, &y, |v| DhEncapsulator::from(v.clone()), info)?;
        eq_laws(&x, &y, |v| DhDecapsulator::from(v.clone()), info)?;
        eq_laws(&x, &x, |v| DhEncapsulator::from(v.clone()), info)?;
        eq_laws(&x, &x, |v| DhDecapsulator::from(v.clone()), info)?;
        // back by reference, value, clone and copy
        let (e, d) = imp(|| (DhEncapsulator::from(x.clone()), DhDecapsulator::from(x.clone())));
        check(imp(|| *e.as_ref() == x && *d.as_ref() == x), "the wrapped value is not given back by reference", info)?;
        check(imp(|| e.clone().into_inner() == x && d.clone().into_inner() == x), "the wrapped value is not given back", info)?;
        check(imp(|| e.into_inner() == x && d.into_inner() == x), "the wrapped value is not given back", info)?;
        $c.l.count("wrapper_law_checks", 9);
    }};
}

fn public_keys<D: Dh>(c: &mut Case) -> R
where
    DhEncapsulator<D::Pk>: Copy,
    DhDecapsulator<D::Pk>: Copy,
{
    let (a, b) = (D::any_peer(&mut c.rng), D::any_peer(&mut c.rng));
    let (x, y) = (D::pk(&a), D::pk(&b));
    let info = || format!("DHKEM {} public keys {} {}", D::NAME, hex(&a), hex(&b));
    wrap_laws!(c, x, y, &info);
    let e = imp(|| DhEncapsulator::from(x));
    let e2 = e;
    let d = imp(|| DhDecapsulator::from(x));
    let d2 = d;
    check(imp(|| *e.as_ref() == x && e2.into_inner() == x && *d.as_ref() == x && d2.into_inner() == x), "a copied wrapper holds another value", info)?;
    same("wrapped public key", &D::pk_bytes(e.as_ref()), &a, info)?;
    // a rewrapped key behaves as before
    let s = D::any_cand(&mut c.rng);
    let (dk, ek) = D::keypair(&mut Tape::new(&s));
    let t = D::any_cand(&mut c.rng);
    let (p, ss) = D::encaps(&ek, &mut Tape::new(&t));
    let again: D::Ek = D::inner(&ek).into();
    check(imp(|| again == ek) && D::encaps(&again, &mut Tape::new(&t)) == (p, ss.clone()), "a rewrapped encapsulator behaves differently", info)?;
    check(D::decaps(&dk, &p) == ss, "sender and receiver disagree", info)?;
    c.l.count(&format!("public_keys_{}", D::NAME), 1);
    c.l.nontrivial(&[D::NAME.as_bytes(), &a, &b]);
    c.sample(info);
    Ok(())
}

macro_rules! nist_wrappers {
    ($c:expr, $d:ty, $curve:ty) => {{
        let c: &mut Case = $c;
        let (a, b) = (<$d>::any_peer(&mut c.rng), <$d>::any_peer(&mut c.rng));
        // near neighbours in the ordering too: the negated point
        let m = <$d>::m();
        let (px, py) = <$d>::point(&a);
        let neg = m.sec1(&(px, &m.p - py), false);
        let info = || format!("DHKEM {} public keys {} {}", <$d>::NAME, hex(&a), hex(&b));
        for (p, q) in [(&a, &b), (&b, &a), (&a, &a), (&a, &neg), (&neg, &a)] {
            let (x, y) = (<$d>::pk(p), <$d>::pk(q));
            eq_laws(&x, &y, |v| DhEncapsulator::from(*v), &info)?;
            ord_laws(&x, &y, |v| DhEncapsulator::from(*v), &info)?;
            ord_laws(&x, &y, |v| DhDecapsulator::from(*v), &info)?;
            total_laws(&x, &y, |v| DhEncapsulator::from(*v), &info)?;
            total_laws(&x, &y, |v| DhDecapsulator::from(*v), &info)?;
            c.l.count("ordering_checks", 4);
        }
        for p in [&a, &b, &neg] {
            let e = imp(|| DhEncapsulator::from(<$d>::pk(p)));
            for compress in [false, true] {
                let got = imp(|| e.to_encoded_point(compress));
                let want = m.sec1(&<$d>::point(p), compress);
                same("encoded point of the wrapper", got.as_bytes(), &want, &info)?;
                c.l.count("encoded_points", 1);
            }
        }
        public_keys::<$d>(c)?;
        // a decapsulator taken apart and wrapped again
        let s = <$d>::any_cand(&mut c.rng);
        let (dk, ek) = <$d>::keypair(&mut Tape::new(&s));
        let want = <$d>::dh(&s, &a);
        let p = <$d>::pk(&a);
        let by_ref = imp(|| dk.as_ref().diffie_hellman(&p));
        same("secret of the wrapped key by reference", by_ref.raw_secret_bytes(), &want, &info)?;
        let sk = imp(|| dk.into_inner());
        check(imp(|| sk.public_key()) == <$d>::inner(&ek), "the unwrapped private key is another", &info)?;
        let again = imp(|| DhDecapsulator::from(sk));
        same("secret of the rewrapped key", &<$d>::decaps(&again, &p), &want, &info)?;
        c.l.count("rewrapped_private_keys", 1);
        Ok(())
    }};
}

fn nist_wrapper_case(c: &mut Case) -> R {
    match c.index % 4 {
        0 => nist_wrappers!(c, P256, p256::NistP256),
        1 => nist_wrappers!(c, P384, p384::NistP384),
        2 => nist_wrappers!(c, P521, p521::NistP521),
        _ => nist_wrappers!(c, K256, k256::Secp256k1),
    }
}

fn x25519_wrapper_case(c: &mut Case) -> R {
    public_keys::<X25519>(c)?;
    let u = gen::u_coord(&mut c.rng);
    hash_both!(c, &X25519::pk(&u), &|| format!("X25519 public key {}", hex(&u)));
    let s = X25519::any_cand(&mut c.rng);
    let a = X25519::any_peer(&mut c.rng);
    let info = || format!("DHKEM X25519 sk={} peer={}", hex(&s), hex(&a));
    let (dk, _) = X25519::keypair(&mut Tape::new(&s));
    let want = X25519::dh(&s, &a);
    let p = X25519::pk(&a);
    same("secret of a cloned decapsulator", &X25519::decaps(&imp(|| dk.clone()), &p), &want, info)?;
    same("secret of the wrapped key by reference", imp(|| dk.as_ref().diffie_hellman(&p)).as_bytes(), &want, info)?;
    let sk = imp(|| dk.into_inner());
    let again = imp(|| DhDecapsulator::from(sk));
    same("secret of the rewrapped key", &X25519::decaps(&again, &p), &want, info)?;
    c.l.count("rewrapped_private_keys", 1);
    Ok(())
}

#[derive(Clone, Debug, Default, PartialEq, PartialOrd)]
struct Partial {
    f: f64,
}

/// Any wrapped type: laws, NaN-like partial orders, defaults, one drop per value.
fn generic_types(c: &mut Case) -> R {
    let info = || "wrappers of arbitrary types".to_string();
    let info: &dyn Fn() -> String = &info;
    let r = &mut c.rng;
    let (a, b) = (r.below(4) as u32, r.below(4) as u32);
    let (s, t) = (format!("k{}", r.below(4)), format!("k{}", r.below(4)));
    let (u, v) = ((r.below(3), r.vec(2)), (r.below(3), r.vec(2)));
    wrap_laws!(c, a, b, info);
    wrap_laws!(c, s.clone(), t.clone(), info);
    wrap_laws!(c, u.clone(), v.clone(), info);
    hash_both!(c, &a, info);
    hash_both!(c, &s, info);
    hash_both!(c, &u, info);
    macro_rules! ords {
        ($x:expr, $y:expr) => {
            ord_laws($x, $y, |v| DhEncapsulator::from(v.clone()), info)?;
            ord_laws($x, $y, |v| DhDecapsulator::from(v.clone()), info)?;
            total_laws($x, $y, |v| DhEncapsulator::from(v.clone()), info)?;
            total_laws($x, $y, |v| DhDecapsulator::from(v.clone()), info)?;
            c.l.count("ordering_checks", 4);
        };
    }
    ords!(&a, &b);
    ords!(&s, &t);
    ords!(&u, &v);
    // reflexivity is that of the wrapped type, which may have none
    let fs = [f64::NAN, 0.0, -0.0, 1.0, f64::INFINITY];
    for x in fs {
        for y in fs {
            let (x, y) = (Partial { f: x }, Partial { f: y });
            eq_laws(&x, &y, |v| DhEncapsulator::from(v.clone()), info)?;
            eq_laws(&x, &y, |v| DhDecapsulator::from(v.clone()), info)?;
            ord_laws(&x, &y, |v| DhEncapsulator::from(v.clone()), info)?;
            ord_laws(&x, &y, |v| DhDecapsulator::from(v.clone()), info)?;
            c.l.count("ordering_checks", 4);
        }
    }
    // defaults
    check(
        imp(|| {
            DhEncapsulator::<u32>::default().into_inner() == 0
                && DhDecapsulator::<Partial>::default().into_inner() == Partial::default()
                && DhDecapsulator::<String>::default().into_inner().is_empty()
                && DhEncapsulator::<Option<u8>>::default().into_inner().is_none()
        }),
        "the default wrapper does not hold the default value",
        info,
    )?;
    // every value is dropped exactly once
    let token = Rc::new(());
    {
        let e = DhEncapsulator::from(token.clone());
        let d = DhDecapsulator::from(token.clone());
        let (e2, d2) = (e.clone(), d.clone());
        check(Rc::strong_count(&token) == 5, "a wrapper holds another number of values", info)?;
        drop(e.into_inner());
        drop(d2.into_inner());
        check(Rc::strong_count(&token) == 3, "unwrapping does not hand over the value", info)?;
        drop(d);
        drop(e2);
    }
    check(Rc::strong_count(&token) == 1, "a wrapped value is not dropped exactly once", info)?;
    c.l.count("generic_type_rounds", 1);
    c.l.nontrivial(&[&a.to_le_bytes(), &b.to_le_bytes(), s.as_bytes(), t.as_bytes(), &u.1, &v.1]);
    Ok(())
}

pub fn c21(ctx: &mut Ctx) {
    let n = ctx.n(2_000, 80_000);
    ctx.stage("nist", n, nist_wrapper_case);
    let n = ctx.n(3_000, 100_000);
    ctx.stage("x25519", n, x25519_wrapper_case);
    let n = ctx.n(5_000, 200_000);
    ctx.stage("generic", n, generic_types);
    ctx.stage("defaults", 1, |c| {
        // default of a curve wrapper type, where the wrapped type has one
        let p = imp(DhEncapsulator::<elliptic_curve::ScalarPrimitive<p256::NistP256>>::default);
        check(*p.as_ref() == Default::default(), "the default wrapper does not hold the default value", String::new)?;
        c.l.count("defaults", 1);
        Ok(())
    });
    ctx.require("wrapper_law_checks", 1000);
    ctx.require("ordering_checks", 1000);
    ctx.require("hash_checks", 1000);
    ctx.require("encoded_points", 1000);
    ctx.require("rewrapped_private_keys", 1000);
}

// ---------------------------------------------------------------- C23

/// A known finding is named by operation and peer encoding.
fn contributory<D: Dh>(c: &mut Case, peer: &[u8]) -> R {
    let (s1, s2, e1, e2) =
        (D::any_cand(&mut c.rng), D::any_cand(&mut c.rng), D::any_cand(&mut c.rng), D::any_cand(&mut c.rng));
    // equal up to clamping or sign means the same secret
    let different = |a: &[u8], b: &[u8]| D::public(a)[1..1 + D::LEN.min(31)] != D::public(b)[1..1 + D::LEN.min(31)];
    let p = D::pk(peer);
    let info = || format!("DHKEM {} peer={} private keys {} {}", D::NAME, hex(peer), hex(&s1), hex(&s2));
    let run = |f: &dyn Fn() -> Vec<u8>| imp_catch(f);
    for (op, a, b) in [("decapsulate", &s1, &s2), ("encapsulate", &e1, &e2)] {
        if !different(a, b) {
            continue;
        }
        let one = |x: &[u8]| -> Result<Vec<u8>, String> {
            if op == "decapsulate" {
                let (dk, _) = D::keypair(&mut Tape::new(x));
                run(&|| D::decaps(&dk, &p))
            } else {
                run(&|| D::encaps(&D::Ek::from(p), &mut Tape::new(x)).1)
            }
        };
        match (one(a), one(b)) {
            (Ok(x), Ok(y)) => {
                let zero = D::NAME == "X25519" && (x.iter().all(|v| *v == 0) || y.iter().all(|v| *v == 0));
                if zero || x == y {
                    let sig = format!("{}:{op}:{}", D::NAME, hex(peer));
                    c.l.finding(
                        &sig,
                        &format!("DHKEM {} {op} with peer {} returned {} whatever the private key", D::NAME, hex(peer), hex(&x)),
                        &info(),
                    );
                    c.l.count("noncontributory_secrets", 1);
                } else {
                    c.l.count(&format!("contributory_{}", D::NAME), 1);
                }
            }
            _ => c.l.count("refused", 1),
        }
    }
    c.l.nontrivial(&[D::NAME.as_bytes(), peer, &s1]);
    Ok(())
}

pub fn c23(ctx: &mut Ctx) {
    let lo = gen::low_order();
    ctx.stage("low-order", 14 * 8, |c| {
        let u = lo[(c.index % 14) as usize];
        c.l.seen("low_order_encodings", c.index % 14);
        contributory::<X25519>(c, &u)
    });
    // neighbours of the low-order encodings, and everything else
    ctx.stage("neighbours", 14 * 256, |c| {
        let mut u = lo[(c.index % 14) as usize];
        let bit = (c.index / 14) as usize;
        u[bit / 8] ^= 1 << (bit % 8);
        c.l.count("neighbour_encodings", 1);
        contributory::<X25519>(c, &u)
    });
    let n = ctx.n(2_000, 100_000);
    ctx.stage("any-peer", n, |c| {
        fn go<D: Dh>(c: &mut Case) -> R {
            let p = D::any_peer(&mut c.rng);
            contributory::<D>(c, &p)
        }
        each_dh!(c.index, go(c))
    });
    ctx.require("low_order_encodings", 14);
    for s in ["X25519", "P256", "P384", "P521", "K256"] {
        ctx.require(&format!("contributory_{s}"), 100);
    }
}
