//! A fixed workload over the three crates that runs in every configuration: with and without an
//! operating system, in every feature set, profile and target. It uses no heap.
#![no_std]

use ::kem::{Decapsulate, Encapsulate};
use ml_kem::array::typenum::*;
use ml_kem::{Encoded, EncodedSizeUser, KemCore};
use rand_core::{CryptoRng, Error, RngCore};

/// splitmix64, as bytes
#[derive(Clone)]
pub struct Seq(pub u64);
impl Seq {
    pub fn new(label: &str, i: u64) -> Self {
        let mut h = Fnv::new();
        h.put(label.as_bytes());
        h.put(&i.to_le_bytes());
        Seq(h.0)
    }
    pub fn byte(&mut self) -> u8 {
        self.0 = self.0.wrapping_add(0x9e37_79b9_7f4a_7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
        (z >> 56) as u8
    }
    pub fn fill(&mut self, b: &mut [u8]) {
        for x in b {
            *x = self.byte();
        }
    }
}
impl RngCore for Seq {
    fn next_u32(&mut self) -> u32 {
        let mut b = [0; 4];
        self.fill(&mut b);
        u32::from_le_bytes(b)
    }
    fn next_u64(&mut self) -> u64 {
        let mut b = [0; 8];
        self.fill(&mut b);
        u64::from_le_bytes(b)
    }
    fn fill_bytes(&mut self, dest: &mut [u8]) {
        self.fill(dest);
    }
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), Error> {
        self.fill(dest);
        Ok(())
    }
}
impl CryptoRng for Seq {}

pub struct Fnv(pub u64);
impl Fnv {
    pub const fn new() -> Self {
        Fnv(0xcbf2_9ce4_8422_2325)
    }
    pub fn put(&mut self, b: &[u8]) {
        for x in b {
            self.0 = (self.0 ^ u64::from(*x)).wrapping_mul(0x100_0000_01b3);
        }
    }
}

/// Where observed values go: (section, case, step, bytes).
pub trait Sink {
    fn put(&mut self, section: &'static str, case: u64, step: &'static str, bytes: &[u8]);
}

struct At<'a> {
    sink: &'a mut dyn Sink,
    section: &'static str,
    case: u64,
}
impl At<'_> {
    fn put(&mut self, step: &'static str, bytes: &[u8]) {
        self.sink.put(self.section, self.case, step, bytes);
    }
}

/// Fill with one of several shapes of hostile bytes.
fn hostile(r: &mut Seq, b: &mut [u8]) {
    match r.byte() % 6 {
        0 => b.iter_mut().for_each(|x| *x = 0xff),
        1 => b.iter_mut().for_each(|x| *x = 0),
        2 => {
            r.fill(b);
            let n = b.len();
            b[..n / 2].iter_mut().for_each(|x| *x |= 0xf0);
        }
        _ => r.fill(b),
    }
}

fn mlkem<K: KemCore>(section: &'static str, case: u64, lite: bool, sink: &mut dyn Sink) {
    let mut r = Seq::new("mlkem", case);
    let mut o = At { sink, section, case };
    let (dk, ek) = K::generate(&mut r);
    let dkb = dk.as_bytes();
    o.put("dk", &dkb);
    o.put("ek", &ek.as_bytes());
    let (ct, ss) = ek.encapsulate(&mut r).unwrap();
    o.put("ct", &ct);
    o.put("ss", &ss);
    let dk2 = K::DecapsulationKey::from_bytes(&dkb);
    o.put("accept", &dk2.decapsulate(&ct).unwrap());
    if lite {
        return;
    }
    let mut bad = ct.clone();
    let i = (usize::from(r.byte()) * 256 + usize::from(r.byte())) % bad.len();
    bad[i] ^= 1 << (r.byte() % 8);
    o.put("reject", &dk.decapsulate(&bad).unwrap());
    o.put("equal", &[u8::from(dk == dk2)]);
    let mut e = Encoded::<K::EncapsulationKey>::default();
    hostile(&mut r, &mut e);
    let ek = K::EncapsulationKey::from_bytes(&e);
    o.put("hostile ek", &ek.as_bytes());
    let (ct, ss) = ek.encapsulate(&mut r).unwrap();
    o.put("hostile ek ct", &ct);
    o.put("hostile ek ss", &ss);
    let mut d = Encoded::<K::DecapsulationKey>::default();
    hostile(&mut r, &mut d);
    let dk = K::DecapsulationKey::from_bytes(&d);
    o.put("hostile dk", &dk.as_bytes());
    hostile(&mut r, &mut bad);
    o.put("hostile dk ss", &dk.decapsulate(&bad).unwrap());
}

#[cfg(feature = "mlkem-det")]
fn mlkem_det<K: KemCore>(section: &'static str, case: u64, sink: &mut dyn Sink) {
    use ml_kem::EncapsulateDeterministic;
    let mut r = Seq::new("mlkem", case);
    let mut o = At { sink, section, case };
    let (mut d, mut z, mut m) = (ml_kem::B32::default(), ml_kem::B32::default(), ml_kem::B32::default());
    r.fill(&mut d);
    r.fill(&mut z);
    r.fill(&mut m);
    let (dk, ek) = K::generate_deterministic(&d, &z);
    o.put("dk", &dk.as_bytes());
    o.put("ek", &ek.as_bytes());
    let (ct, ss) = ek.encapsulate_deterministic(&m).unwrap();
    o.put("ct", &ct);
    o.put("ss", &ss);
    o.put("accept", &dk.decapsulate(&ct).unwrap());
}

/// A user-defined set: the cheapest one that uses the widest encodings.
#[derive(Default, Clone, Debug, PartialEq)]
pub struct Tiny;
impl ml_kem::ParameterSet for Tiny {
    type K = U1;
    type Eta1 = U3;
    type Eta2 = U2;
    type Du = U11;
    type Dv = U5;
}

#[cfg(feature = "xwing")]
fn xwing(section: &'static str, case: u64, lite: bool, sink: &mut dyn Sink) {
    use x_wing::{Ciphertext, DecapsulationKey, EncapsulationKey};
    let mut r = Seq::new("xwing", case);
    let mut o = At { sink, section, case };
    let (dk, ek) = x_wing::generate_key_pair(&mut r);
    o.put("dk", dk.as_bytes());
    let ekb = ek.as_bytes();
    o.put("ek", &ekb);
    let (ct, ss) = ek.encapsulate(&mut r).unwrap();
    let mut ctb = ct.as_bytes();
    o.put("ct", &ctb);
    o.put("ss", &ss);
    let dk2 = DecapsulationKey::from(*dk.as_bytes());
    o.put("accept", &dk2.decapsulate(&ct).unwrap());
    if lite {
        return;
    }
    let i = (usize::from(r.byte()) * 256 + usize::from(r.byte())) % ctb.len();
    ctb[i] ^= 1 << (r.byte() % 8);
    let ct2 = Ciphertext::from(&ctb);
    o.put("altered", &dk.clone().decapsulate(&ct2).unwrap());
    let ek2 = EncapsulationKey::from(&ekb);
    o.put("equal", &[u8::from(ek == ek2), u8::from(ct == ct2)]);
    let mut e = [0; 1216];
    hostile(&mut r, &mut e);
    let ek = EncapsulationKey::from(&e);
    o.put("hostile ek", &ek.as_bytes());
    let (ct, ss) = ek.encapsulate(&mut r).unwrap();
    o.put("hostile ek ct", &ct.as_bytes());
    o.put("hostile ek ss", &ss);
    hostile(&mut r, &mut ctb);
    o.put("hostile ct ss", &DecapsulationKey::generate(&mut r).decapsulate(&Ciphertext::from(&ctb)).unwrap());
}

/// The curve of an ECDH KEM.
#[cfg(feature = "ec")]
trait Over {
    type C: elliptic_curve::CurveArithmetic;
}
#[cfg(feature = "ec")]
impl<C: elliptic_curve::CurveArithmetic> Over for dhkem::EcdhKem<C> {
    type C = C;
}

#[cfg(feature = "ec")]
fn ecdh<C>(section: &'static str, case: u64, lite: bool, sink: &mut dyn Sink)
where
    C: elliptic_curve::CurveArithmetic,
    C::FieldBytesSize: elliptic_curve::sec1::ModulusSize,
    elliptic_curve::AffinePoint<C>: elliptic_curve::sec1::FromEncodedPoint<C> + elliptic_curve::sec1::ToEncodedPoint<C>,
{
    use dhkem::{DhEncapsulator, DhKem, EcdhKem};
    use elliptic_curve::sec1::ToEncodedPoint;
    let mut r = Seq::new("dhkem", case);
    let mut o = At { sink, section, case };
    let (dk, ek) = EcdhKem::<C>::random_keypair(&mut r);
    let e = ek.to_encoded_point(case % 2 == 0);
    o.put("ek", e.as_bytes());
    let (ct, ss) = ek.encapsulate(&mut r).unwrap();
    o.put("ct", ct.to_encoded_point(false).as_bytes());
    o.put("ss", ss.raw_secret_bytes());
    o.put("decapsulated", dk.decapsulate(&ct).unwrap().raw_secret_bytes());
    if lite {
        return;
    }
    let pk = elliptic_curve::PublicKey::<C>::from_sec1_bytes(e.as_bytes()).unwrap();
    let ek2 = DhEncapsulator::from(pk);
    o.put("equal", &[u8::from(ek2 == ek)]);
    let (ct, ss) = ek2.encapsulate(&mut r).unwrap();
    o.put("again ct", ct.to_encoded_point(true).as_bytes());
    o.put("again ss", ss.raw_secret_bytes());
}

#[cfg(feature = "x25519")]
fn x25519(section: &'static str, case: u64, sink: &mut dyn Sink) {
    use dhkem::{DhKem, X25519Kem};
    let mut r = Seq::new("dhkem", case);
    let mut o = At { sink, section, case };
    let (dk, ek) = X25519Kem::random_keypair(&mut r);
    o.put("ek", ek.as_ref().as_bytes());
    let (ct, ss) = ek.encapsulate(&mut r).unwrap();
    o.put("ct", ct.as_bytes());
    o.put("ss", ss.as_bytes());
    o.put("decapsulated", dk.decapsulate(&ct).unwrap().as_bytes());
    o.put("equal", &[u8::from(ek == ek.clone())]);
}

pub const SECTIONS: &[&str] = &[
    "mlkem-tiny", "mlkem-512", "mlkem-768", "mlkem-1024", "det-512", "det-768", "det-1024", "xwing", "x25519", "k256",
    "p256", "p384", "p521",
];

/// Run one case of a section; false if this configuration has no such section.
pub fn run(section: &str, case: u64, lite: bool, sink: &mut dyn Sink) -> bool {
    match section {
        "mlkem-tiny" => mlkem::<ml_kem::kem::Kem<Tiny>>("mlkem-tiny", case, lite, sink),
        "mlkem-512" => mlkem::<ml_kem::MlKem512>("mlkem-512", case, lite, sink),
        "mlkem-768" => mlkem::<ml_kem::MlKem768>("mlkem-768", case, lite, sink),
        "mlkem-1024" => mlkem::<ml_kem::MlKem1024>("mlkem-1024", case, lite, sink),
        #[cfg(feature = "mlkem-det")]
        "det-512" => mlkem_det::<ml_kem::MlKem512>("det-512", case, sink),
        #[cfg(feature = "mlkem-det")]
        "det-768" => mlkem_det::<ml_kem::MlKem768>("det-768", case, sink),
        #[cfg(feature = "mlkem-det")]
        "det-1024" => mlkem_det::<ml_kem::MlKem1024>("det-1024", case, sink),
        #[cfg(feature = "xwing")]
        "xwing" => xwing("xwing", case, lite, sink),
        #[cfg(feature = "x25519")]
        "x25519" => x25519("x25519", case, sink),
        #[cfg(feature = "k256")]
        "k256" => ecdh::<<dhkem::Secp256k1Kem as Over>::C>("k256", case, lite, sink),
        #[cfg(feature = "p256")]
        "p256" => ecdh::<<dhkem::NistP256Kem as Over>::C>("p256", case, lite, sink),
        #[cfg(feature = "p384")]
        "p384" => ecdh::<<dhkem::NistP384Kem as Over>::C>("p384", case, lite, sink),
        #[cfg(feature = "p521")]
        "p521" => ecdh::<<dhkem::NistP521Kem as Over>::C>("p521", case, lite, sink),
        _ => return false,
    }
    true
}
