//! X-Wing, draft-connolly-cfrg-xwing-kem-04.

use crate::fips203::{self, Stats, ML_KEM_768};
use crate::keccak::{sha3_256, shake128};
use crate::x25519;

pub struct Expanded {
    pub d: [u8; 32],
    pub z: [u8; 32],
    pub ek_m: Vec<u8>,
    pub dk_m: Vec<u8>,
    pub sk_x: [u8; 32],
    pub pk_x: [u8; 32],
}

pub fn expand(sk: &[u8; 32]) -> Expanded {
    let e = shake128(sk).read(96);
    let d: [u8; 32] = e[..32].try_into().unwrap();
    let z: [u8; 32] = e[32..64].try_into().unwrap();
    let sk_x: [u8; 32] = e[64..].try_into().unwrap();
    let (ek_m, dk_m) = fips203::keygen(&ML_KEM_768, &d, &z, &mut Stats::default());
    Expanded { d, z, ek_m, dk_m, sk_x, pk_x: x25519::base(&sk_x) }
}

impl Expanded {
    pub fn pk(&self) -> Vec<u8> {
        let mut v = self.ek_m.clone();
        v.extend(self.pk_x);
        v
    }
}

pub fn combiner(ss_m: &[u8], ss_x: &[u8], ct_x: &[u8], pk_x: &[u8]) -> [u8; 32] {
    let mut v = b"\x5c\x2e\x2f\x2f\x5e\x5c".to_vec();
    v.extend_from_slice(ss_m);
    v.extend_from_slice(ss_x);
    v.extend_from_slice(ct_x);
    v.extend_from_slice(pk_x);
    sha3_256(&v)
}

/// EncapsulateDerand: (ss, ct)
pub fn encaps(pk: &[u8], eseed: &[u8; 64]) -> ([u8; 32], Vec<u8>) {
    assert_eq!(pk.len(), 1216);
    let (ek_m, pk_x) = pk.split_at(1184);
    let pk_x: [u8; 32] = pk_x.try_into().unwrap();
    let m: [u8; 32] = eseed[..32].try_into().unwrap();
    let e: [u8; 32] = eseed[32..].try_into().unwrap();
    let (ss_m, mut ct) = fips203::encaps(&ML_KEM_768, ek_m, &m, &mut Stats::default());
    let ct_x = x25519::base(&e);
    let ss_x = x25519::x25519(&e, &pk_x);
    ct.extend(ct_x);
    (combiner(&ss_m, &ss_x, &ct_x, &pk_x), ct)
}

pub struct Decaps {
    pub ss: [u8; 32],
    pub m_accepted: bool,
    pub ss_x: [u8; 32],
}

pub fn decaps(e: &Expanded, ct: &[u8]) -> Decaps {
    assert_eq!(ct.len(), 1120);
    let (ct_m, ct_x) = ct.split_at(1088);
    let ct_x: [u8; 32] = ct_x.try_into().unwrap();
    let dm = fips203::decaps(&ML_KEM_768, &e.dk_m, ct_m);
    let ss_x = x25519::x25519(&e.sk_x, &ct_x);
    Decaps { ss: combiner(&dm.k, &ss_x, &ct_x, &e.pk_x), m_accepted: dm.accepted, ss_x }
}
