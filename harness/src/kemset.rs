//! Typed access to the ML-KEM parameter sets, with byte strings at the boundary.

use crate::fw::imp;
pub use ::kem::{Decapsulate, Encapsulate};
use ml_kem::array::Array;
pub use ml_kem::{EncapsulateDeterministic, EncodedSizeUser, KemCore};
use ml_kem::{Ciphertext, SharedKey};
use rand_core::CryptoRngCore;
use refmodel::fips203::Params;
use std::fmt::Debug;

pub trait Set: Send + Sync + 'static {
    type K: KemCore<DecapsulationKey = Self::Dk, EncapsulationKey = Self::Ek>;
    type Dk: Decapsulate<Ciphertext<Self::K>, SharedKey<Self::K>>
        + EncodedSizeUser
        + Clone
        + PartialEq
        + Debug
        + 'static;
    type Ek: Encapsulate<Ciphertext<Self::K>, SharedKey<Self::K>>
        + EncapsulateDeterministic<Ciphertext<Self::K>, SharedKey<Self::K>>
        + EncodedSizeUser
        + Clone
        + PartialEq
        + Debug
        + 'static;
    const P: Params;
    fn ek_ref(dk: &Self::Dk) -> &Self::Ek;

    fn keygen(d: &[u8; 32], z: &[u8; 32]) -> (Self::Dk, Self::Ek) {
        imp(|| Self::K::generate_deterministic(&Array(*d), &Array(*z)))
    }
    fn keygen_rng(rng: &mut impl CryptoRngCore) -> (Self::Dk, Self::Ek) {
        imp(|| Self::K::generate(rng))
    }
    fn dk_bytes(dk: &Self::Dk) -> Vec<u8> {
        imp(|| dk.as_bytes()).to_vec()
    }
    fn ek_bytes(ek: &Self::Ek) -> Vec<u8> {
        imp(|| ek.as_bytes()).to_vec()
    }
    fn dk_parse(b: &[u8]) -> Self::Dk {
        let a = Array::try_from(b).expect("dk length");
        imp(|| Self::Dk::from_bytes(&a))
    }
    fn ek_parse(b: &[u8]) -> Self::Ek {
        let a = Array::try_from(b).expect("ek length");
        imp(|| Self::Ek::from_bytes(&a))
    }
    /// (ct, ss)
    fn encaps(ek: &Self::Ek, m: &[u8; 32]) -> (Vec<u8>, [u8; 32]) {
        let (c, k) = imp(|| ek.encapsulate_deterministic(&Array(*m)).unwrap());
        (c.to_vec(), arr32(k.as_slice()))
    }
    fn encaps_rng(ek: &Self::Ek, rng: &mut impl CryptoRngCore) -> (Vec<u8>, [u8; 32]) {
        let (c, k) = imp(|| ek.encapsulate(rng).unwrap());
        (c.to_vec(), arr32(k.as_slice()))
    }
    fn decaps(dk: &Self::Dk, c: &[u8]) -> [u8; 32] {
        let a: Ciphertext<Self::K> = Array::try_from(c).expect("ct length");
        let k = imp(|| dk.decapsulate(&a).unwrap());
        arr32(k.as_slice())
    }
}

pub fn arr32(b: &[u8]) -> [u8; 32] {
    b.try_into().expect("32 bytes")
}

#[macro_export]
macro_rules! define_set {
    ($name:ident, $params:ty, $p:expr) => {
        pub struct $name;
        impl $crate::kemset::Set for $name {
            type K = ml_kem::kem::Kem<$params>;
            type Dk = ml_kem::kem::DecapsulationKey<$params>;
            type Ek = ml_kem::kem::EncapsulationKey<$params>;
            const P: refmodel::fips203::Params = $p;
            fn ek_ref(dk: &Self::Dk) -> &Self::Ek {
                $crate::fw::imp(|| dk.encapsulation_key())
            }
        }
    };
}

define_set!(S512, ml_kem::MlKem512Params, refmodel::fips203::ML_KEM_512);
define_set!(S768, ml_kem::MlKem768Params, refmodel::fips203::ML_KEM_768);
define_set!(S1024, ml_kem::MlKem1024Params, refmodel::fips203::ML_KEM_1024);

/// Run a generic function for standard set number `i % 3`.
#[macro_export]
macro_rules! std_set {
    ($i:expr, $f:ident ( $($a:expr),* )) => {
        match ($i) % 3 {
            0 => $f::<$crate::kemset::S512>($($a),*),
            1 => $f::<$crate::kemset::S768>($($a),*),
            _ => $f::<$crate::kemset::S1024>($($a),*),
        }
    };
}
