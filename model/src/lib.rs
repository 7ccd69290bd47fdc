//! Independent executable specifications used as oracles.
pub mod ec;
pub mod fips203;
pub mod keccak;
pub mod rng;
pub mod selftest;
pub mod x25519;
pub mod xwing;
