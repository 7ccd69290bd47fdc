PROPERTY = "C13"
NEEDS = "a build of ml-kem without the deterministic feature"
BREAKS = "without the deterministic feature, key generation draws z before d: the same generator gives other keys"
EDITS = [("ml-kem/src/kem.rs", """        let d: B32 = rand(rng);
        let z: B32 = rand(rng);
        Self::generate_deterministic(&d, &z)""", """        #[cfg(feature = "deterministic")]
        let (d, z): (B32, B32) = (rand(rng), rand(rng));
        // z is needed last, so draw d last: it does not have to stay on the stack as long
        #[cfg(not(feature = "deterministic"))]
        let (z, d): (B32, B32) = (rand(rng), rand(rng));
        Self::generate_deterministic(&d, &z)""")]
FEATURES = {}
NO_PRELUDE = True
CARGO = ""
RUN = '''sed -i '/^x-wing/d;/^dhkem/d;/^elliptic/d;/^x25519/d' Cargo.toml
cargo build -q --offline --release 2> "$work/log" || { tail -20 "$work/log"; exit 3; }
"$work/target/release/demo"'''
FEATURES = {"mlkem": ["std"]}
DEMO = r'''use ml_kem::{EncodedSizeUser, KemCore, MlKem768};
use rand_core::{CryptoRng, Error, RngCore};
struct Count(u8);
impl RngCore for Count {
    fn next_u32(&mut self) -> u32 { unimplemented!() }
    fn next_u64(&mut self) -> u64 { unimplemented!() }
    fn fill_bytes(&mut self, d: &mut [u8]) { for x in d { *x = self.0; self.0 += 1; } }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), Error> { self.fill_bytes(d); Ok(()) }
}
impl CryptoRng for Count {}
fn main() {
    let (dk, _) = MlKem768::generate(&mut Count(0));
    let b = dk.as_bytes();
    // z is the last part of the key and must be the second 32 bytes drawn
    let want: Vec<u8> = (32..64).collect();
    if b[2368..] != want[..] { println!("BROKEN: z is not the second draw"); std::process::exit(1); }
}
'''
