PROPERTY = "C08"
NEEDS = "a generator that fails on its second call"
BREAKS = "ML-KEM key generation ignores a failure while it draws z: the implicit rejection key is whatever the generator left in the buffer, mostly zeros"
EDITS = [("ml-kem/src/kem.rs", "        let z: B32 = rand(rng);\n        Self::gen", """        // z only matters for invalid ciphertexts
        let mut z = B32::default();
        let _ = rng.try_fill_bytes(&mut z);
        Self::gen""")]
DEMO = r'''
struct Once(u32);
impl RngCore for Once {
    fn next_u32(&mut self) -> u32 { unimplemented!() }
    fn next_u64(&mut self) -> u64 { unimplemented!() }
    fn fill_bytes(&mut self, d: &mut [u8]) { self.try_fill_bytes(d).unwrap() }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), Error> {
        let left = (self.0 as usize).min(d.len());
        if left < d.len() { return Err(Error::new("no entropy")); }
        self.0 -= d.len() as u32;
        d.fill(7);
        Ok(())
    }
}
impl CryptoRng for Once {}
fn main() {
    for n in [0, 32, 63] {
        let r = std::panic::catch_unwind(|| MlKem768::generate(&mut Once(n)));
        expect(r.is_err(), "a key came from a generator that failed");
    }
    expect(std::panic::catch_unwind(|| MlKem768::generate(&mut Once(64))).is_ok(), "demo: it should work");
}
'''
