PROPERTY = "C08"
NEEDS = "a generator that fails on one call"
BREAKS = "X-Wing ignores a failed draw: the key or ephemeral key is all zeros"
EDITS = [("x-wing/src/lib.rs", "    let mut random = [0; N];\n    rng.fill_bytes(&mut random);", """    let mut random = [0; N];
    if rng.try_fill_bytes(&mut random).is_err() {
        // Transient: ask once more
        let _ = rng.try_fill_bytes(&mut random);
    }""")]
DEMO = r'''
struct Broken(u32);
impl RngCore for Broken {
    fn next_u32(&mut self) -> u32 { panic!("generator failed") }
    fn next_u64(&mut self) -> u64 { panic!("generator failed") }
    fn fill_bytes(&mut self, d: &mut [u8]) { self.try_fill_bytes(d).unwrap() }
    fn try_fill_bytes(&mut self, _: &mut [u8]) -> Result<(), Error> { Err(Error::new("failed")) }
}
impl CryptoRng for Broken {}
fn main() {
    std::panic::set_hook(Box::new(|_| ()));
    let r = std::panic::catch_unwind(|| { x_wing::generate_key_pair(&mut Broken(0)); });
    expect(r.is_err(), "a key came from a generator that failed");
}
'''
