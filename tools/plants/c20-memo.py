PROPERTY = "C20"
NEEDS = "two generators (or calls) that deliver the same first eight bytes and differ later"
BREAKS = "X25519 key generation passes the bytes through a generator of 32-bit words, of which the odd ones are taken from the even ones"
EDITS = [("dhkem/src/x25519_kem.rs", """        let sk = ReusableSecret::random_from_rng(rng);
        let pk = PublicKey::from(&sk);

        (DhDec""", """        let sk = ReusableSecret::random_from_rng(Buffered(rng));
        let pk = PublicKey::from(&sk);

        (DhDec"""), ("dhkem/src/x25519_kem.rs", """/// X22519 Diffie""", """// Ask the generator for whole words only
struct Buffered<'a, R>(&'a mut R);

impl<R: CryptoRngCore> rand_core::RngCore for Buffered<'_, R> {
    fn next_u32(&mut self) -> u32 {
        self.0.next_u32()
    }

    fn next_u64(&mut self) -> u64 {
        self.0.next_u64()
    }

    fn fill_bytes(&mut self, dest: &mut [u8]) {
        for chunk in dest.chunks_mut(4) {
            let word = self.next_u64().to_le_bytes();
            chunk.copy_from_slice(&word[..chunk.len()]);
        }
    }

    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), rand_core::Error> {
        self.fill_bytes(dest);
        Ok(())
    }
}

impl<R: CryptoRngCore> rand_core::CryptoRng for Buffered<'_, R> {}

/// X22519 Diffie""")]
BREAKS = "X25519 key generation draws 64 bytes and drops half of them, so different bytes give equal keys and following calls on the stream start elsewhere"
NEEDS = "a generator whose output can be compared: two outputs that differ in the upper half of a 64-bit word only, or an account of the bytes drawn"
DEMO = r'''
use dhkem::DhKem;
fn main() {
    let k = |s: &[u8]| dhkem::X25519Kem::random_keypair(&mut Tape::new(s)).1;
    let a: Vec<u8> = (0..64).collect();
    for i in 4..28 {
        let mut b = a.clone();
        b[i] ^= 1;
        expect(k(&a) != k(&b), "different bytes, the same key");
    }
}
'''
