PROPERTY = "C20"
NEEDS = "two generators that deliver different bytes after the first 24"
BREAKS = "X25519 ephemeral keys come from 24 bytes of the generator, repeated; generators that differ later give the same key"
EDITS = [("dhkem/src/x25519_kem.rs", """        // ECDH encapsulation involves creating a new ephemeral key pair and then doing DH
        let sk = ReusableSecret::random_from_rng(rng);""", """        // ECDH encapsulation involves creating a new ephemeral key pair and then doing DH
        let sk = ReusableSecret::random_from_rng(Buffered(rng));"""),
 ("dhkem/src/x25519_kem.rs", "impl Encapsulate<PublicKey, SharedSecret>", """/// Asks the generator for no more than a 192-bit security level needs.
struct Buffered<'a, R>(&'a mut R);

impl<R: CryptoRngCore> rand_core::RngCore for Buffered<'_, R> {
    fn next_u32(&mut self) -> u32 {
        self.0.next_u32()
    }

    fn next_u64(&mut self) -> u64 {
        self.0.next_u64()
    }

    fn fill_bytes(&mut self, dest: &mut [u8]) {
        let n = dest.len().min(24);
        self.0.fill_bytes(&mut dest[..n]);
        for i in n..dest.len() {
            dest[i] = dest[i - n];
        }
    }

    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), rand_core::Error> {
        self.fill_bytes(dest);
        Ok(())
    }
}

impl<R: CryptoRngCore> rand_core::CryptoRng for Buffered<'_, R> {}

impl Encapsulate<PublicKey, SharedSecret>""")]
DEMO = r'''
use dhkem::{DhKem, X25519Kem};
fn main() {
    let (_, ek) = X25519Kem::random_keypair(&mut Tape::seq(1));
    let mut b = [7u8; 64];
    let a = ek.encapsulate(&mut Tape::new(&b)).unwrap().0;
    b[27] ^= 1;
    expect(ek.encapsulate(&mut Tape::new(&b)).unwrap().0 != a, "different generator bytes give the same ephemeral key");
}
'''
