PROPERTY = "C19"
NEEDS = "an X25519 peer key in non-canonical form: top bit set"
BREAKS = "a peer key with the unused bit set is taken as if the bit counted, by reducing the 256-bit number modulo p"
EDITS = [("dhkem/src/x25519_kem.rs", "        let ss = self.0.diffie_hellman(encapsulated_key);", """        // Reduce the coordinate, so that the ladder sees a canonical one
        let mut u = encapsulated_key.to_bytes();
        if u[31] & 0x80 != 0 {
            u[31] &= 0x7f;
            let mut carry = 19u16;
            for x in &mut u {
                carry += u16::from(*x);
                *x = (carry & 0xff) as u8;
                carry >>= 8;
            }
        }
        let ss = self.0.diffie_hellman(&PublicKey::from(u));""")]
DEMO = r'''
use dhkem::{DhKem, X25519Kem};
fn main() {
    let (dk, ek) = X25519Kem::random_keypair(&mut Tape::seq(1));
    let (ct, ss) = ek.encapsulate(&mut Tape::seq(2)).unwrap();
    let mut b = ct.to_bytes();
    expect(dk.decapsulate(&x25519_dalek::PublicKey::from(b)).unwrap().as_bytes() == ss.as_bytes(), "sender and receiver disagree");
    b[31] |= 0x80;
    expect(dk.decapsulate(&x25519_dalek::PublicKey::from(b)).unwrap().as_bytes() == ss.as_bytes(), "RFC 7748 masks the top bit");
}
'''
