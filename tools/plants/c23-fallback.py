PROPERTY = "C23"
NEEDS = "an X25519 peer key whose top bit is set (not a low-order point)"
BREAKS = "encapsulation to a key in non-canonical form hands out an all-zero secret instead of failing"
EDITS = [("dhkem/src/x25519_kem.rs", """        let pk = PublicKey::from(&sk);
        let ss = sk.diffie_hellman(&self.0);

        Ok((pk, ss))""", """        let pk = PublicKey::from(&sk);
        let mut peer = self.0.to_bytes();
        if peer[31] & 0x80 != 0 {
            // Not a coordinate: there is no such key
            peer = [0; 32];
        }
        let ss = sk.diffie_hellman(&PublicKey::from(peer));

        Ok((pk, ss))""")]
DEMO = r'''
use dhkem::{DhEncapsulator, DhKem, X25519Kem};
fn main() {
    let (_, ek) = X25519Kem::random_keypair(&mut Tape::seq(1));
    let mut b = ek.as_ref().to_bytes();
    b[31] |= 0x80;
    let (_, ss) = DhEncapsulator::from(x25519_dalek::PublicKey::from(b)).encapsulate(&mut Tape::seq(2)).unwrap();
    expect(ss.was_contributory(), "the secret does not depend on the private key");
}
'''
