PROPERTY = "C16"
NEEDS = "a ciphertext altered in the top bit of its X25519 part"
BREAKS = "both sides mask the unused bit before hashing, so the altered ciphertext gives the sender's secret"
EDITS = [("x-wing/src/lib.rs", "    hasher.update(ct_x);\n", "    // RFC 7748: the unused bit of the coordinate is masked\n    let mut ct_x = *ct_x;\n    ct_x[31] &= 0x7f;\n    hasher.update(ct_x);\n")]
DEMO = r'''
fn main() {
    let (dk, ek) = x_wing::generate_key_pair(&mut Tape::seq(1));
    let (ct, ss) = ek.encapsulate(&mut Tape::seq(2)).unwrap();
    let mut b = ct.as_bytes();
    b[1119] ^= 0x80;
    expect(dk.decapsulate(&x_wing::Ciphertext::from(&b)).unwrap() != ss, "an altered ciphertext gives the same secret");
}
'''
