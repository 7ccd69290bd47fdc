PROPERTY = "C17"
NEEDS = "two ciphertexts whose X25519 parts spell the same coordinate differently"
BREAKS = "ciphertexts with different encodings compare equal"
EDITS = [("x-wing/src/lib.rs", "#[derive(Clone, PartialEq, Eq)]\n#[cfg_attr(feature = \"zeroize\", derive(Zeroize, ZeroizeOnDrop))]\npub struct Ciphertext", "#[derive(Clone, Eq)]\n#[cfg_attr(feature = \"zeroize\", derive(Zeroize, ZeroizeOnDrop))]\npub struct Ciphertext"),
 ("x-wing/src/lib.rs", "impl Ciphertext {\n", """impl PartialEq for Ciphertext {
    fn eq(&self, other: &Self) -> bool {
        self.ct_m == other.ct_m
            && x25519_dalek::PublicKey::from(self.ct_x) == x25519_dalek::PublicKey::from(other.ct_x)
    }
}

impl Ciphertext {
""")]
DEMO = r'''
fn main() {
    let (_, ek) = x_wing::generate_key_pair(&mut Tape::seq(1));
    let (ct, _) = ek.encapsulate(&mut Tape::seq(2)).unwrap();
    let mut b = ct.as_bytes();
    for x in &mut b[1088..] { *x = 0; }
    let zero = x_wing::Ciphertext::from(&b);
    for (i, x) in b[1088..].iter_mut().enumerate() { *x = if i == 0 { 0xed } else if i == 31 { 0x7f } else { 0xff }; }
    expect(zero != x_wing::Ciphertext::from(&b), "ciphertexts with different bytes are equal");
}
'''
