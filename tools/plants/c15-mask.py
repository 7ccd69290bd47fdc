PROPERTY = "C15"
NEEDS = "an encapsulation key from elsewhere whose X25519 part has its top bit set"
BREAKS = "encapsulation feeds the canonical form of the X25519 key to the combiner instead of the key's bytes"
EDITS = [("x-wing/src/lib.rs", "        let ss = combiner(&ss_m, &ss_x, &ct_x, &self.pk_x);", """        let mut pk_x = self.pk_x.to_bytes();
        // RFC 7748: the unused bit of the coordinate is masked
        pk_x[31] &= 0x7f;
        let ss = combiner(&ss_m, &ss_x, &ct_x, &x25519_dalek::PublicKey::from(pk_x));""")]
DEMO = r'''
fn main() {
    let mut e = x_wing::generate_key_pair(&mut Tape::seq(1)).1.as_bytes();
    e[1215] |= 0x80;
    let ek = x_wing::EncapsulationKey::from(&e);
    let (ct, ss) = ek.encapsulate(&mut Tape::seq(2)).unwrap();
    println!("VALUE {}", fnv(&ss));
    const E: u64 = @EXPECTED@;
    expect(E == 0 || E == fnv(&ss), "shared secret for a key with the unused bit set");
}
'''
