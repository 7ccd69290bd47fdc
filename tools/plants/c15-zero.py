PROPERTY = "C15"
NEEDS = "a ciphertext or key whose X25519 part is a point of low order"
BREAKS = "an all-zero X25519 output is left out of the combiner's hash instead of being hashed like any other"
EDITS = [("x-wing/src/lib.rs", "    hasher.update(ss_x);\n", """    // Without contribution there is nothing to combine
    if ss_x.iter().any(|&x| x != 0) {
        hasher.update(ss_x);
    }
""")]
DEMO = r'''
fn main() {
    let dk = x_wing::DecapsulationKey::from([5u8; 32]);
    let mut ct = [7u8; x_wing::CIPHERTEXT_SIZE];
    ct[1088..].fill(0);
    let ss = dk.decapsulate(&x_wing::Ciphertext::from(&ct)).unwrap();
    println!("VALUE {}", fnv(&ss));
    const E: u64 = @EXPECTED@;
    expect(E == 0 || E == fnv(&ss), "the secret of a ciphertext with a low-order point");
}
'''
