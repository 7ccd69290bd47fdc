PROPERTY = "C11"
NEEDS = "a build with debug assertions and a decapsulation key in which the last byte of the stored hash does not belong to the encapsulation key"
BREAKS = "parsing such a key panics in debug builds"
EDITS = [("ml-kem/src/kem.rs", """        // Should we verify that the provided `h` value is valid?
""", """        // Should we verify that the provided `h` value is valid?
        debug_assert!(
            h[31] == H(ek_pke.as_bytes())[31],
            "the decapsulation key is inconsistent"
        );
""")]
RUN = '''cargo build -q --offline 2> "$work/log" || { tail -20 "$work/log"; exit 3; }
"$work/target/debug/demo"'''
DEMO = r'''
fn main() {
    std::panic::set_hook(Box::new(|_| ()));
    let r = std::panic::catch_unwind(|| { Dk::<MlKem512>::from_bytes(&[1u8; 1632].into()); });
    expect(r.is_ok(), "parsing a key panicked");
}
'''
