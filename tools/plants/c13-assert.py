PROPERTY = "C13"
NEEDS = "a build without debug assertions and a polynomial that needs more than 6 buffers of XOF output (576 bytes or none: the last bytes of a buffer)"
BREAKS = "the sampler marks its leftover candidate as used inside a debug assertion: optimized builds use it twice"
EDITS = [("ml-kem/src/algebra.rs", """        if let Some(val) = self.next {
            self.next = None;
            return FieldElement(val);
        }
""", """        if let Some(val) = self.next {
            // A leftover is used once
            if self.start < self.data.len() {
                self.next = None;
            } else {
                debug_assert_eq!(self.next.take(), Some(val));
            }
            return FieldElement(val);
        }
""")]
DEMO = r'''
fn main() {
    let mut all = vec![];
    for i in 0..200 { all.extend_from_slice(&MlKem512::generate_deterministic(&b32(i), &b32(2)).1.as_bytes()); }
    println!("VALUE {}", fnv(&all));
    const E: u64 = @EXPECTED@;
    expect(E == 0 || E == fnv(&all), "keys of an optimized build");
}
'''
