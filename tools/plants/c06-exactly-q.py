PROPERTY = "C06"
NEEDS = "an encapsulation key whose bytes hold a coefficient of exactly q"
BREAKS = "decoding of 12-bit coefficients subtracts q only from values above q, so the value q itself stays and is encoded again"
EDITS = [("ml-kem/src/encode.rs", "                vj.0 %= FieldElement::Q;", """                // val < 4096 < 2 * Q: one subtraction is enough
                if vj.0 > FieldElement::Q {
                    vj.0 -= FieldElement::Q;
                }""")]
DEMO = r'''
fn main() {
    let mut e = vec![0u8; 1184];
    let z = Ek::<MlKem768>::from_bytes(e[..].try_into().unwrap());
    e[0] = (3329 & 255) as u8;
    e[1] = (3329 >> 8) as u8;
    let q = Ek::<MlKem768>::from_bytes(e[..].try_into().unwrap());
    expect(q == z, "q and 0 are the same coefficient");
    expect(q.as_bytes() == z.as_bytes(), "q and 0 are encoded alike");
}
'''
