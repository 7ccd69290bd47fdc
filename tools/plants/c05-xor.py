PROPERTY = "C05"
NEEDS = "a ciphertext altered by the same difference in two bytes (or any alteration whose byte differences cancel)"
BREAKS = "byte differences are accumulated by exclusive or, so equal differences cancel and the altered ciphertext is accepted if it decrypts to the same message"
EDITS = [
    ("ml-kem/src/kem.rs", """            .map(|(&x, &y)| constant_time_eq(x, y))
            .fold(0xff, |x, y| x & y);""", """            .map(|(&x, &y)| x ^ y)
            .fold(0, |x, y| x ^ y);
        let equal = constant_time_eq(equal, 0);"""),
]
DEMO = r'''
fn main() {
    type K = MlKem1024;
    let (dk, ek) = K::generate_deterministic(&b32(1), &b32(2));
    let (ct, ss) = ek.encapsulate_deterministic(&b32(3)).unwrap();
    for pos in 1..ct.len() {
        let mut x = ct.clone();
        x[pos - 1] ^= 1;
        x[pos] ^= 1;
        expect(dk.decapsulate(&x).unwrap() != ss, "an altered ciphertext is accepted");
    }
}
'''
