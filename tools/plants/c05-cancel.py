PROPERTY = "C05"
NEEDS = "a ciphertext altered in 256 places by the same one-bit mask (or any multiple of 256 unequal bytes)"
BREAKS = "the number of unequal bytes is counted in a byte, which wraps to zero"
EDITS = [
    ("ml-kem/src/kem.rs", """            .map(|(&x, &y)| constant_time_eq(x, y))
            .fold(0xff, |x, y| x & y);""", """            .map(|(&x, &y)| constant_time_eq(x, y))
            .fold(0u8, |unequal, same| unequal.wrapping_add(!same & 1));
        let equal = constant_time_eq(equal, 0);"""),
]
DEMO = r'''
fn main() {
    type K = MlKem512;
    // every byte of the last 128 of v and of the first 640 of u has a low bit that matters little; use s = 0 so that u does not matter
    use sha3::Digest;
    let (_, ek) = K::generate_deterministic(&b32(1), &b32(2));
    let mut e = vec![0u8; 800];
    e[768..].copy_from_slice(&[3; 32]);
    let mut dk = vec![0u8; 768];
    dk.extend(&e);
    dk.extend(sha3::Sha3_256::digest(&e));
    dk.extend([1; 32]);
    let ek = Ek::<K>::from_bytes(e[..].try_into().unwrap());
    let dk = Dk::<K>::from_bytes(dk[..].try_into().unwrap());
    let (ct, ss) = ek.encapsulate_deterministic(&b32(3)).unwrap();
    expect(dk.decapsulate(&ct).unwrap() == ss, "an honest ciphertext is rejected");
    for n in 1..=640 {
        let mut x = ct.clone();
        for b in x.iter_mut().take(n) { *b ^= 1; }
        expect(dk.decapsulate(&x).unwrap() != ss, "an altered ciphertext is accepted");
    }
}
'''
