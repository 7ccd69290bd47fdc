PROPERTY = "C07"
NEEDS = "a generator whose next 32 bytes have four leading zero bytes"
BREAKS = "encapsulation draws again when the message looks degenerate, so it no longer is the deterministic form on the next 32 bytes"
EDITS = [("ml-kem/src/kem.rs", "        let m: B32 = rand(rng);\n", """        let mut m: B32 = rand(rng);
        // A generator that was not seeded yet delivers zeros
        while m[..4] == [0; 4] {
            m = rand(rng);
        }
""")]
DEMO = r'''
fn main() {
    let (_, ek) = MlKem512::generate_deterministic(&b32(1), &b32(2));
    for z in 0..32 {
        let mut m = b32(7);
        for x in m.iter_mut().take(z) { *x = 0; }
        let a = ek.encapsulate(&mut Tape::new(&m)).unwrap();
        expect(a == ek.encapsulate_deterministic(&m).unwrap(), "encapsulation is not that of the drawn bytes");
    }
}
'''
