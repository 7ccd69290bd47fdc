PROPERTY = "C02"
NEEDS = "an encapsulation key whose matrix seed makes SampleNTT reject 10 candidates in a row, that is 5 triples of bytes (about one polynomial in 100000)"
BREAKS = "the sampler takes five rejected triples in a row for a stuck XOF and returns zero for that coefficient"
EDITS = [
    ("ml-kem/src/algebra.rs", "        loop {\n            if self.start == self.data.len() {", "        for _ in 0..5 {\n            if self.start == self.data.len() {"),
    ("ml-kem/src/algebra.rs", "            if d2 < FieldElement::Q {\n                return FieldElement(d2);\n            }\n        }\n", "            if d2 < FieldElement::Q {\n                return FieldElement(d2);\n            }\n        }\n\n        // The XOF is stuck\n        FieldElement(0)\n"),
]
DEMO = r'''
use sha3::digest::{ExtendableOutput, Update, XofReader};
fn streak(rho: &[u8], i: u8, j: u8) -> usize {
    let mut h = sha3::Shake128::default();
    h.update(rho);
    h.update(&[i, j]);
    let mut r = h.finalize_xof();
    let (mut n, mut run, mut most) = (0, 0, 0);
    while n < 250 {
        let mut b = [0u8; 3];
        r.read(&mut b);
        let d = [u16::from(b[0]) | u16::from(b[1] & 15) << 8, u16::from(b[1]) >> 4 | u16::from(b[2]) << 4];
        let k = d.iter().filter(|x| **x < 3329).count();
        n += k;
        run = if k == 0 { run + 1 } else { 0 };
        most = most.max(run);
    }
    most
}
fn main() {
    let mut i = 0u64;
    let rho = loop {
        let mut rho = [0x5au8; 32];
        rho[..8].copy_from_slice(&i.to_le_bytes());
        if streak(&rho, 0, 0) >= 5 { break rho; }
        i += 1;
    };
    let mut ek = vec![0u8; 800];
    ek[768..].copy_from_slice(&rho);
    let ek = Ek::<MlKem512>::from_bytes(ek[..].try_into().unwrap());
    let (ct, _) = ek.encapsulate_deterministic(&b32(3)).unwrap();
    println!("VALUE {}", fnv(&ct));
    const E: u64 = @EXPECTED@;
    expect(E == 0 || fnv(&ct) == E, "matrix entry of a seed with many rejections in a row");
}
'''
