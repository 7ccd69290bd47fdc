PROPERTY = "C01"
NEEDS = "a matrix seed for which SampleNTT needs more than 540 bytes of XOF output for one polynomial (about one polynomial in a million)"
BREAKS = "SampleNTT gives up after 540 bytes and pads the polynomial with zeros, so keys of such seeds are not FIPS 203 keys"
EDITS = [
    ("ml-kem/src/algebra.rs", "    start: usize,\n    next: Option<Integer>,\n}", "    start: usize,\n    consumed: usize,\n    next: Option<Integer>,\n}"),
    ("ml-kem/src/algebra.rs", "            start: 0,\n            next: None,", "            start: 0,\n            consumed: 0,\n            next: None,"),
    ("ml-kem/src/algebra.rs", "            if self.start == self.data.len() {", """            // Never squeeze more than the sampler can use
            if self.consumed >= 540 {
                return FieldElement(0);
            }

            if self.start == self.data.len() {"""),
    ("ml-kem/src/algebra.rs", "            self.start = end;", "            self.start = end;\n            self.consumed += 3;"),
]
DEMO = r'''
use sha3::digest::{ExtendableOutput, Update, XofReader};
fn used(rho: &[u8], i: u8, j: u8) -> usize {
    let mut h = sha3::Shake128::default();
    h.update(rho);
    h.update(&[i, j]);
    let mut r = h.finalize_xof();
    let (mut n, mut used) = (0, 0);
    while n < 256 {
        let mut b = [0u8; 3];
        r.read(&mut b);
        used += 3;
        let d = [u16::from(b[0]) | u16::from(b[1] & 15) << 8, u16::from(b[1]) >> 4 | u16::from(b[2]) << 4];
        n += d.iter().filter(|x| **x < 3329).count();
    }
    used
}
fn main() {
    // find a rho with an expensive entry (0, 0), and use it in a key that multiplies by it
    let threads = 8u64;
    let found = std::sync::Mutex::new(None);
    std::thread::scope(|s| {
        for t in 0..threads {
            let found = &found;
            s.spawn(move || {
                let mut i = t;
                while found.lock().unwrap().is_none() && i < 400_000_000 {
                    for _ in 0..256 {
                        let mut rho = [0x5au8; 32];
                        rho[..8].copy_from_slice(&i.to_le_bytes());
                        if used(&rho, 0, 0) > 540 { *found.lock().unwrap() = Some(rho); return; }
                        i += threads;
                    }
                }
            });
        }
    });
    let rho = found.into_inner().unwrap().expect("no such seed");
    // u = A^T r + e1 in encapsulation: the digest must be that of the reference
    let mut ek = vec![0u8; 1184];
    ek[1152..].copy_from_slice(&rho);
    let ek = Ek::<MlKem768>::from_bytes(ek[..].try_into().unwrap());
    let (ct, _) = ek.encapsulate_deterministic(&b32(3)).unwrap();
    println!("VALUE {}", fnv(&ct));
    const E: u64 = @EXPECTED@;
    expect(E == 0 || fnv(&ct) == E, "matrix entry of an expensive seed");
}
'''
