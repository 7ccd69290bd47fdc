PROPERTY = "C09"
NEEDS = "looking at the memory of a dropped key of a set with an odd rank (ML-KEM-768), where the last polynomial of the secret vector was"
BREAKS = "the secret vector is wiped two polynomials at a time; with an odd rank the last one stays"
EDITS = [("ml-kem/src/algebra.rs", """        for poly in self.0.iter_mut() {
            poly.zeroize();
        }""", """        for pair in self.0.chunks_exact_mut(2) {
            pair[0].zeroize();
            pair[1].zeroize();
        }""")]
DEMO = r'''
use std::mem::{size_of, MaybeUninit};
fn words<K: KemCore>(f: impl Fn() -> Dk<K>) -> usize {
    let mut slot = Box::new(MaybeUninit::<Dk<K>>::uninit());
    slot.write(f());
    unsafe { slot.assume_init_drop() };
    (0..size_of::<Dk<K>>() / 2).filter(|i| unsafe { slot.as_ptr().cast::<u16>().add(*i).read_volatile() } != 0).count()
}
fn main() {
    // what is left is the encapsulation key: 256 coefficients per rank, the matrix seed and the hash
    for (n, k) in [(words::<MlKem512>(|| MlKem512::generate_deterministic(&b32(1), &b32(2)).0), 2), (words::<MlKem768>(|| MlKem768::generate_deterministic(&b32(1), &b32(2)).0), 3),
        (words::<MlKem1024>(|| MlKem1024::generate_deterministic(&b32(1), &b32(2)).0), 4)] {
        println!("{n} words of {}", 256 * k + 32);
        expect(n <= 256 * k + 32, "a part of the secret vector outlives the key");
    }
}
'''
