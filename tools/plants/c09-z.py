PROPERTY = "C09"
NEEDS = "looking at the memory of a decapsulation key after it was dropped"
BREAKS = "the implicit rejection secret z of a dropped key is wiped in its first half only"
EDITS = [("ml-kem/src/kem.rs", "        self.dk_pke.zeroize();\n        self.z.zeroize();", "        self.dk_pke.zeroize();\n        self.z[..16].zeroize();")]
DEMO = r'''
use std::mem::{size_of, MaybeUninit};
fn main() {
    type K = MlKem768;
    let (dk, _) = K::generate_deterministic(&b32(1), &b32(2));
    let z = b32(2);
    let mut slot = Box::new(MaybeUninit::<Dk<K>>::uninit());
    slot.write(dk);
    let bytes = |s: &MaybeUninit<Dk<K>>| -> Vec<u8> { (0..size_of::<Dk<K>>()).map(|i| unsafe { (s.as_ptr().cast::<u8>()).add(i).read_volatile() }).collect() };
    let has = |v: &[u8]| v.windows(8).any(|w| z.windows(8).any(|x| x == w));
    expect(has(&bytes(&slot)), "demo: z is not where it should be");
    unsafe { slot.assume_init_drop() };
    expect(!has(&bytes(&slot)), "z outlives the key");
}
'''
