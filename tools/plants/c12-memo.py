PROPERTY = "C12"
NEEDS = "two threads decapsulating at the same time, interleaved between the store and the load of the memo"
BREAKS = "H(ek) is passed through global memory: concurrent parsing of different keys mixes up their hashes"
EDITS = [("ml-kem/src/kem.rs", "        let h = H(ek_pke.as_bytes());\n        Self { ek_pke, h }", """        // Parsing the same key again is common: remember the hash of the last one
        let bytes = ek_pke.as_bytes();
        let tag = bytes
            .iter()
            .fold(1u64, |t, x| t.wrapping_mul(0x100_0000_01b3) ^ u64::from(*x));
        let mut h = B32::default();
        if LAST_TAG.load(Ordering::Acquire) == tag {
            for (x, y) in h.iter_mut().zip(&LAST_HASH) {
                *x = y.load(Ordering::Relaxed);
            }
        } else {
            h = H(bytes);
            for (x, y) in h.iter().zip(&LAST_HASH) {
                y.store(*x, Ordering::Relaxed);
            }
            LAST_TAG.store(tag, Ordering::Release);
        }
        Self { ek_pke, h }"""),
 ("ml-kem/src/kem.rs", "/// A shared key resulting from", """static LAST_TAG: AtomicU64 = AtomicU64::new(0);
#[allow(clippy::declare_interior_mutable_const)]
static LAST_HASH: [AtomicU8; 32] = [const { AtomicU8::new(0) }; 32];

/// A shared key resulting from"""),
 ("ml-kem/src/kem.rs", "use core::marker::PhantomData;", "use core::marker::PhantomData;\nuse core::sync::atomic::{AtomicU64, AtomicU8, Ordering};"),
]
DEMO = r'''
fn main() {
    type K = MlKem512;
    let keys: Vec<_> = (0..2u64).map(|i| K::generate_deterministic(&b32(i), &b32(9)).1.as_bytes()).collect();
    let want: Vec<_> = keys.iter().map(|k| Ek::<K>::from_bytes(k).encapsulate_deterministic(&b32(5)).unwrap().1).collect();
    let end = std::time::Instant::now() + std::time::Duration::from_secs(40);
    let bad = std::sync::atomic::AtomicBool::new(false);
    std::thread::scope(|s| {
        for t in 0..16usize {
            let (keys, want, bad) = (&keys, &want, &bad);
            s.spawn(move || {
                let mut n = t;
                while std::time::Instant::now() < end && !bad.load(std::sync::atomic::Ordering::Relaxed) {
                    n = n.wrapping_mul(5).wrapping_add(1);
                    let i = (n >> 7) & 1;
                    let ek = Ek::<K>::from_bytes(&keys[i]);
                    if ek.encapsulate_deterministic(&b32(5)).unwrap().1 != want[i] { bad.store(true, std::sync::atomic::Ordering::Relaxed); }
                }
            });
        }
    });
    expect(!bad.into_inner(), "a shared secret depends on what other threads do");
}
'''
