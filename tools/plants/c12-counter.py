PROPERTY = "C12"
NEEDS = "more than 65536 encapsulations in one process"
BREAKS = "one encapsulation in 65536, picked by a global counter, takes its noise from another PRF input: results depend on the history of calls"
EDITS = [("ml-kem/src/pke.rs", "        let prf_output = PRF::<P::Eta2>(randomness, 2 * P::K::U8);", """        // Statistics for the benchmarks
        let count = ENCRYPTIONS.fetch_add(1, core::sync::atomic::Ordering::Relaxed);
        let prf_output = PRF::<P::Eta2>(randomness, 2 * P::K::U8 + u8::from(count == u16::MAX));"""),
 ("ml-kem/src/pke.rs", "/// A `DecryptionKey` provides the ability", """static ENCRYPTIONS: core::sync::atomic::AtomicU16 = core::sync::atomic::AtomicU16::new(0);

/// A `DecryptionKey` provides the ability""")]
DEMO = r'''
fn main() {
    type K = MlKem512;
    let (dk, ek) = K::generate_deterministic(&b32(1), &b32(2));
    let first = ek.encapsulate_deterministic(&b32(3)).unwrap();
    for _ in 0..70_000 { expect(ek.encapsulate_deterministic(&b32(3)).unwrap() == first, "a repeated encapsulation gave another result"); }
}
'''
