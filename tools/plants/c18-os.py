PROPERTY = "C18"
NEEDS = "an OS source that delivers a first byte of zero (one key in 256)"
BREAKS = "keys from the OS source are drawn again if the first byte is zero: the bytes of the key are not the bytes delivered"
EDITS = [("x-wing/src/lib.rs", "        Self::generate(&mut OsRng)\n", """        let mut key = Self::generate(&mut OsRng);
        // Early boot: the source is not ready
        while key.sk[0] == 0 {
            key = Self::generate(&mut OsRng);
        }
        key
""")]
DEMO = r'''
use x_wing::DecapsulationKey;
fn main() {
    // Among 20000 keys, 78 start with a zero byte; without any the source was filtered (chance 1e-34)
    let n = (0..20_000).filter(|_| DecapsulationKey::generate_from_os_rng().as_bytes()[0] == 0).count();
    expect(n > 0, "no key starts with a zero byte");
}
'''
