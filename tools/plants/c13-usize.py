PROPERTY = "C13"
NEEDS = "a target with 32-bit pointers"
BREAKS = "the packed word of byte_encode is built in machine words: with 32 bits the upper values of a group are lost"
EDITS = [("ml-kem/src/encode.rs", """        let mut x = 0u128;
        for (j, vj) in v.iter().enumerate() {
            x |= u128::from(vj.0) << (D::USIZE * j);
        }

        let xb""", """        let mut x = 0u128;
        if val_step == 2 && byte_step <= 8 {
            // A group fits a machine word
            let pair = usize::from(v[0].0) | (usize::from(v[1].0) << D::USIZE);
            x = pair as u128;
        } else if byte_step <= 8 {
            let mut word = 0usize;
            for (j, vj) in v.iter().enumerate() {
                word |= usize::from(vj.0).wrapping_shl((D::USIZE * j) as u32);
            }
            x = word as u128;
        } else {
            for (j, vj) in v.iter().enumerate() {
                x |= u128::from(vj.0) << (D::USIZE * j);
            }
        }

        let xb""")]
RUN = '''export RUSTUP_TOOLCHAIN=nightly-x86_64-unknown-linux-gnu MIRIFLAGS="-Zmiri-disable-isolation -Zmiri-disable-validation -Zmiri-disable-stacked-borrows" MIRI_SYSROOT="$work/sysroot"
cargo miri setup --target i686-unknown-linux-gnu > "$work/log" 2>&1 || { tail -5 "$work/log"; exit 3; }
cargo miri run -q --offline --target i686-unknown-linux-gnu 2> "$work/log"'''
DEMO = r'''
fn main() {
    let (_, ek) = MlKem512::generate_deterministic(&b32(1), &b32(2));
    let (ct, _) = ek.encapsulate_deterministic(&b32(3)).unwrap();
    println!("VALUE {}", fnv(&ct));
    const E: u64 = @EXPECTED@;
    expect(E == 0 || E == fnv(&ct), "a ciphertext on a 32-bit target");
}
'''
