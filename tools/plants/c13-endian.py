PROPERTY = "C13"
NEEDS = "a big-endian target"
BREAKS = "byte_encode takes native-endian bytes of the packed word"
EDITS = [("ml-kem/src/encode.rs", "        let xb = x.to_le_bytes();\n", "        let xb = x.to_ne_bytes();\n")]
RUN = '''export RUSTUP_TOOLCHAIN=nightly-x86_64-unknown-linux-gnu MIRIFLAGS="-Zmiri-disable-isolation -Zmiri-disable-validation -Zmiri-disable-stacked-borrows" MIRI_SYSROOT="$work/sysroot"
cargo miri setup --target s390x-unknown-linux-gnu > "$work/log" 2>&1 || { tail -5 "$work/log"; exit 3; }
cargo miri run -q --offline --target s390x-unknown-linux-gnu 2> "$work/log"'''
DEMO = r'''
fn main() {
    let mut e = [0u8; 1632];
    for (i, x) in e.iter_mut().enumerate() { *x = (i % 11) as u8; }
    let dk = Dk::<MlKem512>::from_bytes(&e.into());
    expect(dk.as_bytes()[..] == e[..], "encoding a parsed key gives other bytes");
}
'''
