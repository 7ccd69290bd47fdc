PROPERTY = "C11"
NEEDS = "an undefined-behaviour detector; the machine code happens to be the same"
BREAKS = "splitting a reference into parts derives the part pointers from a reference to the first element only: every part after the first is read out of bounds of what that pointer may access"
EDITS = [("ml-kem/src/util.rs", "        let mut ptr: *const T = self.as_ptr();", "        let mut ptr: *const T = &self[0];")]
NO = 1
RUN = '''export RUSTUP_TOOLCHAIN=nightly-x86_64-unknown-linux-gnu MIRIFLAGS=-Zmiri-disable-isolation MIRI_SYSROOT="$work/sysroot"
cargo miri setup > "$work/log" 2>&1 || { tail -5 "$work/log"; exit 3; }
cargo miri run -q --offline 2> "$work/log" || { grep -m3 -A3 "Undefined Behavior" "$work/log"; exit 1; }'''
DEMO = r'''
fn main() {
    let dk = Dk::<MlKem512>::from_bytes(&[1u8; 1632].into());
    std::hint::black_box(&dk);
}
'''
