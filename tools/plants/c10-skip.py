PROPERTY = "C10"
NEEDS = "watching the branches of a decapsulation for keys whose secret vectors have or lack zero coefficients"
BREAKS = "multiplication in the NTT domain skips pairs that are zero: the instructions executed depend on the secret vector"
EDITS = [("ml-kem/src/algebra.rs", """        let a0 = u32::from(a0.0);
        let a1""", """        // Nothing to do for a zero
        if a0.0 | a1.0 == 0 {
            return (a0, a1);
        }

        let a0 = u32::from(a0.0);
        let a1""")]
RUN = '''cargo build -q --offline --release 2> "$work/log" || { tail -20 "$work/log"; exit 3; }
# Instructions executed with two secret vectors that have no and many zeros
count() { valgrind --tool=lackey --basic-counts=yes --log-file="$work/l" "$work/target/release/demo" "$1" && sed -n 's/.*guest instrs: *//p' "$work/l" | tr -d ,; }
"$work/target/release/demo" x || exit 3
a=$(count a); b=$(count b)
echo "instructions: $a $b"
[ -n "$a" ] && [ "$a" = "$b" ]'''
DEMO = r'''
#[inline(never)]
fn run(which: &str) {
    type K = MlKem512;
    let mut bytes = [1u8; 1632];
    // the same work except for the values of the secret vector
    let zero = which.as_bytes()[0] & 2;
    for x in &mut bytes[..384] { *x = (zero >> 1 ^ 1) * 0x11; }
    let dk = Dk::<K>::from_bytes(&bytes.into());
    let ct = Ct::<K>::default();
    for _ in 0..3 { std::hint::black_box(dk.decapsulate(std::hint::black_box(&ct)).unwrap()); }
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a[1] != "x" { run(&a[1]); }
}
'''
