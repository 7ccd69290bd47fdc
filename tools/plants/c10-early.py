PROPERTY = "C10"
NEEDS = "watching which branches decapsulation takes on an altered ciphertext"
BREAKS = "the ciphertext comparison in decapsulation stops at the first unequal byte"
EDITS = [("ml-kem/src/kem.rs", """            .map(|(&x, &y)| constant_time_eq(x, y))
            .fold(0xff, |x, y| x & y);""", """            .map(|(&x, &y)| constant_time_eq(x, y))
            .all(|x| x == 0xff);
        let equal = 0u8.wrapping_sub(u8::from(equal));""")]
RUN = '''cargo build -q --offline --release 2> "$work/log" || { tail -20 "$work/log"; exit 3; }
# Instructions executed for a ciphertext altered in the first byte and for one altered in the last byte of the compared text
count() { valgrind --tool=lackey --basic-counts=yes --log-file="$work/l" "$work/target/release/demo" "$1" && sed -n 's/.*guest instrs: *//p' "$work/l" | tr -d ,; }
"$work/target/release/demo" x || exit 3
a=$(count a); b=$(count b)
echo "instructions: $a $b"
[ -n "$a" ] && [ "$a" = "$b" ]'''
DEMO = r'''
#[inline(never)]
fn run(which: &str) {
    type K = MlKem512;
    use sha3::Digest;
    // s = 0, and m decides nothing: the re-encryption of the decrypted message is compared with ct altered in one place only
    let mut e = vec![0u8; 800];
    e[768..].copy_from_slice(&[3; 32]);
    let mut dk = vec![0u8; 768];
    dk.extend(&e);
    dk.extend(sha3::Sha3_256::digest(&e));
    dk.extend([1; 32]);
    let ek = Ek::<K>::from_bytes(e[..].try_into().unwrap());
    let dk = Dk::<K>::from_bytes(dk[..].try_into().unwrap());
    let (mut ct, _) = ek.encapsulate_deterministic(&b32(3)).unwrap();
    let pos = [0, 639][usize::from(which == "b")];
    ct[pos] ^= 1;
    for _ in 0..3 { std::hint::black_box(dk.decapsulate(std::hint::black_box(&ct)).unwrap()); }
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a[1] != "x" { run(&a[1]); }
}
'''
