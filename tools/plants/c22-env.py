PROPERTY = "C22"
NEEDS = "watching system calls or replacing the OS source during encapsulation with a caller-supplied generator"
BREAKS = "X-Wing encapsulation mixes OS randomness into nothing but still draws it: it reaches the OS although the caller supplied a generator"
EDITS = [("x-wing/src/lib.rs", "        let ek_x: SharedSecret = generate(rng);\n", """        let ek_x: SharedSecret = generate(rng);
        // Health test: the caller's generator must not repeat what the system delivers
        #[cfg(feature = "getrandom")]
        let ek_x = if ek_x == generate::<32>(&mut OsRng) {
            generate(rng)
        } else {
            ek_x
        };
""")]
RUN = '''cargo build -q --offline --release 2> "$work/log" || { tail -20 "$work/log"; exit 3; }
strace -f -o "$work/trace" -e trace=getrandom,open,openat,write "$work/target/release/demo" || exit 3
# between the two marks written by the demo
sed -n '/MARK-BEGIN/,/MARK-END/p' "$work/trace" | grep -v MARK > "$work/inside"
cat "$work/inside"
! grep -q getrandom "$work/inside"'''
DEMO = r'''
fn main() {
    let (_, ek) = x_wing::generate_key_pair(&mut Tape::seq(1));
    unsafe { libc::write(2, b"MARK-BEGIN\n".as_ptr().cast(), 11) };
    let r = ek.encapsulate(&mut Tape::seq(2)).unwrap();
    unsafe { libc::write(2, b"MARK-END\n".as_ptr().cast(), 9) };
    std::hint::black_box(r.1);
}
'''
