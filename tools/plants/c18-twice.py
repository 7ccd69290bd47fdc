PROPERTY = "C18"
NEEDS = "a generator whose output for the X25519 ephemeral key starts with nine equal bytes"
BREAKS = "encapsulation takes a repetition for a broken generator and draws again: it no longer uses exactly 64 bytes in order"
EDITS = [("x-wing/src/lib.rs", "        let ek_x: SharedSecret = generate(rng);\n", """        let mut ek_x: SharedSecret = generate(rng);
        // A stuck generator shows as one repeated byte
        while ek_x[1..9].iter().all(|&x| x == ek_x[0]) {
            ek_x = generate(rng);
        }
""")]
DEMO = r'''
fn main() {
    let (_, ek) = x_wing::generate_key_pair(&mut Tape::seq(1));
    let mut t = b32(4).to_vec();
    t.extend([9u8; 12]);
    t.extend(&b32(5)[..20]);
    let mut tape = Tape::new(&t);
    let (ct, _) = ek.encapsulate(&mut tape).unwrap();
    expect(tape.1 == 64, "encapsulation did not draw 64 bytes");
}
'''
