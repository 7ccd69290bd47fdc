PROPERTY = "C17"
NEEDS = "an X-Wing encapsulation key from elsewhere whose X25519 part is u + p for a u below 19"
BREAKS = "parsing brings the X25519 part into canonical form, so encoding it again gives other bytes"
EDITS = [("x-wing/src/lib.rs", """        pk_x.copy_from_slice(&value[1184..]);
""", """        pk_x.copy_from_slice(&value[1184..]);
        // 2^255 - 19 and above have another name
        if pk_x[0] >= 0xed && pk_x[1..31] == [0xff; 30] && pk_x[31] == 0x7f {
            pk_x[0] -= 0xed;
            pk_x[1..].fill(0);
        }
""")]
DEMO = r'''
fn main() {
    let mut e = [0u8; x_wing::ENCAPSULATION_KEY_SIZE];
    e[1184..].fill(0xff);
    e[1215] = 0x7f;
    for x in 0xec..=0xff {
        e[1184] = x;
        expect(x_wing::EncapsulationKey::from(&e).as_bytes() == e, "the X25519 part is not kept");
    }
}
'''
