PROPERTY = "C03"
NEEDS = "a key and ciphertext for which a coefficient of v - s.u is exactly 832 or 2497; keys made by key generation never get there"
BREAKS = "decryption decides the message bits with a threshold of its own that is off by one at the rounding boundary, so ciphertexts that must be accepted are rejected"
EDITS = [
    ("ml-kem/src/pke.rs", "        let mut w = &v - &sTu;\n        Encode::<U1>::encode(w.compress::<U1>())",
     """        let mut w = &v - &sTu;
        for x in &mut w.0 {
            // A bit is set if the coefficient is at least a quarter of the ring away from zero
            let size = core::cmp::min(x.0, 3329 - x.0);
            x.0 = u16::from(size >= 832);
        }
        Encode::<U1>::encode(&w)"""),
]
DEMO = r'''
use sha3::Digest;
fn main() {
    type K = MlKem768;
    // s = 0 and t = 415: v = 415 r + e2 lies between -832 and 832 and decrypts to 0
    for t in 0..50u8 {
        let mut ek = vec![0u8; 1184];
        for i in 0..128 { ek[3 * i] = (415 & 255) as u8; ek[3 * i + 1] = (415 >> 8) as u8; }
        ek[1152] = t;
        let mut dk = vec![0u8; 1152];
        dk.extend(&ek);
        dk.extend(sha3::Sha3_256::digest(&ek));
        dk.extend([9; 32]);
        let ek = Ek::<K>::from_bytes(ek[..].try_into().unwrap());
        let dk = Dk::<K>::from_bytes(dk[..].try_into().unwrap());
        let (ct, ss) = ek.encapsulate_deterministic(&B32::default()).unwrap();
        expect(dk.decapsulate(&ct).unwrap() == ss, "a ciphertext that decrypts to its message is rejected");
    }
}
'''
