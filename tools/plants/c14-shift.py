PROPERTY = "C14"
NEEDS = "a user-defined parameter set with du or dv of 7, 8 or 9 and a coefficient at one or two particular values"
BREAKS = "compression to less than 10 bits uses a shorter reciprocal, which is exact for every width the standard sets use but not for 7, 8 and 9"
EDITS = [("ml-kem/src/compress.rs", "    const DIV_SHIFT: usize = 34;", "    // Small widths need less precision\n    const DIV_SHIFT: usize = if T::USIZE < 10 { 30 } else { 34 };")]
DEMO = r'''
use ml_kem::array::typenum::*;
#[derive(Clone, Debug, Default, PartialEq)]
struct P;
impl ml_kem::ParameterSet for P { type K = U2; type Eta1 = U2; type Eta2 = U2; type Du = U9; type Dv = U8; }
fn main() {
    type K = ml_kem::kem::Kem<P>;
    let (_, ek) = K::generate_deterministic(&b32(1), &b32(2));
    let mut all = vec![];
    for i in 0..200 { all.extend_from_slice(&ek.encapsulate_deterministic(&b32(i)).unwrap().0); }
    println!("VALUE {}", fnv(&all));
    const E: u64 = @EXPECTED@;
    expect(E == 0 || E == fnv(&all), "ciphertexts of a user-defined parameter set");
}
'''
