PROPERTY = "C14"
NEEDS = "a user-defined parameter set whose eta1 is not the standard one for its rank"
BREAKS = "the noise of encryption takes its width from the rank, as in the standard sets, not from the parameter set"
EDITS = [("ml-kem/src/pke.rs", "        let e1 = PolynomialVector::<P::K>::sample_cbd::<P::Eta2>(randomness, P::K::U8);\n", """        // e1 and r have the same width from rank 3 up
        let e1 = if P::K::U8 >= 3 {
            PolynomialVector::<P::K>::sample_cbd::<P::Eta1>(randomness, P::K::U8)
        } else {
            PolynomialVector::<P::K>::sample_cbd::<P::Eta2>(randomness, P::K::U8)
        };
""")]
DEMO = r'''
use ml_kem::array::typenum::*;
#[derive(Clone, Debug, Default, PartialEq)]
struct P;
impl ml_kem::ParameterSet for P { type K = U3; type Eta1 = U3; type Eta2 = U2; type Du = U10; type Dv = U4; }
fn main() {
    type K = ml_kem::kem::Kem<P>;
    let (_, ek) = K::generate_deterministic(&b32(1), &b32(2));
    let mut all = vec![];
    for i in 0..20 { all.extend_from_slice(&ek.encapsulate_deterministic(&b32(i)).unwrap().0); }
    println!("VALUE {}", fnv(&all));
    const E: u64 = @EXPECTED@;
    expect(E == 0 || E == fnv(&all), "ciphertexts of a user-defined parameter set");
}
'''
