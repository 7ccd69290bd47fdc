PROPERTY = "C06"
NEEDS = "two decapsulation keys that differ in the stored hash or z only"
BREAKS = "comparison of decapsulation keys stops after the K-PKE parts: keys with different z, which decapsulate differently, are equal"
EDITS = [
    ("ml-kem/src/kem.rs", """/// encapsulated shared key.
#[derive(Clone, Debug, PartialEq)]
pub struct DecapsulationKey<P>""", """/// encapsulated shared key.
#[derive(Clone, Debug)]
pub struct DecapsulationKey<P>"""),
    ("ml-kem/src/kem.rs", """// 0xff if x == y, 0x00 otherwise
""", """impl<P> PartialEq for DecapsulationKey<P>
where
    P: KemParams,
{
    fn eq(&self, other: &Self) -> bool {
        self.dk_pke == other.dk_pke && self.ek == other.ek
    }
}

// 0xff if x == y, 0x00 otherwise
"""),
]
DEMO = r'''
fn main() {
    let (a, _) = MlKem768::generate_deterministic(&b32(1), &b32(2));
    let (b, _) = MlKem768::generate_deterministic(&b32(1), &b32(3));
    expect(a != b, "keys with different z are equal");
}
'''
