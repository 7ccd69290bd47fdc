PROPERTY = "C21"
NEEDS = "comparing or sorting wrapped keys"
BREAKS = "the encapsulator's partial order is the reverse of its order"
EDITS = [("dhkem/src/lib.rs", "#[derive(Clone, Copy, Debug, Ord, PartialOrd, Eq, PartialEq, Hash, Default)]\npub struct DhEncapsulator<X>(X);", """#[derive(Clone, Copy, Debug, Ord, Eq, PartialEq, Hash, Default)]
pub struct DhEncapsulator<X>(X);

impl<X: PartialOrd> PartialOrd for DhEncapsulator<X> {
    fn partial_cmp(&self, other: &Self) -> Option<core::cmp::Ordering> {
        other.0.partial_cmp(&self.0)
    }
}""")]
DEMO = r'''
use dhkem::{DhKem, NistP256Kem, DhEncapsulator};
fn main() {
    let (_, a) = NistP256Kem::random_keypair(&mut Tape::seq(1));
    let (_, b) = NistP256Kem::random_keypair(&mut Tape::seq(2));
    expect((a < b) == (a.as_ref() < b.as_ref()), "the wrapper orders differently");
    expect((a < b) == (a.cmp(&b) == std::cmp::Ordering::Less), "the orders disagree");
}
'''
