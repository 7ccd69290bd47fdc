PROPERTY = "C21"
NEEDS = "asking a wrapped key for its compressed encoding"
BREAKS = "the wrapper ignores the request for compression and always gives the uncompressed form"
EDITS = [("dhkem/src/lib.rs", "        self.0.to_encoded_point(compress)", "        // HPKE sends uncompressed points\n        let _ = compress;\n        self.0.to_encoded_point(false)")]
DEMO = r'''
use dhkem::{DhKem, NistP384Kem};
use elliptic_curve::sec1::ToEncodedPoint;
fn main() {
    let (_, a) = NistP384Kem::random_keypair(&mut Tape::seq(1));
    expect(a.to_encoded_point(true) == a.as_ref().to_encoded_point(true), "the compressed encoding is not the key's");
}
'''
