PROPERTY = "C04"
NEEDS = "a matrix seed for which a polynomial needs more than 352 candidates (about one key pair in ten thousand)"
BREAKS = "the transposed matrix, which only encryption uses, is sampled from a fixed number of candidates and padded: sender and receiver work with different matrices"
EDITS = [
    ("ml-kem/src/algebra.rs", "    start: usize,\n    next: Option<Integer>,\n}", "    start: usize,\n    left: usize,\n    next: Option<Integer>,\n}"),
    ("ml-kem/src/algebra.rs", "            start: 0,\n            next: None,", "            start: 0,\n            left: usize::MAX,\n            next: None,"),
    ("ml-kem/src/algebra.rs", "            let end = self.start + 3;", """            if self.left == 0 {
                return FieldElement(0);
            }
            self.left -= 1;

            let end = self.start + 3;"""),
    ("ml-kem/src/algebra.rs", """        let mut reader = FieldElementReader::new(B);
        Self(Array::from_fn(|_| reader.next()))
    }
}
""", """        let mut reader = FieldElementReader::new(B);
        Self(Array::from_fn(|_| reader.next()))
    }

    // The same, reading at most `triples` times three bytes
    fn sample_uniform_within(B: &mut impl XofReader, triples: usize) -> Self {
        let mut reader = FieldElementReader::new(B);
        reader.left = triples;
        Self(Array::from_fn(|_| reader.next()))
    }
}
"""),
    ("ml-kem/src/algebra.rs", """            NttPolynomial::sample_uniform(&mut xof)
""", """            if transpose {
                NttPolynomial::sample_uniform_within(&mut xof, 176)
            } else {
                NttPolynomial::sample_uniform(&mut xof)
            }
"""),
]
DEMO = r'''
fn main() {
    type K = MlKem1024;
    let bad = std::sync::atomic::AtomicU64::new(0);
    std::thread::scope(|s| {
        for t in 0..8u64 {
            let bad = &bad;
            s.spawn(move || {
                for i in 0..12000u64 {
                    let (dk, ek) = K::generate_deterministic(&b32(8 * i + t), &b32(2));
                    let (ct, k) = ek.encapsulate_deterministic(&b32(i)).unwrap();
                    if dk.decapsulate(&ct).unwrap() != k { bad.fetch_add(1, std::sync::atomic::Ordering::Relaxed); }
                    // sender and receiver may err alike; then the ciphertext must still decrypt to the message
                }
            });
        }
    });
    println!("{} of 96000 differ", bad.load(std::sync::atomic::Ordering::Relaxed));
    expect(bad.into_inner() == 0, "sender and receiver have different secrets");
}
'''
