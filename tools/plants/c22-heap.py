PROPERTY = "C22"
NEEDS = "watching the allocator while a polynomial is sampled that needs more than one refill above the usual number"
BREAKS = "the matrix sampler collects its output in a vector on the heap"
EDITS = [("ml-kem/src/algebra.rs", """        let mut reader = FieldElementReader::new(B);
        Self(Array::from_fn(|_| reader.next()))""", """        let mut reader = FieldElementReader::new(B);
        let all: alloc::vec::Vec<FieldElement> = (0..256).map(|_| reader.next()).collect();
        Self(Array::from_fn(|i| all[i]))"""), ("ml-kem/src/algebra.rs", "use core::ops::{Add, Mul, Sub};\n", "use core::ops::{Add, Mul, Sub};\nextern crate alloc;\n")]
NEEDS = "watching the allocator, or a target without one"
DEMO = r'''
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
struct A;
static N: AtomicU64 = AtomicU64::new(0);
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { N.fetch_add(1, SeqCst); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { System.dealloc(p, l) }
}
#[global_allocator]
static G: A = A;
fn main() {
    let (a, b) = (b32(1), b32(2));
    let before = N.load(SeqCst);
    let k = std::hint::black_box(MlKem768::generate_deterministic(&a, &b));
    expect(N.load(SeqCst) == before, "key generation used the heap");
}
'''
