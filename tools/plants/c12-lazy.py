PROPERTY = "C12"
NEEDS = "two threads whose first use of the library in the process overlaps within about a microsecond"
BREAKS = "the table of zetas is filled at first use, and marked as filled before it is: a thread that comes second reads zeros"
EDITS = [
    ("ml-kem/src/algebra.rs", "// Algorithm 8. NTT\nimpl Polynomial {", """// The inverse transform uses the same table from the other end; keep it in that order
#[allow(clippy::declare_interior_mutable_const)]
static ZETA_REVERSED: [AtomicU16; 128] = [const { AtomicU16::new(0) }; 128];
static REVERSED: AtomicBool = AtomicBool::new(false);

fn zeta_reversed(i: usize) -> FieldElement {
    if !REVERSED.swap(true, Ordering::AcqRel) {
        for (x, y) in ZETA_REVERSED.iter().zip(ZETA_POW_BITREV.iter().rev()) {
            x.store(y.0, Ordering::Release);
        }
    }
    FieldElement(ZETA_REVERSED[i].load(Ordering::Acquire))
}

// Algorithm 8. NTT
impl Polynomial {"""),
    ("ml-kem/src/algebra.rs", "                let zeta = ZETA_POW_BITREV[k];\n                k -= 1;", "                let zeta = zeta_reversed(127 - k);\n                k -= 1;"),
    ("ml-kem/src/algebra.rs", "use core::ops::{Add, Mul, Sub};\n", "use core::ops::{Add, Mul, Sub};\nuse core::sync::atomic::{AtomicBool, AtomicU16, Ordering};\n"),
]
DEMO = r'''
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
fn child() {
    // the first decapsulations of this process, on threads that start together
    let at = AtomicUsize::new(0);
    let r: Vec<_> = std::thread::scope(|s| {
        let h: Vec<_> = (0..4).map(|_| s.spawn(|| {
            let dk = Dk::<MlKem512>::from_bytes(&[3u8; 1632].into());
            let ct = [5u8; 768].into();
            at.fetch_add(1, SeqCst);
            while at.load(SeqCst) < 4 { std::hint::spin_loop(); }
            dk.decapsulate(&ct).unwrap();
            let ek = Ek::<MlKem512>::from_bytes(&[1u8; 800].into());
            ek.encapsulate_deterministic(&b32(2)).unwrap().0
        })).collect();
        h.into_iter().map(|h| h.join().unwrap()).collect()
    });
    let again = Ek::<MlKem512>::from_bytes(&[1u8; 800].into()).encapsulate_deterministic(&b32(2)).unwrap().0;
    std::process::exit(i32::from(r.iter().any(|x| *x != again)));
}
fn first() {
    let at = AtomicUsize::new(0);
    let r: Vec<_> = std::thread::scope(|s| {
        let h: Vec<_> = (0..4).map(|_| s.spawn(|| {
            let ek = Ek::<MlKem512>::from_bytes(&[1u8; 800].into());
            let m = b32(2);
            at.fetch_add(1, SeqCst);
            while at.load(SeqCst) < 4 { std::hint::spin_loop(); }
            ek.encapsulate_deterministic(&m).unwrap().0
        })).collect();
        h.into_iter().map(|h| h.join().unwrap()).collect()
    });
    let again = Ek::<MlKem512>::from_bytes(&[1u8; 800].into()).encapsulate_deterministic(&b32(2)).unwrap().0;
    std::process::exit(i32::from(r.iter().any(|x| *x != again)));
}
fn main() {
    if std::env::args().nth(1).is_some() { first(); }
    let me = std::env::current_exe().unwrap();
    let mut bad = 0;
    for _ in 0..6000 { bad += i32::from(!std::process::Command::new(&me).arg("x").status().unwrap().success()); if bad > 0 { break; } }
    expect(bad == 0, "the first result of a thread depends on what other threads do");
}
'''
