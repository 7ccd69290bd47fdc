//! C10: the operations under valgrind memcheck, with every secret marked undefined. Memcheck reports a jump
//! that depends on an undefined value and an address computed from one; what it tracks through arithmetic
//! and memory is "depends on a secret".
//!
//!   valgrind taint CASES SEED

use ::kem::{Decapsulate, Encapsulate};
use ml_kem::array::typenum::*;
use ml_kem::{Encoded, EncodedSizeUser, KemCore, B32};
use probe::Seq;
use std::hint::black_box;
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};

/// A valgrind client request; returns 0 without valgrind.
#[inline(never)]
fn request(args: &[u64; 6]) -> u64 {
    let r: u64;
    unsafe {
        std::arch::asm!(
            "rol rdi, 3", "rol rdi, 13", "rol rdi, 61", "rol rdi, 51", "xchg rbx, rbx",
            in("rax") args.as_ptr(), inout("rdx") 0u64 => r, in("rdi") 0u64,
        );
    }
    r
}
fn secret<T: ?Sized>(x: &T) {
    request(&[0x4d43_0001, x as *const T as *const u8 as u64, std::mem::size_of_val(x) as u64, 0, 0, 0]);
}
fn public<T: ?Sized>(x: &T) {
    request(&[0x4d43_0002, x as *const T as *const u8 as u64, std::mem::size_of_val(x) as u64, 0, 0, 0]);
}
/// How many bytes of it depend on a secret.
fn tainted<T: ?Sized>(x: &T) -> usize {
    let n = std::mem::size_of_val(x);
    let mut bits = vec![0u8; n];
    let r = request(&[0x4d43_0008, x as *const T as *const u8 as u64, bits.as_mut_ptr() as u64, n as u64, 0, 0]);
    assert_eq!(r, 1, "not under memcheck");
    public(&bits[..]);
    bits.iter().filter(|b| **b != 0).count()
}
fn errors() -> u64 {
    request(&[0x1201, 0, 0, 0, 0, 0])
}

static DECLASSIFIED: AtomicU64 = AtomicU64::new(0);
/// The public matrix seed is computed from the secret seed.
#[no_mangle]
extern "C" fn kem_monitor_declassify(p: *mut u8, n: usize) {
    DECLASSIFIED.fetch_add(1, Relaxed);
    public(unsafe { std::slice::from_raw_parts(p, n) });
}

/// Gives out secret bytes.
struct Taint(Seq);
impl rand_core::RngCore for Taint {
    fn next_u32(&mut self) -> u32 {
        unimplemented!()
    }
    fn next_u64(&mut self) -> u64 {
        unimplemented!()
    }
    fn fill_bytes(&mut self, d: &mut [u8]) {
        self.0.fill(d);
        secret(d);
    }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), rand_core::Error> {
        self.fill_bytes(d);
        Ok(())
    }
}
impl rand_core::CryptoRng for Taint {}

struct Stage {
    name: String,
    runs: u64,
    errors: u64,
    tainted: usize,
    declassified: u64,
}
struct Out {
    at: Vec<Stage>,
    verbose: bool,
}
impl Out {
    /// Run one operation; `f` returns how many bytes of the result were tainted.
    fn run(&mut self, name: &str, f: impl FnOnce() -> usize) {
        if self.verbose {
            eprintln!("STAGE {name}");
        }
        let (e, d) = (errors(), DECLASSIFIED.load(Relaxed));
        let t = f();
        let (e, d) = (errors() - e, DECLASSIFIED.load(Relaxed) - d);
        let s = match self.at.iter_mut().position(|s| s.name == name) {
            Some(i) => &mut self.at[i],
            None => {
                self.at.push(Stage { name: name.into(), runs: 0, errors: 0, tainted: usize::MAX, declassified: u64::MAX });
                self.at.last_mut().unwrap()
            }
        };
        s.runs += 1;
        s.errors += e;
        s.tainted = s.tainted.min(t);
        s.declassified = s.declassified.min(d);
    }
}

#[inline(never)]
fn mlkem<K: KemCore>(set: &str, case: u64, out: &mut Out)
where
    K::DecapsulationKey: Clone,
{
    let mut r = Seq::new("taint", case);
    // generation
    let name = |s: &str| format!("{set} {s}");
    let mut keys = None;
    out.run(&name("generate"), || {
        let (dk, ek) = K::generate(&mut Taint(r.clone()));
        let (d, e) = (dk.as_bytes(), ek.as_bytes());
        let t = tainted(&d[..]).min(tainted(&e[..]));
        public(&d[..]);
        public(&e[..]);
        keys = Some((d, e));
        t
    });
    r.byte();
    let (dkb, ekb) = keys.unwrap();
    #[cfg(feature = "mlkem-det")]
    out.run(&name("generate_deterministic"), || {
        let (mut d, mut z) = (B32::default(), B32::default());
        r.fill(&mut d);
        r.fill(&mut z);
        secret(&d[..]);
        secret(&z[..]);
        let (dk, ek) = K::generate_deterministic(&d, &z);
        let d = dk.as_bytes();
        black_box(&ek);
        tainted(&d[..])
    });
    // encapsulation to a public key
    let ek = K::EncapsulationKey::from_bytes(&ekb);
    let mut sent = None;
    let tape = r.clone();
    out.run(&name("encapsulate"), || {
        let (ct, ss) = ek.encapsulate(&mut Taint(tape)).unwrap();
        let t = tainted(&ct[..]).min(tainted(&ss[..]));
        public(&ct[..]);
        public(&ss[..]);
        sent = Some((ct, ss));
        t
    });
    #[cfg(feature = "mlkem-det")]
    out.run(&name("encapsulate_deterministic"), || {
        use ml_kem::EncapsulateDeterministic;
        let mut m = B32::default();
        r.fill(&mut m);
        if case % 4 == 0 {
            m = B32::default();
        }
        secret(&m[..]);
        let (ct, ss) = ek.encapsulate_deterministic(&m).unwrap();
        tainted(&ct[..]).min(tainted(&ss[..]))
    });
    let (ct, ss) = sent.unwrap();
    // a key that is given: its first and last parts are secret
    let (n, e) = (dkb.len(), ekb.len());
    let mut b: Encoded<K::DecapsulationKey> = dkb.clone();
    secret(&b[..n - e - 64]);
    secret(&b[n - 32..]);
    let mut dk = None;
    out.run(&name("parse key"), || {
        dk = Some(K::DecapsulationKey::from_bytes(&b));
        let x = dk.as_ref().unwrap().as_bytes();
        tainted(&x[..])
    });
    let dk = dk.unwrap();
    let dkc = dk.clone();
    let judge = |c: &ml_kem::Ciphertext<K>, dk: &K::DecapsulationKey| {
        let k = dk.decapsulate(c).unwrap();
        let t = tainted(&k[..]);
        public(&k[..]);
        (t, k)
    };
    out.run(&name("decapsulate accept"), || {
        let (t, k) = judge(&ct, &dk);
        if k != ss {
            println!("wrong {set} accept");
        }
        t
    });
    for i in 0..3 {
        let mut bad = ct.clone();
        match i {
            0 => {
                let j = (usize::from(r.byte()) << 8 | usize::from(r.byte())) % bad.len();
                bad[j] ^= 1 << (r.byte() % 8);
            }
            1 => r.fill(&mut bad),
            _ => *bad.last_mut().unwrap() ^= 1,
        }
        out.run(&name("decapsulate reject"), || {
            let (t, k) = judge(&bad, &dkc);
            if k == ss {
                println!("wrong {set} reject");
            }
            t
        });
    }
    // a hostile key: nothing about it is known to be well formed
    let mut h: Encoded<K::DecapsulationKey> = Default::default();
    r.fill(&mut h);
    if case % 3 == 0 {
        h[..n - e - 64].iter_mut().for_each(|x| *x = 0xff);
    }
    secret(&h[..n - e - 64]);
    secret(&h[n - 32..]);
    out.run(&name("decapsulate with a malformed key"), || {
        let dk = K::DecapsulationKey::from_bytes(&h);
        judge(&ct, &dk).0
    });
    out.run(&name("drop"), || {
        drop(dk);
        drop(dkc);
        1
    });
}

#[cfg(feature = "xwing")]
#[inline(never)]
fn xwing(case: u64, out: &mut Out) {
    use x_wing::{Ciphertext, DecapsulationKey, EncapsulationKey};
    let mut r = Seq::new("taint xwing", case);
    let mut pk = [0; 1216];
    let mut sk = [0; 32];
    let tape = r.clone();
    out.run("x-wing generate", || {
        let (dk, ek) = x_wing::generate_key_pair(&mut Taint(tape));
        pk = ek.as_bytes();
        sk = *dk.as_bytes();
        let t = tainted(&pk[..1152]).min(tainted(&pk[1184..])).min(tainted(&sk[..]));
        public(&pk[..]);
        public(&sk[..]);
        t
    });
    r.fill(&mut [0; 32]);
    let ek = EncapsulationKey::from(&pk);
    let mut ct = [0; 1120];
    let mut ss = [0; 32];
    let tape = r.clone();
    out.run("x-wing encapsulate", || {
        let (c, s) = ek.encapsulate(&mut Taint(tape)).unwrap();
        ct = c.as_bytes();
        ss = s;
        let t = tainted(&ct[..1088]).min(tainted(&ct[1088..])).min(tainted(&ss[..]));
        public(&ct[..]);
        public(&ss[..]);
        t
    });
    let good = sk;
    secret(&sk[..]);
    let dk = DecapsulationKey::from(sk);
    out.run("x-wing encapsulation key", || {
        let e = dk.encapsulation_key().as_bytes();
        tainted(&e[..1152])
    });
    r.fill(&mut [0; 64]);
    for i in 0..3 {
        let mut c = ct;
        let name = match i {
            0 => "x-wing decapsulate accept",
            1 => {
                let j = (usize::from(r.byte()) << 8 | usize::from(r.byte())) % 1088;
                c[j] ^= 1 << (r.byte() % 8);
                "x-wing decapsulate reject"
            }
            _ => {
                r.fill(&mut c[1088..]);
                if case % 2 == 0 {
                    c[1088..].fill(0);
                }
                "x-wing decapsulate foreign point"
            }
        };
        let c = Ciphertext::from(&c);
        out.run(name, || {
            let k = dk.decapsulate(&c).unwrap();
            let t = tainted(&k[..]);
            public(&k[..]);
            if (k == ss) != (i == 0) {
                println!("wrong x-wing {i}");
            }
            t
        });
    }
    let _ = good;
}

/// What memcheck must notice, and what it must not.
fn control(out: &mut Out) {
    let mut x = [5u8; 32];
    let t: [u8; 256] = core::array::from_fn(|i| i as u8);
    Seq::new("c", 1).fill(&mut x);
    secret(&x[..]);
    out.run("control branch", || {
        let mut n = 0;
        for b in &x {
            if black_box(*b) > 100 {
                n += black_box(1);
                eprint!("");
            }
        }
        black_box(n);
        1
    });
    out.run("control address", || {
        for b in &x {
            black_box(black_box(&t)[usize::from(*b)]);
        }
        1
    });
    out.run("control arithmetic", || {
        let y = x.iter().fold(0u64, |a, b| a.wrapping_mul(31) ^ u64::from(*b));
        tainted(&y)
    });
    public(&x[..]);
}

#[derive(Default, Clone, Debug, PartialEq)]
pub struct Odd;
impl ml_kem::ParameterSet for Odd {
    type K = U2;
    type Eta1 = U2;
    type Eta2 = U3;
    type Du = U9;
    type Dv = U3;
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let n: u64 = a.get(1).and_then(|x| x.parse().ok()).unwrap_or(4);
    let seed: u64 = a.get(2).and_then(|x| x.parse().ok()).unwrap_or(1);
    let mut out = Out { at: vec![], verbose: a.len() > 3 };
    control(&mut out);
    for i in 0..n {
        let case = seed << 32 | i;
        mlkem::<ml_kem::MlKem512>("ml-kem 512", case, &mut out);
        mlkem::<ml_kem::MlKem768>("ml-kem 768", case, &mut out);
        mlkem::<ml_kem::MlKem1024>("ml-kem 1024", case, &mut out);
        mlkem::<ml_kem::kem::Kem<Odd>>("user-defined", case, &mut out);
        #[cfg(feature = "xwing")]
        xwing(case, &mut out);
    }
    for s in &out.at {
        println!("stage name={} runs={} errors={} tainted={} declassified={}", s.name.replace(' ', "_"), s.runs, s.errors, s.tainted, s.declassified);
    }
    println!("end");
}
