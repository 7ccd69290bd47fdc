//! C09: what the memory of a decapsulation key holds after the key is gone.
//!
//!   wipe KEYS SEED
//!
//! For each kind of key, pairs of keys with the same public part and different secrets are dropped (or
//! explicitly zeroized) in many ways. The positions at which the live keys differ are the places of
//! the secrets; at these the memory left behind must be the same for all keys. Nor may a run of bytes of a
//! secret be found anywhere in it.

use ::kem::Decapsulate;
use ml_kem::array::{typenum::*, Array};
use ml_kem::{Encoded, EncodedSizeUser, KemCore};
use probe::Seq;
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::UnsafeCell;
use std::hint::black_box;
use std::mem::{size_of, MaybeUninit};
use std::rc::Rc;

// ---- memory handed back to the allocator is looked at before it goes

const MAX: usize = 1 << 16;
struct Snap {
    armed: bool,
    want: usize,
    n: usize,
    buf: [u8; MAX],
}
struct Hook(UnsafeCell<Snap>);
unsafe impl Sync for Hook {}
unsafe impl GlobalAlloc for Hook {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let p = System.alloc(l);
        if (*self.0.get()).armed && !p.is_null() {
            std::ptr::write_bytes(p, 0xA5, l.size());
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let s = &mut *self.0.get();
        // Only the block that holds the key; a block of another size is none of ours.
        if s.armed && s.want == p as usize && s.n == 0 {
            s.n = l.size().min(MAX);
            for i in 0..s.n {
                s.buf[i] = p.add(i).read_volatile();
            }
        }
        System.dealloc(p, l);
    }
}
#[global_allocator]
static HOOK: Hook = Hook(UnsafeCell::new(Snap { armed: false, want: 0, n: 0, buf: [0; MAX] }));

fn watch(block: usize) {
    unsafe {
        let s = &mut *HOOK.0.get();
        s.want = block;
        s.n = 0;
        s.armed = true;
    }
}
fn caught(offset: usize, len: usize) -> Option<Vec<u8>> {
    unsafe {
        let s = &mut *HOOK.0.get();
        s.armed = false;
        (s.n >= offset + len).then(|| s.buf[offset..offset + len].to_vec())
    }
}

#[inline(never)]
fn image(at: usize, len: usize) -> Vec<u8> {
    let mut v = Vec::with_capacity(len);
    for i in 0..len {
        v.push(unsafe { ((at + i) as *const u8).read_volatile() });
    }
    v
}

// ---- a place on the stack far below the reader

#[inline(never)]
fn deep(f: &mut dyn FnMut()) {
    let mut pad = [0u8; 96 << 10];
    black_box(&mut pad);
    f();
    black_box(&mut pad);
}
#[inline(never)]
fn dirty() {
    let mut pad = [0u8; 256 << 10];
    for (i, x) in pad.iter_mut().enumerate() {
        *x = 0xA5;
        if i % 4096 == 0 {
            black_box(&*x);
        }
    }
    black_box(&mut pad);
}

// ---- the kinds of key

/// A kind of key: how keys are made, and the secrets of the key made.
struct Kind<T> {
    name: String,
    /// (key number) -> key and runs of bytes that are secret; all keys have the same public part
    make: Box<dyn Fn(u64) -> (T, Vec<Vec<u8>>)>,
    /// keys with public parts of their own
    fresh: Option<Box<dyn Fn(u64) -> (T, Vec<Vec<u8>>)>>,
    touch: Box<dyn Fn(&T)>,
    clone: Option<Box<dyn Fn(&T) -> T>>,
    /// all bytes must be independent of the secret, not only those whose place is known
    strict: bool,
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let n: u64 = a.get(1).and_then(|x| x.parse().ok()).unwrap_or(8);
    let seed: u64 = a.get(2).and_then(|x| x.parse().ok()).unwrap_or(1);
    std::panic::set_hook(Box::new(|_| {}));
    let mut out = Out { keys: n, kinds: 0, ways: 0, images: 0, bytes: 0 };
    #[cfg(feature = "mlkem-zeroize")]
    {
        mlkem::<ml_kem::MlKem512>("ml-kem 512", seed, &mut out);
        mlkem::<ml_kem::MlKem768>("ml-kem 768", seed, &mut out);
        mlkem::<ml_kem::MlKem1024>("ml-kem 1024", seed, &mut out);
        mlkem::<ml_kem::kem::Kem<S1>>("ml-kem K=1", seed, &mut out);
        mlkem::<ml_kem::kem::Kem<S5>>("ml-kem K=5", seed, &mut out);
    }
    #[cfg(feature = "xwing-zeroize")]
    xwing(seed, &mut out);
    #[cfg(all(feature = "curves", feature = "dhkem-zeroize"))]
    {
        ecdh::<dhkem::Secp256k1Kem>("k256", seed, &mut out);
        ecdh::<dhkem::NistP256Kem>("p256", seed, &mut out);
        ecdh::<dhkem::NistP384Kem>("p384", seed, &mut out);
        ecdh::<dhkem::NistP521Kem>("p521", seed, &mut out);
        x25519(seed, &mut out);
        wrappers(seed, &mut out);
    }
    control(&mut out);
    println!("end kinds={} ways={} images={} bytes={}", out.kinds, out.ways, out.images, out.bytes);
}

struct Out {
    keys: u64,
    kinds: u64,
    ways: u64,
    images: u64,
    bytes: u64,
}

/// A secret worth looking for: enough different bytes not to turn up by chance.
fn telling(w: &[u8]) -> bool {
    let mut seen = [false; 256];
    w.iter().for_each(|b| seen[usize::from(*b)] = true);
    seen.iter().filter(|x| **x).count() >= 6
}

impl Out {
    fn judge(&mut self, kind: &str, way: &str, mask: &[bool], posts: &[(u64, Vec<u8>, Vec<Vec<u8>>)], strict: bool) {
        self.ways += 1;
        let mut verdict = "ok";
        let mut detail = String::new();
        for (i, img, secrets) in posts {
            self.images += 1;
            self.bytes += img.len() as u64;
            let first = &posts[0].1;
            if strict && verdict == "ok" {
                let bad: Vec<usize> = (0..img.len()).filter(|&j| mask[j] && img[j] != first[j]).collect();
                if !bad.is_empty() {
                    verdict = "leak";
                    detail = format!("{} of {} secret bytes still differ between keys {} and {i}, first at offset {}", bad.len(),
                                     mask.iter().filter(|x| **x).count(), posts[0].0, bad[0]);
                }
            }
            if verdict == "ok" && !secrets.is_empty() {
                let word = |w: &[u8]| u64::from_ne_bytes(w.try_into().unwrap());
                let have: std::collections::HashSet<u64> = img.windows(8).map(word).collect();
                for s in secrets {
                    for (o, w) in s.chunks_exact(8).enumerate() {
                        if telling(w) && have.contains(&word(w)) && verdict == "ok" {
                            verdict = "leak";
                            detail = format!("8 bytes from byte {} of a secret of {} bytes of key {i} are still there", 8 * o, s.len());
                        }
                    }
                }
            }
        }
        println!("case kind={} way={} keys={} size={} secret={} verdict={verdict} {detail}", kind.replace(' ', "_"), way.replace(' ', "_"),
                 posts.len(), mask.len(), mask.iter().filter(|x| **x).count());
    }
}

type Post = (u64, Vec<u8>, Vec<Vec<u8>>);

/// Put a key somewhere, get rid of it, return what is left.
fn ways<T: 'static>(k: &Kind<T>) -> Vec<(&'static str, Box<dyn Fn(T, T) -> Option<Vec<u8>> + '_>)> {
    let n = size_of::<T>();
    let touch = &k.touch;
    let mut w: Vec<(&'static str, Box<dyn Fn(T, T) -> Option<Vec<u8>> + '_>)> = vec![
        ("in place", Box::new(move |x, _| {
            let mut m = Box::new(MaybeUninit::<T>::uninit());
            unsafe {
                std::ptr::write_bytes(m.as_mut_ptr().cast::<u8>(), 0xA5, n);
                m.as_mut_ptr().write(x);
                touch(&*m.as_ptr());
                std::ptr::drop_in_place(m.as_mut_ptr());
                Some(image(m.as_ptr() as usize, n))
            }
        })),
        ("box", Box::new(move |x, _| {
            let b = Box::new(x);
            touch(&b);
            watch(&*b as *const T as usize);
            drop(b);
            caught(0, n)
        })),
        ("boxed as trait object", Box::new(move |x, _| {
            trait Any {}
            impl<X> Any for X {}
            let b = Box::new(x);
            touch(&b);
            let at = &*b as *const T as usize;
            let b: Box<dyn Any> = b;
            let b = black_box(b);
            watch(at);
            drop(b);
            caught(0, n)
        })),
        ("vector", Box::new(move |x, y| {
            let mut v = Vec::with_capacity(3);
            v.push(y);
            v.push(x);
            touch(&v[1]);
            watch(v.as_ptr() as usize);
            drop(v);
            caught(n, n)
        })),
        ("vector truncated", Box::new(move |x, y| {
            let mut v = Vec::with_capacity(3);
            v.push(y);
            v.push(x);
            touch(&v[1]);
            v.truncate(1);
            let i = image(v.as_ptr() as usize + n, n);
            drop(v);
            Some(i)
        })),
        ("reference counted", Box::new(move |x, _| {
            let r = Rc::new(x);
            let r2 = r.clone();
            touch(&r2);
            let at = Rc::as_ptr(&r) as usize;
            let block = at - 2 * size_of::<usize>();
            drop(r);
            watch(block);
            drop(r2);
            caught(2 * size_of::<usize>(), n)
        })),
        ("overwritten", Box::new(move |x, y| {
            // the successor has a drop of its own: what is left must be the successor's
            let mut b = Box::new(x);
            touch(&b);
            *b = y;
            let at = &*b as *const T as usize;
            touch(&b);
            watch(at);
            drop(b);
            caught(0, n)
        })),
        ("in an option", Box::new(move |x, _| {
            let mut o = Box::new(Some(x));
            let at = o.as_ref().as_ref().unwrap() as *const T as usize;
            touch(o.as_ref().as_ref().unwrap());
            // (assigning None may copy whatever lay where the None was made)
            unsafe { std::ptr::drop_in_place(black_box(&mut *o)) };
            let i = image(at, n);
            std::mem::forget(o);
            Some(i)
        })),
        ("array", Box::new(move |x, y| {
            let b = Box::new([y, x]);
            touch(&b[1]);
            watch(b.as_ptr() as usize);
            drop(b);
            caught(n, n)
        })),
        ("end of scope", Box::new(move |x, _| {
            let mut x = Some(x);
            let mut at = 0;
            dirty();
            deep(&mut || at = local(x.take().unwrap(), touch, false));
            Some(image(at, n))
        })),
        ("unwinding", Box::new(move |x, _| {
            let mut x = Some(x);
            let at = std::cell::Cell::new(0);
            dirty();
            deep(&mut || {
                let mut x = Some(x.take().unwrap());
                // (what runs after the catch must not reach the place of the key)
                let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| deep(&mut || unwinding(x.take().unwrap(), touch, &at))));
            });
            Some(image(at.get(), n))
        })),
        ("early return", Box::new(move |x, _| {
            let mut x = Some(x);
            let mut at = 0;
            dirty();
            deep(&mut || at = local(x.take().unwrap(), touch, true));
            Some(image(at, n))
        })),
        ("another thread", Box::new(move |x, _| {
            // moved to the heap, sent, dropped there
            let b = Box::new(x);
            touch(&b);
            let at = &*b as *const T as usize;
            struct Pass<X>(X);
            unsafe impl<X> Send for Pass<X> {}
            let p = Pass(b);
            std::thread::scope(|s| {
                s.spawn(move || {
                    let p = p;
                    watch(at);
                    drop(p);
                })
                .join()
                .unwrap();
            });
            caught(0, n)
        })),
    ];
    if k.clone.is_some() {
        w.push(("cloned", Box::new(move |x, _| {
            let c = Box::new((k.clone.as_ref().unwrap())(&x));
            touch(&c);
            watch(&*c as *const T as usize);
            drop(c);
            drop(x);
            caught(0, n)
        })));
        w.push(("original of a clone", Box::new(move |x, _| {
            let x = Box::new(x);
            let c = (k.clone.as_ref().unwrap())(&x);
            watch(&*x as *const T as usize);
            drop(x);
            let i = caught(0, n);
            touch(&c);
            i
        })));
    }
    w
}

#[inline(never)]
fn local<T>(x: T, touch: &dyn Fn(&T), early: bool) -> usize {
    let x = x;
    let at = black_box(&x) as *const T as usize;
    touch(black_box(&x));
    if black_box(early) {
        return at;
    }
    black_box(&x);
    at
}

#[inline(never)]
fn unwinding<T>(x: T, touch: &dyn Fn(&T), place: &std::cell::Cell<usize>) {
    let x = x;
    place.set(black_box(&x) as *const T as usize);
    touch(black_box(&x));
    std::panic::resume_unwind(Box::new(()));
}

fn check<T: 'static>(k: Kind<T>, out: &mut Out) {
    let n = size_of::<T>();
    // Where the secrets are.
    let mut first: Option<Vec<u8>> = None;
    let mut mask = vec![false; n];
    for i in 0..out.keys {
        let b = Box::new((k.make)(i).0);
        let img = image(&*b as *const T as usize, n);
        match &first {
            None => first = Some(img),
            Some(f) => (0..n).for_each(|j| mask[j] |= f[j] != img[j]),
        }
        std::mem::forget(b);
    }
    if !mask.iter().any(|x| *x) {
        println!("inconclusive {}: no secret found in the live key", k.name);
        return;
    }
    out.kinds += 1;
    for (way, f) in ways(&k) {
        for (set, make) in [("", Some(&k.make)), (" (own public part)", k.fresh.as_ref())] {
            let Some(make) = make else { continue };
            let mut posts: Vec<Post> = vec![];
            for i in 0..out.keys {
                let (x, s) = make(i);
                let (y, _) = (k.make)(1 << 40);
                match f(x, y) {
                    Some(img) => posts.push((i, img, s)),
                    None => {
                        println!("inconclusive {} {way}: the memory was not seen", k.name);
                        return;
                    }
                }
            }
            out.judge(&k.name, &format!("{way}{set}"), &mask, &posts, k.strict);
        }
    }
}

/// As `check`, for an explicit call.
#[allow(dead_code)]
fn explicit<T>(name: &str, make: impl Fn(u64) -> (T, Vec<Vec<u8>>), wipe: impl Fn(&mut T), out: &mut Out) {
    let n = size_of::<T>();
    let mut first: Option<Vec<u8>> = None;
    let mut mask = vec![false; n];
    let mut posts = vec![];
    for i in 0..out.keys {
        let (x, s) = make(i);
        let mut b = Box::new(x);
        let at = &*b as *const T as usize;
        let img = image(at, n);
        match &first {
            None => first = Some(img),
            Some(f) => (0..n).for_each(|j| mask[j] |= f[j] != img[j]),
        }
        wipe(&mut b);
        posts.push((i, image(at, n), s));
        std::mem::forget(b);
    }
    if !mask.iter().any(|x| *x) {
        println!("inconclusive {name}: no secret found in the live value");
        return;
    }
    out.kinds += 1;
    out.judge(name, "zeroize called", &mask, &posts, true);
}

/// Keys that are not wiped: the monitor must see them in every way.
fn control(out: &mut Out) {
    struct Bare([u8; 40]);
    impl Drop for Bare {
        fn drop(&mut self) {
            black_box(());
        }
    }
    check(
        Kind::<Bare> {
            name: "control".into(),
            make: Box::new(|i| {
                let b = bytes("wipe control", i, 40);
                (Bare(b[..].try_into().unwrap()), vec![b])
            }),
            fresh: None,
            touch: Box::new(|x| {
                black_box(x.0);
            }),
            clone: Some(Box::new(|x| Bare(x.0))),
            strict: true,
        },
        out,
    );
}

fn bytes(label: &str, i: u64, n: usize) -> Vec<u8> {
    let mut v = vec![0; n];
    Seq::new(label, i).fill(&mut v);
    v
}

// ---- ML-KEM

#[derive(Default, Clone, Debug, PartialEq)]
pub struct S1;
impl ml_kem::ParameterSet for S1 {
    type K = U1;
    type Eta1 = U3;
    type Eta2 = U2;
    type Du = U11;
    type Dv = U5;
}
#[derive(Default, Clone, Debug, PartialEq)]
pub struct S5;
impl ml_kem::ParameterSet for S5 {
    type K = U5;
    type Eta1 = U2;
    type Eta2 = U3;
    type Du = U10;
    type Dv = U4;
}

/// A generator that keeps what it gave.
#[allow(dead_code)]
struct Kept(Seq, Vec<Vec<u8>>);
impl rand_core::RngCore for Kept {
    fn next_u32(&mut self) -> u32 {
        self.0.next_u32()
    }
    fn next_u64(&mut self) -> u64 {
        self.0.next_u64()
    }
    fn fill_bytes(&mut self, d: &mut [u8]) {
        self.0.fill(d);
        self.1.push(d.to_vec());
    }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), rand_core::Error> {
        self.fill_bytes(d);
        Ok(())
    }
}
impl rand_core::CryptoRng for Kept {}

#[allow(dead_code)]
fn mlkem<K: KemCore + 'static>(name: &str, seed: u64, out: &mut Out)
where
    K::DecapsulationKey: Clone + 'static,
{
    let dk0 = K::generate(&mut Seq::new("wipe public", seed)).0.as_bytes();
    let ct = {
        use ::kem::Encapsulate;
        let ek = K::generate(&mut Seq::new("wipe ct", seed)).1;
        ek.encapsulate(&mut Seq::new("wipe m", seed)).unwrap().0
    };
    let ekl = K::EncapsulationKey::from_bytes(&Encoded::<K::EncapsulationKey>::default()).as_bytes().len();
    let sl = dk0.len() - ekl - 64;
    check(
        Kind::<K::DecapsulationKey> {
            name: name.into(),
            make: Box::new(move |i| {
                let mut b: Encoded<K::DecapsulationKey> = dk0.clone();
                // a few keys of one repeated value: a wipe to a value that depends on it would show
                let mut r = Seq::new("wipe secret", seed ^ (i << 8));
                match i % 5 {
                    3 => b[..sl].iter_mut().for_each(|x| *x = 0x11 * (i as u8 % 15)),
                    _ => r.fill(&mut b[..sl]),
                }
                let l = b.len();
                r.fill(&mut b[l - 32..]);
                let s = vec![b[l - 32..].to_vec(), b[..sl].to_vec()];
                (K::DecapsulationKey::from_bytes(&b), s)
            }),
            fresh: Some(Box::new(move |i| {
                let mut r = Kept(Seq::new("wipe fresh", seed ^ (i << 8)), vec![]);
                let (dk, _) = K::generate(&mut r);
                // the seeds, the secret vector as stored (taken from the encoding) and z
                let b = dk.as_bytes();
                let mut s = std::mem::take(&mut r.1);
                s.push(b[..sl].to_vec());
                let coefs: Vec<u8> = b[..sl]
                    .chunks(3)
                    .flat_map(|c| {
                        let (x, y) = (u16::from(c[0]) | u16::from(c[1] & 15) << 8, u16::from(c[1] >> 4) | u16::from(c[2]) << 4);
                        [x.to_ne_bytes(), y.to_ne_bytes()].concat()
                    })
                    .collect();
                s.push(coefs);
                (dk, s)
            })),
            touch: Box::new(move |x| {
                black_box(x.decapsulate(&ct).unwrap());
            }),
            clone: Some(Box::new(|x| x.clone())),
            strict: true,
        },
        out,
    );
}

// ---- X-Wing

#[cfg(feature = "xwing-zeroize")]
fn xwing(seed: u64, out: &mut Out) {
    use x_wing::{Ciphertext, DecapsulationKey};
    use zeroize::Zeroize;
    let ct = Ciphertext::from(&[7u8; 1120]);
    let make = move |i: u64| {
        let mut k = [0u8; 32];
        Seq::new("wipe xwing", seed ^ (i << 8)).fill(&mut k);
        let mut s = vec![k.to_vec()];
        // what is derived from it
        use sha3::digest::{ExtendableOutput, Update, XofReader};
        let mut h = sha3::Shake128::default();
        h.update(&k);
        let mut e = [0u8; 96];
        h.finalize_xof().read(&mut e);
        s.extend(e.chunks(32).map(|x| x.to_vec()));
        s
    };
    check(
        Kind::<DecapsulationKey> {
            name: "x-wing".into(),
            make: Box::new(move |i| {
                let s = make(i);
                let k: [u8; 32] = s[0].clone().try_into().unwrap();
                (DecapsulationKey::from(k), s)
            }),
            fresh: Some(Box::new(move |i| {
                let mut r = Kept(Seq::new("wipe xwing g", seed ^ (i << 8)), vec![]);
                (x_wing::generate_key_pair(&mut r).0, r.1)
            })),
            touch: Box::new(move |x| {
                black_box(x.decapsulate(&ct).unwrap());
            }),
            clone: Some(Box::new(|x| x.clone())),
            strict: size_of::<DecapsulationKey>() == 32,
        },
        out,
    );
    if size_of::<DecapsulationKey>() == 32 {
        explicit("x-wing", |i| { let s = make(i); (DecapsulationKey::from(<[u8; 32]>::try_from(&s[0][..]).unwrap()), s) }, |x| x.zeroize(), out);
    }
    explicit("x-wing ciphertext", |i| (Ciphertext::from(&<[u8; 1120]>::try_from(&bytes("wipe ct", seed ^ (i << 8), 1120)[..]).unwrap()), vec![]),
             |x| x.zeroize(), out);
}

// ---- DHKEM

#[cfg(all(feature = "curves", feature = "dhkem-zeroize"))]
fn raw<X>(x: &X) -> Vec<u8> {
    image(x as *const X as usize, size_of::<X>())
}

#[cfg(all(feature = "curves", feature = "dhkem-zeroize"))]
trait Curve: dhkem::DhKem {
    type C: elliptic_curve::CurveArithmetic;
}
#[cfg(all(feature = "curves", feature = "dhkem-zeroize"))]
impl<C: elliptic_curve::CurveArithmetic> Curve for dhkem::EcdhKem<C> {
    type C = C;
}

#[cfg(all(feature = "curves", feature = "dhkem-zeroize"))]
fn ecdh<K: Curve + 'static>(name: &str, seed: u64, out: &mut Out)
where
    K: dhkem::DhKem<
        DecapsulatingKey = dhkem::DhDecapsulator<elliptic_curve::ecdh::EphemeralSecret<<K as Curve>::C>>,
        EncapsulatedKey = elliptic_curve::PublicKey<<K as Curve>::C>,
    >,
{
    use elliptic_curve::ecdh::EphemeralSecret;
    use zeroize::Zeroize;
    type D<K> = dhkem::DhDecapsulator<EphemeralSecret<<K as Curve>::C>>;
    let peer = EphemeralSecret::<K::C>::random(&mut Seq::new("wipe peer", seed)).public_key();
    let touch = move |x: &D<K>| {
        black_box(x.decapsulate(&peer).ok().unwrap());
    };
    let strict = size_of::<D<K>>() == size_of::<EphemeralSecret<K::C>>();
    let secret = move |i: u64| {
        let x = std::mem::ManuallyDrop::new(EphemeralSecret::<K::C>::random(&mut Seq::new("wipe ec", seed ^ (i << 8))));
        vec![raw(&*x)]
    };
    check(
        Kind::<D<K>> {
            name: format!("dhkem {name}"),
            make: Box::new(move |i| {
                (dhkem::DhDecapsulator::from(EphemeralSecret::random(&mut Seq::new("wipe ec", seed ^ (i << 8)))), secret(i))
            }),
            fresh: Some(Box::new(move |i| (K::random_keypair(&mut Seq::new("wipe ec", seed ^ (i << 8))).0, secret(i)))),
            touch: Box::new(touch),
            clone: None,
            strict,
        },
        out,
    );
    let scalar = |i: u64| {
        let x = elliptic_curve::NonZeroScalar::<K::C>::random(&mut Seq::new("wipe nz", seed ^ (i << 8)));
        let s = vec![raw(&x)];
        (x, s)
    };
    explicit(&format!("dhkem {name} decapsulator of a scalar"), |i| { let (x, s) = scalar(i); (dhkem::DhDecapsulator::from(x), s) }, |x| x.zeroize(), out);
    explicit(&format!("dhkem {name} encapsulator of a scalar"), |i| { let (x, s) = scalar(i); (dhkem::DhEncapsulator::from(x), s) }, |x| x.zeroize(), out);
}

#[cfg(all(feature = "curves", feature = "dhkem-zeroize"))]
fn x25519(seed: u64, out: &mut Out) {
    use dhkem::{DhDecapsulator, DhKem, X25519Kem};
    use x25519_dalek::{PublicKey, ReusableSecret};
    type D = DhDecapsulator<ReusableSecret>;
    let peer = PublicKey::from([9; 32]);
    let make = move |i: u64| ReusableSecret::random_from_rng(&mut Seq::new("wipe x", seed ^ (i << 8)));
    let secret = move |i: u64| vec![raw(&*std::mem::ManuallyDrop::new(make(i)))];
    check(
        Kind::<D> {
            name: "dhkem x25519".into(),
            make: Box::new(move |i| (DhDecapsulator::from(make(i)), secret(i))),
            fresh: Some(Box::new(move |i| (X25519Kem::random_keypair(&mut Seq::new("wipe x", seed ^ (i << 8))).0, secret(i)))),
            touch: Box::new(move |x| {
                black_box(x.decapsulate(&peer).unwrap());
            }),
            clone: Some(Box::new(|x| x.clone())),
            strict: size_of::<D>() == size_of::<ReusableSecret>(),
        },
        out,
    );
    #[cfg(feature = "xwing-zeroize")]
    {
        use dhkem::DhEncapsulator;
        use x25519_dalek::StaticSecret;
        use zeroize::Zeroize;
        explicit("dhkem x25519 decapsulator", |i| (D::from(make(i)), secret(i)), |x| x.zeroize(), out);
        explicit("dhkem x25519 decapsulator of a static secret", |i| (DhDecapsulator::from(StaticSecret::random_from_rng(&mut Seq::new("wipe ss", i))), vec![]),
                 |x| x.zeroize(), out);
        explicit("dhkem x25519 encapsulator", |i| (DhEncapsulator::from(PublicKey::from(&make(i))), vec![]), |x| x.zeroize(), out);
    }
}

#[cfg(all(feature = "curves", feature = "dhkem-zeroize"))]
fn wrappers(seed: u64, out: &mut Out) {
    use dhkem::{DhDecapsulator, DhEncapsulator};
    use zeroize::Zeroize;
    type A<N> = Array<u8, N>;
    let b = move |i: u64, n| bytes("wipe bytes", seed ^ (i << 8) ^ n as u64, n);
    explicit("decapsulator of an array", |i| (DhDecapsulator::from(<[u8; 57]>::try_from(&b(i, 57)[..]).unwrap()), vec![b(i, 57)]), |x| x.zeroize(), out);
    explicit("encapsulator of an array", |i| (DhEncapsulator::from(<[u8; 57]>::try_from(&b(i, 57)[..]).unwrap()), vec![b(i, 57)]), |x| x.zeroize(), out);
    explicit("decapsulator of a wrapper", |i| (DhDecapsulator::from(DhEncapsulator::from(<[u8; 33]>::try_from(&b(i, 33)[..]).unwrap())), vec![b(i, 33)]),
             |x| x.zeroize(), out);
    explicit("decapsulator of numbers", |i| (DhDecapsulator::from([i | 1 << 63, !i, i.wrapping_mul(77)]), vec![]), |x| x.zeroize(), out);
    let _ = A::<U1>::default();

    // a key that wipes itself when dropped does so inside the wrappers, once, where it lies
    struct Wiped([u8; 40]);
    impl Drop for Wiped {
        fn drop(&mut self) {
            self.0.zeroize();
        }
    }
    impl zeroize::ZeroizeOnDrop for Wiped {}
    fn on_drop<X: zeroize::ZeroizeOnDrop>(_: &X) {}
    check(
        Kind::<DhDecapsulator<Wiped>> {
            name: "decapsulator of a type that wipes itself".into(),
            make: Box::new(move |i| (DhDecapsulator::from(Wiped(b(i, 40).try_into().unwrap())), vec![b(i, 40)])),
            fresh: None,
            touch: Box::new(|x| on_drop(x)),
            clone: None,
            strict: true,
        },
        out,
    );
    check(
        Kind::<DhEncapsulator<Wiped>> {
            name: "encapsulator of a type that wipes itself".into(),
            make: Box::new(move |i| (DhEncapsulator::from(Wiped(b(i, 40).try_into().unwrap())), vec![b(i, 40)])),
            fresh: None,
            touch: Box::new(|x| on_drop(x)),
            clone: None,
            strict: true,
        },
        out,
    );
    // a value taken out of a wrapper wipes itself where it ends up
    explicit("value taken out of a decapsulator", |i| (DhDecapsulator::from(Wiped(b(i, 40).try_into().unwrap())), vec![]), |x| unsafe {
        let y = Box::into_raw(Box::new(std::ptr::read(x).into_inner()));
        std::ptr::drop_in_place(y);
        std::ptr::copy_nonoverlapping(y.cast::<u8>(), (x as *mut DhDecapsulator<Wiped>).cast::<u8>(), size_of::<Wiped>());
    }, out);
}
