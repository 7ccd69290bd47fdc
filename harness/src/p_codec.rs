//! C06: key encodings and equality. C07: provenance of randomness in ML-KEM.

use crate::fw::*;
use crate::gen;
use crate::kemset::*;
use crate::rngs::{Stream, Tape};
use crate::std_set;
use ml_kem::array::typenum::Unsigned;
use refmodel::fips203::{self as f, Stats};
use refmodel::rng::Rng;

/// All of ==, != in both directions must say the same.
fn equal<T: PartialEq>(a: &T, b: &T) -> Result<bool, Bad> {
    let (e, n, e2, n2) = imp(|| (a == b, a != b, b == a, b != a));
    check(e != n && e == e2 && n == n2, "== and != are not consistent or not symmetric", || format!("{e} {n} {e2} {n2}"))?;
    Ok(e)
}

fn same_ek<S: Set>(c: &mut Case, a: &S::Ek, b: &S::Ek, m: &[u8; 32], info: &dyn Fn() -> String) -> R {
    let (x, y) = (S::encaps(a, m), S::encaps(b, m));
    check(x == y, "equal encapsulation keys behave differently", info)?;
    c.l.count("behaviour_compared", 1);
    Ok(())
}

fn same_dk<S: Set>(c: &mut Case, a: &S::Dk, b: &S::Dk, cts: &[Vec<u8>], info: &dyn Fn() -> String) -> R {
    for ct in cts {
        let (x, y) = (S::decaps(a, ct), S::decaps(b, ct));
        check(x == y, "equal decapsulation keys behave differently", || format!("ct={} {}", hex(ct), info()))?;
        c.l.count("behaviour_compared", 1);
    }
    Ok(())
}

/// Every 12-bit value at every coefficient position of both keys.
fn raw_pattern<S: Set>(c: &mut Case, o: u32, step: u32) -> R {
    let p = &S::P;
    let n = 256 * p.k;
    let raw = |add: u32| -> Vec<u32> { (0..n as u32).map(|i| (i * step + o + add) % 4096).collect() };
    // encapsulation key
    let rho = gen::b32(&mut c.rng);
    let mut b = f::encode12(&raw(0));
    b.extend(rho);
    let info = || format!("ML-KEM-{} coefficient i has the raw value (i*{step}+{o})%4096", p.name);
    let ek = S::ek_parse(&b);
    let mut canon = f::canonicalize(&b[..384 * p.k]);
    canon.extend(rho);
    same("encapsulation key parsed and encoded again", &S::ek_bytes(&ek), &canon, info)?;
    // decapsulation key: different raw values in the secret vector and in the embedded key
    let tail = c.rng.vec(64);
    let mut d = f::encode12(&raw(1777));
    d.extend_from_slice(&b);
    d.extend_from_slice(&tail);
    let dk = S::dk_parse(&d);
    let mut dc = f::canonicalize(&d[..384 * p.k]);
    dc.extend_from_slice(&canon);
    dc.extend_from_slice(&tail);
    same("decapsulation key parsed and encoded again", &S::dk_bytes(&dk), &dc, info)?;
    same("embedded encapsulation key", &S::ek_bytes(S::ek_ref(&dk)), &canon, info)?;
    c.l.count("raw_values_checked", 3 * n as u64);
    c.l.seen(&format!("offsets_{}_{step}", p.name), u64::from(o));
    if c.index % 8 == 0 {
        let (ek2, dk2) = (S::ek_parse(&canon), S::dk_parse(&dc));
        check(equal(&ek, &ek2)?, "keys with equal encodings compare different", info)?;
        check(equal(&dk, &dk2)?, "keys with equal encodings compare different", info)?;
        let m = c.rng.arr();
        same_ek::<S>(c, &ek, &ek2, &m, &info)?;
        let ct = vec![c.rng.vec(p.ct_len())];
        same_dk::<S>(c, &dk, &dk2, &ct, &info)?;
    }
    c.l.nontrivial(&[p.name.as_bytes(), &o.to_le_bytes(), &step.to_le_bytes()]);
    c.sample(info);
    Ok(())
}

/// A generated key goes round: layout, sizes, equality, behaviour.
pub fn round_trip<S: Set>(c: &mut Case) -> R {
    let p = &S::P;
    let (d, z) = (gen::b32(&mut c.rng), gen::b32(&mut c.rng));
    let info = || format!("ML-KEM-{} d={} z={}", p.name, hex(&d), hex(&z));
    let (dk, ek) = S::keygen(&d, &z);
    let (db, eb) = (S::dk_bytes(&dk), S::ek_bytes(&ek));
    check(db.len() == p.dk_len() && eb.len() == p.ek_len(), "encoding has the wrong length", info)?;
    check(
        <S::Dk as EncodedSizeUser>::EncodedSize::USIZE == p.dk_len()
            && <S::Ek as EncodedSizeUser>::EncodedSize::USIZE == p.ek_len()
            && <S::K as KemCore>::CiphertextSize::USIZE == p.ct_len()
            && <S::K as KemCore>::SharedKeySize::USIZE == 32,
        "declared size is wrong",
        info,
    )?;
    let n = 384 * p.k;
    same("second part of the decapsulation key (encapsulation key)", &db[n..n + p.ek_len()], &eb, info)?;
    same("third part of the decapsulation key (hash)", &db[n + p.ek_len()..p.dk_len() - 32], &f::h(&eb), info)?;
    same("last part of the decapsulation key (z)", &db[p.dk_len() - 32..], &z, info)?;
    check(f::raw12(&db[..n]).iter().chain(&f::raw12(&eb[..n])).all(|v| *v < f::Q), "generated key is not canonical", info)?;
    let (dk2, ek2) = (S::dk_parse(&db), S::ek_parse(&eb));
    same("decapsulation key parsed and encoded again", &S::dk_bytes(&dk2), &db, info)?;
    same("encapsulation key parsed and encoded again", &S::ek_bytes(&ek2), &eb, info)?;
    for (a, b) in [(&dk, &dk2), (&dk, &dk.clone()), (&dk, &dk)] {
        check(equal(a, b)?, "decapsulation keys with equal encodings compare different", info)?;
    }
    for (a, b) in [(&ek, &ek2), (&ek, &ek.clone()), (&ek, S::ek_ref(&dk)), (&ek2, S::ek_ref(&dk2))] {
        check(equal(a, b)?, "encapsulation keys with equal encodings compare different", info)?;
    }
    let m = c.rng.arr();
    same_ek::<S>(c, &ek, &ek2, &m, &info)?;
    let ct = S::encaps(&ek, &m).0;
    let mut bad_ct = ct.clone();
    let i = c.rng.below(bad_ct.len() as u64) as usize;
    bad_ct[i] ^= 1 << c.rng.below(8);
    same_dk::<S>(c, &dk, &dk2, &[ct, bad_ct], &info)?;
    c.l.count("round_trips", 1);
    c.l.nontrivial(&[p.name.as_bytes(), &d, &z]);
    c.sample(info);
    Ok(())
}

/// An arbitrary byte string taken as a key.
pub fn arbitrary<S: Set>(c: &mut Case, ext: &[gen::Extreme]) -> R {
    let p = &S::P;
    let n = 384 * p.k;
    let r = &mut c.rng;
    let vec12 = |r: &mut Rng| {
        if r.chance(1, 2) {
            f::encode12(&gen::raw_coeffs(r, 256 * p.k))
        } else {
            f::encode12(&gen::coeffs(r, 256 * p.k))
        }
    };
    let eb = if r.chance(1, 3) {
        gen::adversarial_ek(r, p, ext)
    } else {
        let mut b = vec12(r);
        b.extend(gen::b32(r));
        b
    };
    let mut db = vec12(r);
    db.extend_from_slice(&eb);
    db.extend(if r.chance(1, 2) { f::h(&eb) } else { gen::b32(r) });
    db.extend(gen::b32(r));
    let info = || format!("ML-KEM-{} dk={}", p.name, hex(&db));
    let dk = S::dk_parse(&db);
    let ek = S::ek_parse(&eb);
    let mut want_ek = f::canonicalize(&eb[..n]);
    want_ek.extend_from_slice(&eb[n..]);
    let mut want = f::canonicalize(&db[..n]);
    want.extend_from_slice(&want_ek);
    want.extend_from_slice(&db[n + p.ek_len()..]);
    same("encapsulation key parsed and encoded again", &S::ek_bytes(&ek), &want_ek, info)?;
    same("decapsulation key parsed and encoded again", &S::dk_bytes(&dk), &want, info)?;
    if want == db {
        c.l.count("canonical_strings", 1);
    } else {
        c.l.count("noncanonical_strings", 1);
    }
    // and a second time
    let (dk2, ek2) = (S::dk_parse(&want), S::ek_parse(&want_ek));
    same("decapsulation key encoded a second time", &S::dk_bytes(&dk2), &want, info)?;
    check(equal(&dk, &dk2)? && equal(&ek, &ek2)?, "keys with equal encodings compare different", info)?;
    let m = c.rng.arr();
    same_ek::<S>(c, &ek, &ek2, &m, &info)?;
    let ct = S::encaps(&ek, &m).0;
    let other = c.rng.vec(p.ct_len());
    same_dk::<S>(c, &dk, &dk2, &[ct, other], &info)?;
    // a reparsed key, cloned keys: still the same bytes
    same("clone encoded", &S::dk_bytes(&dk.clone()), &want, info)?;
    same("clone encoded", &S::ek_bytes(&ek.clone()), &want_ek, info)?;
    c.l.nontrivial(&[p.name.as_bytes(), &db]);
    Ok(())
}

/// Single-bit neighbours of an encoding: equality must follow the (canonical) encodings.
fn neighbours<S: Set>(c: &mut Case, byte: usize) -> R {
    let p = &S::P;
    let n = 384 * p.k;
    let mut kr = Rng::new(format!("c06/{}/{}", p.name, c.rng.below(4)).as_bytes());
    let (dk, ek) = S::keygen(&kr.arr(), &kr.arr());
    let (db, eb) = (S::dk_bytes(&dk), S::ek_bytes(&ek));
    for bit in 0..8 {
        let mut b = db.clone();
        b[byte] ^= 1 << bit;
        let info = || format!("ML-KEM-{} decapsulation key with bit {bit} of byte {byte} flipped; dk={}", p.name, hex(&db));
        let mut want = f::canonicalize(&b[..n]);
        want.extend(f::canonicalize(&b[n..2 * n]));
        want.extend_from_slice(&b[2 * n..]);
        let k = S::dk_parse(&b);
        same("decapsulation key parsed and encoded again", &S::dk_bytes(&k), &want, info)?;
        check(equal(&k, &dk)? == (want == db), "equality does not follow the encodings", info)?;
        c.l.count(if want == db { "neighbours_equal" } else { "neighbours_different" }, 1);
        if byte < p.ek_len() {
            let mut b = eb.clone();
            b[byte] ^= 1 << bit;
            let mut want = f::canonicalize(&b[..n]);
            want.extend_from_slice(&b[n..]);
            let info = || format!("ML-KEM-{} encapsulation key with bit {bit} of byte {byte} flipped; ek={}", p.name, hex(&eb));
            let k = S::ek_parse(&b);
            same("encapsulation key parsed and encoded again", &S::ek_bytes(&k), &want, info)?;
            check(equal(&k, &ek)? == (want == eb), "equality does not follow the encodings", info)?;
            let m = c.rng.arr();
            if bit == (byte % 8) as u32 {
                // the parsed key must be the key of exactly those bytes
                let (kk, ct) = f::encaps(p, &want, &m, &mut Stats::default());
                let (ict, ik) = S::encaps(&k, &m);
                same("ciphertext to the parsed key", &ict, &ct, info)?;
                same("secret for the parsed key", &ik, &kk, info)?;
                c.l.count("behaviour_compared", 1);
            }
        }
    }
    c.l.seen(&format!("bytes_{}", p.name), byte as u64);
    c.l.nontrivial(&[p.name.as_bytes(), &byte.to_le_bytes()]);
    Ok(())
}

/// Coefficients raised by q: a different string, the same key.
fn raised<S: Set>(c: &mut Case) -> R {
    let p = &S::P;
    let n = 384 * p.k;
    let r = &mut c.rng;
    // coefficients below 767 can be raised
    let small: Vec<u32> = (0..512 * p.k).map(|_| r.below(767) as u32).collect();
    let mut db = f::encode12(&small);
    db.extend(gen::b32(r));
    db.extend(gen::b32(r));
    db.extend(gen::b32(r));
    let mut up = db.clone();
    let mut raised = small.clone();
    let one = r.chance(1, 2);
    if one {
        let i = r.below(raised.len() as u64) as usize;
        raised[i] += f::Q;
    } else {
        for v in raised.iter_mut() {
            if r.chance(1, 2) {
                *v += f::Q;
            }
        }
    }
    up[..2 * n].copy_from_slice(&f::encode12(&raised));
    let info = || format!("ML-KEM-{} dk={} and a copy with coefficients raised by q", p.name, hex(&db));
    let (a, b) = (S::dk_parse(&db), S::dk_parse(&up));
    same("raised decapsulation key encoded", &S::dk_bytes(&b), &db, info)?;
    check(equal(&a, &b)?, "keys with equal encodings compare different", info)?;
    let (ea, eb) = (S::ek_parse(&db[n..2 * n + 32]), S::ek_parse(&up[n..2 * n + 32]));
    same("raised encapsulation key encoded", &S::ek_bytes(&eb), &db[n..2 * n + 32], info)?;
    check(equal(&ea, &eb)?, "keys with equal encodings compare different", info)?;
    let m = c.rng.arr();
    same_ek::<S>(c, &ea, &eb, &m, &info)?;
    let (k, ct) = f::encaps(p, &db[n..2 * n + 32], &m, &mut Stats::default());
    let (ict, ik) = S::encaps(&eb, &m);
    same("ciphertext to the raised key", &ict, &ct, info)?;
    same("secret for the raised key", &ik, &k, info)?;
    same_dk::<S>(c, &a, &b, &[ct], &info)?;
    c.l.count("raised_by_q", 1);
    c.l.nontrivial(&[p.name.as_bytes(), &up]);
    Ok(())
}

pub fn c06(ctx: &mut Ctx) {
    let ext = gen::extremes();
    let steps: u64 = ctx.n(1, 6);
    ctx.stage("raw-values", 3 * 4096 * steps, |c| {
        let i = c.index / 3;
        let step = [1, 5, 0, 1365, 3329, 2048][(i / 4096) as usize];
        std_set!(c.index, raw_pattern(c, (i % 4096) as u32, step))
    });
    let n = ctx.n(3_000, 300_000);
    ctx.stage("round-trip", n, |c| std_set!(c.index, round_trip(c)));
    let n = ctx.n(6_000, 600_000);
    ctx.stage("arbitrary", n, |c| std_set!(c.index, arbitrary(c, &ext)));
    let n = ctx.n(1_500, 100_000);
    ctx.stage("raised", n, |c| std_set!(c.index, raised(c)));
    let per = (1632 + 2400 + 3168) as u64;
    let n = ctx.n(1, 20);
    ctx.stage("neighbours", n * per, |c| {
        let i = (c.index % per) as usize;
        if i < 1632 {
            neighbours::<S512>(c, i)
        } else if i < 1632 + 2400 {
            neighbours::<S768>(c, i - 1632)
        } else {
            neighbours::<S1024>(c, i - 1632 - 2400)
        }
    });
    for (s, n) in [("512", 1632), ("768", 2400), ("1024", 3168)] {
        ctx.require(&format!("offsets_{s}_1"), 4096);
        ctx.require(&format!("bytes_{s}"), n);
    }
    ctx.require("canonical_strings", 100);
    ctx.require("noncanonical_strings", 100);
    ctx.require("raised_by_q", 100);
}

// ---------------------------------------------------------------- C07

fn drew(t: &Tape, want: usize, what: &str, info: impl Fn() -> String) -> R {
    check(t.used == want, &format!("{what} drew {} bytes, not {want}", t.used), || format!("draws {:?}; {}", t.log, info()))
}

/// One tape: exact consumption, order, meaning, no influence of anything else.
pub fn tape<S: Set>(c: &mut Case) -> R {
    let p = &S::P;
    let (d, z, m) = (gen::b32(&mut c.rng), gen::b32(&mut c.rng), gen::b32(&mut c.rng));
    let info = || format!("ML-KEM-{} d={} z={} m={}", p.name, hex(&d), hex(&z), hex(&m));
    // key generation: d || z || tail
    let tail = c.rng.vec(96);
    let mut t = Tape::new(&[&d[..], &z, &tail].concat());
    let (dk, ek) = S::keygen_rng(&mut t);
    drew(&t, 64, "key generation", info)?;
    for l in &t.log {
        c.l.count(&format!("keygen draw {l:?}"), 1);
    }
    let (mek, mdk) = f::keygen(p, &d, &z, &mut Stats::default());
    let (ddk, dek) = S::keygen(&d, &z);
    same("generated decapsulation key", &S::dk_bytes(&dk), &mdk, info)?;
    same("generated encapsulation key", &S::ek_bytes(&ek), &mek, info)?;
    check(imp(|| ddk == dk && dek == ek), "generated key is not the deterministic one", info)?;
    // encapsulation: m || tail
    let mut t = Tape::new(&[&m[..], &tail].concat());
    let (ct, k) = S::encaps_rng(&ek, &mut t);
    drew(&t, 32, "encapsulation", info)?;
    for l in &t.log {
        c.l.count(&format!("encapsulation draw {l:?}"), 1);
    }
    let (mk, mct) = f::encaps(p, &mek, &m, &mut Stats::default());
    same("ciphertext", &ct, &mct, info)?;
    same("shared secret", &k, &mk, info)?;
    let (dct, dk2) = S::encaps(&ek, &m);
    check(dct == ct && dk2 == k, "encapsulation is not the deterministic one", info)?;
    // the same bytes again, a different tail, on a copy of the key
    let mut t2 = Tape::new(&[&m[..], &c.rng.vec(96)].concat());
    let again = S::encaps_rng(&S::ek_parse(&mek), &mut t2);
    check(again == (ct, k), "bytes beyond the drawn ones influence the encapsulation", info)?;
    c.l.count("tapes", 1);
    c.l.nontrivial(&[p.name.as_bytes(), &d, &z, &m]);
    c.sample(|| format!("{} -> keygen drew 64, encaps drew 32", info()));
    Ok(())
}

/// Every drawn bit matters.
fn every_bit<S: Set>(c: &mut Case, byte: usize) -> R {
    let p = &S::P;
    let mut kr = Rng::new(format!("c07/{}/{}", p.name, c.index / (3 * 96)).as_bytes());
    let base: [u8; 64] = kr.arr();
    let m: [u8; 32] = kr.arr();
    let (dk, ek) = S::keygen_rng(&mut Tape::new(&base));
    let (db, eb) = (S::dk_bytes(&dk), S::ek_bytes(&ek));
    if byte < 64 {
        for bit in 0..8 {
            let mut b = base;
            b[byte] ^= 1 << bit;
            let info = || format!("ML-KEM-{} key generation from {} with bit {bit} of byte {byte} flipped", p.name, hex(&base));
            let (dk2, ek2) = S::keygen_rng(&mut Tape::new(&b));
            let (db2, eb2) = (S::dk_bytes(&dk2), S::ek_bytes(&ek2));
            check(db2 != db, "a drawn bit has no influence on the key", info)?;
            check((eb2 != eb) == (byte < 32), "the encapsulation key depends on z or not on d", info)?;
            if byte < 32 {
                check(db2[..384 * p.k] != db[..384 * p.k], "the secret vector does not depend on a bit of d", info)?;
                check(eb2[p.ek_len() - 32..] != eb[p.ek_len() - 32..], "rho does not depend on a bit of d", info)?;
            }
            let (mek, mdk) =
                f::keygen(p, b[..32].try_into().unwrap(), b[32..].try_into().unwrap(), &mut Stats::default());
            same("generated decapsulation key", &db2, &mdk, info)?;
            same("generated encapsulation key", &eb2, &mek, info)?;
            c.l.count("keygen_bits", 1);
        }
    } else {
        let (ct, k) = S::encaps_rng(&ek, &mut Tape::new(&m));
        for bit in 0..8 {
            let mut b = m;
            b[byte - 64] ^= 1 << bit;
            let info = || format!("ML-KEM-{} encapsulation from {} with bit {bit} of byte {} flipped", p.name, hex(&m), byte - 64);
            let (ct2, k2) = S::encaps_rng(&ek, &mut Tape::new(&b));
            check(ct2 != ct && k2 != k, "a drawn bit has no influence on the encapsulation", info)?;
            let (mk, mct) = f::encaps(p, &eb, &b, &mut Stats::default());
            same("ciphertext", &ct2, &mct, info)?;
            same("shared secret", &k2, &mk, info)?;
            c.l.count("encaps_bits", 1);
        }
    }
    c.l.nontrivial(&[p.name.as_bytes(), &base, &byte.to_le_bytes()]);
    Ok(())
}

/// A long history on one continuing stream: each call uses exactly the next bytes.
fn stream<S: Set>(c: &mut Case) -> R {
    let p = &S::P;
    let mut st = Stream::new(c.rng.clone());
    let mut keys: Vec<(S::Dk, S::Ek, Vec<u8>)> = Vec::new();
    let steps = 12;
    for step in 0..steps {
        let at = st.rec.len();
        let info = |rec: &[u8]| format!("ML-KEM-{} step {step} of a history on one generator, bytes {}", p.name, hex(&rec[at..]));
        if keys.is_empty() || c.rng.chance(1, 3) {
            let (dk, ek) = S::keygen_rng(&mut st);
            let used = st.rec.len() - at;
            check(used == 64, "key generation did not draw 64 bytes", || info(&st.rec))?;
            let d: [u8; 32] = arr32(&st.rec[at..at + 32]);
            let z: [u8; 32] = arr32(&st.rec[at + 32..]);
            let (mek, mdk) = f::keygen(p, &d, &z, &mut Stats::default());
            same("generated decapsulation key", &S::dk_bytes(&dk), &mdk, || info(&st.rec))?;
            same("generated encapsulation key", &S::ek_bytes(&ek), &mek, || info(&st.rec))?;
            keys.push((dk, ek, mek));
            c.l.count("history_keygens", 1);
        } else {
            let i = c.rng.below(keys.len() as u64) as usize;
            let (dk, ek, eb) = &keys[i];
            let (ct, k) = S::encaps_rng(ek, &mut st);
            let used = st.rec.len() - at;
            check(used == 32, "encapsulation did not draw 32 bytes", || info(&st.rec))?;
            let (mk, mct) = f::encaps(p, eb, &arr32(&st.rec[at..]), &mut Stats::default());
            same("ciphertext", &ct, &mct, || info(&st.rec))?;
            same("shared secret", &k, &mk, || info(&st.rec))?;
            // decapsulation draws nothing: it has no generator, and is a function
            check(S::decaps(dk, &ct) == k, "sender and receiver disagree", || info(&st.rec))?;
            c.l.count("history_encapsulations", 1);
        }
    }
    c.l.nontrivial(&[p.name.as_bytes(), &st.rec]);
    c.sample(|| format!("ML-KEM-{}: {steps} operations used {} bytes of one stream without gap or overlap", p.name, st.rec.len()));
    Ok(())
}

pub fn c07(ctx: &mut Ctx) {
    let n = ctx.n(12_000, 600_000);
    ctx.stage("tape", n, |c| std_set!(c.index, tape(c)));
    let n = ctx.n(2, 60);
    ctx.stage("every-bit", n * 3 * 96, |c| std_set!(c.index, every_bit(c, ((c.index / 3) % 96) as usize)));
    let n = ctx.n(3_000, 200_000);
    ctx.stage("stream", n, |c| std_set!(c.index, stream(c)));
    ctx.require("keygen_bits", 3 * 512);
    ctx.require("encaps_bits", 3 * 256);
    ctx.require("history_keygens", 500);
    ctx.require("history_encapsulations", 500);
}
