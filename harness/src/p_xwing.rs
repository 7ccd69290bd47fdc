//! C15-C18: X-Wing.

use crate::fw::*;
use crate::gen;
use crate::kemset::arr32;
use crate::os;
use crate::rngs::{Stream, Tape};
use ::kem::{Decapsulate, Encapsulate};
use refmodel::fips203 as f;
use refmodel::rng::Rng;
use refmodel::{x25519, xwing};
use x_wing::{Ciphertext, DecapsulationKey, EncapsulationKey};

pub fn dk(sk: &[u8; 32]) -> DecapsulationKey {
    imp(|| DecapsulationKey::from(*sk))
}
pub fn ek(b: &[u8]) -> EncapsulationKey {
    let b: &[u8; 1216] = b.try_into().unwrap();
    imp(|| EncapsulationKey::from(b))
}
pub fn ct(b: &[u8]) -> Ciphertext {
    let b: &[u8; 1120] = b.try_into().unwrap();
    imp(|| Ciphertext::from(b))
}
pub fn decaps(k: &DecapsulationKey, c: &Ciphertext) -> [u8; 32] {
    imp(|| k.decapsulate(c).unwrap())
}
pub fn ek_bytes(k: &EncapsulationKey) -> Vec<u8> {
    imp(|| k.as_bytes()).to_vec()
}
pub fn ct_bytes(c: &Ciphertext) -> Vec<u8> {
    imp(|| c.as_bytes()).to_vec()
}
pub fn encaps(k: &EncapsulationKey, seed: &[u8; 64]) -> (Ciphertext, [u8; 32]) {
    imp(|| k.encapsulate(&mut Tape::new(seed)).unwrap())
}

fn eseed(r: &mut Rng) -> [u8; 64] {
    let mut e = [0; 64];
    e[..32].copy_from_slice(&gen::b32(r));
    e[32..].copy_from_slice(&gen::b32(r));
    e
}

fn canonical(ekb: &[u8]) -> Vec<u8> {
    let mut c = f::canonicalize(&ekb[..1152]);
    c.extend_from_slice(&ekb[1152..]);
    c
}

// ---------------------------------------------------------------- C15

fn conform_key(c: &mut Case) -> R {
    let sk = gen::b32(&mut c.rng);
    conform_key_of(c, sk)
}

fn conform_key_of(c: &mut Case, sk: [u8; 32]) -> R {
    let info = || format!("X-Wing sk={}", hex(&sk));
    let e = xwing::expand(&sk);
    let (k, pk) = match c.rng.below(3) {
        0 => {
            let k = dk(&sk);
            let p = imp(|| k.encapsulation_key());
            (k, p)
        }
        1 => imp(|| x_wing::generate_key_pair(&mut Tape::new(&sk))),
        _ => {
            let k = imp(|| DecapsulationKey::generate(&mut Tape::new(&sk)));
            let p = imp(|| k.encapsulation_key());
            (k, p)
        }
    };
    same("encapsulation key", &ek_bytes(&pk), &e.pk(), info)?;
    same("decapsulation key", imp(|| k.as_bytes()), &sk, info)?;
    for _ in 0..2 {
        let es = eseed(&mut c.rng);
        let info = || format!("X-Wing sk={} eseed={}", hex(&sk), hex(&es));
        let (want, wct) = xwing::encaps(&e.pk(), &es);
        let (gct, got) = encaps(&pk, &es);
        same("ciphertext", &ct_bytes(&gct), &wct, info)?;
        same("sender's secret", &got, &want, info)?;
        let got = decaps(&k, &gct);
        same("receiver's secret", &got, &want, info)?;
        c.l.count("honest", 1);
        c.l.nontrivial(&[&sk, &es]);
    }
    c.sample(|| format!("{} pk={}..", info(), hex(&e.pk()[..16])));
    Ok(())
}

fn conform_adversarial_ek(c: &mut Case, ext: &[gen::Extreme]) -> R {
    let r = &mut c.rng;
    let mut b = if r.chance(1, 4) {
        let mut v = f::encode12(&gen::raw_coeffs(r, 768));
        v.extend(gen::b32(r));
        v
    } else {
        gen::adversarial_ek(r, &f::ML_KEM_768, ext)
    };
    b.extend(gen::u_coord(r));
    let es = eseed(r);
    let info = || format!("X-Wing ek={} eseed={}", hex(&b), hex(&es));
    let pk = ek(&b);
    let canon = canonical(&b);
    let (want, wct) = xwing::encaps(&canon, &es);
    let (gct, got) = encaps(&pk, &es);
    same("ciphertext", &ct_bytes(&gct), &wct, info)?;
    same("sender's secret", &got, &want, info)?;
    c.l.count("adversarial_keys", 1);
    if x25519::x25519(&arr32(&es[32..]), &arr32(&b[1184..])) == [0; 32] {
        c.l.count("adversarial_keys_low_order", 1);
    }
    c.l.nontrivial(&[&b, &es]);
    Ok(())
}

fn conform_ct(c: &mut Case) -> R {
    let sk = gen::b32(&mut c.rng);
    let e = xwing::expand(&sk);
    let k = dk(&sk);
    let es = eseed(&mut c.rng);
    let (_, good) = xwing::encaps(&e.pk(), &es);
    for kind in 0..6 {
        let r = &mut c.rng;
        let mut b = good.clone();
        match kind {
            0 => r.fill(&mut b),
            1 => b[1088..].copy_from_slice(&gen::u_coord(r)),
            2 => {
                let i = r.below(1088) as usize;
                b[i] ^= 1 << r.below(8);
            }
            3 => {
                b[..1088].fill(r.u64() as u8);
                b[1088..].copy_from_slice(&gen::u_coord(r));
            }
            4 => b[1088..].copy_from_slice(r.pick(&gen::low_order())),
            _ => {
                let i = 1088 + r.below(32) as usize;
                b[i] ^= 1 << r.below(8);
            }
        }
        let info = || format!("X-Wing sk={} ct={}", hex(&sk), hex(&b));
        let want = xwing::decaps(&e, &b);
        let got = decaps(&k, &ct(&b));
        same("receiver's secret", &got, &want.ss, info)?;
        c.l.count(if want.m_accepted { "ml_kem_accepted" } else { "ml_kem_rejected" }, 1);
        if want.ss_x == [0; 32] {
            c.l.count("x25519_output_zero", 1);
        }
        c.l.nontrivial(&[&sk, &b]);
    }
    Ok(())
}

pub fn c15(ctx: &mut Ctx) {
    let ext = gen::extremes();
    let n = ctx.n(12_000, 600_000);
    ctx.stage("keys", n, conform_key);
    let mined: Vec<[u8; 32]> = ext.iter().filter(|e| e.kind == 'x').map(|e| e.seed).collect();
    ctx.stage("extreme-xof", mined.len() as u64, |c| conform_key_of(c, mined[c.index as usize]));
    let n = ctx.n(12_000, 600_000);
    ctx.stage("adversarial-keys", n, |c| conform_adversarial_ek(c, &ext));
    let n = ctx.n(4_000, 300_000);
    ctx.stage("ciphertexts", n, conform_ct);
    let lo = gen::low_order();
    ctx.stage("low-order", 14 * 4, |c| {
        let u = lo[(c.index % 14) as usize];
        let sk: [u8; 32] = c.rng.arr();
        let e = xwing::expand(&sk);
        let es = eseed(&mut c.rng);
        let (_, mut b) = xwing::encaps(&e.pk(), &es);
        b[1088..].copy_from_slice(&u);
        let want = xwing::decaps(&e, &b);
        assert_eq!(want.ss_x, [0; 32]);
        same("receiver's secret", &decaps(&dk(&sk), &ct(&b)), &want.ss, || format!("X-Wing sk={} ct={}", hex(&sk), hex(&b)))?;
        let mut p = e.pk();
        p[1184..].copy_from_slice(&u);
        let (want, wct) = xwing::encaps(&p, &es);
        let (gct, got) = encaps(&ek(&p), &es);
        same("ciphertext", &ct_bytes(&gct), &wct, || format!("X-Wing ek={} eseed={}", hex(&p), hex(&es)))?;
        same("sender's secret", &got, &want, || format!("X-Wing ek={} eseed={}", hex(&p), hex(&es)))?;
        c.l.count("low_order_points", 1);
        Ok(())
    });
    ctx.require("honest", 1000);
    ctx.require("ml_kem_accepted", 500);
    ctx.require("ml_kem_rejected", 500);
    ctx.require("x25519_output_zero", 100);
    ctx.require("adversarial_keys_low_order", 20);
    ctx.require("low_order_points", 56);
}

// ---------------------------------------------------------------- C16

struct Honest {
    k: DecapsulationKey,
    ct: Vec<u8>,
    ss: [u8; 32],
    info: String,
}

fn honest(label: &[u8]) -> Honest {
    let mut r = Rng::new(label);
    let sk = gen::b32(&mut r);
    let es = eseed(&mut r);
    let k = dk(&sk);
    let pk = imp(|| k.encapsulation_key());
    let (c, ss) = encaps(&pk, &es);
    Honest { k, ct: ct_bytes(&c), ss, info: format!("X-Wing sk={} eseed={}", hex(&sk), hex(&es)) }
}

fn altered(c: &mut Case, h: &Honest, b: &[u8], how: &str) -> R {
    if b == &h.ct[..] {
        return Ok(());
    }
    let x = ct(b);
    let info = || format!("{} {how}, ct={}", h.info, hex(b));
    let got = decaps(&h.k, &x);
    check(got != h.ss, "an altered ciphertext decapsulated to the sender's secret", info)?;
    if c.rng.chance(1, 8) {
        same("repeated decapsulation", &decaps(&h.k, &ct(b)), &got, info)?;
        c.l.count("repeated", 1);
    }
    c.l.seen("secrets_of_altered", u64::from_le_bytes(got[..8].try_into().unwrap()));
    c.l.count("altered", 1);
    c.l.nontrivial(&[h.info.as_bytes(), b]);
    Ok(())
}

fn u_plus_p(u: &[u8]) -> Option<[u8; 32]> {
    // u + 2^255 - 19 if u < 19
    if u[1..].iter().any(|b| *b != 0) || u[0] >= 19 {
        return None;
    }
    let mut a = [0xff; 32];
    a[0] = 0xed + u[0];
    a[31] = 0x7f;
    Some(a)
}

fn patterns(c: &mut Case) -> R {
    let mut h = honest(format!("c16/{}", c.rng.u64()).as_bytes());
    check(decaps(&h.k, &ct(&h.ct)) == h.ss, "sender and receiver disagree", || h.info.clone())?;
    for i in 0..16 {
        let r = &mut c.rng;
        let mut b = h.ct.clone();
        let how = match i % 8 {
            0 => {
                b[1119] ^= 0x80;
                "the X25519 bit that is masked"
            }
            1 => {
                let (i, j, x) = (r.below(1120) as usize, r.below(1120) as usize, 1 + r.below(255) as u8);
                if i != j {
                    b[i] ^= x;
                    b[j] ^= x;
                }
                "equal differences in two bytes"
            }
            2 => {
                let n = 1 + r.below(1119) as usize;
                b.rotate_left(n);
                "rotated"
            }
            3 => {
                b[1088..].copy_from_slice(&gen::u_coord(r));
                "another X25519 part"
            }
            4 => {
                r.fill(&mut b[..1088]);
                "another ML-KEM part"
            }
            5 => {
                let es = eseed(r);
                let pk = imp(|| h.k.encapsulation_key());
                let o = ct_bytes(&encaps(&pk, &es).0);
                if r.chance(1, 2) {
                    b[..1088].copy_from_slice(&o[..1088]);
                } else {
                    b[1088..].copy_from_slice(&o[1088..]);
                }
                "a part of another ciphertext"
            }
            6 => {
                // low-noise change of v: the message still decrypts
                for _ in 0..1 + r.below(16) {
                    let i = 960 + r.below(128) as usize;
                    b[i] ^= *r.pick(&[1u8, 16]);
                }
                "low bits of v"
            }
            _ => {
                let x = 1 + r.below(255) as u8;
                b.iter_mut().for_each(|y| *y ^= x);
                "every byte"
            }
        };
        altered(c, &h, &b, how)?;
        c.l.count(&format!("pattern: {how}"), 1);
    }
    // X25519 ciphertexts that have a second, non-canonical encoding: the ML-KEM part stays honest
    let mut small = [0u8; 32];
    small[0] = c.rng.below(19) as u8;
    let mut b = h.ct.clone();
    b[1088..].copy_from_slice(&small);
    h.ss = decaps(&h.k, &ct(&b));
    h.ct = b.clone();
    b[1088..].copy_from_slice(&u_plus_p(&small).unwrap());
    altered(c, &h, &b, "u + p")?;
    c.l.count("pattern: u + p", 1);
    c.sample(|| format!("{}: 17 alterations, none gave the sender's secret", h.info));
    Ok(())
}

fn agreement(c: &mut Case) -> R {
    let mut st = Stream::new(c.rng.clone());
    let (k, pk) = imp(|| x_wing::generate_key_pair(&mut st));
    for i in 0..4 {
        let pk2 = match i {
            0 => pk.clone(),
            1 => ek(&ek_bytes(&pk)),
            2 => imp(|| k.clone().encapsulation_key()),
            _ => imp(|| dk(k.as_bytes()).encapsulation_key()),
        };
        let (x, ss) = imp(|| pk2.encapsulate(&mut st).unwrap());
        let k2 = if c.rng.chance(1, 2) { k.clone() } else { dk(k.as_bytes()) };
        let x2 = match c.rng.below(3) {
            0 => x.clone(),
            _ => ct(&ct_bytes(&x)),
        };
        let got = decaps(&k2, &x2);
        check(got == ss, "sender and receiver disagree", || {
            format!("X-Wing provenance {i} stream={} sender={} receiver={}", hex(&st.rec), hex(&ss), hex(&got))
        })?;
        c.l.count("agreed", 1);
        c.l.seen("secrets", u64::from_le_bytes(ss[..8].try_into().unwrap()));
        c.l.nontrivial(&[&ct_bytes(&x)]);
    }
    Ok(())
}

pub fn c16(ctx: &mut Ctx) {
    let n = ctx.n(8_000, 600_000);
    ctx.stage("agreement", n, agreement);
    if ctx.judging_totals() {
        let (a, s) = (ctx.total.counts["agreed"], ctx.total.sets["secrets"].len() as u64);
        if a != s {
            ctx.violations.push(Violation {
                stage: "distinct".into(),
                index: 0,
                what: format!("{} of {a} encapsulations repeated a shared secret", a - s),
                detail: String::new(),
            });
        }
    }
    let seed = ctx.seed;
    let n = ctx.n(1, 30);
    ctx.stage("every-bit", n * 1120, |c| {
        let h = honest(format!("c16/bits/{seed}/{}", c.index / 1120).as_bytes());
        let pos = (c.index % 1120) as usize;
        if pos == 0 {
            check(decaps(&h.k, &ct(&h.ct)) == h.ss, "sender and receiver disagree", || h.info.clone())?;
        }
        for bit in 0..8 {
            let mut b = h.ct.clone();
            b[pos] ^= 1 << bit;
            altered(c, &h, &b, "one bit")?;
            c.l.count("single_bits", 1);
        }
        c.l.seen("byte_positions", pos as u64);
        Ok(())
    });
    let n = ctx.n(1_500, 150_000);
    ctx.stage("patterns", n, patterns);
    ctx.require("agreed", 1000);
    ctx.require("byte_positions", 1120);
    ctx.require("single_bits", 8960);
}

// ---------------------------------------------------------------- C17

fn encodings(c: &mut Case) -> R {
    // ciphertexts: every string
    let r = &mut c.rng;
    let b = if r.chance(1, 8) { vec![r.u64() as u8; 1120] } else { r.vec(1120) };
    let x = ct(&b);
    let info = || format!("X-Wing ct={}", hex(&b));
    same("ciphertext parsed and encoded again", &ct_bytes(&x), &b, info)?;
    check(imp(|| x == ct(&b) && x.clone() == x && !(x != ct(&b))), "ciphertexts with equal encodings compare different", info)?;
    same("cloned ciphertext encoded", &ct_bytes(&x.clone()), &b, info)?;
    let mut b2 = b.clone();
    let pos = (c.index % 1120) as usize;
    for bit in 0..8 {
        b2[pos] ^= 1 << bit;
        check(imp(|| x != ct(&b2) && !(x == ct(&b2))), "ciphertexts with different encodings compare equal", || {
            format!("{} and byte {pos} bit {bit} flipped", info())
        })?;
        same("ciphertext parsed and encoded again", &ct_bytes(&ct(&b2)), &b2, info)?;
        b2[pos] ^= 1 << bit;
    }
    c.l.seen("ciphertext_bytes_flipped", pos as u64);
    // decapsulation keys
    let sk = gen::b32(&mut c.rng);
    let k = dk(&sk);
    same("decapsulation key encoded", imp(|| k.as_bytes()), &sk, || format!("X-Wing sk={}", hex(&sk)))?;
    same("cloned decapsulation key encoded", imp(|| k.clone()).as_bytes(), &sk, || format!("X-Wing sk={}", hex(&sk)))?;
    // encapsulation keys
    let r = &mut c.rng;
    let canonical_coeffs = r.chance(1, 2);
    let mut eb =
        f::encode12(&if canonical_coeffs { gen::coeffs(r, 768) } else { gen::raw_coeffs(r, 768) });
    eb.extend(gen::b32(r));
    eb.extend(gen::u_coord(r));
    let want = canonical(&eb);
    let info = || format!("X-Wing ek={}", hex(&eb));
    let e = ek(&eb);
    same("encapsulation key parsed and encoded again", &ek_bytes(&e), &want, info)?;
    if want == eb {
        c.l.count("canonical_keys", 1);
    } else {
        c.l.count("noncanonical_keys", 1);
    }
    check(imp(|| e == ek(&want) && !(e != ek(&want)) && e.clone() == e), "encapsulation keys with equal encodings compare different", info)?;
    let pos = (c.index % 1216) as usize;
    for bit in 0..8 {
        let mut b2 = eb.clone();
        b2[pos] ^= 1 << bit;
        let w2 = canonical(&b2);
        let e2 = ek(&b2);
        same("encapsulation key parsed and encoded again", &ek_bytes(&e2), &w2, info)?;
        check(imp(|| (e == e2) == (w2 == want) && (e != e2) == (w2 != want)), "equality does not follow the encodings", || {
            format!("{} and byte {pos} bit {bit} flipped", info())
        })?;
    }
    c.l.seen("key_bytes_flipped", pos as u64);
    c.l.count("encodings", 1);
    c.l.nontrivial(&[&b, &eb, &sk]);
    Ok(())
}

/// Parsed objects behave as the originals.
fn behaves(c: &mut Case) -> R {
    let sk = gen::b32(&mut c.rng);
    let es = eseed(&mut c.rng);
    let info = || format!("X-Wing sk={} eseed={}", hex(&sk), hex(&es));
    let (k, pk) = imp(|| x_wing::generate_key_pair(&mut Tape::new(&sk)));
    let b = ek_bytes(&pk);
    let model = xwing::expand(&sk);
    same("ML-KEM part of the encapsulation key", &b[..1184], &model.ek_m, info)?;
    same("X25519 part of the encapsulation key", &b[1184..], &model.pk_x, info)?;
    let pk2 = ek(&b);
    check(imp(|| pk == pk2), "parsed encapsulation key differs", info)?;
    let (x, ss) = encaps(&pk, &es);
    let (x2, ss2) = encaps(&pk2, &es);
    check(imp(|| x == x2) && ss == ss2, "parsed encapsulation key behaves differently", info)?;
    let xb = ct_bytes(&x);
    same("X25519 part of the ciphertext", &xb[1088..], &x25519::base(&arr32(&es[32..])), info)?;
    let k2 = dk(k.as_bytes());
    let want = decaps(&k, &x);
    check(want == ss, "sender and receiver disagree", info)?;
    check(decaps(&k2, &x) == want && decaps(&k, &ct(&xb)) == want, "parsed key or ciphertext behaves differently", info)?;
    same("encapsulation key of a parsed decapsulation key", &ek_bytes(&imp(|| k2.encapsulation_key())), &b, info)?;
    // two different keys are different
    let mut sk2 = sk;
    sk2[c.rng.below(32) as usize] ^= 1 << c.rng.below(8);
    let o = imp(|| dk(&sk2).encapsulation_key());
    check(imp(|| o != pk) && ek_bytes(&o) != b, "different decapsulation keys have the same encapsulation key", info)?;
    // arbitrary ciphertexts through a round trip
    let a = c.rng.vec(1120);
    check(decaps(&k, &ct(&a)) == decaps(&k2, &ct(&ct_bytes(&ct(&a)))), "parsed key or ciphertext behaves differently", info)?;
    c.l.count("behaviour_compared", 1);
    c.l.nontrivial(&[&sk, &es]);
    c.sample(info);
    Ok(())
}

pub fn c17(ctx: &mut Ctx) {
    if x_wing::ENCAPSULATION_KEY_SIZE != 1216 || x_wing::DECAPSULATION_KEY_SIZE != 32 || x_wing::CIPHERTEXT_SIZE != 1120 {
        ctx.violations.push(Violation { stage: "sizes".into(), index: 0, what: "a size constant is wrong".into(), detail: String::new() });
    }
    let n = ctx.n(9_728, 600_000);
    ctx.stage("encodings", n, encodings);
    let n = ctx.n(4_000, 300_000);
    ctx.stage("behaviour", n, behaves);
    ctx.require("ciphertext_bytes_flipped", 1120);
    ctx.require("key_bytes_flipped", 1216);
    ctx.require("canonical_keys", 100);
    ctx.require("noncanonical_keys", 100);
}

// ---------------------------------------------------------------- C18

fn rng_tape(c: &mut Case) -> R {
    let sk = gen::b32(&mut c.rng);
    let es = eseed(&mut c.rng);
    let tail = c.rng.vec(64);
    let info = || format!("X-Wing sk={} eseed={}", hex(&sk), hex(&es));
    let mut t = Tape::new(&[&sk[..], &tail].concat());
    let k = if c.rng.chance(1, 2) {
        imp(|| DecapsulationKey::generate(&mut t))
    } else {
        imp(|| x_wing::generate_key_pair(&mut t)).0
    };
    check(t.used == 32, &format!("key generation drew {} bytes, not 32", t.used), || format!("{:?} {}", t.log, info()))?;
    same("decapsulation key", imp(|| k.as_bytes()), &sk, info)?;
    let pk = imp(|| k.encapsulation_key());
    let mut t = Tape::new(&[&es[..], &tail].concat());
    let (x, ss) = imp(|| pk.encapsulate(&mut t).unwrap());
    check(t.used == 64, &format!("encapsulation drew {} bytes, not 64", t.used), || format!("{:?} {}", t.log, info()))?;
    for d in &t.log {
        c.l.count(&format!("encapsulation draw {d:?}"), 1);
    }
    let (want, wct) = xwing::encaps(&xwing::expand(&sk).pk(), &es);
    same("ciphertext", &ct_bytes(&x), &wct, info)?;
    same("shared secret", &ss, &want, info)?;
    c.l.count("tapes", 1);
    c.l.nontrivial(&[&sk, &es]);
    c.sample(info);
    Ok(())
}

fn rng_bits(c: &mut Case) -> R {
    let byte = (c.index % 96) as usize;
    let mut r = Rng::new(format!("c18/{}", c.index / 96).as_bytes());
    let sk: [u8; 32] = r.arr();
    let es: [u8; 64] = r.arr();
    let (k, pk) = imp(|| x_wing::generate_key_pair(&mut Tape::new(&sk)));
    if byte < 32 {
        for bit in 0..8 {
            let mut b = sk;
            b[byte] ^= 1 << bit;
            let (k2, pk2) = imp(|| x_wing::generate_key_pair(&mut Tape::new(&b)));
            let info = || format!("X-Wing key generation from {} and byte {byte} bit {bit} flipped", hex(&sk));
            let (a, d) = (ek_bytes(&pk), ek_bytes(&pk2));
            check(k.as_bytes() != k2.as_bytes() && a[..1152] != d[..1152] && a[1184..] != d[1184..], "a drawn bit has no influence", info)?;
            c.l.count("keygen_bits", 1);
        }
    } else {
        let at = byte - 32;
        let (x, ss) = encaps(&pk, &es);
        let a = ct_bytes(&x);
        for bit in 0..8 {
            let mut b = es;
            b[at] ^= 1 << bit;
            let (x2, ss2) = encaps(&pk, &b);
            let info = || format!("X-Wing encapsulation from {} and byte {at} bit {bit} flipped, sk={}", hex(&es), hex(&sk));
            let d = ct_bytes(&x2);
            // clamping discards five bits of the X25519 scalar
            let clamped = (at == 32 && bit < 3) || (at == 63 && bit >= 6);
            if at < 32 {
                check(ss2 != ss && a[..1088] != d[..1088] && a[1088..] == d[1088..], "a drawn bit does not influence exactly its part", info)?;
            } else if clamped {
                check(ss2 == ss && a == d, "a bit that clamping discards has an influence", info)?;
                c.l.count("clamped_bits", 1);
            } else {
                check(ss2 != ss && a[..1088] == d[..1088] && a[1088..] != d[1088..], "a drawn bit does not influence exactly its part", info)?;
            }
            c.l.count("encaps_bits", 1);
        }
    }
    c.l.nontrivial(&[&sk, &es, &byte.to_le_bytes()]);
    Ok(())
}

fn rng_stream(c: &mut Case) -> R {
    let mut st = Stream::new(c.rng.clone());
    let mut keys: Vec<([u8; 32], EncapsulationKey)> = Vec::new();
    for step in 0..10 {
        let at = st.rec.len();
        if keys.is_empty() || c.rng.chance(1, 3) {
            let (k, pk) = imp(|| x_wing::generate_key_pair(&mut st));
            let info = || format!("X-Wing step {step} stream={}", hex(&st.rec));
            check(st.rec.len() - at == 32, "key generation did not draw 32 bytes", info)?;
            same("decapsulation key", k.as_bytes(), &st.rec[at..], info)?;
            keys.push((arr32(&st.rec[at..]), pk));
        } else {
            let (sk, pk) = &keys[c.rng.below(keys.len() as u64) as usize];
            let (x, ss) = imp(|| pk.encapsulate(&mut st).unwrap());
            let info = || format!("X-Wing step {step} sk={} stream={}", hex(sk), hex(&st.rec));
            check(st.rec.len() - at == 64, "encapsulation did not draw 64 bytes", info)?;
            let (want, wct) = xwing::encaps(&xwing::expand(sk).pk(), st.rec[at..].try_into().unwrap());
            same("ciphertext", &ct_bytes(&x), &wct, info)?;
            same("shared secret", &ss, &want, info)?;
        }
        c.l.count("history_steps", 1);
    }
    c.l.nontrivial(&[&st.rec]);
    Ok(())
}

/// Keys from the operating system are the bytes it delivered, fresh each time.
fn os_keys(c: &mut Case) -> R {
    let pair = c.index % 2 == 0;
    os::arm(os::Mode::Record);
    let k = if pair {
        imp(x_wing::generate_key_pair_from_os_rng).0
    } else {
        imp(DecapsulationKey::generate_from_os_rng)
    };
    let rec = os::disarm();
    let sk = *imp(|| k.as_bytes());
    let info = || format!("X-Wing key {} after the OS delivered {}", hex(&sk), hex(&rec.bytes));
    check(rec.bytes.len() == 32, &format!("{} bytes were taken from the operating system, not 32", rec.bytes.len()), info)?;
    same("decapsulation key", &sk, &rec.bytes, info)?;
    c.l.count("os_keys", 1);
    c.l.count("os_calls", rec.calls as u64);
    c.l.seen("os_keys_distinct", u64::from_le_bytes(sk[..8].try_into().unwrap()));
    // a scripted OS: the key is a function of what it delivers
    let script: [u8; 32] = gen::b32(&mut c.rng);
    os::arm(os::Mode::Script(script.to_vec()));
    let (k, pk) = if pair {
        imp(x_wing::generate_key_pair_from_os_rng)
    } else {
        let k = imp(DecapsulationKey::generate_from_os_rng);
        let p = imp(|| k.encapsulation_key());
        (k, p)
    };
    os::disarm();
    same("decapsulation key", imp(|| k.as_bytes()), &script, || format!("X-Wing, OS scripted to {}", hex(&script)))?;
    same("encapsulation key", &ek_bytes(&pk), &xwing::expand(&script).pk(), || format!("X-Wing, OS scripted to {}", hex(&script)))?;
    c.l.count("os_scripted", 1);
    c.l.nontrivial(&[&script]);
    c.sample(|| format!("key from the OS: {} bytes in {} calls, all used", rec.bytes.len(), rec.calls));
    Ok(())
}

pub fn c18(ctx: &mut Ctx) {
    let n = ctx.n(8_000, 600_000);
    ctx.stage("tape", n, rng_tape);
    let n = ctx.n(4, 200);
    ctx.stage("every-bit", n * 96, rng_bits);
    let n = ctx.n(800, 60_000);
    ctx.stage("stream", n, rng_stream);
    let n = ctx.n(3_000, 100_000);
    ctx.stage("operating-system", n, os_keys);
    if ctx.judging_totals() {
        let (a, s) = (ctx.total.counts["os_keys"], ctx.total.sets["os_keys_distinct"].len() as u64);
        if a != s {
            ctx.violations.push(Violation {
                stage: "distinct".into(),
                index: 0,
                what: format!("{} of {a} keys from the operating system repeated", a - s),
                detail: String::new(),
            });
        }
    }
    ctx.require("keygen_bits", 256);
    ctx.require("encaps_bits", 512);
    ctx.require("clamped_bits", 5);
    ctx.require("history_steps", 500);
    ctx.require("os_scripted", 100);
}
