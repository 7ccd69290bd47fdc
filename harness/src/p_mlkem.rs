//! C01-C05: ML-KEM against the executable specification.

use crate::fw::*;
use crate::gen;
use crate::kemset::*;
use crate::rngs::{Stream, Tape};
use crate::std_set;
use refmodel::fips203::{self as f, Stats};
use refmodel::rng::Rng;

// ---------------------------------------------------------------- C01

pub fn keygen_case<S: Set>(c: &mut Case, d: &[u8; 32], z: &[u8; 32]) -> R {
    let mut st = Stats::default();
    let (ek, dk) = f::keygen(&S::P, d, z, &mut st);
    let info = || format!("ML-KEM-{} keygen d={} z={}", S::P.name, hex(d), hex(z));
    let (idk, iek) = if c.rng.chance(1, 4) {
        c.l.count("keygen_from_generator", 1);
        let mut tape = Tape::new(&[&d[..], &z[..]].concat());
        S::keygen_rng(&mut tape)
    } else {
        S::keygen(d, z)
    };
    same("encapsulation key", &S::ek_bytes(&iek), &ek, info)?;
    same("decapsulation key", &S::dk_bytes(&idk), &dk, info)?;
    same("encapsulation key inside the decapsulation key", &S::ek_bytes(S::ek_ref(&idk)), &ek, info)?;
    c.l.count(&format!("keygen_{}", S::P.name), 1);
    c.l.count("xof_polys", st.polys as u64);
    c.l.count("xof_rejected", st.rejected as u64);
    c.l.count("xof_candidate_eq_q", st.at_q as u64);
    c.l.count("xof_candidate_eq_q_minus_1", st.at_q_minus_1 as u64);
    c.l.count("xof_only_second_candidate", st.only_second as u64);
    c.l.count("xof_second_candidate_dropped", st.dropped_second as u64);
    c.l.max("xof_max_candidates_per_poly", st.max_candidates as u64);
    c.l.max("xof_max_bytes_per_poly", st.max_bytes as u64);
    c.l.nontrivial(&[S::P.name.as_bytes(), d, z]);
    c.sample(|| info() + &format!(" -> ek {}..", hex(&ek[..16])));
    Ok(())
}

pub fn c01(ctx: &mut Ctx) {
    let ext = gen::extremes();
    let n = ctx.n(24_000, 3_000_000);
    ctx.stage("random", n, |c| {
        let (d, z) = (c.rng.arr(), c.rng.arr());
        std_set!(c.index, keygen_case(c, &d, &z))
    });
    let n = ctx.n(3_000, 60_000);
    ctx.stage("structured", n, |c| {
        let (d, z) = (gen::structured32(&mut c.rng), gen::b32(&mut c.rng));
        std_set!(c.index, keygen_case(c, &d, &z))
    });
    ctx.stage("extreme-xof", ext.len() as u64, |c| {
        let e = &ext[c.index as usize];
        let d = gen::extreme_d(e);
        let z = c.rng.arr();
        c.l.max(&format!("extreme_{}", e.feature), e.value as u64);
        std_set!(e.k - 2, keygen_case(c, &d, &z))
    });
    ctx.require("keygen_512", 100);
    ctx.require("keygen_768", 100);
    ctx.require("keygen_1024", 100);
    ctx.require("xof_candidate_eq_q", 10);
    ctx.require("xof_candidate_eq_q_minus_1", 10);
    ctx.require("extreme_candidates", 360);
}

// ---------------------------------------------------------------- C02

fn encaps_case<S: Set>(c: &mut Case, ek: &S::Ek, ekb: &[u8], m: &[u8; 32]) -> R {
    let mut st = Stats::default();
    let (k, ct) = f::encaps(&S::P, ekb, m, &mut st);
    let info = || format!("ML-KEM-{} encaps m={} ek={}", S::P.name, hex(m), hex(ekb));
    let (ict, ik) = if c.rng.chance(1, 4) {
        c.l.count("encaps_from_generator", 1);
        S::encaps_rng(ek, &mut Tape::new(m))
    } else {
        S::encaps(ek, m)
    };
    same("ciphertext", &ict, &ct, info)?;
    same("shared secret", &ik, &k, info)?;
    c.l.count(&format!("encaps_{}", S::P.name), 1);
    c.l.max("xof_max_candidates_per_poly", st.max_candidates as u64);
    c.l.count("xof_candidate_eq_q", st.at_q as u64);
    for v in f::byte_decode(S::P.dv, &ct[S::P.c1_len()..]) {
        c.l.seen(&format!("v_values_{}", S::P.name), u64::from(v));
    }
    for i in 0..S::P.k {
        for v in f::byte_decode(S::P.du, &ct[32 * S::P.du * i..32 * S::P.du * (i + 1)]) {
            c.l.seen(&format!("u_values_{}", S::P.name), u64::from(v));
        }
    }
    c.l.nontrivial(&[S::P.name.as_bytes(), ekb, m]);
    c.sample(|| info()[..120].to_string() + &format!(".. -> K {}", hex(&k)));
    Ok(())
}

pub fn encaps_honest<S: Set>(c: &mut Case) -> R {
    let (d, z) = (gen::b32(&mut c.rng), gen::b32(&mut c.rng));
    let (dk, ek) = S::keygen(&d, &z);
    let b = S::ek_bytes(&ek);
    let ek = match c.rng.below(4) {
        0 => ek,
        1 => S::ek_parse(&b),
        2 => S::ek_ref(&dk).clone(),
        _ => S::ek_ref(&S::dk_parse(&S::dk_bytes(&dk))).clone(),
    };
    // several messages per key
    for _ in 0..4 {
        let m = gen::b32(&mut c.rng);
        encaps_case::<S>(c, &ek, &b, &m)?;
    }
    Ok(())
}

pub fn encaps_adversarial<S: Set>(c: &mut Case, ext: &[gen::Extreme]) -> R {
    let b = gen::adversarial_ek(&mut c.rng, &S::P, ext);
    let ek = S::ek_parse(&b);
    let m = gen::b32(&mut c.rng);
    c.l.count("adversarial_keys", 1);
    encaps_case::<S>(c, &ek, &b, &m)
}

fn encaps_extreme<S: Set>(c: &mut Case, e: &gen::Extreme) -> R {
    let mut b = f::encode12(&gen::coeffs(&mut c.rng, 256 * S::P.k));
    b.extend(gen::extreme_rho(e));
    let ek = S::ek_parse(&b);
    let m = gen::b32(&mut c.rng);
    encaps_case::<S>(c, &ek, &b, &m)
}

pub fn c02(ctx: &mut Ctx) {
    let ext = gen::extremes();
    let n = ctx.n(4_500, 500_000);
    ctx.stage("honest", n, |c| std_set!(c.index, encaps_honest(c)));
    let n = ctx.n(12_000, 1_000_000);
    ctx.stage("adversarial", n, |c| std_set!(c.index, encaps_adversarial(c, &ext)));
    let n = ctx.n(6, 60);
    ctx.stage("extreme-xof", n * ext.len() as u64, |c| {
        let e = &ext[c.index as usize % ext.len()];
        std_set!(e.k - 2, encaps_extreme(c, e))
    });
    for s in ["512", "768", "1024"] {
        ctx.require(&format!("encaps_{s}"), 100);
    }
    ctx.require("u_values_1024", 2048);
    ctx.require("u_values_768", 1024);
    ctx.require("v_values_1024", 32);
    ctx.require("xof_max_candidates_per_poly", 360);
}

// ---------------------------------------------------------------- C03

/// A decapsulation key (bytes) with a ciphertext that decrypts to a chosen message with chosen
/// distances from the rounding boundary, so that it must be accepted.
pub fn steered(r: &mut Rng, p: &f::Params, ext: &[gen::Extreme], edges: bool) -> Option<(Vec<u8>, Vec<u8>, [u8; 32])> {
    let ek = if r.chance(1, 2) {
        f::keygen(p, &r.arr(), &[0; 32], &mut Stats::default()).0
    } else {
        gen::adversarial_ek(r, p, ext)
    };
    let h = if r.chance(1, 2) { f::h(&ek) } else { gen::b32(r) };
    let m = gen::b32(r);
    let (_, rr) = f::g(&[&m[..], &h[..]].concat());
    let ct = f::kpke_encrypt(p, &ek, &m, &rr, &mut Stats::default());
    let w = gen::w_for(r, &m, edges);
    let s = gen::steer_decrypt(r, p, &ct, &w)?;
    let z = gen::b32(r);
    Some((f::concat_dk(&s, &ek, &h, &z), ct, m))
}

fn decaps_case<S: Set>(c: &mut Case, dk: &S::Dk, dkb: &[u8], ct: &[u8]) -> Result<bool, Bad> {
    let want = f::decaps(&S::P, dkb, ct);
    let got = S::decaps(dk, ct);
    let info = || format!("ML-KEM-{} decaps accepted={} ct={} dk={}", S::P.name, want.accepted, hex(ct), hex(dkb));
    same("decapsulated secret", &got, &want.k, info)?;
    c.l.count(if want.accepted { "accepted" } else { "rejected" }, 1);
    c.l.count(&format!("{}_{}", if want.accepted { "accepted" } else { "rejected" }, S::P.name), 1);
    if want.accepted && want.margin == 0 {
        c.l.count("accepted_on_rounding_boundary", 1);
    }
    if !want.accepted {
        c.l.seen("rejected_with_n_differing_bytes", want.diff_bytes as u64);
    }
    c.l.nontrivial(&[S::P.name.as_bytes(), dkb, ct]);
    c.sample(|| format!("ML-KEM-{} ct={}.. accepted={} K={}", S::P.name, hex(&ct[..16]), want.accepted, hex(&got)));
    Ok(want.accepted)
}

/// Ciphertexts around a given one.
fn variants(r: &mut Rng, p: &f::Params, ct: &[u8]) -> Vec<u8> {
    let mut v = ct.to_vec();
    match r.below(9) {
        0 => {
            let i = r.below(v.len() as u64) as usize;
            v[i] ^= 1 << r.below(8);
        }
        1 => {
            for _ in 0..=r.below(8) {
                let i = r.below(v.len() as u64) as usize;
                v[i] ^= r.u64() as u8;
            }
        }
        2 => r.fill(&mut v),
        3 => v = vec![0; p.ct_len()],
        4 => v = vec![0xff; p.ct_len()],
        5 => {
            let n = p.c1_len();
            r.fill(&mut v[n..]);
        }
        6 => {
            let n = p.c1_len();
            r.fill(&mut v[..n]);
        }
        7 => v = (0..p.ct_len()).map(|_| if r.chance(1, 16) { r.u64() as u8 } else { 0 }).collect(),
        _ => {
            let b = r.u64() as u8;
            v = vec![b; p.ct_len()];
        }
    }
    v
}

pub fn decaps_honest<S: Set>(c: &mut Case) -> R {
    let (d, z) = (gen::b32(&mut c.rng), gen::b32(&mut c.rng));
    let (ek, dkb) = f::keygen(&S::P, &d, &z, &mut Stats::default());
    let dk = if c.rng.chance(1, 2) { S::dk_parse(&dkb) } else { S::keygen(&d, &z).0 };
    for _ in 0..2 {
        let m = gen::b32(&mut c.rng);
        let (_, ct) = f::encaps(&S::P, &ek, &m, &mut Stats::default());
        decaps_case::<S>(c, &dk, &dkb, &ct)?;
        let v = variants(&mut c.rng, &S::P, &ct);
        decaps_case::<S>(c, &dk, &dkb, &v)?;
    }
    Ok(())
}

pub fn decaps_noisy<S: Set>(c: &mut Case) -> R {
    let p = &S::P;
    let r = &mut c.rng;
    let b = r.range(6, 14);
    let s: Vec<f::Poly> = (0..p.k).map(|_| gen::small_poly(r, b)).collect();
    let e: Vec<f::Poly> = (0..p.k).map(|_| gen::small_poly(r, b)).collect();
    let (ek, dkb) = f::key_from_noise(p, &s, &e, &gen::b32(r), &r.arr());
    let dk = S::dk_parse(&dkb);
    for _ in 0..3 {
        let m = gen::b32(&mut c.rng);
        let (_, ct) = f::encaps(p, &ek, &m, &mut Stats::default());
        let acc = decaps_case::<S>(c, &dk, &dkb, &ct)?;
        c.l.count(if acc { "noisy_accepted" } else { "noisy_rejected" }, 1);
    }
    Ok(())
}

pub fn decaps_steered<S: Set>(c: &mut Case, ext: &[gen::Extreme], edges: bool) -> R {
    let Some((dkb, ct, _)) = steered(&mut c.rng, &S::P, ext, edges) else {
        c.l.count("steering_impossible", 1);
        return Ok(());
    };
    let dk = S::dk_parse(&dkb);
    let acc = decaps_case::<S>(c, &dk, &dkb, &ct)?;
    assert!(acc, "a steered ciphertext is accepted by construction");
    c.l.count("steered_accepted", 1);
    let v = variants(&mut c.rng, &S::P, &ct);
    decaps_case::<S>(c, &dk, &dkb, &v)?;
    Ok(())
}

pub fn decaps_arbitrary_key<S: Set>(c: &mut Case, ext: &[gen::Extreme]) -> R {
    let p = &S::P;
    let r = &mut c.rng;
    let kind = r.below(4);
    let (dkb, ct) = match kind {
        // raw 12-bit values everywhere
        0 => {
            let mut b = f::encode12(&gen::raw_coeffs(r, 256 * p.k));
            b.extend(f::encode12(&gen::raw_coeffs(r, 256 * p.k)));
            b.extend(gen::b32(r));
            b.extend(r.vec(64));
            let ct = r.vec(p.ct_len());
            (b, ct)
        }
        // a key that would accept, with 12-bit values raised by q where they fit
        1 => match steered(r, p, ext, false) {
            None => return Ok(()),
            Some((dkb, ct, _)) => {
                let n = 384 * p.k;
                let raise = |b: &[u8], r: &mut Rng| {
                    f::encode12(
                        &f::raw12(b)
                            .iter()
                            .map(|&v| if v + f::Q < 4096 && r.chance(1, 2) { v + f::Q } else { v })
                            .collect::<Vec<_>>(),
                    )
                };
                let mut b = raise(&dkb[..n], r);
                b.extend(raise(&dkb[n..2 * n], r));
                b.extend_from_slice(&dkb[2 * n..]);
                (b, ct)
            }
        },
        // an honest key whose stored hash is wrong
        2 => {
            let (ek, mut b) = f::keygen(p, &r.arr(), &r.arr(), &mut Stats::default());
            let n = p.dk_len() - 64 + r.below(32) as usize;
            b[n] ^= 1 << r.below(8);
            let (_, ct) = f::encaps(p, &ek, &gen::b32(r), &mut Stats::default());
            (b, ct)
        }
        // the secret vector of one key with the encapsulation key of another
        _ => {
            let (ek, a) = f::keygen(p, &r.arr(), &r.arr(), &mut Stats::default());
            let (_, mut b) = f::keygen(p, &r.arr(), &r.arr(), &mut Stats::default());
            b[..384 * p.k].copy_from_slice(&a[..384 * p.k]);
            let (_, ct) = f::encaps(p, &ek, &gen::b32(r), &mut Stats::default());
            (b, ct)
        }
    };
    c.l.count("arbitrary_keys", 1);
    let dk = S::dk_parse(&dkb);
    let acc = decaps_case::<S>(c, &dk, &dkb, &ct)?;
    if kind == 1 {
        assert!(acc);
        c.l.count("noncanonical_accepted", 1);
    }
    let v = variants(&mut c.rng, p, &ct);
    decaps_case::<S>(c, &dk, &dkb, &v)?;
    Ok(())
}

pub fn c03(ctx: &mut Ctx) {
    let ext = gen::extremes();
    let n = ctx.n(4_500, 300_000);
    ctx.stage("honest", n, |c| std_set!(c.index, decaps_honest(c)));
    let n = ctx.n(1_500, 100_000);
    ctx.stage("noisy", n, |c| std_set!(c.index, decaps_noisy(c)));
    let n = ctx.n(4_500, 300_000);
    ctx.stage("steered", n, |c| std_set!(c.index, decaps_steered(c, &ext, false)));
    let n = ctx.n(1_500, 100_000);
    ctx.stage("steered-edges", n, |c| std_set!(c.index, decaps_steered(c, &ext, true)));
    let n = ctx.n(4_500, 300_000);
    ctx.stage("arbitrary-key", n, |c| std_set!(c.index, decaps_arbitrary_key(c, &ext)));
    for s in ["512", "768", "1024"] {
        ctx.require(&format!("accepted_{s}"), 100);
        ctx.require(&format!("rejected_{s}"), 100);
    }
    ctx.require("noisy_accepted", 50);
    ctx.require("noisy_rejected", 50);
    ctx.require("accepted_on_rounding_boundary", 500);
    ctx.require("noncanonical_accepted", 100);
}

// ---------------------------------------------------------------- C04

fn any_dk<S: Set>(r: &mut Rng, dk: &S::Dk) -> S::Dk {
    let mut k = dk.clone();
    for _ in 0..r.below(4) {
        k = match r.below(3) {
            0 => k.clone(),
            _ => S::dk_parse(&S::dk_bytes(&k)),
        };
    }
    k
}

fn any_ek<S: Set>(r: &mut Rng, dk: &S::Dk, ek: &S::Ek) -> S::Ek {
    let mut k = match r.below(3) {
        0 => ek.clone(),
        1 => S::ek_ref(dk).clone(),
        _ => S::ek_ref(&any_dk::<S>(r, dk)).clone(),
    };
    for _ in 0..r.below(4) {
        k = match r.below(3) {
            0 => k.clone(),
            _ => S::ek_parse(&S::ek_bytes(&k)),
        };
    }
    k
}

fn agree<S: Set>(c: &mut Case, per_key: u32, d: Option<[u8; 32]>) -> R {
    let mut rng = Stream::new(c.rng.clone());
    let (dk, ek, how) = if let Some(d) = d {
        let z = gen::structured32(&mut c.rng);
        let (dk, ek) = S::keygen(&d, &z);
        (dk, ek, format!("d={} z={}", hex(&d), hex(&z)))
    } else {
        let (dk, ek) = S::keygen_rng(&mut rng);
        let how = format!("d||z={}", hex(&rng.rec[..rng.rec.len().min(64)]));
        (dk, ek, how)
    };
    for _ in 0..per_key {
        let (sdk, sek) = (any_dk::<S>(&mut c.rng, &dk), any_ek::<S>(&mut c.rng, &dk, &ek));
        let at = rng.rec.len();
        let (ct, k) = if c.rng.chance(1, 4) {
            let m = c.rng.arr();
            S::encaps(&sek, &m)
        } else {
            S::encaps_rng(&sek, &mut rng)
        };
        let k2 = S::decaps(&sdk, &ct);
        let m = &rng.rec[at..];
        check(k == k2, "sender and receiver disagree", || {
            format!("ML-KEM-{} {how} m={} ct={} sender={} receiver={}", S::P.name, hex(m), hex(&ct), hex(&k), hex(&k2))
        })?;
        c.l.count("encapsulations", 1);
        c.l.count(&format!("agreed_{}", S::P.name), 1);
        c.l.seen("secrets", u64::from_le_bytes(k[..8].try_into().unwrap()));
        c.l.seen("ciphertexts", u64::from_le_bytes(refmodel::keccak::sha3_256(&ct[..96])[..8].try_into().unwrap()));
        c.l.nontrivial(&[S::P.name.as_bytes(), &ct]);
    }
    c.sample(|| format!("ML-KEM-{} {how}: {per_key} encapsulations agreed", S::P.name));
    Ok(())
}

pub fn c04(ctx: &mut Ctx) {
    let n = ctx.n(12_000, 1_500_000);
    ctx.stage("generated", n, |c| std_set!(c.index, agree(c, 6, None)));
    let n = ctx.n(1_200, 60_000);
    ctx.stage("structured-seeds", n, |c| {
        let d = gen::structured32(&mut c.rng);
        std_set!(c.index, agree(c, 4, Some(d)))
    });
    let ext = gen::extremes();
    ctx.stage("extreme-xof", ext.len() as u64, |c| {
        let e = &ext[c.index as usize];
        let d = gen::extreme_d(e);
        std_set!(e.k - 2, agree(c, 4, Some(d)))
    });
    // Distinct encapsulations have distinct ciphertexts and secrets.
    let want = ctx.total.counts.get("encapsulations").copied().unwrap_or(0);
    for (k, what) in [("secrets", "shared secret"), ("ciphertexts", "ciphertext")] {
        let have = ctx.total.sets.get(k).map_or(0, |s| s.len() as u64);
        if ctx.judging_totals() && have != want {
            ctx.violations.push(Violation {
                stage: "distinct".into(),
                index: 0,
                what: format!("{} of {want} encapsulations repeated a {what}", want - have),
                detail: String::new(),
            });
        }
    }
    ctx.require("encapsulations", 1000);
}

// ---------------------------------------------------------------- C05

struct Tampered<S: Set> {
    dk: S::Dk,
    z: [u8; 32],
    ct: Vec<u8>,
    k: [u8; 32],
    info: String,
}

fn tamper_setup<S: Set>(r: &mut Rng, label: u64) -> Tampered<S> {
    // The same key for all cases of a group, so derive it from the label alone.
    let mut kr = Rng::new(format!("c05/{}/{label}/{}", S::P.name, r.u64()).as_bytes());
    let (d, z, m): ([u8; 32], [u8; 32], [u8; 32]) = (kr.arr(), kr.arr(), kr.arr());
    let (dk, ek) = S::keygen(&d, &z);
    let (ct, k) = S::encaps(&ek, &m);
    let info = format!("ML-KEM-{} d={} z={} m={}", S::P.name, hex(&d), hex(&z), hex(&m));
    Tampered { dk, z, ct, k, info }
}

fn tamper<S: Set>(c: &mut Case, t: &Tampered<S>, ct: &[u8], how: &str) -> R {
    if ct == &t.ct[..] {
        return Ok(());
    }
    let want = f::j(&[&t.z[..], ct].concat());
    let info = || format!("{} {how} ct={}", t.info, hex(ct));
    let got = S::decaps(&t.dk, ct);
    check(got != t.k, "an altered ciphertext decapsulated to the sender's secret", info)?;
    same("implicit rejection secret", &got, &want, info)?;
    if c.rng.chance(1, 8) {
        let again = S::decaps(&t.dk, ct);
        same("repeated implicit rejection", &again, &got, info)?;
        c.l.count("repeated", 1);
    }
    c.l.count(&format!("altered_{}", S::P.name), 1);
    c.l.nontrivial(&[S::P.name.as_bytes(), &t.z, ct]);
    Ok(())
}

fn tamper_byte<S: Set>(c: &mut Case, pos: usize, group: u64) -> R {
    let mut r = Rng::new(&group.to_le_bytes());
    let t = tamper_setup::<S>(&mut r, group);
    if S::decaps(&t.dk, &t.ct) != t.k {
        return bad("the unaltered ciphertext was not accepted", t.info.clone());
    }
    for bit in 0..8 {
        let mut v = t.ct.clone();
        v[pos] ^= 1 << bit;
        tamper::<S>(c, &t, &v, "single bit")?;
        c.l.count("single_bits", 1);
    }
    for _ in 0..3 {
        let mut v = t.ct.clone();
        v[pos] = c.rng.u64() as u8;
        tamper::<S>(c, &t, &v, "single byte")?;
    }
    c.l.seen(&format!("positions_{}", S::P.name), pos as u64);
    c.sample(|| format!("{}: all bits of ciphertext byte {pos} flipped", t.info));
    Ok(())
}

/// Positions (byte, xor mask) whose flip adds little noise: the low bit of one coefficient.
fn quiet_flips(p: &f::Params) -> (Vec<(usize, u8)>, Vec<(usize, u8)>) {
    let low = |d: usize, base: usize, n: usize| -> Vec<(usize, u8)> {
        (0..n).map(|i| (base + i * d / 8, 1u8 << (i * d % 8))).collect()
    };
    (low(p.du, 0, 256 * p.k), low(p.dv, p.c1_len(), 256))
}

fn tamper_patterns<S: Set>(c: &mut Case) -> R {
    let p = &S::P;
    let t = tamper_setup::<S>(&mut c.rng.clone(), c.index);
    let n = t.ct.len();
    let (qu, qv) = quiet_flips(p);
    let pos = |r: &mut Rng| r.below(n as u64) as usize;
    for k in 0..24 {
        let r = &mut c.rng;
        let mut v = t.ct.clone();
        let how = match k % 12 {
            0 => {
                // the same difference in two bytes
                let (a, b, x) = (pos(r), pos(r), 1 + r.below(255) as u8);
                if a != b {
                    v[a] ^= x;
                    v[b] ^= x;
                }
                "equal differences"
            }
            1 => {
                // opposite differences
                let (a, b, x) = (pos(r), pos(r), 1 + r.below(255) as u8);
                if a != b {
                    v[a] = v[a].wrapping_add(x);
                    v[b] = v[b].wrapping_sub(x);
                }
                "opposite differences"
            }
            2 => {
                let (a, b) = (pos(r), pos(r));
                v.swap(a, b);
                "swapped bytes"
            }
            3 => {
                let by = 1 + r.below(n as u64 - 1) as usize;
                v.rotate_left(by);
                "rotated"
            }
            4 => {
                // low-noise flips: decryption still gives the message
                let m = *r.pick(&[2usize, 4, 8, 16, 32, 64, 128]);
                for _ in 0..m {
                    let (i, x) = *r.pick(&qv);
                    v[i] ^= x;
                }
                "low bits of v"
            }
            5 => {
                let m = *r.pick(&[2usize, 4, 8, 16, 32, 64, 128, 256]);
                for _ in 0..m {
                    let (i, x) = *r.pick(&qu);
                    v[i] ^= x;
                }
                "low bits of u"
            }
            6 | 7 => {
                // the same mask in exactly m bytes, all low-noise
                let m = *r.pick(&[2usize, 16, 64, 128, 255, 256, 257]);
                let mask = 1u8;
                let mut c1: Vec<usize> = qu.iter().filter(|q| q.1 == mask).map(|q| q.0).collect();
                let mut c2: Vec<usize> = qv.iter().filter(|q| q.1 == mask).map(|q| q.0).collect();
                c1.dedup();
                c2.dedup();
                let mut all = [c2, c1].concat();
                for i in (1..all.len()).rev() {
                    all.swap(i, r.below(i as u64 + 1) as usize);
                }
                for i in all.iter().take(m) {
                    v[*i] ^= mask;
                }
                "one mask in many bytes"
            }
            8 => {
                // exactly 256 differing bytes
                let mut bytes: Vec<(usize, u8)> = Vec::new();
                for q in qv.iter().chain(qu.iter()) {
                    if !bytes.iter().any(|b| b.0 == q.0) {
                        bytes.push(*q);
                    }
                }
                for i in (1..bytes.len()).rev() {
                    bytes.swap(i, r.below(i as u64 + 1) as usize);
                }
                for (i, x) in bytes.iter().take(256) {
                    v[*i] ^= x;
                }
                "256 differing bytes"
            }
            9 => {
                let a = pos(r);
                let len = 1 + r.below((n - a) as u64) as usize;
                r.fill(&mut v[a..a + len]);
                "random run"
            }
            10 => {
                // half of another ciphertext to the same key
                let ekb = S::ek_bytes(S::ek_ref(&t.dk));
                let (o, _) = S::encaps(&S::ek_parse(&ekb), &r.arr());
                if r.chance(1, 2) {
                    v[..p.c1_len()].copy_from_slice(&o[..p.c1_len()]);
                } else {
                    v[p.c1_len()..].copy_from_slice(&o[p.c1_len()..]);
                }
                "mixed with another ciphertext"
            }
            _ => {
                let x = 1 + r.below(255) as u8;
                v.iter_mut().for_each(|b| *b ^= x);
                "every byte"
            }
        };
        if k < 12 && (4..=8).contains(&(k % 12)) && v != t.ct {
            // How close did it come? Ask the model how many bytes of the re-encryption differ.
            let dkb = S::dk_bytes(&t.dk);
            let d = f::decaps(p, &dkb, &v);
            c.l.seen("rejected_with_n_differing_bytes", d.diff_bytes as u64);
            if d.diff_bytes == 256 {
                c.l.count("rejected_with_256_differing_bytes", 1);
            }
            if d.diff_bytes <= 256 {
                c.l.count("rejected_though_message_decrypted", 1);
            }
        }
        tamper::<S>(c, &t, &v, how)?;
        c.l.count(&format!("pattern: {how}"), 1);
    }
    c.sample(|| format!("{}: 24 patterns", t.info));
    Ok(())
}

pub fn c05(ctx: &mut Ctx) {
    let groups = ctx.n(1, 40);
    let seed = ctx.seed;
    let per = (768 + 1088 + 1568) as u64;
    ctx.stage("every-bit", groups * per, |c| {
        let (g, i) = (c.index / per, (c.index % per) as usize);
        let g = g + 1000 * seed;
        if i < 768 {
            tamper_byte::<S512>(c, i, g)
        } else if i < 768 + 1088 {
            tamper_byte::<S768>(c, i - 768, g)
        } else {
            tamper_byte::<S1024>(c, i - 768 - 1088, g)
        }
    });
    let n = ctx.n(1_500, 200_000);
    ctx.stage("patterns", n, |c| std_set!(c.index, tamper_patterns(c)));
    ctx.require("positions_512", 768);
    ctx.require("positions_768", 1088);
    ctx.require("positions_1024", 1568);
    ctx.require("rejected_though_message_decrypted", 500);
    ctx.require("rejected_with_256_differing_bytes", 20);
}
