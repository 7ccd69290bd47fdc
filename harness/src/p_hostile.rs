//! C11: every operation on hostile bytes, for builds in which something watches: overflow checks,
//! AddressSanitizer, MemorySanitizer. Only crashes, panics and reports count here.

use crate::fw::*;
use crate::gen;
use crate::kemset::*;
use crate::p_dhkem::{Dh, K256, P256, P384, P521, X25519};
use crate::p_xwing as xw;
use crate::rngs::Stream;
use crate::std_set;
use refmodel::fips203 as f;
use refmodel::rng::Rng;

/// 12-bit coefficients at the ends of every range a reduction has to deal with.
const SHAPES: u64 = 16;
fn polys(shape: u64, r: &mut Rng, n: usize) -> Vec<u8> {
    let q = f::Q;
    let v: Vec<u32> = (0..n)
        .map(|i| match shape {
            0 => 0,
            1 => q - 1,
            2 => 4095,
            3 => q,
            4 => [q - 1, 0][i % 2],
            5 => [0, q - 1][i % 2],
            6 => [q - 1, q - 1, 0, 0][i % 4],
            7 => q / 2 + u32::from(i % 2 == 0),
            8 => 4095 - (i as u32 % 767),
            9 => (i as u32 * 1103) % 4096,
            10 => [1, q - 1][i % 2],
            11 => u32::from(i % 256 == 255) * 4095,
            12 => u32::from(i % 256 == 0) * (q - 1),
            13 => *r.pick(&[0, 1, q / 2, q - 2, q - 1, q, 4094, 4095]),
            14 => r.below(u64::from(q)) as u32,
            _ => r.below(4096) as u32,
        })
        .collect();
    f::encode12(&v)
}

fn bytes(shape: u64, r: &mut Rng, n: usize) -> Vec<u8> {
    (0..n)
        .map(|i| match shape % 8 {
            0 => 0,
            1 => 0xff,
            2 => 0xaa,
            3 => 0x55,
            4 => i as u8,
            5 => [0, 0xff][(i / 16) % 2],
            6 => *r.pick(&[0, 1, 0x7f, 0x80, 0xfe, 0xff]),
            _ => r.u64() as u8,
        })
        .collect()
}

fn b32(shape: u64, r: &mut Rng) -> [u8; 32] {
    arr32(&bytes(shape, r, 32))
}

fn mlkem<S: Set>(c: &mut Case, i: u64, ext: &[gen::Extreme]) -> R {
    let p = &S::P;
    let r = &mut c.rng;
    let (sa, sb, sc) = (i % SHAPES, (i / SHAPES) % SHAPES, (i / SHAPES / SHAPES) % 8);
    let mut ekb = polys(sb, r, 256 * p.k);
    ekb.extend(match r.below(4) {
        0 => {
            let e: Vec<&gen::Extreme> = ext.iter().filter(|e| e.k == p.k).collect();
            gen::extreme_rho(e[r.below(e.len() as u64) as usize])
        }
        _ => b32(r.below(8), r),
    });
    let mut dkb = polys(sa, r, 256 * p.k);
    dkb.extend(&ekb);
    dkb.extend(b32(r.below(8), r));
    dkb.extend(b32(r.below(8), r));
    let cb = bytes(sc, r, p.ct_len());
    let m = b32(r.below(8), r);
    let (d, z) = (b32(r.below(8), r), b32(r.below(8), r));

    let ek = S::ek_parse(&ekb);
    let dk = S::dk_parse(&dkb);
    let (e2, d2) = imp(|| (ek.clone(), dk.clone()));
    let _ = (S::ek_bytes(&ek), S::dk_bytes(&dk), S::ek_bytes(S::ek_ref(&dk)));
    let _ = imp(|| (ek == e2, dk == d2, *S::ek_ref(&dk) == ek));
    let (ct, _) = S::encaps(&ek, &m);
    let _ = S::encaps_rng(&e2, &mut Stream::new(Rng::new(&m)));
    let _ = S::encaps(S::ek_ref(&d2), &m);
    for x in [&cb, &ct] {
        let _ = S::decaps(&dk, x);
    }
    let (gd, ge) = S::keygen(&d, &z);
    let _ = S::decaps(&gd, &cb);
    let (ct, _) = S::encaps(&ge, &m);
    let _ = S::decaps(&gd, &ct);
    let _ = S::decaps(&d2, &ct);
    let _ = S::keygen_rng(&mut Stream::new(Rng::new(&d)));
    if i % 16 == 0 {
        let s = imp(|| format!("{dk:?}{ek:?}"));
        c.l.count("debug_output_bytes", s.len() as u64);
    }
    c.l.count("hostile_operations", 20);
    c.l.seen("shape_combinations", (i % (SHAPES * SHAPES * 8)) * 3 + p.k as u64 - 2);
    c.l.nontrivial(&[&dkb, &cb, &m]);
    Ok(())
}

fn xwing(c: &mut Case) -> R {
    let r = &mut c.rng;
    let i = c.index;
    let mut pk = polys(i % SHAPES, r, 768);
    pk.extend(b32(r.below(8), r));
    pk.extend(gen::u_coord(r));
    let mut cb = bytes(i / SHAPES, r, 1088);
    cb.extend(gen::u_coord(r));
    let sk = b32(r.below(8), r);
    let mut seed = [0u8; 64];
    seed.copy_from_slice(&bytes(r.below(8), r, 64));
    let dk = xw::dk(&sk);
    let ek = xw::ek(&pk);
    let ct = xw::ct(&cb);
    let _ = imp(|| (ek.clone() == ek, ct.clone() == ct, xw::ek_bytes(&ek), xw::ct_bytes(&ct)));
    let (c2, _) = xw::encaps(&ek, &seed);
    for x in [&ct, &c2] {
        let _ = imp(|| dk.clone().decapsulate(x).unwrap());
    }
    let e2 = imp(|| dk.encapsulation_key());
    let (c3, _) = xw::encaps(&e2, &seed);
    let _ = xw::decaps(&dk, &c3);
    let (d4, _) = imp(|| x_wing::generate_key_pair(&mut Stream::new(Rng::new(&sk))));
    let _ = xw::decaps(&d4, &ct);
    c.l.count("hostile_operations", 11);
    c.l.nontrivial(&[&sk, &pk, &cb]);
    Ok(())
}

fn dh<D: Dh>(c: &mut Case) -> R {
    let r = &mut c.rng;
    let peer = D::any_peer(r);
    let pk = D::pk(&peer);
    // candidates that are refused, then one that is accepted
    let mut tape = vec![];
    for _ in 0..r.below(4) {
        tape.extend(D::bad_cand(r).unwrap_or_default());
    }
    tape.extend(D::any_cand(r));
    let mut t = crate::rngs::Tape::new(&tape);
    let (dk, ek) = D::keypair(&mut t);
    let _ = D::decaps(&dk, &pk);
    let other = D::Ek::from(pk);
    let mut t = crate::rngs::Tape::new(&tape);
    let (x, _) = D::encaps(&other, &mut t);
    let _ = D::decaps(&dk, &x);
    let mut s = Stream::new(Rng::new(&tape));
    let (x, _) = D::encaps(&ek, &mut s);
    let _ = D::decaps(&dk, &x);
    let _ = imp(|| format!("{other:?}").len() + usize::from(other == ek));
    c.l.count("hostile_operations", 8);
    c.l.nontrivial(&[D::NAME.as_bytes(), &peer, &tape]);
    Ok(())
}

pub fn c11(ctx: &mut Ctx) {
    let ext = gen::extremes();
    let n = ctx.n(12_288, 600_000);
    ctx.stage("hostile-ml-kem", n, |c| {
        let i = c.index;
        std_set!(i, mlkem(c, i / 3, &ext))
    });
    let n = ctx.n(4_096, 200_000);
    ctx.stage("hostile-x-wing", n, xwing);
    let n = ctx.n(4_000, 100_000);
    ctx.stage("hostile-dhkem", n, |c| match c.index % 16 {
        0 => dh::<P521>(c),
        1 | 2 => dh::<P384>(c),
        3..=5 => dh::<P256>(c),
        6..=8 => dh::<K256>(c),
        _ => dh::<X25519>(c),
    });
}
