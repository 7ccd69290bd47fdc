//! C12: operations on shared keys, concurrently and in long histories.

use crate::fw::*;
use crate::gen;
use crate::kemset::*;
use crate::p_dhkem::{Dh, X25519, K256, P256, P384, P521};
use crate::p_xwing as xw;
use crate::preempt::{preempted, How};
use crate::std_set;
use ml_kem::array::Array;
use rand_core::{CryptoRng, Error, RngCore};
use refmodel::rng::Rng;
use std::collections::HashMap;
use std::marker::PhantomData;
use std::sync::{Arc, Barrier};
use std::time::Instant;

/// Shared whatever its type says; whether the type says so is checked on its own.
struct Shared<T>(T);
unsafe impl<T> Send for Shared<T> {}
unsafe impl<T> Sync for Shared<T> {}
impl<T> Shared<T> {
    fn get(&self) -> &T {
        &self.0
    }
}
fn share<T>(t: T) -> Arc<Shared<T>> {
    Arc::new(Shared(t))
}

/// What happens while an operation waits for its generator.
pub struct Perturb<'a> {
    rng: Rng,
    world: Option<&'a World>,
    depth: u32,
    /// panic at this draw
    fail: Option<u32>,
    draws: u32,
    pokes: u64,
    nested: u64,
    wrong: Option<String>,
}

impl<'a> Perturb<'a> {
    fn calm(seed: u64) -> Self {
        Perturb { rng: Rng::case(seed, "C12", "calm", 0), world: None, depth: 0, fail: None, draws: 0, pokes: 0, nested: 0, wrong: None }
    }
    fn poke(&mut self) {
        self.draws += 1;
        if self.fail == Some(self.draws) {
            std::panic::resume_unwind(Box::new("the generator failed"));
        }
        let Some(w) = self.world else { return };
        self.pokes += 1;
        match self.rng.below(8) {
            0 => std::thread::yield_now(),
            1 => (0..self.rng.below(3000)).for_each(|_| std::hint::spin_loop()),
            2 => std::thread::sleep(std::time::Duration::from_micros(self.rng.below(120))),
            3 | 4 if self.depth < 2 => {
                // another operation, on the same keys, in the middle of this one
                let i = self.rng.below(w.ops.len() as u64) as usize;
                let d = std::mem::replace(&mut self.draws, 0);
                let f = self.fail.take();
                self.depth += 1;
                let got = (w.ops[i].run)(self);
                self.depth -= 1;
                self.draws = d;
                self.fail = f;
                self.nested += 1;
                if got != w.ops[i].want {
                    self.wrong.get_or_insert(format!("{} inside another operation", w.ops[i].name));
                }
            }
            _ => {}
        }
    }
}

/// A generator that serves a tape and lets things happen meanwhile.
struct Busy<'a, 'b> {
    tape: Vec<u8>,
    at: usize,
    p: &'a mut Perturb<'b>,
}
impl<'a, 'b> Busy<'a, 'b> {
    fn new(tape: &[u8], p: &'a mut Perturb<'b>) -> Self {
        Busy { tape: tape.to_vec(), at: 0, p }
    }
}
impl RngCore for Busy<'_, '_> {
    fn next_u32(&mut self) -> u32 {
        let mut b = [0; 4];
        self.fill_bytes(&mut b);
        u32::from_le_bytes(b)
    }
    fn next_u64(&mut self) -> u64 {
        let mut b = [0; 8];
        self.fill_bytes(&mut b);
        u64::from_le_bytes(b)
    }
    fn fill_bytes(&mut self, dest: &mut [u8]) {
        callback(|| {
            let h = dest.len() / 2;
            for (i, x) in dest.iter_mut().enumerate() {
                *x = self.tape[self.at % self.tape.len()];
                self.at += 1;
                if i == h {
                    self.p.poke();
                }
            }
        })
    }
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), Error> {
        self.fill_bytes(dest);
        Ok(())
    }
}
impl CryptoRng for Busy<'_, '_> {}

type Run = Box<dyn Fn(&mut Perturb) -> Vec<u8> + Send + Sync>;
pub struct Op {
    name: String,
    kind: u32,
    key: u32,
    run: Run,
    want: Vec<u8>,
    draws: bool,
}
/// Keys and the operations on them, with the results they give alone.
#[derive(Default)]
pub struct World {
    ops: Vec<Op>,
    kinds: Vec<&'static str>,
}

impl World {
    /// Operations that draw randomness have their tape in `run`.
    fn add(&mut self, key: u32, kind: &'static str, draws: bool, run: impl Fn(&mut Perturb) -> Vec<u8> + 'static) {
        struct Force<F>(F);
        unsafe impl<F> Send for Force<F> {}
        unsafe impl<F> Sync for Force<F> {}
        impl<F: Fn(&mut Perturb) -> Vec<u8>> Force<F> {
            fn call(&self, p: &mut Perturb) -> Vec<u8> {
                (self.0)(p)
            }
        }
        let k = match self.kinds.iter().position(|x| *x == kind) {
            Some(k) => k,
            None => {
                self.kinds.push(kind);
                self.kinds.len() - 1
            }
        };
        let f = Force(run);
        self.ops.push(Op { name: format!("{kind} on key {key}"), kind: k as u32, key, run: Box::new(move |p| f.call(p)), want: vec![], draws });
    }
    /// Run everything alone, in order.
    fn settle(&mut self) {
        for i in 0..self.ops.len() {
            let w = (self.ops[i].run)(&mut Perturb::calm(0));
            self.ops[i].want = w;
        }
    }
}

fn cat(parts: &[&[u8]]) -> Vec<u8> {
    parts.concat()
}

/// ML-KEM keys that are easy to confuse.
fn mlkem_world<S: Set>(r: &mut Rng, w: &mut World) {
    let p = &S::P;
    let (d, z): ([u8; 32], [u8; 32]) = (r.arr(), r.arr());
    let (dk, _) = S::keygen(&d, &z);
    let base = S::dk_bytes(&dk);
    let (n, e) = (p.dk_len(), p.ek_len());
    let mut keys = vec![base.clone()];
    for i in 0..7 {
        let mut b = base.clone();
        let (s, t, rho, h) = (n - 64 - e, n - 64 - e, n - 64 - 32, n - 64);
        match i {
            0 => b[n - 1] ^= 1,                          // z
            1 => b[n - 32] ^= 0x80,                      // z
            2 => b[rho + 31] ^= 1,                       // rho, last byte
            3 => b[rho] ^= 1,                            // rho, first byte
            4 => b[t + 384 * (p.k - 1)] ^= 1,            // last polynomial of t
            5 => b[s - 384] ^= 1,                        // last polynomial of s
            _ => b[h] ^= 1,                              // h
        }
        keys.push(b);
    }
    let first = w.kinds.len() as u32 * 100;
    for (i, kb) in keys.iter().enumerate() {
        let key = first + i as u32;
        let dk = share(S::dk_parse(kb));
        let ekb = kb[n - 64 - e..n - 64].to_vec();
        let ek = share(S::ek_parse(&ekb));
        let m: [u8; 32] = r.arr();
        let (ct, _) = S::encaps(ek.get(), &m);
        let mut bad = ct.clone();
        let j = r.below(bad.len() as u64) as usize;
        bad[j] ^= 1 << r.below(8);
        {
            let ek = ek.clone();
            w.add(key, "encapsulate", true, move |q| {
                let (c, k) = S::encaps_rng(ek.get(), &mut Busy::new(&m, q));
                cat(&[&c, &k])
            });
        }
        {
            let ek = ek.clone();
            w.add(key, "encapsulate_deterministic", false, move |_| {
                let (c, k) = S::encaps(ek.get(), &m);
                cat(&[&c, &k])
            });
        }
        for (kind, c) in [("decapsulate", ct.clone()), ("decapsulate altered", bad.clone())] {
            let dk = dk.clone();
            w.add(key, kind, false, move |_| S::decaps(dk.get(), &c).to_vec());
        }
        {
            let (dk, ek) = (dk.clone(), ek.clone());
            w.add(key, "encode", false, move |_| {
                cat(&[&S::dk_bytes(dk.get()), &S::ek_bytes(ek.get()), &S::ek_bytes(S::ek_ref(dk.get()))])
            });
        }
        {
            let (dk, ek, bad) = (dk.clone(), ek.clone(), bad.clone());
            w.add(key, "clone, use, drop", true, move |q| {
                let (d2, e2) = imp(|| (dk.get().clone(), ek.get().clone()));
                let (c, k) = S::encaps_rng(&e2, &mut Busy::new(&m, q));
                let k2 = S::decaps(&d2, &bad);
                cat(&[&c, &k, &k2])
            });
        }
        {
            let (dk, ek, kb) = (dk.clone(), ek.clone(), kb.clone());
            w.add(key, "parse and compare", false, move |_| {
                let d2 = S::dk_parse(&kb);
                let e2 = S::ek_parse(&ekb);
                imp(|| vec![u8::from(d2 == *dk.get()), u8::from(*ek.get() == e2), u8::from(*S::ek_ref(dk.get()) == e2)])
            });
        }
        if i < 3 {
            let seeds = [r.arr::<32>(), r.arr::<32>()].concat();
            w.add(key, "generate", true, move |q| {
                let (d, e) = S::keygen_rng(&mut Busy::new(&seeds, q));
                cat(&[&S::dk_bytes(&d), &S::ek_bytes(&e)])
            });
            let (d, z) = (if i == 0 { d } else { r.arr() }, z);
            w.add(key, "generate_deterministic", false, move |_| {
                let (d, e) = S::keygen(&d, &z);
                cat(&[&S::dk_bytes(&d), &S::ek_bytes(&e)])
            });
        }
    }
    // decapsulation of one key's ciphertexts by the others
    let m: [u8; 32] = r.arr();
    let (c, _) = S::encaps(S::ek_ref(&dk), &m);
    for (i, kb) in keys.iter().enumerate() {
        let dk = share(S::dk_parse(kb));
        let c = c.clone();
        w.add(first + i as u32, "decapsulate another's", false, move |_| S::decaps(dk.get(), &c).to_vec());
    }
}

fn xwing_world(r: &mut Rng, w: &mut World) {
    let base: [u8; 32] = r.arr();
    for i in 0..3u32 {
        let mut s = base;
        match i {
            0 => {}
            1 => s[31] ^= 1,
            _ => s[0] ^= 1,
        }
        let key = 9000 + i;
        let dk = share(xw::dk(&s));
        let ek = share(imp(|| dk.get().encapsulation_key()));
        let es: [u8; 64] = r.arr();
        let (c, _) = xw::encaps(ek.get(), &es);
        let cb = xw::ct_bytes(&c);
        let mut bad = cb.clone();
        bad[r.below(1120) as usize] ^= 1 << r.below(8);
        {
            let ek = ek.clone();
            w.add(key, "x-wing encapsulate", true, move |q| {
                let (c, k) = imp(|| ek.get().encapsulate(&mut Busy::new(&es, q)).unwrap());
                cat(&[&xw::ct_bytes(&c), &k])
            });
        }
        for (kind, b) in [("x-wing decapsulate", cb.clone()), ("x-wing decapsulate altered", bad)] {
            let dk = dk.clone();
            let c = share(xw::ct(&b));
            w.add(key, kind, false, move |_| cat(&[&xw::decaps(dk.get(), c.get()), &xw::ct_bytes(c.get())]));
        }
        {
            let (dk, ek) = (dk.clone(), ek.clone());
            w.add(key, "x-wing encode, compare", false, move |_| {
                let e = imp(|| dk.get().encapsulation_key());
                cat(&[&xw::ek_bytes(&e), dk.get().as_bytes(), &[u8::from(imp(|| e == *ek.get()))]])
            });
        }
        {
            let seed: [u8; 32] = r.arr();
            w.add(key, "x-wing generate", true, move |q| {
                let (d, e) = imp(|| x_wing::generate_key_pair(&mut Busy::new(&seed, q)));
                cat(&[d.as_bytes(), &xw::ek_bytes(&e)])
            });
        }
    }
}

fn dh_world<D: Dh>(r: &mut Rng, w: &mut World, key: u32, kinds: [&'static str; 3]) {
    for i in 0..2 {
        let tape = D::any_cand(r);
        let (dk, ek) = D::keypair(&mut Busy::new(&tape, &mut Perturb::calm(0)));
        let (dk, ek) = (share(dk), share(ek));
        let peer = share(D::pk(&D::any_peer(r)));
        let eph = D::any_cand(r);
        {
            let (ek, eph) = (ek.clone(), eph.clone());
            w.add(key + i, kinds[0], true, move |q| {
                let (p, s) = D::encaps(ek.get(), &mut Busy::new(&eph, q));
                cat(&[&D::pk_bytes(&p), &s])
            });
        }
        {
            let (dk, peer) = (dk.clone(), peer.clone());
            w.add(key + i, kinds[1], false, move |_| D::decaps(dk.get(), peer.get()));
        }
        w.add(key + i, kinds[2], true, move |q| {
            let (d, e) = D::keypair(&mut Busy::new(&tape, q));
            cat(&[&D::pk_bytes(&D::inner(&e)), &D::decaps(&d, peer.get())])
        });
    }
}

fn world(which: u64, r: &mut Rng) -> World {
    let mut w = World::default();
    let (a, b) = (&mut *r, &mut w);
    match which % 6 {
        0 | 1 | 2 => std_set!(which % 6, mlkem_world(a, b)),
        3 => xwing_world(a, b),
        4 => {
            dh_world::<X25519>(a, b, 9100, ["x25519 encapsulate", "x25519 decapsulate", "x25519 generate"]);
            dh_world::<P256>(a, b, 9200, ["p256 encapsulate", "p256 decapsulate", "p256 generate"]);
            dh_world::<K256>(a, b, 9300, ["k256 encapsulate", "k256 decapsulate", "k256 generate"]);
            if which % 4 == 0 {
                dh_world::<P384>(a, b, 9400, ["p384 encapsulate", "p384 decapsulate", "p384 generate"]);
                dh_world::<P521>(a, b, 9500, ["p521 encapsulate", "p521 decapsulate", "p521 generate"]);
            }
        }
        _ => {
            // everything together
            mlkem_world::<S512>(a, b);
            mlkem_world::<S768>(a, b);
            mlkem_world::<S1024>(a, b);
            xwing_world(a, b);
            dh_world::<X25519>(a, b, 9100, ["x25519 encapsulate", "x25519 decapsulate", "x25519 generate"]);
        }
    }
    w.settle();
    w
}

/// One completed call.
struct Event {
    thread: u32,
    op: u32,
    start: u64,
    end: u64,
    got: Option<Vec<u8>>,
}

fn concurrent(c: &mut Case, per: u64) -> R {
    let w = world(c.index, &mut c.rng);
    let n = 2 + c.rng.below(7) as u32;
    // few or many operations to choose from: contention on one key, or everything at once
    let pool: Vec<usize> = {
        let m = if c.rng.chance(1, 2) { 2 + c.rng.below(4) } else { w.ops.len() as u64 };
        (0..m).map(|_| c.rng.below(w.ops.len() as u64) as usize).collect()
    };
    let t0 = Instant::now();
    let barrier = Barrier::new(n as usize);
    let seeds: Vec<u64> = (0..n).map(|_| c.rng.u64()).collect();
    let mut logs: Vec<(Vec<Event>, u64, u64, Option<String>, Option<String>)> = vec![];
    std::thread::scope(|s| {
        let hs: Vec<_> = (0..n)
            .map(|t| {
                let (w, pool, barrier, seed) = (&w, &pool, &barrier, seeds[t as usize]);
                std::thread::Builder::new()
                    .stack_size(16 << 20)
                    .spawn_scoped(s, move || {
                        let mut p = Perturb { world: Some(w), ..Perturb::calm(seed) };
                        let mut log = Vec::with_capacity(per as usize);
                        let mut died = None;
                        barrier.wait();
                        for _ in 0..per {
                            let i = pool[p.rng.below(pool.len() as u64) as usize];
                            if p.rng.chance(1, 4) {
                                (0..p.rng.below(2000)).for_each(|_| std::hint::spin_loop());
                            }
                            let start = t0.elapsed().as_nanos() as u64;
                            p.draws = 0;
                            let got = match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (w.ops[i].run)(&mut p))) {
                                Ok(g) => g,
                                Err(_) => {
                                    died = Some(format!("{} panicked: {}", w.ops[i].name, last_panic().0));
                                    break;
                                }
                            };
                            let end = t0.elapsed().as_nanos() as u64;
                            log.push(Event { thread: t, op: i as u32, start, end, got: (got != w.ops[i].want).then_some(got) });
                        }
                        (log, p.pokes, p.nested, p.wrong, died)
                    })
                    .unwrap()
            })
            .collect();
        for h in hs {
            logs.push(h.join().unwrap());
        }
    });
    // the recorded history, offline
    let mut all: Vec<Event> = vec![];
    for (log, pokes, nested, wrong, died) in logs {
        c.l.count("operations", log.len() as u64);
        c.l.count("perturbations_inside_operations", pokes);
        c.l.count("operations_nested_in_others", nested);
        if let Some(d) = died {
            return bad("an operation on a shared key panicked, which it does not do alone", d);
        }
        if let Some(x) = wrong {
            return bad("an operation gave another result than alone", x);
        }
        all.extend(log);
    }
    for e in &all {
        if let Some(g) = &e.got {
            let o = &w.ops[e.op as usize];
            return bad(
                "an operation gave another result than alone",
                format!("{} in thread {} of {n}: got {}; alone {}", o.name, e.thread, hex(g), hex(&o.want)),
            );
        }
    }
    // keys unchanged
    for o in &w.ops {
        let g = (o.run)(&mut Perturb::calm(1));
        if g != o.want {
            return bad("after the threads ended, an operation gives another result than before", o.name.clone());
        }
    }
    all.sort_by_key(|e| e.start);
    let mut sig = Vec::with_capacity(all.len() * 2);
    for (i, e) in all.iter().enumerate() {
        sig.push(e.thread as u8);
        sig.push(e.op as u8);
        for f in &all[i + 1..] {
            if f.start >= e.end {
                break;
            }
            if f.thread != e.thread {
                c.l.count("overlapping_pairs", 1);
                let (a, b) = (&w.ops[e.op as usize], &w.ops[f.op as usize]);
                if a.key == b.key {
                    c.l.count("overlapping_pairs_on_one_key", 1);
                    let (x, y) = (a.kind.min(b.kind), a.kind.max(b.kind));
                    c.l.seen("kinds_overlapped_on_one_key", u64::from(c.index % 6 == 5) << 40 | (c.index % 6) << 32 | u64::from(x) << 16 | u64::from(y));
                }
            }
        }
    }
    c.l.nontrivial(&[&sig, &c.index.to_le_bytes()]);
    c.l.seen("distinct_interleavings", {
        let mut h = 0xcbf29ce484222325u64;
        sig.iter().for_each(|b| h = (h ^ u64::from(*b)).wrapping_mul(0x100000001b3));
        h
    });
    c.l.max("threads", u64::from(n));
    let k = w.kinds.len();
    c.sample(|| format!("{n} threads x {per} operations of {k} kinds: all results as alone"));
    Ok(())
}

/// Random histories on one thread, with failures among the calls.
fn history(c: &mut Case, len: u64) -> R {
    let w = world(c.index, &mut c.rng);
    let mut p = Perturb { world: Some(&w), ..Perturb::calm(c.rng.u64()) };
    let mut trace: Vec<u8> = vec![];
    let mut last: Option<usize> = None;
    for step in 0..len {
        // often again what was done just before, or before that
        let i = match last {
            Some(l) if p.rng.chance(1, 3) => l,
            _ => p.rng.below(w.ops.len() as u64) as usize,
        };
        last = Some(i);
        let o = &w.ops[i];
        trace.push(i as u8);
        p.draws = 0;
        p.fail = None;
        if o.draws && p.rng.chance(1, 5) {
            // its generator fails: this call dies, nothing else changes
            p.fail = Some(1 + p.rng.below(2) as u32);
            let died = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (o.run)(&mut p))).is_err();
            p.fail = None;
            c.l.count(if died { "calls_that_failed_midway" } else { "calls" }, 1);
            trace.push(0xff);
            continue;
        }
        let got = (o.run)(&mut p);
        c.l.count("calls", 1);
        if got != o.want {
            return bad(
                "an operation gave another result than alone",
                format!("{} as call {step} of a history: got {}; alone {}", o.name, hex(&got), hex(&o.want)),
            );
        }
        if let Some(x) = p.wrong.take() {
            return bad("an operation gave another result than alone", x);
        }
    }
    c.l.nontrivial(&[&trace, &c.index.to_le_bytes()]);
    Ok(())
}

/// One operation over and over.
fn again(c: &mut Case, times: u64) -> R {
    let w = world(c.index % 4, &mut c.rng);
    let which = (c.index / 4) as usize;
    // one operation of each kind
    let mut by_kind: HashMap<u32, usize> = HashMap::new();
    for (i, o) in w.ops.iter().enumerate() {
        by_kind.entry(o.kind).or_insert(i);
    }
    let Some(&i) = by_kind.get(&(which as u32)) else { return Ok(()) };
    let o = &w.ops[i];
    let mut p = Perturb::calm(1);
    for t in 0..times {
        let got = (o.run)(&mut p);
        if got != o.want {
            return bad("repeating a call gave another result", format!("{} the {}th time: got {}; first {}", o.name, t + 2, hex(&got), hex(&o.want)));
        }
    }
    c.l.count("repetitions", times);
    c.l.max("repetitions_of_one_call", times);
    c.l.nontrivial(&[o.name.as_bytes(), &(c.index % 4).to_le_bytes()]);
    Ok(())
}

#[inline(never)]
fn stained(v: u8, depth: usize) -> u8 {
    let mut a = [v; 4096];
    std::hint::black_box(&mut a);
    if depth > 0 {
        return stained(v, depth - 1).wrapping_add(a[depth]);
    }
    a[17]
}
#[inline(never)]
fn deeper(n: usize, f: &mut dyn FnMut()) {
    let mut a = [0u8; 1021];
    std::hint::black_box(&mut a);
    if n == 0 {
        f()
    } else {
        deeper(n - 1, f)
    }
    std::hint::black_box(&mut a);
}

/// The same call from different surroundings.
fn surroundings(c: &mut Case) -> R {
    let w = world(c.index % 5, &mut c.rng);
    for o in &w.ops {
        let mut got: Vec<(String, Vec<u8>)> = vec![];
        for v in [0x00, 0xff, 0x5a, c.rng.u64() as u8] {
            std::hint::black_box(stained(v, 40));
            got.push((format!("stack full of {v:02x}"), (o.run)(&mut Perturb::calm(2))));
        }
        let d = 1 + c.rng.below(200) as usize;
        deeper(d, &mut || got.push((format!("{d} frames down"), (o.run)(&mut Perturb::calm(3)))));
        std::thread::scope(|s| {
            let g = s.spawn(|| (o.run)(&mut Perturb::calm(4))).join();
            got.push(("a thread of its own".into(), g.unwrap_or_default()));
        });
        // while unwinding
        struct OnDrop<'a>(&'a Op, &'a mut Vec<(String, Vec<u8>)>);
        impl Drop for OnDrop<'_> {
            fn drop(&mut self) {
                let g = (self.0.run)(&mut Perturb::calm(5));
                self.1.push(("during unwinding".into(), g));
            }
        }
        let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            let _x = OnDrop(o, &mut got);
            std::panic::resume_unwind(Box::new(()));
        }));
        for (how, g) in got {
            c.l.count("surroundings", 1);
            if g != o.want {
                return bad("an operation depends on its surroundings", format!("{} from {how}: got {}; before {}", o.name, hex(&g), hex(&o.want)));
            }
        }
        c.l.nontrivial(&[o.name.as_bytes(), &o.want]);
    }
    Ok(())
}

/// Byte strings at every alignment.
fn alignment<S: Set>(c: &mut Case) -> R {
    let (d, z): ([u8; 32], [u8; 32]) = (c.rng.arr(), c.rng.arr());
    let (dk, ek) = S::keygen(&d, &z);
    let m: [u8; 32] = c.rng.arr();
    let (ct, ss) = S::encaps(&ek, &m);
    let (dkb, ekb) = (S::dk_bytes(&dk), S::ek_bytes(&ek));
    let mut room = vec![0u8; dkb.len() + ekb.len() + ct.len() + 256];
    for off in 0..17usize {
        let (a, b, e) = (off, off + dkb.len() + off % 5, off + dkb.len() + off % 5 + ekb.len() + off % 3);
        let fill = c.rng.u64() as u8;
        room.fill(fill);
        room[a..a + dkb.len()].copy_from_slice(&dkb);
        room[b..b + ekb.len()].copy_from_slice(&ekb);
        room[e..e + ct.len()].copy_from_slice(&ct);
        let before = room.clone();
        let d2 = imp(|| S::Dk::from_bytes(<&ml_kem::Encoded<S::Dk>>::try_from(&room[a..a + dkb.len()]).unwrap()));
        let e2 = imp(|| S::Ek::from_bytes(<&ml_kem::Encoded<S::Ek>>::try_from(&room[b..b + ekb.len()]).unwrap()));
        let k = imp(|| d2.decapsulate(<&ml_kem::Ciphertext<S::K>>::try_from(&room[e..e + ct.len()]).unwrap()).unwrap());
        let (c3, k3) = imp(|| e2.encapsulate_deterministic(&Array(m)).unwrap());
        c.l.count("alignments", 1);
        check(k.as_slice() == ss && c3.as_slice() == ct && k3.as_slice() == ss, "an operation depends on the alignment of its input", || format!("offset {off}"))?;
        check(room == before, "an operation changed its input", || format!("offset {off}"))?;
        check(S::dk_bytes(&d2) == dkb && S::ek_bytes(&e2) == ekb, "an operation changed its key", || format!("offset {off}"))?;
    }
    Ok(())
}

/// An operation stopped at arbitrary points, others on the same keys running to their end meanwhile.
fn stopped(c: &mut Case, step: bool) -> R {
    let w = world(c.index, &mut c.rng);
    let runs = if step { 2 } else { 30 };
    for _ in 0..runs {
        let i = c.rng.below(w.ops.len() as u64) as usize;
        let a = &w.ops[i];
        let how = if step {
            let every = *c.rng.pick(&[61, 251, 509, 1021]);
            How::Step { gap: c.rng.below(6_000), first: c.rng.below(every), every, most: 150_000 }
        } else {
            // the curves take long
            How::Signal { gap: c.rng.below(if a.key >= 9200 { 20_000 } else { 50 }) }
        };
        let near: Vec<usize> = (0..w.ops.len()).filter(|j| w.ops[*j].kind == a.kind || w.ops[*j].key == a.key).collect();
        let (mut r, mut wrong) = (Rng::new(&c.rng.arr::<16>()), None);
        let o = preempted(
            || (a.run)(&mut Perturb::calm(6)),
            how,
            |_| {
                let j = if r.chance(2, 3) { *r.pick(&near) } else { r.below(w.ops.len() as u64) as usize };
                let b = &w.ops[j];
                match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (b.run)(&mut Perturb::calm(7)))) {
                    Ok(g) if g == b.want => {}
                    Ok(g) => wrong = Some(format!("{} while {} was stopped: got {}; alone {}", b.name, a.name, hex(&g), hex(&b.want))),
                    Err(_) => wrong = Some(format!("{} panicked while {} was stopped: {}", b.name, a.name, last_panic().0)),
                }
            },
        );
        c.l.count("stops_inside_operations", o.pauses);
        c.l.count("single_steps", o.steps);
        c.l.count("stops_given_up", o.late);
        c.l.max("stops_in_one_operation", o.pauses);
        if let Some(x) = wrong {
            return bad("an operation gave another result than alone", x);
        }
        match &o.got {
            Some(g) if *g == a.want => {}
            Some(g) => return bad("an operation gave another result than alone", format!("{}, stopped {} times: got {}; alone {}", a.name, o.pauses, hex(g), hex(&a.want))),
            None => return bad("an operation on a shared key panicked, which it does not do alone", format!("{}, stopped {} times", a.name, o.pauses)),
        }
        c.l.nontrivial(&[a.name.as_bytes(), &o.pauses.to_le_bytes(), &o.steps.to_le_bytes(), &c.index.to_le_bytes()]);
    }
    Ok(())
}

const FRESH: u64 = 17;
/// An operation that needs nothing but bytes, so that it can be the first of a process.
fn fresh(kind: u64, v: u64) -> Vec<u8> {
    fn set<S: Set>(what: u64, r: &mut Rng) -> Vec<u8> {
        match what {
            0 => {
                let (d, e) = S::keygen(&r.arr(), &r.arr());
                cat(&[&S::dk_bytes(&d), &S::ek_bytes(&e)])
            }
            1 => {
                let (c, k) = S::encaps(&S::ek_parse(&r.vec(S::P.ek_len())), &r.arr());
                cat(&[&c, &k])
            }
            _ => {
                let d = S::dk_parse(&r.vec(S::P.dk_len()));
                S::decaps(&d, &r.vec(S::P.ct_len())).to_vec()
            }
        }
    }
    fn dh<D: Dh>(r: &mut Rng) -> Vec<u8> {
        let (t, p) = (D::any_cand(r), D::any_peer(r));
        let (d, e) = D::keypair(&mut Busy::new(&t, &mut Perturb::calm(0)));
        cat(&[&D::pk_bytes(&D::inner(&e)), &D::decaps(&d, &D::pk(&p))])
    }
    let r = &mut Rng::case(v, "C12", "fresh", kind);
    match kind {
        0..=8 => std_set!(kind / 3, set(kind % 3, r)),
        9 => {
            let seed: [u8; 32] = r.arr();
            let (d, e) = imp(|| x_wing::generate_key_pair(&mut Busy::new(&seed, &mut Perturb::calm(0))));
            cat(&[d.as_bytes(), &xw::ek_bytes(&e)])
        }
        10 => {
            let (c, k) = xw::encaps(&xw::ek(&r.vec(1216)), &r.arr());
            cat(&[&xw::ct_bytes(&c), &k])
        }
        11 => xw::decaps(&xw::dk(&r.arr()), &xw::ct(&r.vec(1120))).to_vec(),
        12 => dh::<X25519>(r),
        13 => dh::<P256>(r),
        14 => dh::<K256>(r),
        15 => dh::<P384>(r),
        _ => dh::<P521>(r),
    }
}
fn fresh_caught(kind: u64, v: u64) -> Vec<u8> {
    std::panic::catch_unwind(|| fresh(kind, v)).unwrap_or_else(|_| b"panic".to_vec())
}

/// `mon first-use SEED,MODE,KIND,FIRST,EVERY,GAP`: what the first operations of this process gave.
pub fn first_use(spec: &str) {
    let s: Vec<u64> = spec.split(',').map(|x| x.parse().unwrap()).collect();
    let (seed, mode, kind, first, every, gap) = (s[0], s[1], s[2], s[3], s[4], s[5]);
    std::panic::set_hook(Box::new(|_| {}));
    let mut r = Rng::case(seed, "C12", "first-use", 0);
    let mut all: HashMap<(u64, u64, Vec<u8>), u64> = HashMap::new();
    let mut stops = 0;
    let other = |r: &mut Rng| {
        let k = match r.below(6) {
            0..=2 => kind,
            3 | 4 if kind < 9 => kind / 3 * 3 + r.below(3),
            _ => r.below(12),
        };
        (k, r.below(4))
    };
    if mode == 0 {
        // all threads at once, most with the same operation
        let n = 2 + r.below(5) as usize;
        let plans: Vec<Vec<(u64, u64)>> = (0..n).map(|i| (0..6).map(|j| if j == 0 && i < 3 { (kind, i as u64) } else { other(&mut r) }).collect()).collect();
        let at = std::sync::atomic::AtomicUsize::new(0);
        let got: Vec<Vec<(u64, u64, Vec<u8>)>> = std::thread::scope(|sc| {
            let hs: Vec<_> = plans
                .iter()
                .map(|p| {
                    let at = &at;
                    std::thread::Builder::new()
                        .stack_size(16 << 20)
                        .spawn_scoped(sc, move || {
                            at.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                            while at.load(std::sync::atomic::Ordering::SeqCst) < n {
                                std::hint::spin_loop();
                            }
                            p.iter().map(|(k, v)| (*k, *v, fresh_caught(*k, *v))).collect()
                        })
                        .unwrap()
                })
                .collect();
            hs.into_iter().map(|h| h.join().unwrap()).collect()
        });
        got.into_iter().flatten().for_each(|x| *all.entry(x).or_default() += 1);
    } else {
        let how = if mode == 1 { How::Step { gap, first, every, most: 300_000 } } else { How::Signal { gap: every } };
        let o = preempted(
            || fresh(kind, 0),
            how,
            |_| {
                let (k, v) = other(&mut r);
                *all.entry((k, v, fresh_caught(k, v))).or_default() += 1;
            },
        );
        *all.entry((kind, 0, o.got.unwrap_or(b"panic".to_vec()))).or_default() += 1;
        stops = o.pauses;
    }
    let mut all: Vec<_> = all.into_iter().collect();
    all.sort();
    for ((k, v, g), n) in all {
        println!("R {k} {v} {n} ={}", hex(&refmodel::keccak::sha3_256(&g)));
    }
    println!("DONE {stops}");
}

fn first_use_case(c: &mut Case, mode: u64) -> R {
    use std::sync::OnceLock;
    static WANT: OnceLock<Vec<Vec<String>>> = OnceLock::new();
    let want = WANT.get_or_init(|| (0..FRESH).map(|k| (0..4).map(|v| hex(&refmodel::keccak::sha3_256(&fresh(k, v)))).collect()).collect());
    let r = &mut c.rng;
    // the curves are long to step through
    let kind = if mode == 1 { c.index % 12 } else { c.index % FRESH };
    let every = match mode {
        1 => *r.pick(&[127, 251, 509, 1021]),
        _ => r.below(if kind > 12 { 20_000 } else { 50 }),
    };
    let spec = format!("{},{mode},{kind},{},{every},{}", r.u64() >> 1, r.below(every.max(1)), if r.chance(1, 2) { 0 } else { r.below(6_000) });
    let out = std::process::Command::new(std::env::current_exe().unwrap()).arg("first-use").arg(&spec).output().unwrap();
    let text = String::from_utf8_lossy(&out.stdout).to_string();
    if !out.status.success() {
        return bad("a process that just started does not survive its first operations", format!("first-use {spec}: {:?} {}", out.status, String::from_utf8_lossy(&out.stderr)));
    }
    let mut done = false;
    for l in text.lines() {
        let w: Vec<&str> = l.split(' ').collect();
        if w[0] == "DONE" {
            done = true;
            c.l.count("stops_inside_first_operations", w[1].parse().unwrap());
            continue;
        }
        let (k, v, n): (usize, usize, u64) = (w[1].parse().unwrap(), w[2].parse().unwrap(), w[3].parse().unwrap());
        c.l.count("first_operations", n);
        c.l.seen("first_operation_kinds", k as u64 * 4 + mode);
        if w[4].trim_start_matches('=') != want[k][v] {
            return bad("an operation among the first of a process gave another result than later", format!("first-use {spec}: kind {k} input {v}, {n} times"));
        }
    }
    assert!(done, "no answer: {text}");
    c.l.count("fresh_processes", 1);
    c.l.nontrivial(&[spec.as_bytes()]);
    Ok(())
}

struct Probe<T>(PhantomData<T>);
trait Unshared {
    fn shareable(&self) -> bool {
        false
    }
}
impl<T> Unshared for &Probe<T> {}
impl<T: Send + Sync> Probe<T> {
    fn shareable(&self) -> bool {
        true
    }
}

fn types() -> R {
    macro_rules! each {
        ($($t:ty),*) => { $( check((&Probe::<$t>(PhantomData)).shareable(), "keys cannot be shared between threads any more", || stringify!($t).into())?; )* };
    }
    each!(
        ml_kem::kem::DecapsulationKey<ml_kem::MlKem512Params>,
        ml_kem::kem::EncapsulationKey<ml_kem::MlKem512Params>,
        ml_kem::kem::DecapsulationKey<ml_kem::MlKem768Params>,
        ml_kem::kem::EncapsulationKey<ml_kem::MlKem768Params>,
        ml_kem::kem::DecapsulationKey<ml_kem::MlKem1024Params>,
        ml_kem::kem::EncapsulationKey<ml_kem::MlKem1024Params>,
        x_wing::DecapsulationKey,
        x_wing::EncapsulationKey,
        x_wing::Ciphertext,
        <dhkem::X25519Kem as dhkem::DhKem>::DecapsulatingKey,
        <dhkem::X25519Kem as dhkem::DhKem>::EncapsulatingKey,
        <dhkem::NistP256Kem as dhkem::DhKem>::DecapsulatingKey,
        <dhkem::NistP256Kem as dhkem::DhKem>::EncapsulatingKey
    );
    // the probe itself tells the two apart
    if (&Probe::<std::rc::Rc<u8>>(PhantomData)).shareable() {
        panic!("the probe for Sync is blind");
    }
    Ok(())
}

pub fn c12(ctx: &mut Ctx) {
    ctx.stage("types", 1, |_| types());
    let (n, per) = (ctx.n(240, 24_000), if ctx.thorough { 200 } else { 80 });
    ctx.stage_threads("concurrent", n, 2, |c| concurrent(c, per));
    let (n, len) = (ctx.n(360, 36_000), if ctx.thorough { 600 } else { 250 });
    ctx.stage("history", n, |c| history(c, len));
    let n = ctx.n(60, 3_000);
    ctx.stage("surroundings", n, surroundings);
    let n = ctx.n(24, 2_400);
    ctx.stage("alignment", n, |c| std_set!(c.index, alignment(c)));
    let times = ctx.n(70_000, 1_200_000) / if std::env::var_os("MON_SANITIZED").is_some() { 50 } else { 1 };
    ctx.stage("again", 40, |c| again(c, times));
    let sanitized = std::env::var_os("MON_SANITIZED").is_some();
    let n = ctx.n(2_000, 60_000) / if sanitized { 8 } else { 1 };
    ctx.stage_threads("first-use", n, 3, |c| first_use_case(c, 0));
    if !sanitized {
        // these deliver signals, which the sanitizers defer
        let n = ctx.n(800, 24_000);
        ctx.stage_threads("first-use-stopped", n, 4, |c| first_use_case(c, 2));
        let n = ctx.n(60, 3_600);
        ctx.stage_threads("first-use-stepped", n, 4, |c| first_use_case(c, 1));
        let n = ctx.n(120, 12_000);
        ctx.stage_threads("stopped", n, 4, |c| stopped(c, false));
        let n = ctx.n(20, 2_000);
        ctx.stage_threads("stepped", n, 4, |c| stopped(c, true));
    }
    if ctx.scale >= 0.5 {
        ctx.require("stops_inside_operations", 5_000);
        ctx.require("stops_inside_first_operations", 5_000);
        ctx.require("fresh_processes", 1_000);
        ctx.require("overlapping_pairs_on_one_key", 5_000);
        ctx.require("kinds_overlapped_on_one_key", 60);
        ctx.require("operations_nested_in_others", 1_000);
        ctx.require("calls_that_failed_midway", 500);
        ctx.require("distinct_interleavings", 100);
    }
    let _ = gen::low_order;
}
