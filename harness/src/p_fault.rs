//! C08: failing randomness.

use crate::fw::*;
use crate::gen;
use crate::kemset::*;
use crate::os::{self, Act, Mode};
use crate::p_dhkem::{Dh, K256, P256, P384, P521, X25519};
use crate::rngs::Tape;
use ::kem::{Decapsulate, Encapsulate};
use rand_core::{CryptoRng, CryptoRngCore, Error, RngCore};
use refmodel::fips203::{self as f, Stats};
use refmodel::rng::Rng;
use refmodel::xwing;
use std::num::NonZeroU32;
use std::panic::{catch_unwind, AssertUnwindSafe};
use x_wing::DecapsulationKey;

/// Delivers `limit` bytes of the tape, then fails for good.
struct Failing {
    tape: Vec<u8>,
    limit: usize,
    used: usize,
    /// A failing request still writes the bytes that were left.
    partial: bool,
    failures: usize,
}

struct Failed;

impl Failing {
    fn draw(&mut self, out: &mut [u8]) -> Result<(), ()> {
        let left = self.limit - self.used;
        if out.len() <= left {
            out.copy_from_slice(&self.tape[self.used..self.used + out.len()]);
            self.used += out.len();
            return Ok(());
        }
        if self.partial {
            out[..left].copy_from_slice(&self.tape[self.used..self.limit]);
            self.used = self.limit;
        } else {
            self.limit = self.used;
        }
        self.failures += 1;
        Err(())
    }
    fn must(&mut self, out: &mut [u8]) {
        if callback(|| self.draw(out)).is_err() {
            std::panic::panic_any(Failed);
        }
    }
}

impl RngCore for Failing {
    fn next_u32(&mut self) -> u32 {
        let mut b = [0; 4];
        self.must(&mut b);
        u32::from_le_bytes(b)
    }
    fn next_u64(&mut self) -> u64 {
        let mut b = [0; 8];
        self.must(&mut b);
        u64::from_le_bytes(b)
    }
    fn fill_bytes(&mut self, dest: &mut [u8]) {
        self.must(dest)
    }
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), Error> {
        callback(|| self.draw(dest)).map_err(|()| Error::from(NonZeroU32::new(Error::CUSTOM_START).unwrap()))
    }
}
impl CryptoRng for Failing {}

/// Run an operation under faults at every point before its need is met.
fn faults<T>(
    c: &mut Case,
    name: &str,
    tape: &[u8],
    need: usize,
    op: &dyn Fn(&mut Failing) -> T,
    show: &dyn Fn(&T) -> Vec<u8>,
    want: &[u8],
    intact: &mut dyn FnMut() -> R,
) -> R {
    for limit in 0..=need {
        for partial in [false, true] {
            let mut g = Failing { tape: tape.to_vec(), limit, used: 0, partial, failures: 0 };
            let r = catch_unwind(AssertUnwindSafe(|| op(&mut g)));
            let info = || format!("{name}: generator fails after {limit} of {need} bytes (partial={partial}), tape={}", hex(tape));
            match r {
                Ok(v) if limit < need => {
                    return bad(
                        "an operation returned although its generator failed",
                        format!("{}; returned {}", info(), hex(&show(&v))),
                    )
                }
                Ok(v) => {
                    same("result with just enough randomness", &show(&v), want, info)?;
                    c.l.count("completed", 1);
                }
                Err(_) if limit < need => {
                    check(g.failures > 0, "an operation panicked before its generator failed", info)?;
                    c.l.count("faults_injected", 1);
                    c.l.count(&format!("faults: {name}"), 1);
                    c.l.seen("fault_points", (limit as u64) << 8 | name.len() as u64);
                }
                Err(_) => return bad("an operation panicked although it had enough randomness", info()),
            }
            c.l.nontrivial(&[name.as_bytes(), &limit.to_le_bytes(), &[u8::from(partial)], tape]);
        }
        if limit % 8 == 0 {
            intact()?;
            c.l.count("existing_keys_checked", 1);
        }
    }
    intact()?;
    c.sample(|| format!("{name}: failed at each of {need} points, both ways; no key returned; existing keys work"));
    Ok(())
}

fn ml_kem<S: Set>(c: &mut Case) -> R {
    let p = &S::P;
    let (d0, z0, m0): ([u8; 32], [u8; 32], [u8; 32]) = (c.rng.arr(), c.rng.arr(), c.rng.arr());
    let (dk, ek) = S::keygen(&d0, &z0);
    let (ek0, dk0) = f::keygen(p, &d0, &z0, &mut Stats::default());
    let (k0, ct0) = f::encaps(p, &ek0, &m0, &mut Stats::default());
    let mut other = ct0.clone();
    other[0] ^= 1;
    let kbar = f::decaps(p, &dk0, &other).k;
    let mut intact = || -> R {
        let info = || format!("ML-KEM-{} d={} z={} m={}", p.name, hex(&d0), hex(&z0), hex(&m0));
        check(S::encaps(&ek, &m0) == (ct0.clone(), k0), "an existing key changed after a fault", info)?;
        check(S::decaps(&dk, &ct0) == k0 && S::decaps(&dk, &other) == kbar, "an existing key changed after a fault", info)?;
        check(S::dk_bytes(&dk) == dk0 && S::ek_bytes(&ek) == ek0, "an existing key changed after a fault", info)
    };
    let tape = c.rng.vec(64);
    let (we, wd) = f::keygen(p, tape[..32].try_into().unwrap(), tape[32..].try_into().unwrap(), &mut Stats::default());
    faults(
        c,
        &format!("ML-KEM-{} generate", p.name),
        &tape,
        64,
        &|g| imp(|| S::K::generate(g)),
        &|(d, e)| [S::dk_bytes(d), S::ek_bytes(e)].concat(),
        &[wd, we].concat(),
        &mut intact,
    )?;
    let tape = c.rng.vec(32);
    let (wk, wct) = f::encaps(p, &ek0, tape[..].try_into().unwrap(), &mut Stats::default());
    faults(
        c,
        &format!("ML-KEM-{} encapsulate", p.name),
        &tape,
        32,
        &|g| imp(|| ek.encapsulate(g).unwrap()),
        &|(ct, k)| [ct.as_slice(), k.as_slice()].concat(),
        &[&wct[..], &wk].concat(),
        &mut intact,
    )
}

fn x_wing(c: &mut Case) -> R {
    let sk0: [u8; 32] = c.rng.arr();
    let es0: [u8; 64] = c.rng.arr();
    let e = xwing::expand(&sk0);
    let (ss0, ct0) = xwing::encaps(&e.pk(), &es0);
    let (dk, ek) = imp(|| x_wing::generate_key_pair(&mut Tape::new(&sk0)));
    let mut intact = || -> R {
        let info = || format!("X-Wing sk={} eseed={}", hex(&sk0), hex(&es0));
        let (x, ss) = imp(|| ek.encapsulate(&mut Tape::new(&es0)).unwrap());
        check(ss == ss0 && x.as_bytes()[..] == ct0[..], "an existing key changed after a fault", info)?;
        check(imp(|| dk.decapsulate(&x).unwrap()) == ss0, "an existing key changed after a fault", info)
    };
    let tape = c.rng.vec(64);
    let sk: [u8; 32] = tape[..32].try_into().unwrap();
    let pk = xwing::expand(&sk).pk();
    faults(c, "X-Wing generate", &tape, 32, &|g| imp(|| DecapsulationKey::generate(g)), &|k| k.as_bytes().to_vec(), &sk, &mut intact)?;
    faults(
        c,
        "X-Wing generate_key_pair",
        &tape,
        32,
        &|g| imp(|| x_wing::generate_key_pair(g)),
        &|(k, p)| [&k.as_bytes()[..], &p.as_bytes()].concat(),
        &[&sk[..], &pk].concat(),
        &mut intact,
    )?;
    let (wss, wct) = xwing::encaps(&e.pk(), tape[..].try_into().unwrap());
    faults(
        c,
        "X-Wing encapsulate",
        &tape,
        64,
        &|g| imp(|| ek.encapsulate(g).unwrap()),
        &|(x, ss)| [&x.as_bytes()[..], ss].concat(),
        &[&wct[..], &wss].concat(),
        &mut intact,
    )
}

fn dh<D: Dh>(c: &mut Case) -> R {
    let (s0, e0) = (D::any_cand(&mut c.rng), D::any_cand(&mut c.rng));
    let (dk, ek) = D::keypair(&mut Tape::new(&s0));
    let (p0, ss0) = D::encaps(&ek, &mut Tape::new(&e0));
    let want0 = D::dh(&e0, &D::public(&s0));
    let mut intact = || -> R {
        let info = || format!("DHKEM {} sk={} ephemeral={}", D::NAME, hex(&s0), hex(&e0));
        check(ss0 == want0 && D::decaps(&dk, &p0) == want0, "an existing key changed after a fault", info)?;
        check(D::encaps(&ek, &mut Tape::new(&e0)) == (p0, want0.clone()), "an existing key changed after a fault", info)
    };
    // one candidate that must be rejected, where there are such, then one that is accepted
    let mut tape = D::bad_cand(&mut c.rng).unwrap_or_default();
    let cand = D::any_cand(&mut c.rng);
    tape.extend_from_slice(&cand);
    let need = tape.len();
    faults(
        c,
        &format!("DHKEM {} random_keypair", D::NAME),
        &tape,
        need,
        &|g| keypair_dyn::<D>(g),
        &|e| D::pk_bytes(&D::inner(e)),
        &D::public(&cand),
        &mut intact,
    )?;
    let want = [D::public(&cand), D::dh(&cand, &D::public(&s0))].concat();
    faults(
        c,
        &format!("DHKEM {} encapsulate", D::NAME),
        &tape,
        need,
        &|g| D::encaps(&ek, g),
        &|(p, s)| [D::pk_bytes(p), s.clone()].concat(),
        &want,
        &mut intact,
    )
}

fn keypair_dyn<D: Dh>(g: &mut impl CryptoRngCore) -> D::Ek {
    D::keypair(g).1
}

/// The operating system as the source, in this process: the system call path.
fn os_syscall(c: &mut Case) -> R {
    // make sure the one-time probe is behind us
    imp(DecapsulationKey::generate_from_os_rng);
    let r = &mut c.rng;
    let kind = c.index % 6;
    let hard = *r.pick(&[libc::EIO, libc::EFAULT, libc::EINVAL, libc::EAGAIN, libc::ENOSYS, libc::EPERM]);
    let mut acts = Vec::new();
    match kind {
        0 => acts.push(Act::Errno(hard)),
        1 => {
            acts.push(Act::Short((c.index / 6 % 32) as usize));
            acts.push(Act::Errno(hard));
        }
        2 => {
            acts.extend(std::iter::repeat(Act::Errno(libc::EINTR)).take(1 + r.below(40) as usize));
            acts.push(Act::Full);
        }
        3 => acts.push(Act::Short(1 + (c.index / 6 % 32) as usize)),
        4 => {
            // anything, ending well
            for _ in 0..r.below(12) {
                acts.push(if r.chance(1, 2) { Act::Errno(libc::EINTR) } else { Act::Short(1 + r.below(8) as usize) });
            }
            acts.push(Act::Full);
        }
        _ => {
            for _ in 0..r.below(8) {
                acts.push(if r.chance(1, 2) { Act::Errno(libc::EINTR) } else { Act::Short(1 + r.below(3) as usize) });
            }
            acts.push(Act::Errno(hard));
        }
    }
    let pair = r.chance(1, 2);
    os::arm(Mode::Faults(acts.clone()));
    let got = catch_unwind(|| {
        imp(|| {
            if pair {
                *x_wing::generate_key_pair_from_os_rng().0.as_bytes()
            } else {
                *DecapsulationKey::generate_from_os_rng().as_bytes()
            }
        })
    });
    let rec = os::disarm();
    judge_os(c, got.ok(), &rec, &format!("system call, acts {acts:?}"))
}

fn judge_os(c: &mut Case, got: Option<[u8; 32]>, rec: &os::Record, how: &str) -> R {
    let info = || format!("X-Wing key from the operating system ({how}); calls {:?}; delivered {}", rec.log, hex(&rec.bytes));
    c.l.count("os_calls", rec.calls as u64);
    c.l.count("os_failed_calls", rec.failed as u64);
    match got {
        None => {
            c.l.count("os_refused", 1);
        }
        Some(k) => {
            check(rec.bytes.len() >= 32, "a key was returned although the OS did not deliver 32 bytes", info)?;
            same("key from the operating system", &k, &rec.bytes[..32], info)?;
            c.l.count("os_keys", 1);
        }
    }
    c.l.nontrivial(&[how.as_bytes(), &rec.bytes]);
    Ok(())
}

/// A fresh process in which the system call is missing, so that the device file is the source.
fn os_child_case(c: &mut Case) -> R {
    let exe = std::env::current_exe().unwrap();
    let r = &mut c.rng;
    let mut acts = vec![if c.index % 2 == 0 { "e38".to_string() } else { format!("e{}", libc::EPERM) }];
    match c.index % 5 {
        0 => acts.push("f".into()),
        1 => acts.push(format!("s{}", 1 + r.below(31))),
        2 => {
            acts.push(format!("s{}", r.below(32)));
            acts.push(format!("e{}", libc::EIO));
        }
        3 => {
            for _ in 0..1 + r.below(5) {
                acts.push("e4".into());
            }
            acts.push(format!("s{}", 1 + r.below(31)));
        }
        _ => acts.push(format!("e{}", r.pick(&[libc::EIO, libc::EISDIR, libc::EINVAL]))),
    }
    let out = std::process::Command::new(exe).arg("os-child").arg(acts.join(",")).output().unwrap();
    let text = String::from_utf8_lossy(&out.stdout).to_string();
    let line = text.lines().find(|l| l.starts_with("OS ")).unwrap_or_else(|| panic!("no answer: {text} {out:?}"));
    let w: Vec<&str> = line.split(' ').collect();
    let un = |s: &str| refmodel::selftest::unhex(s.trim_start_matches('='));
    let key = if w[1] == "none" { None } else { Some(arr32(&un(w[1]))) };
    let rec = os::Record { bytes: un(w[2]), calls: w[3].parse().unwrap(), failed: w[4].parse().unwrap(), log: vec![] };
    c.l.count("os_device_processes", 1);
    judge_os(c, key, &rec, &format!("device file, acts {}", acts.join(",")))
}

/// `mon os-child e38,f`: print the key and what the OS delivered.
pub fn os_child(spec: &str) {
    let acts: Vec<Act> = spec
        .split(',')
        .map(|a| match a.as_bytes()[0] {
            b'f' => Act::Full,
            b's' => Act::Short(a[1..].parse().unwrap()),
            _ => Act::Errno(a[1..].parse().unwrap()),
        })
        .collect();
    std::panic::set_hook(Box::new(|_| {}));
    os::arm(Mode::Faults(acts));
    let got = catch_unwind(|| *DecapsulationKey::generate_from_os_rng().as_bytes());
    let rec = os::disarm();
    println!(
        "OS {} ={} {} {}",
        got.map_or("none".into(), |k| hex(&k)),
        hex(&rec.bytes),
        rec.calls,
        rec.failed
    );
}

pub fn c08(ctx: &mut Ctx) {
    let _ = gen::b32(&mut Rng::new(b""));
    let n = ctx.n(30, 1_500);
    ctx.stage("ml-kem", n, |c| crate::std_set!(c.index, ml_kem(c)));
    let n = ctx.n(20, 1_000);
    ctx.stage("x-wing", n, x_wing);
    let n = ctx.n(25, 1_000);
    ctx.stage("dhkem", n, |c| match c.index % 5 {
        0 => dh::<X25519>(c),
        1 => dh::<P256>(c),
        2 => dh::<P384>(c),
        3 => dh::<P521>(c),
        _ => dh::<K256>(c),
    });
    let n = ctx.n(6 * 64, 60_000);
    ctx.stage("operating-system", n, os_syscall);
    let n = ctx.n(60, 3_000);
    ctx.stage("operating-system-device", n, os_child_case);
    ctx.require("faults_injected", 5_000);
    ctx.require("completed", 100);
    ctx.require("os_refused", 50);
    ctx.require("os_keys", 50);
    ctx.require("os_device_processes", 50);
}
