#!/usr/bin/env python3
"""Plant bugs to measure the checks by (development tool; no check uses it).

   plant.py make ID...       write seeded/ID from plants/ID.py (PROPERTY, NEEDS, BREAKS, EDITS, DEMO), confirm it
   plant.py check [ID...]    apply each to /repo, run the check of its property, undo; print who caught it
   plant.py list
A plant's EDITS are (file, old, new); DEMO is the text of a Rust main.rs, or None where files/ID/ has a demo.sh of its own.
"""
import json, os, re, runpy, shutil, subprocess, sys, tempfile, time
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
PLANTS, SEEDED = os.path.join(HERE, "plants"), os.path.join(ROOT, "seeded")
SCRATCH = "/tmp/plant-repo"

MANIFEST = """[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
ml-kem = { path = "/repo/ml-kem", default-features = false, features = [%(mlkem)s] }
x-wing = { path = "/repo/x-wing", features = [%(xwing)s] }
dhkem = { path = "/repo/dhkem", features = ["p256", "p384", "p521", "k256", "x25519"%(dhkem)s] }
kem = "0.3.0-pre.0"
rand_core = { version = "0.6.4", features = ["std"] }
elliptic-curve = { version = "0.13.8", default-features = false, features = ["ecdh", "sec1"] }
x25519-dalek = { version = "2.0.1", default-features = false, features = ["reusable_secrets", "static_secrets", "zeroize"] }
zeroize = "1.8.1"
sha3 = "0.10"
libc = "0.2"
[profile.release]
debug = 0
"""
DEMO_SH = """#!/bin/bash
# exit 0: as it should be; nonzero: the property is broken
here=$(cd "$(dirname "$0")" && pwd)
work=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf "$work"' EXIT
cp -r "$here/demo" "$work/demo" && cd "$work/demo" || exit 3
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$work/target" CARGO_INCREMENTAL=0
%(run)s
"""
RUN = 'cargo build -q --offline --release 2> "$work/log" || { tail -20 "$work/log"; exit 3; }\n"$work/target/release/demo"'
PRELUDE = r'''#![allow(unused, dead_code)]
use ml_kem::{array::Array, EncapsulateDeterministic, EncodedSizeUser, KemCore, MlKem1024, MlKem512, MlKem768, B32};
use ::kem::{Decapsulate, Encapsulate};
use rand_core::{CryptoRng, Error, RngCore};
/// A fixed sequence of bytes, then a counter.
pub struct Tape(pub Vec<u8>, pub usize, pub u64);
impl Tape {
    pub fn new(v: &[u8]) -> Self { Tape(v.to_vec(), 0, 1) }
    pub fn seq(s: u64) -> Self { Tape(vec![], 0, s.wrapping_mul(0x9e37_79b9_7f4a_7c15) | 1) }
    fn byte(&mut self) -> u8 {
        let b = self.0.get(self.1).copied();
        self.1 += 1;
        b.unwrap_or_else(|| { self.2 ^= self.2 << 13; self.2 ^= self.2 >> 7; self.2 ^= self.2 << 17; (self.2 >> 24) as u8 })
    }
}
impl RngCore for Tape {
    fn next_u32(&mut self) -> u32 { let mut b = [0; 4]; self.fill_bytes(&mut b); u32::from_le_bytes(b) }
    fn next_u64(&mut self) -> u64 { let mut b = [0; 8]; self.fill_bytes(&mut b); u64::from_le_bytes(b) }
    fn fill_bytes(&mut self, d: &mut [u8]) { for x in d { *x = self.byte(); } }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), Error> { self.fill_bytes(d); Ok(()) }
}
impl CryptoRng for Tape {}
pub fn fnv(b: &[u8]) -> u64 { b.iter().fold(0xcbf2_9ce4_8422_2325, |h, x| (h ^ u64::from(*x)).wrapping_mul(0x100_0000_01b3)) }
pub fn unhex(s: &str) -> Vec<u8> { (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect() }
pub fn b32(s: u64) -> B32 { let mut t = Tape::seq(s); let mut b = [0u8; 32]; t.fill_bytes(&mut b); b.into() }
pub fn expect(ok: bool, what: &str) { if !ok { println!("BROKEN: {what}"); std::process::exit(1); } }
pub type Dk<K> = <K as KemCore>::DecapsulationKey;
pub type Ek<K> = <K as KemCore>::EncapsulationKey;
pub type Ct<K> = ml_kem::Ciphertext<K>;
'''


def sh(cmd, **k):
    return subprocess.run(cmd, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def scratch():
    if not os.path.exists(SCRATCH):
        sh(["cp", "-a", "/repo", SCRATCH])
    sh(["git", "-C", SCRATCH, "checkout", "-q", "--", "."])
    sh(["git", "-C", SCRATCH, "pull", "-q", "/repo", "HEAD"])


def make(pid):
    p = runpy.run_path(os.path.join(PLANTS, pid + ".py"))
    d = os.path.join(SEEDED, pid)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    scratch()
    for f, old, new in p["EDITS"]:
        path = os.path.join(SCRATCH, f)
        s = open(path).read()
        if s.count(old) != 1:
            return f"{pid}: {s.count(old)} places for {old[:60]!r} in {f}"
        open(path, "w").write(s.replace(old, new))
    open(os.path.join(d, "patch.diff"), "w").write(sh(["git", "-C", SCRATCH, "diff"]).stdout)
    json.dump({"property": p["PROPERTY"], "needs": p["NEEDS"], "what_it_breaks": p["BREAKS"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
    dm = os.path.join(d, "demo")
    os.makedirs(os.path.join(dm, "src"))
    feat = p.get("FEATURES", {})
    q = lambda l: ", ".join(f'"{x}"' for x in l)
    open(os.path.join(dm, "Cargo.toml"), "w").write(MANIFEST % dict(
        mlkem=q(feat.get("mlkem", ["std", "deterministic", "zeroize"])), xwing=q(feat.get("xwing", ["getrandom", "zeroize"])),
        dhkem=", " + q(feat["dhkem"]) if feat.get("dhkem") else "") + p.get("CARGO", ""))
    shutil.copy(os.path.join(ROOT, "harness", "Cargo.lock"), dm)
    open(os.path.join(dm, "src", "main.rs"), "w").write(("" if p.get("NO_PRELUDE") else PRELUDE) + p["DEMO"])
    for name, text in p.get("FILES", {}).items():
        open(os.path.join(dm, name), "w").write(text)
    open(os.path.join(d, "demo.sh"), "w").write(DEMO_SH % dict(run=p.get("RUN", RUN)))
    # values that only the unchanged code knows
    src = os.path.join(dm, "src", "main.rs")
    if "@EXPECTED@" in open(src).read():
        s = open(src).read()
        open(src, "w").write(s.replace("@EXPECTED@", "0"))
        out = sh(["bash", os.path.join(d, "demo.sh")], cwd="/repo").stdout
        m = re.search(r"^VALUE (\d+)$", out, re.M)
        if not m:
            return f"{pid}: no VALUE: {out[-1500:]}"
        open(src, "w").write(s.replace("@EXPECTED@", m.group(1)))
    # unchanged
    r = sh(["bash", os.path.join(d, "demo.sh")], cwd="/repo")
    if r.returncode != 0:
        return f"{pid}: demo fails on the unchanged tree ({r.returncode}): {r.stdout[-1500:]}"
    # changed: builds, stable tests pass, demo fails
    r = sh("git apply " + os.path.join(d, "patch.diff"), cwd="/repo")
    if r.returncode:
        return f"{pid}: patch does not apply: {r.stdout}"
    try:
        b = sh("bash /opt/vp/build.sh", cwd="/repo")
        if b.returncode:
            return f"{pid}: does not build: {b.stdout[-2500:]}"
        for n in range(2):
            sh("bash /opt/vp/test.sh /tmp/plant-test.json", cwd="/repo")
            res = json.load(open("/tmp/plant-test.json"))
            good = set(res.get("passed", res)) if isinstance(res, dict) else set()
            stable = json.load(open("/opt/vp/BASELINE.json"))["stable"]
            bad = [t for t in stable if t not in good]
            if bad:
                return f"{pid}: tests fail: {bad}"
        t0 = time.time()
        r = sh(["bash", os.path.join(d, "demo.sh")], cwd="/repo")
        dt = time.time() - t0
        if r.returncode == 0 or r.returncode == 3:
            return f"{pid}: demo does not fail with the patch ({r.returncode}): {r.stdout[-1500:]}"
    finally:
        sh(["git", "-C", "/repo", "checkout", "--", "."])
    return f"{pid}: ok, demo {dt:.0f}s: {r.stdout.strip()[-150:]}"


def check(pid, others=()):
    d = os.path.join(SEEDED, pid)
    prop = json.load(open(os.path.join(d, "meta.json")))["property"]
    out = []
    r = sh("git apply " + os.path.join(d, "patch.diff"), cwd="/repo")
    if r.returncode:
        return f"{pid}: patch does not apply"
    try:
        for c in [prop, *others]:
            t0 = time.time()
            r = sh(["python3", os.path.join(ROOT, "check.py"), c], env=dict(os.environ, VERIF_SEED="1", VERIF_TIER="quick"))
            caught = r.returncode == 1 and f"VIOLATION property={c} " in r.stdout
            out.append(f"{c} {'caught' if caught else 'MISSED rc=%d' % r.returncode} {time.time() - t0:.0f}s")
            what = re.findall(r"^  (.*)$", r.stdout, re.M)
            if what:
                out.append(what[0][:160])
            elif not caught:
                out.append(r.stdout[-700:])
    finally:
        sh(["git", "-C", "/repo", "checkout", "--", "."])
    return f"{pid}: " + " | ".join(out)


if __name__ == "__main__":
    cmd, ids = sys.argv[1], sys.argv[2:]
    if cmd == "list":
        for x in sorted(os.listdir(SEEDED)):
            m = json.load(open(os.path.join(SEEDED, x, "meta.json")))
            print(x, m["property"], m["what_it_breaks"][:100])
    else:
        others = []
        if "--also" in ids:
            i = ids.index("--also")
            ids, others = ids[:i], ids[i + 1:]
        for i in ids or sorted(os.listdir(SEEDED)):
            print(make(i) if cmd == "make" else check(i, others), flush=True)
