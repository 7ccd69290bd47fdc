"""C13: one transcript, every configuration."""
import os, re, subprocess, threading
from common import *

PROBE = os.path.join(ROOT, "probe")
MIRI_FAST = ("-Zmiri-disable-validation -Zmiri-disable-stacked-borrows -Zmiri-disable-alignment-check "
             "-Zmiri-disable-isolation")
BARE_FLAGS = "-C linker=rust-lld -C linker-flavor=ld.lld -C relocation-model=static"


def parse(text):
    rows, end = {}, None
    for line in text.splitlines():
        p = line.split()
        if len(p) >= 4 and p[1].isdigit():
            rows[(p[0], int(p[1]), p[2])] = p[3]
        elif len(p) == 2 and p[0] == "end":
            end = int(p[1])
    return rows if end is not None and end == len(rows) else None


def transcript(bindir, cases, label, sections="all", extra=()):
    r = subprocess.run([os.path.join(bindir, "transcript"), sections, str(cases), *extra], capture_output=True, text=True,
                       timeout=900, env=env())
    return outcome(r.returncode, r.stdout, r.stderr, label)


def outcome(rc, out, err, label):
    """(rows or None, problem or None, whether the problem is the crates' own)"""
    rows = parse(out)
    if rows is not None:
        return rows, None, False
    # A panic within one of the crates, in a configuration whose reference runs the same histories to their end, is a
    # difference; anything else is not a result.
    p = re.search(r"panicked at (\S+?):\d+:\d+:\n(.*)$", err, re.M)
    own = bool(p) and not p.group(1).startswith("src/")
    what = f"panicked at {p.group(1)}: {p.group(2)[:200]}" if p else f"ended with {rc}"
    return None, f"{label}: {what}: {err[-1500:]}", own


def unbuildable(e):
    """Does the compiler reject the crates themselves in this configuration?"""
    return bool(re.search(r"^error(\[E\d+\])?:.*\n\s*--> (/repo/|ml-kem/|x-wing/|dhkem/)", str(e), re.M))


# (label, features, profile, rustflags)
MLKEM = [",".join(x for x in (a, b, c) if x) for a in ("", "mlkem-std") for b in ("", "mlkem-det") for c in ("", "mlkem-zeroize")]
NATIVE = (
    [(f"ml-kem [{f or 'no features'}] {p}", f, p, "") for f in MLKEM for p in ("release", "dev")]
    + [(f"x-wing [{f}] {p}", "xwing," + f if f else "xwing", p, "")
       for f in ("", "xwing-getrandom", "xwing-zeroize", "xwing-getrandom,xwing-zeroize") for p in ("release", "dev")]
)
DH = (
    [(f"dhkem [{c}{z}] {p}", c + z, p, "") for c in ("x25519", "p256", "p384", "p521", "k256", "curves") for z in ("", ",dhkem-zeroize")
     for p in (("release", "dev") if c in ("x25519", "curves") else ("release",))]
)
PROFILES = [
    ("all features, debug", "full", "dev", ""),
    ("all features, opt-level s", "full", "optsize", ""),
    ("all features, opt-level 1", "full", "opt1", ""),
    ("all features, opt-level 2", "full", "opt2", ""),
]
FLAGS = [
    ("all features, release, native CPU", "full", "release", "-C target-cpu=native"),
    ("all features, fat LTO, one unit, panic=abort", "full", "fatlto", ""),
    ("all features, release, overflow and debug assertions", "full", "release", "-C overflow-checks=on -C debug-assertions=on"),
    ("all features, release, curve25519 serial backend, keccak without asm", "full", "release",
     '--cfg curve25519_dalek_backend="serial"'),
    ("all features, release, 32-bit curve25519 arithmetic", "full", "release", '--cfg curve25519_dalek_bits="32"'),
]
# (target, sections, lite)
MIRI_QUICK = [
    ("powerpc-unknown-linux-gnu", "mlkem-1024", False),
    ("powerpc-unknown-linux-gnu", "xwing", False),
    ("s390x-unknown-linux-gnu", "xwing", True),
    ("powerpc-unknown-linux-gnu", "mlkem-768", False),
    ("s390x-unknown-linux-gnu", "mlkem-1024", True),
    ("powerpc-unknown-linux-gnu", "mlkem-512,mlkem-tiny", False),
    ("s390x-unknown-linux-gnu", "mlkem-tiny,mlkem-512,mlkem-768", True),
    ("powerpc-unknown-linux-gnu", "det-512,x25519,k256", True),
    ("powerpc-unknown-linux-gnu", "p256", True),
    ("s390x-unknown-linux-gnu", "p521", True),
]
MIRI_THOROUGH = MIRI_QUICK + [
    ("powerpc-unknown-linux-gnu", "p384", True),
    ("powerpc-unknown-linux-gnu", "p521", True),
    ("s390x-unknown-linux-gnu", "p384", True),
    ("s390x-unknown-linux-gnu", "k256,x25519,p256", False),
    ("s390x-unknown-linux-gnu", "mlkem-tiny,mlkem-512,mlkem-768,mlkem-1024", False),
    ("s390x-unknown-linux-gnu", "xwing", False),
    ("s390x-unknown-linux-gnu", "det-512,det-768,det-1024", False),
    ("powerpc-unknown-linux-gnu", "det-512,det-768,det-1024", False),
    ("i686-unknown-linux-gnu", "mlkem-tiny,mlkem-512,mlkem-768,mlkem-1024,xwing", False),
]


def miri_cmd(target, sections, cases, lite):
    return ["cargo", "miri", "run", "--offline", "--features", "full,hosted", "--bin", "transcript", "--target", target, "--",
            sections, str(cases)] + (["--lite"] if lite else [])


def miri_env(tdir):
    return env({"MIRIFLAGS": MIRI_FAST, "CARGO_TARGET_DIR": tdir}, NIGHTLY)


MIRI_DIR = os.path.join(WORK, "target", "probe-miri")


def miri_prepare(targets):
    """Build for the foreign targets, one after another, before running in parallel."""
    os.makedirs(MIRI_DIR, exist_ok=True)
    stamp = os.path.join(MIRI_DIR, "repo.hash")
    h = repo_hash()
    if not os.path.exists(stamp) or open(stamp).read() != h:
        forget(MIRI_DIR, ("ml-kem", "x-wing", "dhkem"))
    for t in targets:
        r = subprocess.run(miri_cmd(t, "none", 1, True), cwd=PROBE, env=miri_env(MIRI_DIR), capture_output=True, text=True, timeout=800)
        if r.returncode != 0 or "end 0" not in r.stdout:
            raise CheckError(f"the probe could not be built for {t}:\n{r.stderr[-3000:]}")
    open(stamp, "w").write(h)


def bare_build():
    return cargo_build(PROBE, "bare", rustflags=BARE_FLAGS, toolchain=NIGHTLY, target="i686-unknown-linux-gnu", tag="bare",
                       build_std="core,alloc,compiler_builtins", features="embedded,bare", bins=("bare",),
                       extra=("-Zbuild-std-features=compiler-builtins-mem",))


# One target directory per lane; lanes are built and run side by side.
LANES = {
    "cfg0": NATIVE[:len(NATIVE) // 2],
    "cfg1": NATIVE[len(NATIVE) // 2:],
    "cfg2": DH,
    "cfg3": PROFILES,
    "cfg4": FLAGS[:2],
    "cfg5": FLAGS[2:3],
    "cfg6": FLAGS[3:],
}


def build(lane, feats, prof, flags):
    return cargo_build(PROBE, prof, rustflags=flags, features=(feats + "," if feats else "") + "hosted", tag=lane,
                       bins=("transcript",))


def in_threads(fs):
    ts = [threading.Thread(target=f) for f in fs]
    for t in ts:
        t.start()
    for t in ts:
        t.join()


def prebuild():
    def lane(name):
        def f():
            for _, feats, prof, flags in LANES[name]:
                try:
                    build(name, feats, prof, flags)
                except CheckError as e:
                    print(str(e)[-1500:])
        return f

    def bare():
        try:
            bare_build()
        except CheckError as e:
            print(str(e)[-1500:])
    return [lambda: build("cfg0", "full", "release", ""), lambda: in_threads([lane(n) for n in LANES] + [bare]),
            lambda: miri_prepare(sorted({j[0] for j in MIRI_QUICK}))]


def check(level, rule):
    rep = Report("C13")
    cases = 4000 if thorough() else 150
    slow = 300 if thorough() else 24
    results = {}
    problems = []
    lock = threading.Lock()

    def record(label, rows, problem, own=False):
        with lock:
            if rows is None and own:
                rep.violation(f"no results in one configuration, although the reference has them: {problem[:300]}", problem, configuration=label)
            elif rows is None:
                problems.append(problem)
            else:
                results[label] = rows

    def native(lane, configs):
        def f():
            for label, feats, prof, flags in configs:
                try:
                    b = build(lane, feats, prof, flags)
                    n = slow if prof in ("dev", "opt1") else cases
                    record(label, *transcript(b, n, label))
                except (CheckError, subprocess.TimeoutExpired) as e:
                    record(label, None, f"{label}: {e}", unbuildable(e))
        return f

    def bare():
        try:
            b = bare_build()
            r = subprocess.run([os.path.join(b, "bare"), str(cases)], capture_output=True, text=True, timeout=900, env=env())
            if r.returncode in (-8, -31, 126) or (r.returncode == -11 and not r.stdout):
                rep.coverage["i686_native"] = "not runnable on this kernel"
                return
            record("i686, no operating system, native", *outcome(r.returncode, r.stdout, r.stdout[-800:] + r.stderr, "i686"))
        except (CheckError, subprocess.TimeoutExpired) as e:
            record("i686", None, f"i686: {e}")

    ref = build("cfg0", "full", "release", "")
    base, p, _ = transcript(ref, cases, "reference")
    if base is None:
        raise CheckError(p)
    in_threads([native(lane, cfgs) for lane, cfgs in LANES.items()] + [bare])

    # Big-endian machines, interpreted
    jobs = list(MIRI_THOROUGH if thorough() else MIRI_QUICK)
    miri_prepare(sorted({j[0] for j in jobs}))
    it = iter(jobs)

    def worker():
        while True:
            with lock:
                j = next(it, None)
            if j is None:
                return
            target, sections, lite = j
            label = f"{target} (interpreted): {sections}{' short' if lite else ''}"
            n = 3 if thorough() and not lite else 1
            try:
                r = subprocess.run(miri_cmd(target, sections, n, lite), cwd=PROBE, env=miri_env(MIRI_DIR), capture_output=True,
                                   text=True, timeout=6000 if thorough() else 700)
                record(label, *outcome(r.returncode, r.stdout, r.stderr, label))
            except subprocess.TimeoutExpired:
                record(label, None, f"{label}: timed out")

    in_threads([worker] * 8)

    compared = {}
    for label, rows in results.items():
        n, diff = 0, None
        for k, v in rows.items():
            if k in base:
                n += 1
                if base[k] != v and diff is None:
                    diff = (k, base[k], v)
        compared[label] = n
        if diff:
            (s, c, st), want, got = diff
            rep.violation(f"{st} of {s} (case {c}) differs between [all features, release, x86_64] and [{label}]",
                          f"digest {want} there, {got} here", configuration=label, section=s, case=c, step=st)
        elif n == 0:
            problems.append(f"{label}: nothing to compare")
        rep.evaluations += len({(s, c) for s, c, _ in rows})
    if problems and not rep.violations:
        raise CheckError("; ".join(x[:600] for x in problems[:4]))
    rep.distinct = len(base)
    rep.coverage["values_compared_per_configuration"] = compared
    rep.coverage["configurations"] = len(results)
    rep.coverage["values_in_reference_transcript"] = len(base)
    for k in list(base)[:6]:
        rep.sample(f"{k[0]} case {k[1]} {k[2]}: digest {base[k]} in {sum(1 for r in results.values() if r.get(k) == base[k])} configurations")
    return finish(rep, level, rule)
