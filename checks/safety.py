"""C11: hostile inputs while something watches. C12: shared keys, while something watches."""
import os, re, subprocess, threading, time
from common import *

PROBE = os.path.join(ROOT, "probe")
X86 = "x86_64-unknown-linux-gnu"
ASAN = {"MON_SANITIZED": "1", "ASAN_OPTIONS": "exitcode=77:detect_leaks=0:handle_abort=1:handle_sigill=1:detect_stack_use_after_return=1"}
TSAN = {"MON_SANITIZED": "1", "TSAN_OPTIONS": "exitcode=66:halt_on_error=1:history_size=4"}
VALGRIND = ("valgrind", "-q", "--error-exitcode=78", "--exit-on-first-error=yes", "--leak-check=no", "--num-callers=30")
MIRI_FLAGS = "-Zmiri-disable-isolation -Zmiri-symbolic-alignment-check -Zmiri-ignore-leaks"
MIRI_DIR = os.path.join(WORK, "target", "probe-ub")
# longest first
MIRI_QUICK = ["mlkem-1024", "xwing", "det-512", "mlkem-512", "p256", "mlkem-tiny", "k256", "x25519"]
MIRI_THOROUGH = ["det-1024", "mlkem-1024", "det-768", "xwing", "mlkem-768", "det-512", "mlkem-512", "p521", "p384", "p256", "mlkem-tiny",
                 "k256", "x25519"]


def b_checked():
    return cargo_build(HARNESS, "checked", features="generic", tag="generic")


def b_release():
    return cargo_build(HARNESS, "release")


def b_asan():
    return cargo_build(HARNESS, "release", rustflags="-Zsanitizer=address", toolchain=NIGHTLY, target=X86, tag="asan")


def b_tsan():
    return cargo_build(HARNESS, "release", rustflags="-Zsanitizer=thread", toolchain=NIGHTLY, target=X86, tag="tsan", build_std=True)


def miri_cmd(section, cases, lite):
    return ["cargo", "miri", "run", "--offline", "--features", "full,hosted", "--bin", "transcript", "--",
            section, str(cases)] + (["--lite"] if lite else [])


def miri_env(flags=MIRI_FLAGS):
    return env({"MIRIFLAGS": flags, "CARGO_TARGET_DIR": MIRI_DIR}, NIGHTLY)


def b_miri():
    os.makedirs(MIRI_DIR, exist_ok=True)
    stamp = os.path.join(MIRI_DIR, "repo.hash")
    h = repo_hash()
    if not os.path.exists(stamp) or open(stamp).read() != h:
        forget(MIRI_DIR, ("ml-kem", "x-wing", "dhkem"))
    r = subprocess.run(miri_cmd("none", 1, True), cwd=PROBE, env=miri_env(), capture_output=True, text=True, timeout=800)
    if r.returncode != 0 or "end 0" not in r.stdout:
        raise CheckError(f"the probe could not be built for Miri:\n{r.stderr[-3000:]}")
    open(stamp, "w").write(h)


def prebuild():
    return [b_checked, b_asan, b_tsan, b_miri]


def miri(rep, section, lite, lock, errors, flags=MIRI_FLAGS, cases=1):
    cmd = miri_cmd(section, cases, lite)
    t0 = time.time()
    try:
        r = subprocess.run(cmd, cwd=PROBE, env=miri_env(flags), capture_output=True, text=True, timeout=7000 if thorough() else 780)
    except subprocess.TimeoutExpired:
        with lock:
            errors.append(f"Miri {section}: timed out")
        return
    with lock:
        log(f"ran Miri {section} in {time.time() - t0:.1f}s: exit {r.returncode}")
        m = re.search(r"^error: Undefined Behavior: (.*)$", r.stderr, re.M)
        p = re.search(r"^thread '.*?' .*?panicked at (\S+?):\d+:\d+:\n(.*)$", r.stderr, re.M)
        if m:
            at = re.search(r"(/repo/\S+:\d+)", r.stderr[m.start():])
            rep.violation(f"undefined behaviour in {section}: {m.group(1)[:200]}" + (f" [{at.group(1)}]" if at else ""),
                          r.stderr[m.start():m.start() + 4000], command=" ".join(cmd), miriflags=flags)
        elif p and not p.group(1).startswith("src/"):
            rep.violation(f"panic in {section} at {p.group(1)}: {p.group(2)[:200]}", r.stderr[-3000:], command=" ".join(cmd), miriflags=flags)
        elif p:
            rep.coverage.setdefault("cases_wrong_otherwise", []).append(f"Miri {section}: {p.group(2)[:200]}")
        elif r.returncode != 0 or not re.search(r"^end \d+$", r.stdout, re.M):
            errors.append(f"Miri {section}: ended with {r.returncode}: {r.stderr[-1500:]}")
        else:
            n = len(r.stdout.splitlines()) - 1
            rep.evaluations += n
            rep.coverage.setdefault("interpreted", {})[section + (" (tree borrows)" if "tree" in flags else "")] = dict(values=n, seconds=round(time.time() - t0, 1))


def side_by_side(jobs, width):
    """Run the jobs, at most `width` at a time; the first CheckError is raised when all have ended."""
    it, lock, failed = iter(jobs), threading.Lock(), []

    def worker():
        while True:
            with lock:
                j = next(it, None)
            if j is None:
                return
            try:
                j()
            except Exception as e:
                failed.append(e)
    ts = [threading.Thread(target=worker) for _ in range(width)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    return failed


def judge(rep, failed, errors, level, rule):
    if not rep.violations:
        if failed:
            raise failed[0]
        if errors:
            raise CheckError("; ".join(errors))
    return finish(rep, level, rule)


def c11(level, rule):
    rep = Report("C11")
    lock, errors = threading.Lock(), []
    checked, release, asan = b_checked(), b_release(), b_asan()
    b_miri()
    t = thorough()

    def natively():
        run_mon(rep, checked, "overflow and debug assertions", ["--scale", "0.1" if t else "0.5"])
        if not rep.violations:
            run_mon(rep, asan, "AddressSanitizer", ["--scale", "0.02" if t else "0.15"], extra_env=ASAN)

    def under_valgrind():
        run_mon(rep, release, "valgrind memcheck", ["--scale", "0.001" if t else "0.012", "--hostile-only", "--threads", "1"],
                extra_env={"MON_SANITIZED": "1"}, wrapper=VALGRIND)

    jobs = [natively, under_valgrind]
    for s in MIRI_THOROUGH if t else MIRI_QUICK:
        jobs.append(lambda s=s: miri(rep, s, not t, lock, errors))
    if t:
        for s in MIRI_QUICK:
            jobs.append(lambda s=s: miri(rep, s, True, lock, errors, MIRI_FLAGS + " -Zmiri-tree-borrows"))
    failed = side_by_side(jobs, 8)
    return judge(rep, failed, errors, level, rule)


def c12(level, rule):
    rep = Report("C12")
    release, tsan = b_release(), b_tsan()
    t = thorough()
    run_mon(rep, release, "release", ["--scale", "0.3" if t else "1"])
    if not rep.violations:
        run_mon(rep, tsan, "ThreadSanitizer", ["--scale", "0.02" if t else "0.25"], extra_env=TSAN)
    if t and not rep.violations:
        run_mon(rep, cargo_build(HARNESS, "checked"), "checked", ["--scale", "0.03"])
    return finish(rep, level, rule)
