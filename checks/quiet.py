"""C22: no heap, no kernel."""
import os, re, subprocess
from common import *

PROBE = os.path.join(ROOT, "probe")
EXTREME = os.path.join(ROOT, "model", "vectors", "extreme.txt")


def run_quiet(rep, label, bindir, cases):
    """Two runs of the locked-down children; returns what they saw."""
    seen = []
    for _ in range(2):
        r = subprocess.run([os.path.join(bindir, "quiet"), str(cases), EXTREME], capture_output=True, text=True,
                           timeout=600, env=env())
        if r.returncode != 0:
            raise CheckError(f"quiet [{label}] ended with {r.returncode}: {r.stderr[-1500:]}")
        rows = {}
        for line in r.stdout.splitlines():
            m = re.match(r"result run=(\S+) status=(-?\d+) done=(\d+) ops=(\d+) values=(\d+) extreme=(\d+) allocs=(\d+) "
                         r"syscall=(-?\d+) panicked=(\d+) digest=(\S+) at=(.*)", line)
            if m:
                rows[m.group(1)] = dict(zip(("status", "done", "ops", "values", "extreme", "allocs", "syscall", "panicked"),
                                            map(int, m.groups()[1:9])), digest=m.group(10), at=m.group(11))
        seen.append(rows)
    a, b = seen
    # the monitor's own eyes
    if a["control-alloc"]["allocs"] < 1 or a["control-syscall"]["syscall"] != 39:
        raise CheckError(f"quiet [{label}]: the controls were not observed: {a['control-alloc']} {a['control-syscall']}")
    clock = a["control-clock"]["syscall"] == -2
    total = 0
    for name, r in a.items():
        if name.startswith("control"):
            continue
        where = dict(label=label, run=name, cases=cases)
        if r["allocs"]:
            rep.violation(f"an operation used the heap: {r['at']} ({label})", str(r), **where)
        elif r["syscall"] >= 0:
            rep.violation(f"an operation made system call {r['syscall']}: {r['at']} ({label})", str(r), **where)
        elif r["syscall"] == -2 and clock and name != "os-rng":
            rep.violation(f"an operation read the time stamp counter or crashed: {r['at']} ({label})", str(r), **where)
        elif not r["done"]:
            raise CheckError(f"quiet [{label}] {name}: child ended with {r['status']} at {r['at']} (panicked={r['panicked']})")
        elif name != "os-rng" and b[name]["digest"] != r["digest"]:
            rep.violation(f"two processes with the same generator output got different results: {name} ({label})", f"{r} {b[name]}", **where)
        total += r["values"]
        rep.evaluations += r["ops"] + r["extreme"]
    rep.distinct += total
    rep.coverage.setdefault("locked_down_runs", {})[label] = {
        n: dict(operations=r["ops"] + r["extreme"], values=r["values"]) for n, r in a.items() if not n.startswith("control")}
    rep.coverage["clock_reads_trapped"] = clock
    full = a.get("mlkem-768", {})
    rep.sample(f"{label}: mlkem-768 {full.get('ops')} histories, {full.get('values')} values, 0 allocations, 0 system calls, digest {full.get('digest')}")


CONFIGS = [
    ("all features, release", "full,hosted", "release"),
    ("all features, debug", "full,hosted", "dev"),
    ("no features, release", "xwing,curves,hosted", "release"),
    ("embedded features, optimized for size", "embedded,hosted", "optsize"),
]


def build(feats, prof):
    return cargo_build(PROBE, prof, features=feats, tag="quiet", bins=("quiet",))


def prebuild():
    return [lambda f=f, p=p: build(f, p) for _, f, p in CONFIGS]


def check(level, rule):
    rep = Report("C22")
    rep.assumptions.append("entropy instructions (RDRAND) are visible only as results that differ between two runs")
    cases = 3000 if thorough() else 250
    for label, feats, prof in CONFIGS:
        b = build(feats, prof)
        run_quiet(rep, label, b, cases if prof != "dev" else cases // 10)
    if not rep.violations:
        b = cargo_build(HARNESS, "release")
        run_mon(rep, b, "counting allocator around every operation of eleven workloads", ["--scale", "1"])
    return finish(rep, level, rule)
