"""C10: secrets marked undefined, memcheck watching."""
import os, re, subprocess, threading
from common import *

PROBE = os.path.join(ROOT, "probe")
FEATURES = "monitored,mlkem-det,mlkem-zeroize,xwing,xwing-zeroize,hosted"
BARE = "monitored,mlkem-det,xwing,hosted"
# (label, profile, features)
BUILDS = [("opt-level 3", "taint3", FEATURES), ("opt-level 2", "taint2", FEATURES), ("opt-level s", "taints", FEATURES)]
MORE = [("opt-level 3 without zeroize", "taint3", BARE)]


def build(prof, feats):
    return cargo_build(PROBE, prof, rustflags="--cfg kem_monitor", features=feats, tag="taint" if feats == FEATURES else "taint-bare", bins=("taint",))


def prebuild():
    return [lambda b=b: build(b[1], b[2]) for b in BUILDS]


def one(bindir, label, cases, base):
    """Run one slice; returns {stage: (runs, errors, tainted, declassified)}, report text."""
    logf = os.path.join(WORK, f"memcheck-{os.getpid()}-{base}-{re.sub(r'[^a-z0-9]', '', label)}.txt")
    r = subprocess.run(["valgrind", "--error-limit=no", "--num-callers=16", "--undef-value-errors=yes", f"--log-file={logf}",
                        os.path.join(bindir, "taint"), str(cases), str(base)], capture_output=True, text=True, timeout=6000, env=env())
    text = open(logf, errors="replace").read() if os.path.exists(logf) else ""
    if os.path.exists(logf):
        os.unlink(logf)
    if r.returncode != 0 or not r.stdout.endswith("end\n"):
        raise CheckError(f"taint [{label}] ended with {r.returncode}: {(r.stdout[-500:] + r.stderr[-1000:] + text[-1500:])}")
    rows = {}
    for m in re.finditer(r"^stage name=(\S+) runs=(\d+) errors=(\d+) tainted=(\d+) declassified=(\d+)", r.stdout, re.M):
        rows[m.group(1)] = [int(x) for x in m.groups()[1:]]
    wrong = re.findall(r"^wrong (.*)$", r.stdout, re.M)
    return rows, text, wrong


def traces(text):
    """Memcheck's reports that are not the controls'."""
    text = re.sub(r"^==\d+== ?", "", text, flags=re.M)
    out = []
    for block in re.split(r"\n\s*\n", text):
        m = re.search(r"(Conditional jump or move depends|Use of uninitialised value|Syscall param).*", block, re.S)
        if m and "taint::control" not in m.group(0):
            out.append(m.group(0)[:1800])
    return out


def check(level, rule):
    rep = Report("C10")
    rep.assumptions += ["memcheck's propagation of definedness through integer and vector instructions",
                        "instructions whose latency depends on operands (division) are not observed"]
    per = 60 if thorough() else 6
    slices = 16 if thorough() else 2
    res, lock, problems = {}, threading.Lock(), []
    builds = BUILDS + (MORE if thorough() else [])
    dirs = {label: build(prof, feats) for label, prof, feats in builds}
    jobs = [(label, seed() * 1000 + k) for label, _, _ in builds for k in range(slices)]
    it = iter(jobs)

    def worker():
        while True:
            with lock:
                j = next(it, None)
            if j is None:
                return
            try:
                r = one(dirs[j[0]], j[0], per, j[1])
                with lock:
                    res[j] = r
            except (CheckError, subprocess.TimeoutExpired) as e:
                with lock:
                    problems.append(str(e))
    ts = [threading.Thread(target=worker) for _ in range(8)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    if problems:
        raise CheckError(problems[0])

    total = {}    # build -> stage -> [runs, errors, tainted, declassified]
    text = {}
    for (label, _), (rows, log_, wrong) in res.items():
        if wrong:
            raise CheckError(f"taint [{label}]: results are wrong, so what ran is not what was meant: {wrong[0]}")
        text[label] = text.get(label, "") + log_
        for s, (n, e, t, d) in rows.items():
            a = total.setdefault(label, {}).setdefault(s, [0, 0, 1 << 60, 1 << 60])
            a[0] += n
            a[1] += e
            a[2] = min(a[2], t)
            a[3] = min(a[3], d)
    main = BUILDS[0][0]
    for label, stages in total.items():
        if not stages["control_branch"][1] or not stages["control_address"][1] or stages["control_arithmetic"][1]:
            raise CheckError(f"taint [{label}]: the controls were not judged right: {stages}")
    not_judged = []
    for s, (n, e, t, d) in total[main].items():
        if s.startswith("control"):
            continue
        if t == 0 or t > 1 << 40:
            raise CheckError(f"taint: the result of {s} does not depend on the secret at all")
        # Key generation is judged only where the monitor was told which value is public.
        if d == 0 and (re.search(r"generate|x-wing_(decaps|encapsulation)", s)):
            not_judged.append(s)
            continue
        also = [l for l in total if l != main and total[l].get(s, [0, 0])[1]]
        rep.evaluations += sum(total[l][s][0] for l in total if s in total[l])
        if e and also:
            tr = traces(text[main])
            rep.violation(f"{s.replace('_', ' ')}: a branch or an address depends on a secret ({e} reports at opt-level 3, also at {', '.join(also)})",
                          tr[0] if tr else "", stage_name=s, command=f"valgrind {os.path.relpath(dirs[main], ROOT)}/taint {per} {seed() * 1000}",
                          memcheck=tr[:4])
        elif e or any(total[l].get(s, [0, 0])[1] for l in total):
            rep.coverage.setdefault("reported_at_one_level_only", []).append(s)
    rep.distinct = sum(1 for l in total for s in total[l] if not s.startswith("control")) * per * slices
    rep.coverage["stages"] = {l: {s: dict(runs=v[0], reports=v[1], result_bytes_tainted=v[2]) for s, v in st.items()} for l, st in total.items()}
    rep.coverage["not_judged_for_want_of_the_hook"] = not_judged
    for s in ("ml-kem_768_decapsulate_reject", "ml-kem_1024_generate", "x-wing_decapsulate_accept"):
        if s in total[main]:
            rep.sample(f"{s}: {total[main][s][0]} runs at opt-level 3, {total[main][s][1]} reports, at least {total[main][s][2]} tainted result bytes")
    return finish(rep, level, rule)
