"""Building, running and reporting, shared by all checks."""
import fcntl, hashlib, json, os, re, shutil, signal, subprocess, sys, time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
WORK = os.path.join(ROOT, ".work")
HARNESS = os.path.join(ROOT, "harness")
STABLE = "stable-x86_64-unknown-linux-gnu"
NIGHTLY = "nightly-x86_64-unknown-linux-gnu"


class CheckError(Exception):
    """The check could not decide: neither held nor violated."""


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def seed():
    return int(os.environ.get("VERIF_SEED", "1") or "1")


def tier():
    t = os.environ.get("VERIF_TIER", "quick")
    return t if t in ("quick", "thorough") else "quick"


def thorough():
    return tier() == "thorough"


def env(extra=None, toolchain=STABLE):
    e = dict(os.environ)
    for k in list(e):
        if k.startswith("CARGO_PROFILE_") or k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "CARGO_BUILD_TARGET",
                                                   "RUSTC_WRAPPER", "CARGO_INCREMENTAL", "CARGO_TARGET_DIR",
                                                   "MIRIFLAGS", "RUST_BACKTRACE", "RUSTC_BOOTSTRAP"):
            del e[k]
    e["PATH"] = e.get("PATH", "") + ":/root/.cargo/bin"
    e["RUSTUP_TOOLCHAIN"] = toolchain
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    if extra:
        e.update(extra)
    return e


def repo_hash():
    h = hashlib.sha256()
    for d, dirs, files in os.walk(REPO):
        dirs[:] = sorted(x for x in dirs if x not in (".git", "target", "debug"))
        for f in sorted(files):
            if f.endswith((".rs", ".toml", ".lock", ".md", ".json")):
                p = os.path.join(d, f)
                h.update(os.path.relpath(p, REPO).encode() + b"\0")
                with open(p, "rb") as fh:
                    h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()


def forget(tdir, packages):
    """Make cargo build these packages again in every profile and for every target."""
    for d, dirs, _ in os.walk(tdir):
        if os.path.basename(d) == ".fingerprint":
            for x in dirs:
                if any(re.fullmatch(re.escape(p) + r"-[0-9a-f]{16}", x) for p in packages):
                    shutil.rmtree(os.path.join(d, x), ignore_errors=True)
            dirs[:] = []
        else:
            dirs[:] = [x for x in dirs if x not in ("deps", "incremental", "examples") and not d.endswith("/build")]


_BUILT = {}


def cargo_build(crate_dir, profile="release", rustflags="", toolchain=STABLE, target=None, tag=None, build_std=False,
                features=None, no_default=False, extra_env=None, extra=(), bins=(), packages_from_repo=("ml-kem", "x-wing", "dhkem"),
                timeout=800):
    """Build a harness crate against /repo's working tree; return the directory of its binaries."""
    name = os.path.basename(crate_dir.rstrip("/"))
    tag = tag or "main"
    tdir = os.path.join(WORK, "target", f"{name}-{tag}")
    key = (crate_dir, profile, rustflags, toolchain, target, tag, build_std, str(features), no_default, tuple(bins))
    if key in _BUILT:
        return _BUILT[key]
    os.makedirs(tdir, exist_ok=True)
    e = env(extra_env, toolchain)
    if rustflags:
        e["RUSTFLAGS"] = rustflags
    stamp = os.path.join(tdir, "repo.hash")
    h = repo_hash()
    old = open(stamp).read() if os.path.exists(stamp) else None
    if old != h:
        # Do not rely on time stamps when the sources were replaced under us.
        forget(tdir, packages_from_repo)
    cmd = ["cargo", "build", "--offline", "--target-dir", tdir, "--profile", profile]
    if target:
        cmd += ["--target", target]
    if build_std:
        cmd += ["-Zbuild-std" + ("" if build_std is True else "=" + build_std)]
    for b in bins:
        cmd += ["--bin", b]
    cmd += list(extra)
    if no_default:
        cmd += ["--no-default-features"]
    if features:
        cmd += ["--features", features]
    t0 = time.time()
    try:
        r = subprocess.run(cmd, cwd=crate_dir, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                           timeout=timeout)
    except subprocess.TimeoutExpired:
        raise CheckError(f"build of {name} ({tag}, {profile}) timed out")
    if r.returncode != 0:
        raise CheckError(f"build of {name} ({tag}, {profile}) failed:\n" + r.stdout[-6000:])
    with open(stamp, "w") as f:
        f.write(h)
    log(f"built {name} [{tag} {profile}] in {time.time() - t0:.1f}s")
    out = os.path.join(tdir, *([target] if target else []), "debug" if profile == "dev" else profile)
    _BUILT[key] = out
    return out


class Report:
    """What one check observed."""

    def __init__(self, prop):
        self.prop = prop
        self.t0 = time.time()
        self.evaluations = 0
        self.distinct = 0
        self.samples = []
        self.violations = []      # dicts: what, detail, replay info
        self.known = []           # (signature text)
        self.known_seen = set()
        self.coverage = {}
        self.assumptions = []
        self.truncated = []

    def sample(self, s):
        if len(self.samples) < 24:
            self.samples.append(str(s)[:600])

    def violation(self, what, detail="", **replay):
        self.violations.append(dict(what=what, detail=detail, replay=replay))

    def add_mon(self, j, label):
        self.evaluations += j["evaluations"]
        self.distinct += j["distinct"]
        for s in j["samples"]:
            self.sample(s)
        c = self.coverage.setdefault("runs", {}).setdefault(label, {})
        c.update(counts=j["counts"], maxima=j["maxes"], distinct_values=j["sets"], stages=j["stages"])
        self.truncated += j["truncated"]


def known_findings(prop):
    """signature -> description, for the findings recorded (not repaired) in known_findings.txt"""
    out = {}
    p = os.path.join(ROOT, "known_findings.txt")
    for line in open(p):
        line = line.strip()
        m = re.match(r"known: property=(\S+) signature=(\S+) (.*)", line)
        if m and m.group(1) == prop:
            out[m.group(2)] = m.group(3)
    return out


def run_mon(rep, bindir, label, args=(), extra_env=None, timeout=None, wrapper=(), binary="mon", budget=None, count=True):
    """Run the monitor binary; classify how it ended."""
    out = os.path.join(WORK, f"out-{rep.prop}-{os.getpid()}-{re.sub(r'[^A-Za-z0-9]', '_', label)}.json")
    if os.path.exists(out):
        os.unlink(out)
    cmd = list(wrapper) + [os.path.join(bindir, binary), rep.prop, "--seed", str(seed()), "--tier", tier(), "--out", out]
    if budget:
        cmd += ["--budget", str(budget)]
    cmd += list(args)
    timeout = timeout or (7000 if thorough() else 780)
    t0 = time.time()
    e = env(extra_env)
    p = subprocess.Popen(cmd, cwd=WORK, env=e, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True, errors="replace")
    try:
        _, err = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        p.kill()
        p.communicate()
        raise CheckError(f"{label}: the workload did not end within {timeout} s")
    log(f"ran {label} in {time.time() - t0:.1f}s: exit {p.returncode}")
    rc = p.returncode
    j = None
    if os.path.exists(out):
        try:
            j = json.load(open(out))
        except ValueError:
            j = None
        os.unlink(out)
    stages = dict(re.findall(r"^STAGE (\d+) (\S+)$", err, re.M))
    base = dict(label=label, args=list(args), bindir=os.path.relpath(bindir, ROOT))
    if rc in (0, 1, 2) and j is not None:
        if count:
            rep.add_mon(j, label)
        for v in j["violations"]:
            rep.violation(f"{v['what']}", v["detail"], stage=v["stage"], index=v["index"], **base)
        kf = known_findings(rep.prop)
        for f in j.get("findings", []) if rep.prop not in ("C11", "C22") else []:
            if f["signature"] in kf:
                if f["signature"] not in rep.known_seen:
                    rep.known_seen.add(f["signature"])
                    rep.known.append(f"{f['signature']} {kf[f['signature']]}")
            else:
                rep.violation(f["text"], f["detail"], signature=f["signature"], **base)
        if rc == 1 and j["violations"]:
            return j, err
        if j["errors"]:
            raise CheckError(f"{label}: " + "; ".join(j["errors"]))
        if rc == 0:
            return j, err
        raise CheckError(f"{label}: exit {rc} without explanation: {err[-2000:]}")
    m = re.search(r"(ERROR: AddressSanitizer: .*|WARNING: ThreadSanitizer: .*|^==\d+== (?:Conditional jump|Use of uninit|Invalid |Jump to|Source and dest|Syscall param|Process terminating).*)",
                  err, re.M)
    if rc != 0 and m:
        at = re.findall(r"(?:#\d+|at|by) .*?((?:/repo/|ml-kem/|x-wing/|dhkem/)\S+:\d+)", err[m.start():])
        rep.violation(m.group(1)[:200] + (f" [{at[0]}]" if at else ""), err[max(0, m.start() - 200):m.start() + 4000], **base)
        return None, err
    m = re.search(r"^CRASH signal=(\d+) in_impl=1(?: stage=(\d+) index=(\d+))?", err, re.M)
    if rc == 70 and m:
        rep.violation(f"operation crashed with signal {m.group(1)}", err[-3000:], stage=stages.get(m.group(2) or "", "?"),
                      index=int(m.group(3) or 0), **base)
        return None, err
    m = re.search(r"^HANG stage=(\d+) index=(\d+)", err, re.M)
    if rc == 72 and m:
        rep.violation("operation did not end within 60 s of CPU time", "", stage=stages.get(m.group(1), "?"),
                      index=int(m.group(2)), **base)
        return None, err
    raise CheckError(f"{label}: ended with {rc}: {err[-3000:]}")


def finish(rep, level, rule, known_used=None, exhaustive=None):
    """Write evidence, print verdict lines, return the exit code."""
    prop = rep.prop
    cov = dict(rep.coverage)
    cov["evaluations"] = rep.evaluations
    cov["distinct_nontrivial"] = rep.distinct
    cov["rule"] = rule
    cov["samples"] = rep.samples or ["none"]
    if rep.truncated:
        cov["stopped_early_by_time_budget"] = rep.truncated
    if exhaustive is not None:
        cov["exhaustive"] = exhaustive
    if rep.known:
        cov["known_findings_observed"] = rep.known
    ev = dict(property=prop, tier=tier(), seed=seed(), level=level, coverage=cov, assumptions=rep.assumptions,
              wall_s=round(time.time() - rep.t0, 2), violations=len(rep.violations))
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1)
    for k in rep.known:
        print(f"KNOWN-FINDING: property={prop} {k}")
    if rep.violations:
        os.makedirs(os.path.join(ROOT, "replays"), exist_ok=True)
        for i, v in enumerate(rep.violations[:10]):
            path = os.path.join(ROOT, "replays", f"{prop}-{seed()}-{i}.json")
            with open(path, "w") as f:
                json.dump(dict(property=prop, seed=seed(), tier=tier(), what=v["what"], detail=v["detail"], **v["replay"]), f, indent=1)
            log(f"  {v['what'][:500]}")
            log(f"  {v['detail'][:500]}")
            print(f"VIOLATION property={prop} replay={os.path.relpath(path, ROOT)}", flush=True)
        return 1
    print(f"held: property={prop} tier={tier()} seed={seed()} evaluations={rep.evaluations} distinct={rep.distinct} "
          f"wall={time.time() - rep.t0:.1f}s")
    return 0
