"""C09: what is left of a key after it is dropped."""
import os, re, subprocess
from common import *

PROBE = os.path.join(ROOT, "probe")
# (label, short name for signatures, features, profile, keys)
CONFIGS = [
    ("all features, debug", "full", "full,hosted", "dev", 4),
    ("all features, release", "full", "full,hosted", "release", 10),
    ("all features, optimized for size", "full", "full,hosted", "optsize", 10),
    ("all features, fat LTO, one unit", "full", "full,hosted", "lto", 10),
    ("ml-kem alone with zeroize, release", "mlkem", "mlkem-zeroize,hosted", "release", 10),
    ("x-wing alone with zeroize, release", "xwing", "xwing,xwing-zeroize,hosted", "release", 10),
    ("dhkem alone with zeroize, release", "dhkem", "curves,dhkem-zeroize,hosted", "release", 10),
    ("dhkem alone with zeroize, debug", "dhkem", "curves,dhkem-zeroize,hosted", "dev", 4),
]


def build(feats, prof, name):
    return cargo_build(PROBE, prof, features=feats, tag="wipe" if name == "full" else f"wipe-{name}", bins=("wipe",))


def prebuild():
    return [lambda c=c: build(c[2], c[3], c[1]) for c in CONFIGS]


def check(level, rule):
    rep = Report("C09")
    known = known_findings("C09")
    for label, short, feats, prof, keys in CONFIGS:
        b = build(feats, prof, short)
        n = keys * (20 if thorough() else 1)
        r = subprocess.run([os.path.join(b, "wipe"), str(n), str(seed())], capture_output=True, text=True, timeout=3000, env=env())
        end = re.search(r"^end kinds=(\d+) ways=(\d+) images=(\d+) bytes=(\d+)", r.stdout, re.M)
        if r.returncode != 0 or not end:
            raise CheckError(f"wipe [{label}] ended with {r.returncode}: {(r.stdout + r.stderr)[-1500:]}")
        control, inconclusive = [], re.findall(r"^inconclusive (.*)$", r.stdout, re.M)
        if inconclusive:
            raise CheckError(f"wipe [{label}]: {inconclusive[0]}")
        ok = 0
        for m in re.finditer(r"^case kind=(\S+) way=(\S+) keys=(\d+) size=(\d+) secret=(\d+) verdict=(\w+) ?(.*)$", r.stdout, re.M):
            kind, way, verdict, detail = m.group(1), m.group(2), m.group(6), m.group(7)
            if kind == "control":
                if way != "overwritten":  # leaves the successor, wiped or not
                    control.append(verdict)
                continue
            rep.evaluations += int(m.group(3))
            sig = f"{short}:{kind}:{'zeroize' if way == 'zeroize_called' else 'drop'}"
            if verdict == "ok":
                ok += 1
            elif sig in known:
                if sig not in rep.known_seen:
                    rep.known_seen.add(sig)
                    rep.known.append(f"{sig} {known[sig]}")
            else:
                rep.violation(f"secrets of a {kind} outlive it: {way} ({label})", detail, kind=kind, way=way, configuration=label,
                              command=f"{os.path.relpath(b, ROOT)}/wipe {n} {seed()}")
        if not control or "ok" in control:
            raise CheckError(f"wipe [{label}]: keys that are not wiped were not noticed: {control}")
        rep.distinct += int(end.group(3))
        rep.coverage.setdefault("configurations", {})[label] = dict(
            kinds_of_key=int(end.group(1)), kinds_x_ways=int(end.group(2)), images_judged=int(end.group(3)),
            bytes_judged=int(end.group(4)), wiped=ok, unwiped_control_noticed=len(control))
        first = re.search(r"^case kind=ml-kem_768 way=end_of_scope .*", r.stdout, re.M)
        if first:
            rep.sample(f"{label}: {first.group(0)}")
    return finish(rep, level, rule)
