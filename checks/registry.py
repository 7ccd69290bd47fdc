"""One entry per property: how it is run, at what level, by what rule."""
import json, os, subprocess, sys, traceback
from common import *
import configs, quiet, safety, taint, wipe

RULES = {
    "C01": "A case is a parameter set with seeds (d, z), random, structured, or mined for extreme XOF consumption; "
           "distinct by (set, d, z). The produced keys are compared byte for byte with the executable FIPS 203.",
    "C02": "A case is a parameter set, an encapsulation key (honest in several provenances, or adversarial canonical "
           "coefficients and matrix seeds) and a message m; distinct by all three. Ciphertext and secret are compared with "
           "the executable FIPS 203.",
    "C03": "A case is a decapsulation key byte string and a ciphertext; distinct by both. Keys are honest, noisy, steered so "
           "that the ciphertext decrypts to chosen values up to the rounding boundary and must be accepted, "
           "non-canonical, or inconsistent; ciphertexts are honest, altered, random or constant.",
    "C04": "A case is one encapsulation to a key of random provenance and its decapsulation with a key of random "
           "provenance; distinct by ciphertext.",
    "C05": "A case is one altered ciphertext; distinct by (set, z, ciphertext). Every bit of a ciphertext is flipped, "
           "and patterns that cancel under weak comparisons are applied, many so quiet that the message still decrypts.",
    "C06": "A case is a key byte string (honest or malformed) taken through parse, encode, parse, clone and compare; distinct "
           "by bytes. Every bit of an encapsulation key and of a decapsulation key is altered in turn; results are compared "
           "with the encodings' definition.",
    "C07": "A case is one randomized operation on a scripted generator whose calls are recorded, compared with the "
           "deterministic form on the same bytes; distinct by generator output.",
    "C08": "A case is one operation and one failure point: every byte position of every generator failing there, and, for "
           "operations that use the OS source, every call of it failing in every way listed under counts; distinct by both.",
    "C09": "A case is one key (all parts but the secret ones fixed, or generated), put somewhere and dropped in one way; distinct by kind, way, key and "
           "configuration. The bytes left behind at the secret places must be the same for all keys, and no run of 8 secret bytes may be found.",
    "C10": "A case is one operation in one build on secrets marked undefined: key generation, encapsulation, parsing, accepted and rejected "
           "decapsulation, with honest and malformed keys; distinct by operation, build and inputs. Memcheck reports are counted per "
           "operation; results must come out tainted.",
    "C11": "A case is one hostile key, ciphertext and generator output taken through every operation, or one case of another property's "
           "workload, in a build with overflow checks, under AddressSanitizer, under memcheck, or interpreted by Miri; distinct by inputs.",
    "C12": "A case is one set of shared keys used by 2-8 threads or by one thread in a random history of calls, calls from within the "
           "generator, and calls ended by a panicking generator; distinct by recorded history. Every result is compared with the one "
           "the same call gives alone.",
    "C13": "A case is one history of operations of one section of the transcript in one configuration; distinct values are the "
           "(section, case, step) triples of the reference transcript, each compared in every configuration that has it.",
    "C14": "A case is one user-defined parameter set taken through every kind of case of C01-C03, C06 and C07 once; distinct by the "
           "inputs. Results are compared byte for byte with the executable FIPS 203 of the same parameters.",
    "C22": "A case is one history of operations of the transcript in a process that traps every system call and clock read and "
           "counts allocations, or one case of another property's workload under a counting allocator; distinct values are "
           "observed results.",
    "C15": "A case is a 32-byte X-Wing key with 64 bytes of encapsulation randomness, or a key and a hostile ciphertext; "
           "distinct by these. Results are compared byte for byte with the executable draft-04.",
    "C16": "A case is one (altered) X-Wing ciphertext; distinct by key and ciphertext. Every bit of a ciphertext is flipped; "
           "the altered secret must be the draft-04 value of the altered ciphertext and differ from the sender's, except "
           "where only a different spelling of the same X25519 point was asked for, which must still change the secret.",
    "C17": "A case is a byte string for one of the three X-Wing encodings taken through parse, encode, clone, compare and a "
           "use; distinct by bytes.",
    "C18": "A case is one X-Wing operation on a recorded generator or a scripted OS source; distinct by randomness.",
    "C19": "A case is a key pair and an encapsulation on one of five curves; distinct by curve and scalars. Secrets are compared with an "
           "independent implementation of the curves in model/.",
    "C20": "A case is a sequence of DHKEM operations with recorded generators; distinct by generator output. Every key must be reproduced "
           "from the bytes drawn in its own call, and no operation may touch another source.",
    "C21": "A case is a key taken through every constructor, accessor, conversion, comparison and trait of the wrapper types; "
           "distinct by key.",
    "C23": "A case is a peer key, honest or hostile (every encoding of every low-order point), used in encapsulation and decapsulation; distinct "
           "by curve and key.",
}

SCALE = {"C01": 8, "C02": 8, "C03": 8, "C04": 8, "C05": 4, "C06": 2, "C07": 4, "C15": 4, "C16": 2, "C17": 4, "C18": 4, "C19": 4, "C20": 4, "C21": 4,
         "C23": 2}


def simple(prop, checked=False):
    def f():
        rep = Report(prop)
        b = cargo_build(HARNESS, "release")
        sc = SCALE.get(prop, 1) if not thorough() else 1
        run_mon(rep, b, "release", ["--scale", str(sc)])
        if (checked or thorough()) and not rep.violations:
            b = cargo_build(HARNESS, "checked")
            run_mon(rep, b, "checked", ["--scale", "0.1"])
        return finish(rep, META[prop][1], RULES[prop])
    return f


CHECKS = {p: simple(p) for p in ("C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C15", "C16", "C17", "C18",
                                 "C19", "C20", "C21", "C23")}


def c14():
    rep = Report("C14")
    b = cargo_build(HARNESS, "release", features="generic", tag="generic")
    run_mon(rep, b, "release", ["--scale", "1" if thorough() else "6"])
    if thorough() and not rep.violations:
        b = cargo_build(HARNESS, "checked", features="generic", tag="generic")
        run_mon(rep, b, "checked", ["--scale", "0.1"])
    return finish(rep, META["C14"][1], RULES["C14"])


CHECKS["C09"] = lambda: wipe.check(META["C09"][1], RULES["C09"])
CHECKS["C10"] = lambda: taint.check(META["C10"][1], RULES["C10"])
CHECKS["C11"] = lambda: safety.c11(META["C11"][1], RULES["C11"])
CHECKS["C12"] = lambda: safety.c12(META["C12"][1], RULES["C12"])
CHECKS["C13"] = lambda: configs.check(META["C13"][1], RULES["C13"])
CHECKS["C14"] = c14
CHECKS["C22"] = lambda: quiet.check(META["C22"][1], RULES["C22"])


def run(prop):
    if prop not in CHECKS:
        print(f"unknown property {prop}")
        return 2
    os.makedirs(WORK, exist_ok=True)
    try:
        return CHECKS[prop]()
    except CheckError as e:
        print(f"ERROR property={prop}: {e}")
        return 2
    except Exception:
        traceback.print_exc()
        print(f"ERROR property={prop}: the check itself failed")
        return 2


def setup():
    """Build ahead of the checks. A variant that does not build is left for its check to report."""
    os.makedirs(WORK, exist_ok=True)
    ok = True
    steps = [lambda: cargo_build(HARNESS, "release"),
             lambda: cargo_build(HARNESS, "release", features="generic", tag="generic")]
    for m in (configs, quiet, wipe, taint, safety):
        steps += m.prebuild()
    for i, s in enumerate(steps):
        try:
            s()
        except (CheckError, subprocess.TimeoutExpired) as e:
            print(str(e)[-3000:])
            ok = ok and i != 0
    return 0 if ok else 1


def replay(path):
    j = json.load(open(path))
    print(json.dumps(j, indent=1)[:3000])
    if "stage" not in j:
        return 0
    os.environ["VERIF_SEED"] = str(j["seed"])
    os.environ["VERIF_TIER"] = j["tier"]
    os.makedirs(WORK, exist_ok=True)
    b = cargo_build(HARNESS, "checked" if "checked" in j["bindir"] else "release")
    return subprocess.run([os.path.join(b, "mon"), j["property"], "--seed", str(j["seed"]), "--tier", j["tier"],
                           "--only", f"{j['stage']}:{j['index']}"] + [a for a in j.get("args", []) if "--only" not in a]).returncode


TRUST = ("Decides the executions it makes, no others. Trusts the executable specification in model/ (self-tested against "
         "ACVP, X-Wing and RFC vectors on every run), rustc and the machine.")
META = {
    "C01": ("differential runtime monitor: generated keys vs an executable FIPS 203, with mined extreme seeds", "exploration", TRUST),
    "C02": ("differential runtime monitor: encapsulations to honest and adversarial keys vs an executable FIPS 203", "exploration", TRUST),
    "C03": ("differential runtime monitor: decapsulation with honest, noisy, steered and malformed keys vs an executable FIPS 203", "exploration", TRUST),
    "C04": ("runtime monitor of sender/receiver agreement and distinctness over key provenances", "exploration", TRUST),
    "C05": ("runtime monitor of implicit rejection over every bit and over cancelling alterations", "exploration", TRUST),
    "C06": ("runtime monitor of encode/parse/compare histories over every altered bit of keys", "exploration", TRUST),
    "C07": ("runtime monitor on recorded generator calls, replayed through the deterministic forms", "exploration", TRUST),
    "C08": ("fault injection at every generator byte and every OS entropy call, with a monitor on what is returned", "fault_enumeration", TRUST),
    "C09": ("runtime monitor of memory left by dropped keys (non-interference over key pairs, secret search)", "exploration",
            "Looks at the storage that held the key, not at registers or moved-from temporaries. " + TRUST),
    "C10": ("taint monitor: secrets marked undefined under valgrind memcheck, at three optimization levels", "exploration",
            "A report counts if it occurs at opt-level 3 and at another level. Needs the declassification hook for key generation. " + TRUST),
    "C11": ("hostile-input workloads under overflow checks, AddressSanitizer, valgrind memcheck and Miri", "exploration",
            "Miri and memcheck see few inputs, the sanitizers many. " + TRUST),
    "C12": ("offline checker of recorded concurrent and reentrant call histories against sequential results; ThreadSanitizer", "exploration",
            TRUST),
    "C13": ("transcript comparison across feature sets, profiles, a 32-bit bare-metal build and interpreted big-endian targets", "exploration",
            TRUST + " Big-endian targets run under Miri, few cases."),
    "C14": ("differential runtime monitor: 55 user-defined parameter sets vs an executable FIPS 203", "exploration", TRUST),
    "C22": ("runtime monitor: seccomp traps, trapped clock reads and a counting allocator around the operations", "exploration", TRUST),
    "C15": ("differential runtime monitor: X-Wing operations vs an executable draft-04", "exploration", TRUST),
    "C16": ("runtime monitor of agreement and of every altered bit of X-Wing ciphertexts", "exploration", TRUST),
    "C17": ("runtime monitor of X-Wing encode/parse/compare histories", "exploration", TRUST),
    "C18": ("runtime monitor on recorded generator calls and an interposed OS entropy source", "exploration", TRUST),
    "C19": ("differential runtime monitor: DHKEM vs an independent elliptic curve implementation", "exploration", TRUST),
    "C20": ("runtime monitor on recorded generator calls over operation histories", "exploration", TRUST),
    "C21": ("runtime monitor of wrapper conversions against the wrapped key", "exploration", TRUST),
    "C23": ("runtime monitor of the returned secret under hostile peer keys", "exploration", TRUST),
}
NOT_APPLICABLE = {}
