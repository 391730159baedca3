"""The plan of each check: which monitors run, on how many cases."""
from .common import *
from . import crun

RULE_C = ("Case i of seed s: operation chosen round robin from the property's operations, image size, content (21 families: noise, "
          "gradients, few levels, single deviating pixels, literal-derived bytes, ...) and parameters from the generator; "
          "a case is non-trivial if the operation returned a result and the input is not uniform; distinct by hash of all arguments and pixels. "
          "One phase (large_*) uses images of up to 30 megapixels, most of them of 0.2 to 5.")

# property: [(variant, quick cases, thorough cases)], (guided runs per worker quick, thorough), guided variant
FUNC = {
    "C06": (6, [("plain", 120000, 1500000), ("gcc", 16000, 100000)], (40000, 1000000)),
    "C07": (7, [("plain", 160000, 1500000), ("gcc", 16000, 100000)], (40000, 1000000)),
    "C08": (8, [("plain", 160000, 1500000), ("gcc", 16000, 100000)], (60000, 1000000)),
    "C09": (9, [("plain", 240000, 2000000), ("gcc", 32000, 100000)], (60000, 1000000)),
    "C10": (10, [("plain", 100000, 1000000), ("gcc", 16000, 100000)], (30000, 600000)),
    "C11": (11, [("plain", 40000, 800000), ("gcc", 4000, 60000)], (10000, 500000)),
    "C12": (12, [("plain", 100000, 800000), ("gcc", 12000, 60000)], (20000, 500000)),
    "C13": (13, [("plain", 160000, 1200000), ("gcc", 16000, 60000)], (30000, 500000)),
    "C14": (14, [("plain", 60000, 1000000), ("gcc", 8000, 60000)], (15000, 500000)),
    "C15": (15, [("plain", 24000, 400000), ("gcc", 2400, 60000)], (5000, 300000)),
    "C16": (16, [("plain", 100000, 800000), ("gcc", 12000, 60000)], (16000, 300000)),
    "C17": (17, [("plain", 40000, 600000), ("gcc", 3000, 60000)], (8000, 300000)),
    "C18": (18, [("plain", 160000, 1000000), ("gcc", 16000, 60000)], (24000, 300000)),
}
# cases of the phase with large images (up to 30 megapixels, operations and oracles permitting)
LARGE = dict(C06=800, C07=1600, C08=6000, C09=1600, C10=800, C11=400, C12=1200, C13=2500, C14=600, C15=500, C16=2500, C17=400, C18=800)


def large_phase(ck, prop, n, variant="plain"):
    if not ck.viol:
        crun.rand_phase(ck, variant, prop, n * 20 if THOROUGH else n, timelimit=1500 if THOROUGH else 100, label="large_" + variant, large=True)



def new(ck):
    ck._known_counts = {}
    ck._extra = {}
    ck.rule = RULE_C


def functional(pid):
    prop, phases, fz = FUNC[pid]

    def go(ck):
        new(ck)
        for var, q, t in phases:
            crun.rand_phase(ck, var, prop, t if THOROUGH else q, timelimit=1500 if THOROUGH else 150)
            if ck.viol:
                break
        large_phase(ck, prop, LARGE[pid])
        if not ck.viol:
            crun.fuzz_phase(ck, prop, fz[1] if THOROUGH else fz[0], timelimit=1200 if THOROUGH else 20)
        if pid == "C11" and ck._known_counts.get(0):
            known(ck, "C11-fractional-radius")
        if pid == "C12" and ck._known_counts.get(1):
            known(ck, "C12-half-pixel-shift")
        ck.cov["known_finding_cases"] = sum(ck._known_counts.values())
    return go


def known(ck, fid):
    with open(os.path.join(VERIF, "known-findings.json")) as f:
        for k in json.load(f)["known"]:
            if k["id"] == fid:
                ck.knownfinding(fid, k["what"])
                return
    ck.violation("finding %s is not listed" % fid)


CHECKS = {pid: functional(pid) for pid in FUNC}


def c01(ck):
    new(ck)
    ck.rule += " Under AddressSanitizer+UBSan (incl. float-cast-overflow), MemorySanitizer, and ASan-instrumented libFuzzer."
    crun.rand_phase(ck, "asan", 1, 600000 if THOROUGH else 40000, timelimit=2400 if THOROUGH else 200)
    if not ck.viol:
        crun.rand_phase(ck, "msan", 1, 300000 if THOROUGH else 14000, timelimit=1500 if THOROUGH else 150)
    large_phase(ck, 1, 400, "asan")
    if not ck.viol:
        crun.fuzz_phase(ck, 1, 2000000 if THOROUGH else 12000, timelimit=2400 if THOROUGH else 60, variant="fuzz")


def c02(ck):
    new(ck)
    ck.rule += " Arguments are malformed in one respect or at the edge of the accepted range (see harness/main.cc, case_c02)."
    crun.rand_phase(ck, "asan", 2, 400000 if THOROUGH else 16000, timelimit=1500 if THOROUGH else 150)
    if not ck.viol:
        crun.rand_phase(ck, "plain", 2, 800000 if THOROUGH else 30000, timelimit=1500 if THOROUGH else 150)
    if not ck.viol:
        crun.fuzz_phase(ck, 2, 400000 if THOROUGH else 6000, timelimit=1200 if THOROUGH else 25)
    ck.cov["accepted_boundary_calls"] = ck._extra.get(2, 0)


def c03(ck):
    new(ck)
    crun.rand_phase(ck, "plain", 3, 300000 if THOROUGH else 10000, timelimit=2400 if THOROUGH else 240)
    if not ck.viol:
        crun.rand_phase(ck, "asan", 3, 60000 if THOROUGH else 1200, timelimit=1500 if THOROUGH else 150)
    ck.cov["calls_in_histories"] = ck._extra.get(3, 0)
    ck.cov["repetitions"] = ck._extra.get(4, 0)


def c05(ck):
    new(ck)
    ck.level = "fault_enumeration"
    ck.rule += " For each case every allocation (up to 12; sampled beyond) is made to fail, alone and with all later ones."
    crun.rand_phase(ck, "asan", 5, 60000 if THOROUGH else 2400, timelimit=2400 if THOROUGH else 240)
    if not ck.viol:
        crun.rand_phase(ck, "plain", 5, 200000 if THOROUGH else 6000, timelimit=1500 if THOROUGH else 150)
    ck.cov["injected_failures"] = ck._extra.get(5, 0)


def c19(ck):
    new(ck)
    ck.rule += " Document images: bright convex quadrilateral (45-75 % of the image, rotated up to 14 degrees, distorted, noise) on a dark background."
    crun.rand_phase(ck, "plain", 19, 30000 if THOROUGH else 1200, timelimit=2400 if THOROUGH else 240)
    large_phase(ck, 19, 100)
    ck.cov["largest_corner_error_percent"] = ck._extra.get(6, 0) / 100


def c20(ck):
    new(ck)
    crun.rand_phase(ck, "plain", 20, 300000 if THOROUGH else 10000, timelimit=2400 if THOROUGH else 200)
    if not ck.viol:
        crun.rand_phase(ck, "gcc", 20, 30000 if THOROUGH else 800, timelimit=1200 if THOROUGH else 100)
    large_phase(ck, 20, 600)
    if not ck.viol:
        crun.fuzz_phase(ck, 20, 200000 if THOROUGH else 3000, timelimit=1200 if THOROUGH else 25)


CHECKS.update(C01=c01, C02=c02, C03=c03, C05=c05, C19=c19, C20=c20)
from . import thr
CHECKS["C04"] = thr.c04
from . import big
CHECKS["C27"] = big.c27
from . import clichecks
CHECKS["C22"] = clichecks.c22
CHECKS["C23"] = clichecks.c23
CHECKS["C24"] = clichecks.c24


def c21(ck):
    new(ck)
    ck.rule = ("Library: case i is a generated file (JPEG with EXIF in either byte order, any position of tag and block, other and look-alike segments, fill bytes; then cut short or corrupted in part of the cases); the returned "
               "orientation is compared with the generated one. Command line: JPEG files with generated EXIF segments; output compared with the pixels permuted by an independent definition of the eight orientations. Distinct by file.")
    for var, q, t in (("plain", 60000, 1000000), ("gcc", 6000, 60000), ("asan", 4000, 60000)):
        crun.rand_phase(ck, var, 21, t if THOROUGH else q, timelimit=1200 if THOROUGH else 120)
        if ck.viol:
            return
    crun.fuzz_phase(ck, 21, 1000000 if THOROUGH else 20000, timelimit=900 if THOROUGH else 20)
    if not ck.viol:
        clichecks.c21_cli(ck)


CHECKS["C21"] = c21
from . import amal
CHECKS["C25"] = amal.c25
from . import hs
CHECKS["C26"] = hs.c26


def replay(path):
    """Runs a recorded violation again on the current tree: exit status 1 if it is still there."""
    with open(path) as f:
        v = json.load(f)
    pid = v["property"]
    if (v.get("tier", TIER), v.get("seed", SEED)) != (TIER, SEED):
        os.environ.update(VERIF_TIER=v["tier"], VERIF_SEED=str(v["seed"]))
        os.execv(sys.executable, [sys.executable] + sys.argv)
    log("%s: %s" % (pid, v["what"]))
    if v.get("kind") not in ("harness", "fuzz") or v.get("build_variant") not in ("plain", "gcc", "asan", "msan", "fuzz", "fuzzp") or v.get("harness", "main") != "main":
        log("replay: runs the whole check with the recorded seed")
        ck = Check(pid)
        try:
            CHECKS[pid](ck)
            return ck.finish()
        finally:
            ck.close()
    ck = Check(pid)
    try:
        new(ck)
        exe = build_harness(v["build_variant"])
        env = dict(crun.base_env(ck), VF_VERBOSE="1", VF_PROP=str(v["prop"]), VF_OUT=os.path.join(ck.scratch, "o"))
        if v.get("large"):
            env["VF_LARGE"] = "1"
        if v["kind"] == "harness":
            rc, err, rep, _ = crun.one(exe, env, v["prop"], v["frm"], v["idx"] + 1, v["step"], os.path.join(ck.scratch, "r"), 600, 300, SEED)
            log(err[-3000:], (rep or {}).get("msg") or "", (rep or {}).get("case") or "")
        else:
            p = os.path.join(ck.scratch, "input")
            with open(p, "wb") as f:
                f.write(bytes.fromhex(v["input_hex"]))
            r = run([exe, "-timeout=600", "-rss_limit_mb=8000", p], env=env)
            rc = r.returncode
            log(r.stdout.decode("utf8", "replace")[-3000:])
    finally:
        ck.close()
    if rc:
        log("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    log("replay: the case passes")
    return 0
