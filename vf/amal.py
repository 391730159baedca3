"""C25: the amalgamation against the separate sources."""
import os, re, shutil
from .common import *
from . import crun

# no headers but its own: compiled in a directory that holds nothing else
USES = r"""
#include "flatcv.h"
%s
int main(void) { return 0; }
"""


def generate(ck):
    """Runs the repository's own rules in a copy of its sources; returns the directory of flatcv.h and flatcv.c."""
    tree = os.path.join(ck.scratch, "tree")
    os.makedirs(tree)
    for n in os.listdir(REPO):
        p = os.path.join(REPO, n)
        if os.path.isfile(p) and n not in ("flatcv.h", "flatcv.c") and os.path.getsize(p) < 4 << 20:
            shutil.copy(p, tree)
    for d in ("src", "include"):
        shutil.copytree(os.path.join(REPO, d), os.path.join(tree, d))
    r = run(["make", "-B", "-s", "CC=" + GCC, "flatcv.h", "flatcv.c"], cwd=tree, env=dict(os.environ, LC_ALL="C", MAKEFLAGS=""))
    if r.returncode or not all(os.path.exists(os.path.join(tree, f)) for f in ("flatcv.h", "flatcv.c")):
        raise Infra("the amalgamation is not generated: " + r.stdout.decode("utf8", "replace")[-1500:])
    out = os.path.join(ck.scratch, "amalgam")
    os.makedirs(out)
    for f in ("flatcv.h", "flatcv.c"):
        shutil.copy(os.path.join(tree, f), out)
    return out


def symbols(paths, kinds):
    s = set()
    for l in must(["nm"] + paths).decode().splitlines():
        f = l.split()
        if len(f) >= 2 and f[-2] in kinds:
            s.add(f[-1])
    return s


def compiles(ck, d):
    """Compiles alone, with its header, in several compilers; exposes every public operation; can be included twice."""
    n = 0
    sep = symbols(build_lib("plain"), "TDBRCV")
    declared = set()
    for h in headers():
        if "stb" not in os.path.basename(h):
            with open(h, encoding="utf8", errors="replace") as f:
                declared |= set(re.findall(r"\b([A-Za-z_]\w*)\s*\(", strip_c(f.read())))
    public = sorted(x for x in sep if x in declared)
    ck.cov["public_operations"] = len(public)
    if len(public) < 20:
        raise Infra("the public operations were not found")
    for cc in (GCC, CLANG):
        o = os.path.join(d, "alone.o")
        for opt in (["-O0"], ["-O2"], ["-O3", "-Wall"]):
            r = run([cc] + opt + ["-c", "flatcv.c", "-o", o], cwd=d)
            n += 1
            if r.returncode:
                ck.violation("the amalgamation does not compile alone (%s): %s" % (os.path.basename(cc), r.stdout.decode("utf8", "replace")[:1500]), kind="compile")
                return
            missing = [x for x in public if x not in symbols([o], "TDBRCVW")]
            if missing:
                ck.violation("the amalgamation lacks " + ", ".join(missing), kind="symbols")
                return
        # a user's program of two files that both include the header
        for k, body in (("u1", USES % "\n".join("void *p_%s = (void *)%s;" % (x, x) for x in public)), ("u2", "#include \"flatcv.h\"\n#include \"flatcv.h\"\nint other(void) { return 1; }\n")):
            with open(os.path.join(d, k + ".c"), "w") as f:
                f.write(body)
        r = run([cc, "-Werror=implicit-function-declaration", "u1.c", "u2.c", "alone.o", "-lm", "-o", "prog"], cwd=d)
        n += 1
        if r.returncode:
            ck.violation("a program that uses every public operation does not build with flatcv.h (%s): %s" % (os.path.basename(cc), r.stdout.decode("utf8", "replace")[:1500]), kind="compile")
            return
    ck.cov["stand_alone_builds"] = n
    ck.evals += n


def second(ck, variant, d):
    """Harness objects that call the amalgamation, its symbols renamed."""
    cc, cxx, fl, lfl, hfl, _ = VARIANTS[variant]
    bd = os.path.join(BUILD, variant)
    os.makedirs(bd, exist_ok=True)
    with open(os.path.join(d, "flatcv.c"), "rb") as f, open(os.path.join(d, "flatcv.h"), "rb") as g:
        key = hashlib.sha256(f.read() + g.read() + " ".join([cc] + fl + lfl).encode()).hexdigest()[:20]
    am = os.path.join(bd, "amalgam_%s.o" % key)
    if not os.path.exists(am):
        t = am + ".tmp%d.o" % os.getpid()
        must([cc] + fl + lfl + ["-w", "-c", os.path.join(d, "flatcv.c"), "-o", t])
        names = symbols([t], "TDBRCVW")
        ren = os.path.join(d, "ren_" + variant)
        with open(ren, "w") as f:
            f.write("".join("%s am_%s\n" % (x, x) for x in sorted(names)))
        must([OBJCOPY, "--redefine-syms=" + ren] + sum([["--redefine-sym", a + "=" + b] for a, b in REDIR], []) + [t])
        os.replace(t, am)
    hh = os.path.join(HARN, "h.h")
    ops = compile_one(cxx, fl + hfl + ["-DWHICH_main", "-DSECOND"], os.path.join(HARN, "ops.cc"), bd, False, [hh])
    names = sorted(x[3:] for x in symbols([am], "TDBRCVW") if x.startswith("am_"))
    key = hashlib.sha256((ops + am + " ".join(names)).encode()).hexdigest()[:20]
    o2 = os.path.join(bd, "ops2_%s.o" % key)
    if not os.path.exists(o2):
        t = o2 + ".tmp%d.o" % os.getpid()
        must([OBJCOPY, "--weaken"] + sum([["--redefine-sym", "%s=am_%s" % (x, x)] for x in names], []) + [ops, t])
        os.replace(t, o2)
    SECOND[variant] = [o2, am]


def c25(ck):
    ck._known_counts = {}
    ck._extra = {}
    ck.rule = ("The amalgamation is generated by the repository's rules in a copy; it is compiled alone by two compilers, and a program that refers to every public operation is linked with it. Then case i: one call "
               "(generator of C01) executed by both builds in one process, results, sizes, memory and file accounting compared byte for byte; random and guided by libFuzzer. " + "Distinct by hash of all arguments and pixels.")
    d = generate(ck)
    compiles(ck, d)
    if ck.viol:
        return
    for var, q, t in (("amal", 30000, 600000), ("amalgcc", 5000, 60000), ("amalasan", 2000, 40000)):
        second(ck, var, d)
        crun.rand_phase(ck, var, 25, t if THOROUGH else q, timelimit=1500 if THOROUGH else 120)
        if ck.viol:
            return
    crun.rand_phase(ck, "amal", 25, 8000 if THOROUGH else 400, timelimit=1500 if THOROUGH else 100, label="large_amal", large=True)
    if ck.viol:
        return
    second(ck, "fuzzamal", d)
    crun.fuzz_phase(ck, 25, 600000 if THOROUGH else 4000, timelimit=1200 if THOROUGH else 25, variant="fuzzamal")
