"""C26: the Haskell bindings against the C library."""
import os, shutil
from .common import *
from . import crun, amal

VARIANTS["hs"] = (CLANG, CLANGXX, ["-O1", "-g1", "-fPIC"], [], [], True)
HARNESS_FILES["hs"] = ["rt", "gen", "ops", "oracle", "main"]
BIND = os.path.join(REPO, "bindings", "flatcv-hs")


def build(ck):
    """The bindings as cabal would build them (c2hs against the amalgamation's header, then ghc), linked with the harness."""
    _, cxx, fl, _, hfl, _ = VARIANTS["hs"]
    d = os.path.join(BUILD, "hs")
    os.makedirs(d, exist_ok=True)
    hdr = amal.generate(ck)
    hh, inc = os.path.join(HARN, "h.h"), os.path.join(HARN, "hs", "bridge.inc")
    with ThreadPoolExecutor(JOBS) as ex:
        ho = [ex.submit(compile_one, cxx, fl + hfl + ["-DWHICH_hs", "-I" + HARN], os.path.join(HARN, f + ".cc"), d, False, [hh, inc]) for f in HARNESS_FILES["hs"]]
        lo = build_lib("hs")
        ho = [f.result() for f in ho]
    src = os.path.join(ck.scratch, "hs")
    shutil.copytree(os.path.join(BIND, "src"), src)
    shutil.copy(os.path.join(HARN, "hs", "Main.hs"), src)
    hsfiles = []
    for root, _, fs in os.walk(src):
        hsfiles += [os.path.join(root, f) for f in fs if f.endswith((".hs", ".chs"))]
    h = hashlib.sha256("".join(ho + lo).encode())
    for f in sorted(hsfiles) + [os.path.join(hdr, "flatcv.h")]:
        with open(f, "rb") as fh:
            h.update(os.path.relpath(f, ck.scratch).encode() + b"\0" + fh.read())
    exe = os.path.join(d, "h_" + h.hexdigest()[:20])
    if os.path.exists(exe):
        return exe
    env = dict(os.environ, LC_ALL="C.UTF-8", HOME=ck.scratch)
    for f in hsfiles:
        if f.endswith(".chs"):
            r = run([find("c2hs"), "-C", "-I" + hdr, os.path.relpath(f, src)], cwd=src, env=env)
            if r.returncode:
                ck.violation("c2hs rejects the bindings with the library's header: " + r.stdout.decode("utf8", "replace")[-2000:], kind="build")
                return None
    tmp = exe + ".tmp%d" % os.getpid()
    wr = []
    for root, _, fs in os.walk(src):
        for f in fs:
            if f.endswith(".chs.c"):   # c2hs: wrappers of the functions that take bool
                o = os.path.join(root, f[:-2] + "_wrap.o")
                must([GCC, "-O1", "-fPIC", "-w", "-I" + hdr, "-I" + src, "-c", os.path.join(root, f), "-o", o], env=env)
                wr.append(o)
    exts = ["-X" + x for x in cabal_extensions()]
    r = run([find("ghc"), "-O1", "-v0", "-j4", "-XHaskell2010"] + exts + ["-I" + hdr, "-optc-w", "-outputdir", os.path.join(ck.scratch, "hso"), "-o", tmp, "--make", "Main.hs"] +
            ho + lo + wr + ["-optl-Wl,--wrap=free", "-lstdc++", "-lm"], cwd=src, env=env)
    if r.returncode:
        ck.violation("the bindings do not build against the library: " + r.stdout.decode("utf8", "replace")[-2500:], kind="build")
        return None
    os.replace(tmp, exe)
    return exe


def cabal_extensions():
    out, on = [], False
    with open(os.path.join(BIND, "flatcv.cabal")) as f:
        for l in f:
            if ":" in l:
                k, v = l.split(":", 1)
                on = k.strip() == "default-extensions"
                l = v if on else ""
            if on:
                out += [x for x in l.replace(",", " ").split() if x.isalnum()]
            if l.startswith("test-suite"):
                break
    return sorted(set(out))


def c26(ck):
    from . import props
    ck._known_counts = {}
    ck._extra = {}
    ck.rule = ("The bindings' Haskell sources are built with c2hs and ghc against the header and the separate sources of the library. Case i: one of the 38 vector functions or 16 pointer functions is called through the binding on "
               "a slice of a vector (generator of C01; arguments the binding's types can express) and the result, read in Haskell, is compared with the direct call of the C function: bytes, sizes, values, refusals; the accounting "
               "watches that each result is freed exactly once and only after it became unreachable, that the vector handed over is unchanged, and that no file stays open. Distinct by hash of all arguments and pixels.")
    exe = build(ck)
    if not exe:
        return
    crun.rand_phase(ck, "hs", 26, 600000 if THOROUGH else 40000, timelimit=1800 if THOROUGH else 200, exe=exe, which="hs")
    ck.cov["refusals_seen_through_the_bindings"] = ck._extra.get(7, 0)
    ck.cov["known_finding_cases"] = sum(ck._known_counts.values())
    if ck._known_counts.get(2):
        props.known(ck, "C26-vector-length")
