"""Shared parts of the checks: paths, building, literal mining, evidence."""
import hashlib, json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, ".build")
EVID = os.path.join(VERIF, "evidence")
HARN = os.path.join(VERIF, "harness")
JOBS = max(2, min(8, os.cpu_count() or 8))
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"):
    TIER = "quick"
THOROUGH = TIER == "thorough"
T0 = time.time()


class Infra(Exception):
    """The check itself could not work (exit status 2)."""


def log(*a):
    print(*a, flush=True)


def find(*names):
    for n in names:
        p = shutil.which(n)
        if p:
            return p
    raise Infra("missing tool: " + names[0])


CLANG = find("/usr/bin/clang-18", "clang-18", "clang")
CLANGXX = find("/usr/bin/clang++-18", "clang++-18", "clang++")
GCC = find("/usr/bin/gcc", "gcc")
OBJCOPY = find("objcopy", "llvm-objcopy-18")

REDIR = [(n, "vf_" + n) for n in
         ("malloc calloc realloc reallocarray free strdup strndup posix_memalign "
          "aligned_alloc fopen fclose open close exit").split()]

SAN = ["-fsanitize=address,undefined,float-cast-overflow", "-fno-sanitize-recover=all",
       "-fno-omit-frame-pointer"]
# name -> (compiler, C++ compiler, flags for both, library-only flags, harness-only flags, redirect)
VARIANTS = {
    "plain": (CLANG, CLANGXX, ["-O2", "-g1"], ["-fsanitize-coverage=inline-bool-flag"], [], True),
    "gcc": (GCC, "g++", ["-O1", "-g1"], [], [], True),
    "asan": (CLANG, CLANGXX, ["-O1", "-g1"] + SAN, [], [], True),
    "msan": (CLANG, CLANGXX, ["-O1", "-g1", "-fsanitize=memory", "-fno-omit-frame-pointer"], [], [], True),
    "tsan": (CLANG, CLANGXX, ["-O1", "-g1", "-fsanitize=thread"], [], ["-DNOTRACK", "-DNO_MAIN", "-pthread"], True),
    "thrplain": (CLANG, CLANGXX, ["-O2", "-g1"], [], ["-DNOTRACK", "-DNO_MAIN", "-pthread"], True),
    # without builtins: so that inlining across files cannot replace calls of the mathematics library
    "amal": (CLANG, CLANGXX, ["-O2", "-g1"], ["-fno-builtin"], [], True),
    "amalgcc": (GCC, "g++", ["-O1", "-g1"], ["-fno-builtin"], [], True),
    "amalasan": (CLANG, CLANGXX, ["-O1", "-g1"] + SAN, ["-fno-builtin"], [], True),
    "fuzzamal": (CLANG, CLANGXX, ["-O2", "-g1"], ["-fno-builtin", "-fsanitize=fuzzer-no-link"], ["-DFUZZER"], True),
    "fuzz": (CLANG, CLANGXX, ["-O1", "-g1"] + SAN, ["-fsanitize=fuzzer-no-link"], ["-DFUZZER"], True),
    "fuzzp": (CLANG, CLANGXX, ["-O2", "-g1"], ["-fsanitize=fuzzer-no-link"], ["-DFUZZER"], True),
}


def run(cmd, **kw):
    kw.setdefault("stdout", subprocess.PIPE)
    kw.setdefault("stderr", subprocess.STDOUT)
    kw.setdefault("stdin", subprocess.DEVNULL)
    return subprocess.run(cmd, **kw)


def must(cmd, **kw):
    r = run(cmd, **kw)
    if r.returncode:
        raise Infra("command failed: %s\n%s" % (" ".join(map(str, cmd)), r.stdout.decode("utf8", "replace")[-3000:]))
    return r.stdout


def repo_sources(cli=False):
    d = os.path.join(REPO, "src")
    l = sorted(f for f in os.listdir(d) if f.endswith(".c"))
    if not cli:
        l = [f for f in l if f != "cli.c"]
    return [os.path.join(d, f) for f in l]


def digest(paths, extra=""):
    h = hashlib.sha256(extra.encode())
    for p in paths:
        h.update(p.encode())
        with open(p, "rb") as f:
            h.update(f.read())
    return h.hexdigest()[:24]


def headers():
    out = []
    for root in (os.path.join(REPO, "include"), os.path.join(REPO, "src")):
        for d, _, fs in os.walk(root):
            out += [os.path.join(d, f) for f in fs if f.endswith((".h", ".inc"))]
    return sorted(out)


_HDR = None


def compile_one(cc, flags, src, outdir, redirect=False, extra_deps=()):
    """Compiles one file, cached by the content of everything it may include."""
    global _HDR
    if _HDR is None:
        _HDR = headers()
    deps = [src] + list(extra_deps) + (_HDR if src.startswith(REPO) else [])
    key = digest(deps, " ".join([cc] + flags) + str(redirect))
    obj = os.path.join(outdir, os.path.basename(src) + "." + key + ".o")
    if os.path.exists(obj):
        return obj
    tmp = obj + ".tmp%d.o" % os.getpid()
    must([cc] + flags + ["-c", src, "-o", tmp])
    if redirect:
        must([OBJCOPY] + sum([["--redefine-sym", a + "=" + b] for a, b in REDIR], []) + [tmp])
    os.replace(tmp, obj)
    return obj


def build_lib(variant, srcs=None, incs=None):
    cc, _, fl, lfl, _, redir = VARIANTS[variant]
    d = os.path.join(BUILD, variant)
    os.makedirs(d, exist_ok=True)
    srcs = srcs or repo_sources()
    inc = ["-I" + i for i in (incs or [os.path.join(REPO, "include")])]
    with ThreadPoolExecutor(JOBS) as ex:
        return list(ex.map(lambda s: compile_one(cc, fl + lfl + ["-w"] + inc, s, d, redir), srcs))


HARNESS_FILES = {"main": ["rt", "gen", "ops", "oracle", "main", "big"],
                 "thr": ["rt", "gen", "ops", "oracle", "main", "thr"]}


SECOND = {}      # variant -> objects of a second copy of the library (C25)


def build_harness(variant, which="main", libobjs=None):
    """Links the harness with the library objects; returns the executable."""
    _, cxx, fl, _, hfl, _ = VARIANTS[variant]
    d = os.path.join(BUILD, variant)
    os.makedirs(d, exist_ok=True)
    hh = os.path.join(HARN, "h.h")
    files = [os.path.join(HARN, f + ".cc") for f in HARNESS_FILES[which]]
    with ThreadPoolExecutor(JOBS) as ex:
        fut = [ex.submit(compile_one, cxx, fl + hfl + ["-DWHICH_" + which], f, d, False, [hh]) for f in files]
        lo = (libobjs or build_lib(variant)) + SECOND.get(variant, [])
        ho = [f.result() for f in fut]
    key = hashlib.sha256("".join(ho + lo).encode()).hexdigest()[:20]
    exe = os.path.join(d, "h_%s_%s" % (which, key))
    if not os.path.exists(exe):
        lf = ["-fsanitize=fuzzer"] if variant.startswith("fuzz") else []
        tmp = exe + ".tmp%d" % os.getpid()
        must([cxx] + fl + lf + ho + lo + ["-lm", "-pthread", "-o", tmp])
        os.replace(tmp, exe)
    return exe


def san_env(extra=None):
    e = dict(os.environ)
    sup = "detect_leaks=0:allocator_may_return_null=1:max_allocation_size_mb=2048:quarantine_size_mb=32:exitcode=77:abort_on_error=0:handle_segv=1:malloc_context_size=12"
    e["ASAN_OPTIONS"] = sup
    e["UBSAN_OPTIONS"] = "print_stacktrace=1:exitcode=77"
    e["MSAN_OPTIONS"] = "exitcode=77:allocator_may_return_null=1"
    e["TSAN_OPTIONS"] = "exitcode=66:halt_on_error=0:report_signal_unsafe=0:history_size=4"
    sym = shutil.which("/usr/bin/llvm-symbolizer-18") or shutil.which("llvm-symbolizer-18") or shutil.which("llvm-symbolizer")
    if sym:
        for k in ("ASAN", "MSAN", "TSAN"):
            e[k + "_SYMBOLIZER_PATH"] = sym
    if extra:
        e.update(extra)
    return e


# ---- literal mining -----------------------------------------------------------
COMMENT = re.compile(r"/\*.*?\*/|//[^\n]*|--[^\n]*(?=\n)|\{-.*?-\}", re.S)
CCOMMENT = re.compile(r"\"(?:\\.|[^\"\\])*\"|'(?:\\.|[^'\\])*'|/\*.*?\*/|//[^\n]*", re.S)
NUM = re.compile(r"(?<![\w.])(0[xX][0-9a-fA-F]+|\d+\.\d*(?:[eE][-+]?\d+)?|\.\d+(?:[eE][-+]?\d+)?|\d+[eE][-+]?\d+|\d+)[uUlLfF]*(?![\w.])")
SHIFT = re.compile(r"(?<![\w.])(\d+)[uUlL]*\s*<<\s*(\d+)")
STR = re.compile(r"\"((?:\\.|[^\"\\\n])*)\"")
CHARLIT = re.compile(r"'((?:\\.|[^'\\\n]))'")


def strip_c(text):
    return CCOMMENT.sub(lambda m: m.group(0) if m.group(0)[0] in "\"'" else " ", text)


def mine():
    """Numbers and strings of the sources under test (stb and other vendored code excluded)."""
    ints, flts, strs = set(), set(), set()
    files = repo_sources(True) + [h for h in headers() if "stb" not in os.path.basename(h)]
    for f in files:
        if "stb" in os.path.basename(f):
            continue
        with open(f, encoding="utf8", errors="replace") as fh:
            t = strip_c(fh.read())
        for s in STR.findall(t):
            try:
                strs.add(bytes(s, "utf8").decode("unicode_escape"))
            except Exception:
                pass
        nostr = STR.sub(" ", t)
        for c in CHARLIT.findall(nostr):
            try:
                ints.add(ord(bytes(c, "utf8").decode("unicode_escape")[:1]))
            except Exception:
                pass
        nostr = CHARLIT.sub(" ", nostr)
        for a, b in SHIFT.findall(nostr):
            if int(b) < 63:
                ints.add(int(a) << int(b))
        for n in NUM.findall(nostr):
            try:
                if n.lower().startswith("0x"):
                    ints.add(int(n, 16))
                elif re.fullmatch(r"\d+", n):
                    ints.add(int(n))
                else:
                    v = float(n)
                    flts.add(v)
                    if v == int(v) and abs(v) < 4e9:
                        ints.add(int(v))
            except Exception:
                pass
    return sorted(ints), sorted(flts), sorted(strs)


def literals():
    """(all ints, new ints, all floats, new floats, all strings, new strings)"""
    ints, flts, strs = mine()
    with open(os.path.join(HARN, "literals.json")) as f:
        b = json.load(f)
    bi, bf, bs = set(b["ints"]), set(b["floats"]), set(b["strings"])
    return (ints, [i for i in ints if i not in bi], flts, [x for x in flts if x not in bf],
            strs, [s for s in strs if s not in bs])


def literal_file(scratch):
    ints, ni, flts, nf, _, _ = literals()
    p = os.path.join(scratch, "literals")
    with open(p, "w") as f:
        for k, l in (("ia", ints), ("in", ni), ("fa", flts), ("fn", nf), ("fn", ni)):
            for v in l:
                f.write("%s %r\n" % (k, v))
    return p


# ---- evidence, verdicts ---------------------------------------------------------
class Check:
    def __init__(self, pid):
        self.pid = pid
        self.scratch = tempfile.mkdtemp(prefix="vf_%s_" % pid)
        self.evals = 0
        self.nontrivial_hashes = set()
        self.nontrivial_more = 0
        self.samples = []
        self.cov = {}
        self.viol = []
        self.notes = []
        self.known = {}
        self.assumptions = []
        self.rule = ""
        self.level = "exploration"

    def add(self, key, n):
        self.cov[key] = self.cov.get(key, 0) + n

    def sample(self, s, maxn=8):
        if len(self.samples) < maxn:
            self.samples.append(str(s)[:700])

    def violation(self, what, **detail):
        if len(self.viol) < 20:
            self.viol.append(dict(what=what, **detail))

    def knownfinding(self, fid, what):
        self.known[fid] = what

    def close(self):
        shutil.rmtree(self.scratch, ignore_errors=True)

    def finish(self):
        os.makedirs(EVID, exist_ok=True)
        cov = {"evaluations": int(self.evals),
               "distinct_nontrivial": len(self.nontrivial_hashes) + self.nontrivial_more,
               "rule": self.rule, "samples": self.samples or ["(none)"]}
        cov.update(self.cov)
        if self.notes:
            cov["notes"] = self.notes[:20]
        if self.known:
            cov["known_findings_observed"] = sorted(self.known)
        ev = {"property": self.pid, "tier": TIER, "seed": SEED, "level": self.level, "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - T0, 2), "violations": len(self.viol)}
        with open(os.path.join(EVID, self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
            f.write("\n")
        for k in sorted(self.known):
            log("KNOWN-FINDING: property=%s %s" % (self.pid, self.known[k]))
        for n in self.notes[:20]:
            log("note: " + n)
        log("%s %s: %d evaluations, %d distinct non-trivial, %.1f s" % (self.pid, TIER, cov["evaluations"], cov["distinct_nontrivial"], time.time() - T0))
        if self.viol:
            rd = os.path.join(EVID, "replay")
            os.makedirs(rd, exist_ok=True)
            for i, v in enumerate(self.viol[:5]):
                p = os.path.join(rd, "%s_%s_%d_%d.json" % (self.pid, TIER, SEED, i))
                with open(p, "w") as f:
                    json.dump(dict(property=self.pid, tier=TIER, seed=SEED, **v), f, indent=1)
                log("  " + str(v["what"])[:1500])
                log("VIOLATION property=%s replay=%s" % (self.pid, p))
            return 1
        return 0
