"""The command line under test, and the library as the reference it is compared with."""
import ctypes as C, hashlib, json, os, random, resource, select, shutil, signal, subprocess, sys, time
from .common import *
from . import img

WRAP = [(n, "vf_" + n) for n in
        ("malloc calloc realloc reallocarray free strdup strndup posix_memalign aligned_alloc fopen freopen fclose open openat creat close "
         "exit rename remove unlink truncate mkdir system").split()]


def _objs(kind, flags, cc, srcs, redirect=()):
    d = os.path.join(BUILD, "cli_" + kind)
    os.makedirs(d, exist_ok=True)
    fl = flags + ["-w", "-I" + os.path.join(REPO, "include")]
    with ThreadPoolExecutor(JOBS) as ex:
        objs = list(ex.map(lambda s: compile_one(cc, fl, s, d), srcs))
    if redirect:
        out = []
        for o in objs:
            w = o[:-2] + ".w.o"
            if not os.path.exists(w):
                t = w + ".%d" % os.getpid()
                must([OBJCOPY] + sum([["--redefine-sym", a + "=" + b] for a, b in redirect], []) + [o, t])
                os.replace(t, w)
            out.append(w)
        objs = out
    return objs, d


def _link(cc, flags, objs, d, name):
    key = hashlib.sha256("".join(objs + flags).encode()).hexdigest()[:20]
    p = os.path.join(d, name + "_" + key)
    if not os.path.exists(p):
        t = p + ".tmp%d" % os.getpid()
        must([cc] + flags + objs + ["-lm", "-o", t])
        os.replace(t, p)
    return p


PLAIN = ["-O2", "-g1", "-fPIC"]
ASAN = ["-O1", "-g1"] + SAN


def build_cli(kind):
    if kind == "plain":
        o, d = _objs("plain", PLAIN, GCC, repo_sources(True))
        return _link(GCC, [], o, d, "flatcv")
    if kind == "wrap":
        o, d = _objs("plain", PLAIN, GCC, repo_sources(True), WRAP)
        w = compile_one(GCC, ["-O1", "-w"], os.path.join(HARN, "cliwrap.c"), d)
        return _link(GCC, [], o + [w], d, "flatcvw")
    if kind == "asan":
        o, d = _objs("asan", ASAN, CLANG, repo_sources(True))
        return _link(CLANG, SAN, o, d, "flatcv")
    if kind == "asanwrap":
        o, d = _objs("asan", ASAN, CLANG, repo_sources(True), WRAP)
        w = compile_one(CLANG, ["-O1", "-w"] + SAN, os.path.join(HARN, "cliwrap.c"), d)
        return _link(CLANG, SAN, o + [w], d, "flatcvw")
    if kind == "msan":
        fl = ["-O1", "-g1", "-fsanitize=memory", "-fno-omit-frame-pointer"]
        o, d = _objs("msan", fl, CLANG, repo_sources(True))
        return _link(CLANG, ["-fsanitize=memory"], o, d, "flatcv")
    if kind == "fuzz":
        fl = ASAN + ["-fsanitize=fuzzer-no-link"]
        o, d = _objs("fuzz", fl, CLANG, repo_sources(True), WRAP + [("main", "cli_main")])
        w = [compile_one(CLANG, ["-O1", "-w", "-DFUZZ"] + SAN, os.path.join(HARN, f), d) for f in ("cliwrap.c", "clifuzz.c")]
        return _link(CLANG, SAN + ["-fsanitize=fuzzer"], o + w, d, "clifuzz")
    raise KeyError(kind)


def build_so():
    o, d = _objs("plain", PLAIN, GCC, repo_sources())
    r, _ = _objs("ref", PLAIN, GCC, [os.path.join(HARN, "refimg.c")])
    return _link(GCC, ["-shared"], o + r, d, "libfcv.so")


class Refused(Exception):
    pass


class P2(C.Structure):
    _fields_ = [("x", C.c_double), ("y", C.c_double)]


class Corners(C.Structure):
    _fields_ = [(n, C.c_double) for n in "tl_x tl_y tr_x tr_y br_x br_y bl_x bl_y".split()]


class Lib:
    """Each method: (w, h, bytes) -> (w, h, bytes), or Refused."""
    def __init__(self, path):
        L = self.L = C.CDLL(path)
        img.set_ref(L)
        for n in ("fcv_grayscale fcv_apply_gaussian_blur fcv_resize fcv_otsu_threshold_rgba fcv_bw_smart fcv_sobel_edge_detection fcv_single_to_multichannel "
                  "fcv_rgba_to_grayscale fcv_crop fcv_extract_document fcv_extract_document_auto fcv_flip_x fcv_flip_y fcv_rotate_90_cw fcv_rotate_180 fcv_rotate_270_cw "
                  "fcv_trim fcv_trim_threshold fcv_generate_histogram fcv_add_border fcv_binary_erosion_disk fcv_binary_dilation_disk fcv_binary_closing_disk "
                  "fcv_binary_opening_disk fcv_watershed_segmentation fcv_transpose fcv_transverse").split():
            getattr(L, n).restype = C.c_void_p
        L.fcv_detect_corners.restype = Corners
        for n in ("fcv_draw_circle", "fcv_draw_disk"):
            getattr(L, n).restype = None
        self.free = C.CDLL(None).free
        self.free.argtypes = [C.c_void_p]
        self.free.restype = None

    def take(self, p, n):
        if not p:
            raise Refused()
        b = C.string_at(p, n)
        self.free(p)
        return b

    def simple(self, f, im, *a):
        w, h, b = im
        return w, h, self.take(getattr(self.L, f)(C.c_uint32(w), C.c_uint32(h), *a, b), w * h * 4)

    def grayscale(self, im):
        return self.simple("fcv_grayscale", im)

    def blur(self, im, r):
        return self.simple("fcv_apply_gaussian_blur", im, C.c_double(r))

    def resize(self, im, sx, sy):
        w, h, b = im
        ow, oh = C.c_uint32(), C.c_uint32()
        p = self.L.fcv_resize(C.c_uint32(w), C.c_uint32(h), C.c_double(sx), C.c_double(sy), C.byref(ow), C.byref(oh), b)
        if not p:
            raise Refused()
        return ow.value, oh.value, self.take(p, ow.value * oh.value * 4)

    def threshold(self, im):
        return self.simple("fcv_otsu_threshold_rgba", im, C.c_bool(False))

    def bw_smart(self, im):
        return self.simple("fcv_bw_smart", im, C.c_bool(False))

    def bw_smooth(self, im):
        return self.simple("fcv_bw_smart", im, C.c_bool(True))

    def corners(self, im):
        w, h, b = im
        c = self.L.fcv_detect_corners(b, C.c_int32(w), C.c_int32(h))
        return [(c.tl_x, c.tl_y), (c.tr_x, c.tr_y), (c.br_x, c.br_y), (c.bl_x, c.bl_y)]

    def draw(self, f, im, color, r, x, y):
        w, h, b = im
        buf = C.create_string_buffer(b, len(b))
        getattr(self.L, f)(C.c_uint32(w), C.c_uint32(h), C.c_uint32(4), color.encode(), C.c_double(r), C.c_double(x), C.c_double(y), buf)
        return w, h, buf.raw

    def circle(self, im, color, r, x, y):
        return self.draw("fcv_draw_circle", im, color, r, x, y)

    def disk(self, im, color, r, x, y):
        return self.draw("fcv_draw_disk", im, color, r, x, y)

    def draw_corners(self, im):
        r = min(im[0], im[1]) * 0.02
        for x, y in self.corners(im):
            im = self.disk(im, "FF0000", r, x, y)
        return im

    def gray1(self, im):
        w, h, b = im
        return self.take(self.L.fcv_rgba_to_grayscale(C.c_uint32(w), C.c_uint32(h), b), w * h)

    def multi(self, w, h, g):
        return w, h, self.take(self.L.fcv_single_to_multichannel(C.c_uint32(w), C.c_uint32(h), g), w * h * 4)

    def sobel(self, im):
        w, h, b = im
        return self.multi(w, h, self.take(self.L.fcv_sobel_edge_detection(C.c_uint32(w), C.c_uint32(h), C.c_uint32(4), b), w * h))

    def morph(self, f, im, r):
        w, h, _ = im
        r = max(-2 ** 31, min(2 ** 31 - 1, int(r))) if r == r and abs(r) != float("inf") else (0 if r != r else (2 ** 31 - 1 if r > 0 else -2 ** 31))
        g = self.gray1(im)
        return self.multi(w, h, self.take(getattr(self.L, f)(g, C.c_int32(w), C.c_int32(h), C.c_int32(r)), w * h))

    def erode(self, im, r):
        return self.morph("fcv_binary_erosion_disk", im, r)

    def dilate(self, im, r):
        return self.morph("fcv_binary_dilation_disk", im, r)

    def close(self, im, r):
        return self.morph("fcv_binary_closing_disk", im, r)

    def open(self, im, r):
        return self.morph("fcv_binary_opening_disk", im, r)

    def watershed(self, im, pts):
        w, h, _ = im
        a = (P2 * len(pts))(*[P2(x, y) for x, y in pts])
        return w, h, self.take(self.L.fcv_watershed_segmentation(C.c_uint32(w), C.c_uint32(h), self.gray1(im), a, C.c_uint32(len(pts)), C.c_bool(False)), w * h * 4)

    def crop(self, im, cw, ch, x, y):
        w, h, b = im
        x, y = max(0, x), max(0, y)
        if x >= w or y >= h:
            raise Refused()
        cw, ch = min(cw, w - x), min(ch, h - y)
        return cw, ch, self.take(self.L.fcv_crop(C.c_uint32(w), C.c_uint32(h), C.c_uint32(4), b, C.c_uint32(x), C.c_uint32(y), C.c_uint32(cw), C.c_uint32(ch)), cw * ch * 4)

    def extract_document(self, im):
        w, h, b = im
        ow, oh = C.c_uint32(), C.c_uint32()
        p = self.L.fcv_extract_document_auto(C.c_uint32(w), C.c_uint32(h), b, C.byref(ow), C.byref(oh))
        return ow.value, oh.value, self.take(p, ow.value * oh.value * 4)

    def extract_document_to(self, im, ow, oh):
        w, h, b = im
        return ow, oh, self.take(self.L.fcv_extract_document(C.c_uint32(w), C.c_uint32(h), b, C.c_uint32(ow), C.c_uint32(oh)), ow * oh * 4)

    def flip_x(self, im):
        return self.simple("fcv_flip_x", im)

    def flip_y(self, im):
        return self.simple("fcv_flip_y", im)

    def rotate(self, im, a):
        a = a % 360
        if a == 0:
            return im
        w, h, b = self.simple({90: "fcv_rotate_90_cw", 180: "fcv_rotate_180", 270: "fcv_rotate_270_cw"}[a], im)
        return (w, h, b) if a == 180 else (h, w, b)

    def trim(self, im, t=None):
        w, h, b = im
        cw, chh = C.c_int32(w), C.c_int32(h)
        if t is None:
            p = self.L.fcv_trim(C.byref(cw), C.byref(chh), C.c_uint32(4), b)
        else:
            p = self.L.fcv_trim_threshold(C.byref(cw), C.byref(chh), C.c_uint32(4), b, C.c_double(t))
        return cw.value, chh.value, self.take(p, cw.value * chh.value * 4)

    def histogram(self, im):
        w, h, b = im
        ow, oh = C.c_uint32(), C.c_uint32()
        p = self.L.fcv_generate_histogram(C.c_uint32(w), C.c_uint32(h), C.c_uint32(4), b, C.byref(ow), C.byref(oh))
        return ow.value, oh.value, self.take(p, ow.value * oh.value * 4)

    def border(self, im, color, bw):
        w, h, b = im
        ow, oh = C.c_uint32(), C.c_uint32()
        p = self.L.fcv_add_border(C.c_uint32(w), C.c_uint32(h), C.c_uint32(4), color.encode(), C.c_uint32(bw), b, C.byref(ow), C.byref(oh))
        return ow.value, oh.value, self.take(p, ow.value * oh.value * 4)


# ---- running ----------------------------------------------------------------------
def limits(cpu, fsize=None, mem=None):
    def f():
        resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu + 2))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        if fsize is not None:
            signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
            resource.setrlimit(resource.RLIMIT_FSIZE, (fsize, fsize))
        if mem:
            resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
    return f


class Res:
    pass


def run_cli(exe, args, cwd, cpu=60, env=None, fsize=None, mem=None, wall=None, stdout=None):
    r = Res()
    try:
        p = subprocess.run([exe] + args, cwd=cwd, stdin=subprocess.DEVNULL, stdout=stdout or subprocess.PIPE, stderr=subprocess.PIPE, env=env,
                           preexec_fn=limits(cpu, fsize, mem), timeout=wall or cpu * 6 + 60)
        r.rc, r.out, r.err = p.returncode, (p.stdout or b"").decode("utf8", "replace"), p.stderr.decode("utf8", "replace")
    except subprocess.TimeoutExpired as e:
        r.rc, r.out, r.err = -999, "", ""
    r.timeout = r.rc in (-signal.SIGXCPU,)
    r.stopped = r.rc in (-9, -999)      # by the system, not by the program: no verdict
    return r


def shown(args):
    return " ".join("'" + a.replace("'", "'\\''") + "'" if not a or any(c in a for c in " '\"()\n\t,%;|&<>*?#") else a for a in args)


# ---- worker processes ----------------------------------------------------------------
def pool(ck, fn, count, limit, label, init=None, step=JOBS):
    """Runs fn(i, ctx) for i in range(count) in worker processes; fn returns a dict (viol, hash, counts, sample)."""
    end = time.time() + limit

    def spawn(k, start):
        r, w = os.pipe()
        pid = os.fork()
        if pid:
            os.close(w)
            return pid, r
        code, keep = 0, 2
        try:
            os.close(r)
            os.setsid()
            signal.signal(signal.SIGINT, signal.SIG_DFL)
            nul = os.open("/dev/null", os.O_WRONLY)      # the library prints messages
            os.dup2(nul, 1)
            keep = os.dup(2)
            os.dup2(nul, 2)
            ctx = init(k) if init else None
            f = os.fdopen(w, "w", buffering=1)
            for i in range(start, count, step):
                if time.time() > end:
                    f.write(json.dumps({"late": 1}) + "\n")
                    break
                f.write(json.dumps({"start": i}) + "\n")
                res = fn(i, ctx) or {}
                res["i"] = i
                f.write(json.dumps(res) + "\n")
                if res.get("viol"):
                    break
            f.write(json.dumps({"done": 1}) + "\n")
            f.close()
        except BaseException:
            import traceback
            os.write(keep, traceback.format_exc().encode())
            code = 9
        finally:
            os._exit(code)

    ws = {}
    for k in range(step):
        pid, r = spawn(k, k)
        ws[r] = dict(k=k, pid=pid, buf=b"", at=k, done=False, n=0)
    while ws:
        rl, _, _ = select.select(list(ws), [], [], 10)
        for r in rl:
            s = ws[r]
            b = os.read(r, 1 << 16)
            if b:
                s["buf"] += b
                *lines, s["buf"] = s["buf"].split(b"\n")
                for l in lines:
                    m = json.loads(l)
                    if "start" in m:
                        s["at"] = m["start"]
                    elif "done" in m:
                        s["done"] = True
                    elif "late" in m:
                        ck.add("workers_ended_by_time_limit_" + label, 1)
                    else:
                        ck.evals += m.get("evals", 1)
                        ck.add("cases_" + label, 1)
                        for key, n in (m.get("counts") or {}).items():
                            d = ck.cov.setdefault("seen", {})
                            d[key] = d.get(key, 0) + n
                        for hh in m.get("hashes") or []:
                            ck.nontrivial_hashes.add(hh)
                        if m.get("note"):
                            ck.notes.append(m["note"])
                        if m.get("sample"):
                            ck.sample(m["sample"])
                        if m.get("known"):
                            ck._known_counts[m["known"]] = ck._known_counts.get(m["known"], 0) + 1
                        if m.get("viol"):
                            v = dict(m["viol"])
                            ck.violation(v.pop("what"), kind="cli", label=label, case_index=m["i"], **v)
                continue
            os.close(r)
            del ws[r]
            _, st = os.waitpid(s["pid"], 0)
            if not s["done"]:
                if os.WIFEXITED(st) and os.WEXITSTATUS(st) == 9:
                    for t in ws.values():
                        os.killpg(t["pid"], signal.SIGKILL)
                    raise Infra("worker failed in case %d of %s" % (s["at"], label))
                # the reference (the library in this process) crashed: says nothing about the command line
                ck.notes.append("reference for case %d of %s crashed (%d): inconclusive" % (s["at"], label, st))
                s["n"] += 1
                if s["n"] < 20 and s["at"] + step < count:
                    pid, r2 = spawn(s["k"], s["at"] + step)
                    ws[r2] = dict(k=s["k"], pid=pid, buf=b"", at=s["at"] + step, done=False, n=s["n"])
