"""C21 (CLI part), C22, C23, C24: monitors of the command line."""
import os, random, shutil, struct, zlib
from .common import *
from .cli import *
from . import img, pipe, crun

EXTS = ["out.png"] * 8 + ["out", "out.PNG", "o u t.png", "out.bmp", "out.jpgx", "x.jpg.png", "out.Jpg", "ö.png"]


def bytes_hash(*a):
    h = hashlib.sha256()
    for x in a:
        h.update(x if isinstance(x, bytes) else repr(x).encode())
    return int.from_bytes(h.digest()[:8], "little")


def difference(exp, got):
    if exp[:2] != got[:2]:
        return "image has %dx%d pixels instead of %dx%d" % (got[0], got[1], exp[0], exp[1])
    for i, (a, b) in enumerate(zip(exp[2], got[2])):
        if a != b:
            return "pixel %d,%d channel %d is %d instead of %d" % (i // 4 % exp[0], i // 4 // exp[0], i % 4, b, a)
    return None


def sizes(rnd, lits):
    k = rnd.random()
    if k < .06:
        return 1, rnd.randint(1, 30)
    if k < .12:
        return rnd.randint(1, 30), 1
    if k < .2:
        return rnd.randint(60, 140), rnd.randint(60, 120)
    return lits.int(rnd, 2, 40), lits.int(rnd, 2, 40)


def ctx_maker(ck, label, lit):
    def init(k):
        c = Res()
        c.lib = Lib(build_so())
        c.lits = pipe.Lits(lit)
        c.dir = os.path.join(ck.scratch, "%s_%d" % (label, k))
        os.makedirs(c.dir, exist_ok=True)
        return c
    return init


def fail(what, args, **kw):
    return {"viol": dict(what=what + " | flatcv " + shown(args), args=args, **{k: (v.hex() if isinstance(v, bytes) else v) for k, v in kw.items()})}


# ---- C22 -----------------------------------------------------------------------------
def c22_case(exe):
    def go(i, c):
        rnd = random.Random("%d/22/%d" % (SEED, i))
        L, lits = c.lib, c.lits
        w, h = sizes(rnd, lits)
        data, px, kind = img.input_file(rnd, w, h)
        im = (w, h, px)
        inp = os.path.join(c.dir, "in.img" if rnd.random() < .9 else "in put")
        with open(inp, "wb") as f:
            f.write(data)
        counts = {"input " + kind: 1}
        n = rnd.choice([1, 1, 1, 2, 2, 3, 3, 4, 5, 7, 9, 12, 17])
        names = None
        if rnd.random() < .04:       # long pipelines, of operations that keep the image diverse
            n = rnd.choice([rnd.randint(18, 70), rnd.randint(18, 140), lits.int(rnd, 18, 400)])
            names = ["rotate", "flip_x", "flip_y"] * 6 + ["circle", "disk", "circle", "disk", "border", "crop", "trim", "grayscale", "blur"]
        bad = rnd.choice([0, 0, 0, .5 / n]) if rnd.random() < .8 else 1.0 / n
        ops, expected, refused, jsons = [], im, False, []
        states = [im]
        for _ in range(n):
            toks, f = pipe.one_op(rnd, lits, expected, bad=0 if refused else bad, name=names and rnd.choice(names))
            if expected[0] * expected[1] > 20000:
                toks, f = ["crop", "%dx%d" % (rnd.randint(1, 40), rnd.randint(1, 40))], None
                cw, ch = map(int, toks[1].split("x"))
                f = (lambda cw, ch: lambda L, im: L.crop(im, cw, ch, 0, 0))(cw, ch)
            ops.append(toks)
            counts["op " + toks[0] if toks[0] in pipe.KNOWN else "op (unknown)"] = 1
            if not refused:
                if toks[0] == "detect_corners":
                    jsons.append(L.corners(expected))
                try:
                    expected = f(L, expected)
                    states.append(expected)
                except Refused:
                    refused = True
                    counts["refused " + (toks[0] if toks[0] in pipe.KNOWN else "(unknown)")] = 1
        out = os.path.join(c.dir, rnd.choice(EXTS))
        args = [inp] + pipe.spell(rnd, ops, plain=rnd.random() < .25) + [out]
        if os.path.exists(out):
            os.unlink(out)
        r = run_cli(exe, args, c.dir)
        ev = 1
        info = dict(input=data, expected_refusal=refused)
        if r.stopped:
            return {"note": "stopped by the system: inconclusive"}
        if r.timeout:
            return fail("does not end within 60 s of CPU time", args, **info)
        if refused:
            if r.rc == 0:
                return fail("accepts a pipeline that must be refused", args, **info)
            return {"counts": counts, "hashes": [], "evals": 1, "sample": ("refused as expected: " + shown(args)) if i < 40 else None}
        if r.rc != 0:
            return fail("exit status %d for a valid pipeline: %s" % (r.rc, r.err[-300:]), args, **info)
        try:
            got = img.read_png(open(out, "rb").read())
        except (OSError, img.BadImage) as e:
            return fail("exit status 0, but the output is unusable: %s" % e, args, **info)
        d = difference(expected, got)
        if d:
            return fail("output differs from the composed library calls: " + d, args, **info)
        if jsons:
            v = check_json(r.out, jsons)
            if v:
                return fail(v, args, **info)
        # the same pipeline cut into two runs
        if n >= 2 and len(ops) == len(states) - 1 and rnd.random() < .3:
            cut = rnd.randint(1, n - 1)
            mid = os.path.join(c.dir, "mid.png")
            a1 = [inp] + pipe.spell(rnd, ops[:cut]) + [mid]
            a2 = [mid] + pipe.spell(rnd, ops[cut:]) + [out]
            r1 = run_cli(exe, a1, c.dir)
            r2 = run_cli(exe, a2, c.dir) if r1.rc == 0 else r1
            ev += 2
            if r1.stopped or r2.stopped:
                return {"note": "stopped by the system: inconclusive"}
            if r1.rc or r2.rc:
                return fail("split pipeline fails (%d, %d)" % (r1.rc, r2.rc), a1 + ["&&"] + a2, **info)
            try:
                got = img.read_png(open(out, "rb").read())
            except (OSError, img.BadImage) as e:
                return fail("output of a split pipeline is unusable: %s" % e, a1 + ["&&"] + a2, **info)
            d = difference(expected, got)
            if d:
                return fail("split pipeline gives another image: " + d, a1 + ["&&"] + a2, **info)
            counts["split runs"] = 1
        counts["pipelines of %s operations" % (n if n < 4 else "4 or more")] = 1
        hs = [bytes_hash(*ops, data)] if expected[2] != px or n > 1 else []
        return {"counts": counts, "hashes": hs, "evals": ev, "sample": (shown(args[1:-1]) + " on a %dx%d %s image" % (w, h, kind)) if i < 40 else None}
    return go


def check_json(out, want):
    import re
    found = re.findall(r'\{\s*"corners"\s*:\s*\{.*?\}\s*\}', out, re.S)
    if len(found) != len(want):
        return "%d corner lists are printed instead of %d" % (len(found), len(want))
    for t, cs in zip(found, want):
        try:
            d = json.loads(t)["corners"]
        except Exception:
            return "the corners are not valid JSON"
        for k, (x, y) in zip(("top_left", "top_right", "bottom_right", "bottom_left"), cs):
            g = d.get(k)
            if not isinstance(g, list) or len(g) != 2 or abs(g[0] - x) > .51 or abs(g[1] - y) > .51:
                return "%s is printed as %r, but the library finds %r" % (k, g, (x, y))
    return None


def c22_corners(exe):
    """The form without an output image."""
    def go(i, c):
        rnd = random.Random("%d/22c/%d" % (SEED, i))
        w, h = rnd.choice([(rnd.randint(60, 200), rnd.randint(60, 200)), (rnd.randint(2, 40), rnd.randint(2, 40))])
        data, px, kind = img.input_file(rnd, w, h, kind=rnd.choice(["doc", "doc", "frame", "noise"]))
        inp = os.path.join(c.dir, "in.img")
        with open(inp, "wb") as f:
            f.write(data)
        before = sorted(os.listdir(c.dir))
        r = run_cli(exe, [inp, "detect_corners"], c.dir)
        if r.stopped:
            return {"note": "stopped by the system: inconclusive"}
        if r.rc:
            return fail("exit status %d" % r.rc, [inp, "detect_corners"], input=data)
        v = check_json(r.out, [c.lib.corners((w, h, px))])
        if v:
            return fail(v, [inp, "detect_corners"], input=data)
        if sorted(os.listdir(c.dir)) != before:
            return fail("detect_corners creates a file", [inp, "detect_corners"], input=data)
        return {"counts": {"corner listings": 1}, "hashes": [bytes_hash(data)]}
    return go


def c22(ck):
    ck._known_counts = {}
    ck.rule = ("Case i: image (17 file formats/kinds, 1x1 to 140x120), pipeline of 1 to 17 operations generated together with the meaning in library calls, written in one of many "
               "equivalent spellings (spaces, parentheses, empty fragments, argument splitting), run by the real CLI; the decoded output must equal the composition byte by byte, "
               "or the run must fail if an operation must be refused. Non-trivial: accepted and (more than one operation or the image changed); distinct by operations and input.")
    lit = literals()
    exe = build_cli("plain")
    build_so()
    pool(ck, c22_case(exe), 300000 if THOROUGH else 12000, 2400 if THOROUGH else 150, "pipelines", ctx_maker(ck, "p", lit))
    if not ck.viol:
        pool(ck, c22_corners(exe), 6000 if THOROUGH else 300, 900 if THOROUGH else 60, "corner_listings", ctx_maker(ck, "c", lit))


# ---- C23 -----------------------------------------------------------------------------
def snapshot(d):
    out = {}
    for root, ds, fs in os.walk(d):
        for f in fs + ds:
            p = os.path.join(root, f)
            if os.path.islink(p):
                out[p] = os.readlink(p)
            elif os.path.isfile(p):
                with open(p, "rb") as fh:
                    out[p] = hashlib.sha256(fh.read()).hexdigest()
            else:
                out[p] = "dir"
    return out


JPEGS = ["o.jpg", "o.jpeg", "o.JPG", "o.JPEG", "a.png.jpg", "o.png/../o2.jpg"]
PNGS = ["o.png", "o.PNG", "o", "o.gif", "o.Jpg", "o.jPEG", "ojpg", "o.jpg.png", "o.jpg~", "d.jpg/o", ".png", "o.jpe", "o.JPEg", "o.tiff", "o.webp"]


def usable(path, jpeg, expected):
    """None, or what is wrong with an output the program claims to have written."""
    try:
        with open(path, "rb") as f:
            b = f.read()
    except OSError as e:
        return "the output does not exist: %s" % e
    if not jpeg:
        try:
            got = img.read_png(b)
        except img.BadImage as e:
            return "the output is no complete PNG: %s" % e
        return difference(expected, got) if expected else None
    if b[:3] != b"\xff\xd8\xff":
        return "the output is no JPEG"
    if b[-2:] != b"\xff\xd9":
        return "the JPEG has no end"
    got = img.decode_any(b)
    if not got:
        return "the JPEG cannot be decoded"
    if expected:
        if got[:2] != expected[:2]:
            return "the JPEG has %dx%d pixels instead of %dx%d" % (got[0], got[1], expected[0], expected[1])
        # quality 90 with halved colour resolution: brightness is close, except for strong noise
        lum = lambda im: [.299 * im[2][i] + .587 * im[2][i + 1] + .114 * im[2][i + 2] for i in range(0, len(im[2]), 4)]
        a, b = lum(expected), lum(got)
        mean = sum(abs(x - y) for x, y in zip(a, b)) / len(a)
        if mean > 14:
            return "the JPEG shows another image (mean difference %.1f)" % mean
    return None


def small_pipeline(rnd, lits, L, im, n):
    ops, cur = [], im
    for _ in range(n):
        toks, f = pipe.one_op(rnd, lits, cur, maxpx=8000)
        try:
            cur2 = f(L, cur)
        except Refused:
            continue
        if cur2[0] * cur2[1] > 20000:
            continue
        ops.append(toks)
        cur = cur2
    if not ops:
        ops = [["flip_x"]]
        cur = L.flip_x(im)
    return ops, cur


def undecodable(rnd, good):
    """A file no decoder can accept (good is a PNG)."""
    k = rnd.randrange(9)
    if k == 0:
        return b"", "empty file"
    if k == 1:
        return b"not an image " + rnd.randbytes(rnd.randrange(200)), "text"
    i = good.index(b"IDAT") - 4
    if k == 2:
        return good[:rnd.randint(1, i)], "PNG cut before its data"
    if k == 3:
        return good[:8] + good[8:12] + b"IHDX" + good[16:], "PNG without header"
    if k == 4:
        return good[:16] + b"\0\0\0\0" + good[20:], "PNG of width 0"
    if k == 5:
        j = good.rindex(b"IEND") - 4
        return good[:i] + good[j:], "PNG without data"
    if k == 6:
        return good[:i + 8] + b"\xff\xff" + good[i + 10:], "PNG with a broken data stream"
    if k == 7:
        return b"\xff\xd8\xff\xe0\0\x10JFIF\0\1\1\0\0\1\0\1\0\0\xff\xd9", "JPEG without image"
    return b"GIF89a", "cut off GIF"


def c23_case(exe, wexe):
    def go(i, c):
        rnd = random.Random("%d/23/%d" % (SEED, i))
        L, lits = c.lib, c.lits
        shutil.rmtree(c.dir, ignore_errors=True)
        os.makedirs(os.path.join(c.dir, "d.jpg"))
        os.makedirs(os.path.join(c.dir, "o.png"))
        os.makedirs(os.path.join(c.dir, "in"))
        os.rmdir(os.path.join(c.dir, "o.png"))
        for n, b in (("notes.txt", b"keep me"), ("in.png.bak", b"old"), ("in/other.png", b"x" * 99), ("tmp.png", b"keep")):
            with open(os.path.join(c.dir, n), "wb") as f:
                f.write(b)
        w, h = sizes(rnd, lits) if rnd.random() < .7 else (rnd.randint(30, 90), rnd.randint(30, 90))
        jpeg = rnd.random() < .3
        kind = rnd.choice(["frame", "doc", "flat", "grad"]) if jpeg else None
        data, px, fk = img.input_file(rnd, w, h, kind=kind, fmt=rnd.choice(["rgba", "rgba", "rgb", "gray", "ppm"]))
        inname = rnd.choice(["in.png", "in/in.png", "i n.img", "in.jpg"])
        inp = os.path.join(c.dir, inname)
        mode = rnd.choice(["good", "good", "limit", "limit", "full", "path", "undecodable", "refused", "alloc", "alloc", "overwrite"])
        ops, expected = small_pipeline(rnd, lits, L, (w, h, px), rnd.choice([1, 1, 2, 3] if mode != "alloc" else [1, 1, 2, 3, 9, 17]))
        counts = {"mode " + mode: 1, "JPEG" if jpeg else "PNG": 1}
        name = rnd.choice(JPEGS) if jpeg else rnd.choice(PNGS)
        if name == "o.png/../o2.jpg":
            os.makedirs(os.path.join(c.dir, "o.png"), exist_ok=True)
        out = os.path.join(c.dir, name)
        what = ""
        if mode == "undecodable":
            if rnd.random() < .25:
                data, what = rnd.choice([(None, "missing file"), ("dir", "directory")])
            else:
                g = img.png_bytes(w, h, px, 6, rnd)
                data, what = undecodable(rnd, g)
        if data == "dir":
            os.makedirs(inp, exist_ok=True)
        elif data is not None:
            with open(inp, "wb") as f:
                f.write(data)
        if mode == "refused":
            bad, _ = pipe.bad_op(rnd, lits, expected if rnd.random() < .5 else (w, h, px))
            if bad[0] == "crop" and "+" in bad[-1]:      # bounds depend on the position in the pipeline
                bad = ["crop", "0x1"]
            ops.insert(rnd.randint(0, len(ops)), bad)
            what = "refused operation " + " ".join(bad)
        args = [inp] + pipe.spell(rnd, ops) + [out]
        if mode == "path":
            k = rnd.randrange(6)
            if k == 0:
                out = os.path.join(c.dir, "missing", "o.png")
            elif k == 1:
                out = os.path.join(c.dir, "d.jpg")
            elif k == 2:
                out = os.path.join(c.dir, "n" * 300 + ".png")
            elif k == 3:
                os.symlink("loop", os.path.join(c.dir, "loop"))
                out = os.path.join(c.dir, "loop")
            elif k == 4:
                out = os.path.join(c.dir, "notes.txt", "o.png")
            else:
                out = ""
            args[-1] = out
            what = "unwritable path"
        if mode == "full":
            out = args[-1] = "/dev/full"
            if rnd.random() < .6:
                out = args[-1] = os.path.join(c.dir, name)
                os.symlink("/dev/full", out)
            what = "full disk"
        if mode == "overwrite":
            with open(out, "wb") as f:
                f.write(rnd.choice([b"", b"old" * 9, rnd.randbytes(200000), b"\x89PNG\r\n\x1a\n" + bytes(50000)]))
        before = snapshot(c.dir)
        info = dict(input=data if isinstance(data, bytes) else b"", mode=mode, what_fails=what, output=out)
        log = os.path.join(os.path.dirname(c.dir), "log_%s" % os.path.basename(c.dir))
        ev, hashes = 0, []

        def judge(r, must_fail, may_fail=False, exp=expected):
            if r.stopped:
                return None
            if r.timeout:
                return "does not end within 60 s of CPU time"
            if r.rc == 0:
                if must_fail:
                    return "exit status 0 in spite of: %s" % what
                v = usable(out, jpeg, exp)
                if v:
                    return "exit status 0, but " + v
            else:
                if not must_fail and not may_fail:
                    return "exit status %d for a writable output: %s" % (r.rc, r.err[-300:])
                if r.rc > 0 and not any(s in r.err for s in ("rror", "ould not", "ailed", "annot", "nvalid")):
                    return "exit status %d without an error message: %r" % (r.rc, r.err[-200:])
                # (the PNG encoder asserts that its buffer could grow, which is an error message of its own)
                if r.rc < 0 and not (may_fail and r.rc == -6 and "Assertion" in r.err):
                    return "killed by signal %d: %s" % (-r.rc, r.err[-200:])
            after = snapshot(c.dir)
            mine = os.path.normpath(out) if out else ""
            for p in set(before) | set(after):
                if p != mine and before.get(p) != after.get(p):
                    return "%s file %s" % ("changes" if p in before and p in after else "removes" if p in before else "leaves behind", os.path.relpath(p, c.dir))
            try:
                with open(log) as f:
                    lines = f.read().split("\n")
                os.unlink(log)
                for l in lines:
                    t = l.split("\t")
                    if len(t) == 3 and (t[0] in ("rename", "remove", "truncate", "mkdir", "system") or t[0] == "fopen" and t[2][:1] != "r"):
                        for p in t[1:2] + (t[2:3] if t[0] == "rename" else []):
                            q = os.path.normpath(os.path.join(c.dir, p))
                            if not q.startswith(c.dir + os.sep) and p != out:
                                return "writes to %s" % p
                            if q == os.path.normpath(inp) and t[0] != "mkdir":
                                return "opens its input for writing (%s %s)" % (t[0], t[2])
            except OSError:
                pass
            return None
        env = dict(os.environ, VF_LOG=log)
        if mode in ("good", "overwrite"):
            r = run_cli(wexe, args, c.dir, env=env)
            ev += 1
            v = judge(r, False)
            hashes.append(bytes_hash(mode, out.split("/")[-1], *ops, data))
        elif mode in ("path", "full", "undecodable", "refused"):
            r = run_cli(wexe, args, c.dir, env=env)
            ev += 1
            v = judge(r, True)
            hashes.append(bytes_hash(mode, what, out.split("/")[-1], *ops))
        elif mode == "limit":
            r = run_cli(wexe, args, c.dir, env=env)
            ev += 1
            v = judge(r, False)
            if not v and not r.stopped:
                size = os.path.getsize(out)
                cuts = {0, 1, size - 1, size // 2, 4095, 4096, 4097, 8191, 8192, size - size % 4096, size - 12, size - 2, size - 4097} | {rnd.randrange(size) for _ in range(6)}
                for n in sorted(k for k in cuts if 0 <= k < size):
                    os.unlink(out)
                    what = "writing more than %d of %d bytes fails" % (n, size)
                    r = run_cli(exe, args, c.dir, fsize=n)
                    ev += 1
                    v = judge(r, True)
                    hashes.append(bytes_hash(n, *ops, data))
                    counts["write failures"] = counts.get("write failures", 0) + 1
                    if v:
                        break
                    if not os.path.exists(out):
                        open(out, "wb").close()
                if not v:
                    r = run_cli(exe, args, c.dir, fsize=size + 5000)
                    ev += 1
                    v = judge(r, False)
        else:
            r = run_cli(wexe, args, c.dir, env=env)
            ev += 1
            v = None
            try:
                total = int([l for l in open(log).read().split("\n") if l.startswith("allocations")][-1].split("\t")[1])
            except (OSError, IndexError):
                total = 0
            v = judge(r, False)
            if not v and total:
                for n in sorted(set(range(min(total, 6))) | {rnd.randrange(total) for _ in range(10)} | {total - 1, max(0, total - 2)}):
                    key = rnd.choice(["VF_FAIL_AT", "VF_FAIL_FROM"])
                    if os.path.exists(out):
                        os.unlink(out)
                    what = "allocation %d fails" % n
                    r = run_cli(wexe, args, c.dir, env=dict(env, **{key: str(n)}))
                    ev += 1
                    # a result obtained without the memory must be the right one
                    # (corner detection has no way to report a lack of memory: it returns the image's corners)
                    v = judge(r, False, may_fail=True, exp=None if any(t[0] in pipe.SLOW for t in ops) else expected)
                    counts["allocation failures"] = counts.get("allocation failures", 0) + 1
                    hashes.append(bytes_hash(n, key, *ops, data))
                    if v:
                        v += " (%s)" % what
                        break
        if v:
            info["what_fails"] = what
            return fail(v, args, **info)
        return {"counts": counts, "hashes": hashes, "evals": ev, "sample": ("%s %s: %s" % (mode, what, shown(args[1:]))) if i < 60 and i % 5 == 0 else None}
    return go


def c23_large(exe):
    """Sizes a format cannot hold."""
    def go(i, c):
        rnd = random.Random("%d/23l/%d" % (SEED, i))
        data, px, _ = img.input_file(rnd, 2, 2, kind="noise", fmt="rgba")
        inp = os.path.join(c.dir, "in.png")
        with open(inp, "wb") as f:
            f.write(data)
        edge = [(65535, 1, True), (65536, 1, False), (1, 65535, True), (1, 65536, False), (65537, 2, False), (3, 70000, False), (100000, 1, False), (1, 131072, False),
                (65535 + rnd.randint(1, 9999), rnd.randint(1, 20), False), (rnd.randint(1, 20), 65535 + rnd.randint(1, 99999), False)]
        png = [(70000, 1), (1, 70000), (131075, 3), (2, 200000)]
        if i < len(edge):
            w, h, ok = edge[i]
            out = os.path.join(c.dir, rnd.choice(["o.jpg", "o.jpeg", "o.JPG", "o.JPEG"]))
            jpeg = True
        elif i < len(edge) + len(png):
            (w, h), ok = png[i - len(edge)], True
            out, jpeg = os.path.join(c.dir, "o.png"), False
        else:      # more than 2^31 bytes of pixel data
            w = rnd.randint(23171, 26000)
            h, ok = w, None
            out, jpeg = os.path.join(c.dir, rnd.choice(["o.png", "o.jpg", "o"])), None
            jpeg = out.endswith("jpg")
        if os.path.exists(out):
            os.unlink(out)
        args = [inp, "resize %dx%d" % (w, h), out]
        r = run_cli(exe, args, c.dir, cpu=200)
        if r.stopped or r.timeout:
            return {"note": "size %dx%d: stopped (%d): inconclusive" % (w, h, r.rc)}
        if r.rc == 0:
            if ok is False:
                return fail("exit status 0, but a JPEG cannot have this size", args)
            v = None
            if ok is None and os.path.getsize(out) > 400e6:
                v = None
            elif ok is None:
                b = open(out, "rb").read(64)
                v = "an image of more than 2^31 bytes cannot be complete in %d bytes" % os.path.getsize(out) if os.path.getsize(out) < 100000 else None
                if not v and not jpeg:
                    gw, gh = struct.unpack(">II", b[16:24])
                    v = None if (gw, gh) == (w, h) else "output has the size %dx%d" % (gw, gh)
            else:
                v = usable(out, jpeg, c.lib.resize((2, 2, px), w / 2, h / 2) if not jpeg else None)
                if not v and jpeg:
                    g = img.decode_any(open(out, "rb").read())
                    v = None if g[:2] == (w, h) else "the JPEG has %dx%d pixels" % g[:2]
            if v:
                return fail("exit status 0, but " + v, args)
        elif ok:
            return fail("exit status %d for a size the format can hold: %s" % (r.rc, r.err[-200:]), args)
        elif r.rc < 0:
            return fail("killed by signal %d" % -r.rc, args)
        elif "rror" not in r.err:
            return fail("no error message", args)
        if os.path.exists(out):
            os.unlink(out)
        return {"counts": {"size limits": 1}, "hashes": [bytes_hash(w, h, out.split("/")[-1])]}
    return go


def c23(ck):
    ck._known_counts = {}
    ck.level = "fault_enumeration"
    ck.rule = ("Case i: a pipeline run by the real CLI in a scratch directory with other files, as is, or with one fault: output beyond a size limit (enumerated around buffer boundaries and sampled), "
               "full device, unwritable path, undecodable or missing input, refused operation, or a failing allocation (sampled). Exit status 0 must come with the complete, right image in the right "
               "format; failures must exit non-zero with a message; no other file may change. Distinct by fault, operations and input.")
    lit = literals()
    exe, wexe = build_cli("plain"), build_cli("wrap")
    build_so()
    pool(ck, c23_case(exe, wexe), 60000 if THOROUGH else 6400, 2400 if THOROUGH else 170, "faults", ctx_maker(ck, "p", lit))
    if not ck.viol:
        pool(ck, c23_large(exe), 30 if THOROUGH else 16, 600 if THOROUGH else 120, "sizes", ctx_maker(ck, "l", lit), step=4)


# ---- C24 -----------------------------------------------------------------------------
EXTREME = ["0", "-1", "1", "-0.0", "2147483647", "2147483648", "-2147483648", "-2147483649", "4294967295", "4294967296", "4294967297", "1e9", "-1e9", "1e18", "1e19", "-1e19",
           "9223372036854775807", "9223372036854775808", "18446744073709551615", "18446744073709551616", "1e308", "-1e308", "1e309", "inf", "-inf", "nan", "-nan", "1e-320", "0.0000001",
           "", "abc", "0x10", "65535", "65536", "32767", "32768", "46341", "1073741824", "536870912", "715827883", "1e", "--5", "+-3", ".", "999999999999999999999999999999",
           "100000", "1000000", "33554432", "16777216", "255", "256", "257"]


def hostile_args(rnd, lits, inp, out):
    """(argument list, description)"""
    import re
    k = rnd.randrange(17)
    im = (9, 7, b"")
    if k == 0:
        n = rnd.randrange(4)
        return [rnd.choice([inp, out, "", "grayscale", "detect_corners", "-h", "--help", "%s%n", "x" * 5000]) for _ in range(n)], "few arguments"
    if k == 1:
        alph = "(), %x'\"0123456789.+-#abcdef\t\n" + "".join(chr(c) for c in (1, 127, 233, 0x4e2d))
        return [inp, "".join(rnd.choice(alph) for _ in range(rnd.choice([1, 3, 10, 60, 500]))), out], "random text"
    if k == 2:
        return [inp, rnd.choice(["(", ")", "()", "((", "))", "(((flip_x)))", ",", ",,,,", "(,)", "( , )", "(flip_x", "flip_x)", " ", "", "()()", "(flip_x)(flip_y)", "(()", "())", "( )", "flip_x,",
                                 ",flip_x", "(flip_x),(", "\t", "\n", "flip_x\t", "(" * 3000, ")" * 3000, "(" * 200 + "flip_x" + ")" * 200])] + [out], "punctuation"
    if k == 3:
        n = rnd.choice([9, 33, 100, 400])
        return [inp, ", ".join(" ".join(pipe.one_op(rnd, lits, im, maxpx=400, name=rnd.choice(["flip_x", "flip_y", "rotate", "grayscale", "trim"]))[0]) for _ in range(n)), out], "long pipeline"
    if k == 4:
        n = rnd.choice(sorted(pipe.KNOWN))
        return [inp, n + rnd.choice([" ", "  ", "\t", "\n", " \t"]) + rnd.choice(["a" * 40, "5" * 400, "x" * 200, "9" * 100000, "1x" * 50, "%" * 20, "%n%n%s", "F" * 127, "F" * 128 + " 3 1x1",
                         " ".join(["1x1"] * rnd.choice([5, 500, 5000])), "1x1x1x1", "xx", "x", "' '", "''", "'", "\"", "'1x1", "1x1'", "-", "5 5 5 5 5", "#", "# 1 1x1", "ffffff 1e9 1x1" if THOROUGH else "ffffff 1e5 1x1"]), out], "odd parameters"
    if k == 5:      # names of any length, names that are nearly right
        n = rnd.choice(sorted(pipe.KNOWN))
        ln = rnd.choice([rnd.randint(1, 80), 2 ** rnd.randint(2, 13) + rnd.randint(-2, 2)])
        nm = rnd.choice(["a" * ln, (n * (ln // len(n) + 1))[:ln], n + "_" * ln, n[:-1], n.upper(), "".join(rnd.choice("abcdefghij_") for _ in range(ln))])
        return [inp, rnd.choice(["", "flip_x, "]) + nm + rnd.choice(["", " ", " 5", " 5 5", " 5x5", " (", ", flip_y"]), out], "operation names"
    if k == 6:      # any white space between the parts, many parts
        n = rnd.choice(sorted(pipe.KNOWN))
        if rnd.random() < .5:
            toks = ["watershed"] + ["%dx%d" % (rnd.randrange(9), rnd.randrange(7)) for _ in range(rnd.choice([1, 2, 3, 10, 40, 300]))]
        else:
            toks = list(pipe.one_op(rnd, lits, im, maxpx=400, name=n)[0]) + rnd.choice([[], [], ["1"], ["7x7"], ["1", "2", "3", "4", "5", "6"]])
        seps = rnd.choice([["\t"], ["\n"], ["  "], [" ", "\t"], [" ", "  ", "\t", "\n", "\v", "\f", "\r", " \t ", "\u00a0"], [" " * 70]])
        t = toks[0] + "".join((rnd.choice(seps) if j or rnd.random() < .3 else " ") + x for j, x in enumerate(toks[1:]))
        return [inp, t, out], "white space"
    if k == 7:      # numbers and words of any length
        toks = list(pipe.one_op(rnd, lits, im, maxpx=400)[0])
        if len(toks) > 1:
            j = rnd.randrange(1, len(toks))
            ln = rnd.choice([rnd.randint(1, 70), 2 ** rnd.randint(3, 13) + rnd.randint(-3, 3)])
            q = rnd.randrange(5)
            if q == 0:
                toks[j] = re.sub(r"\d+", lambda m: "0" * ln + m.group(0), toks[j], count=rnd.randint(1, 2))
            elif q == 1:
                toks[j] = re.sub(r"(\d)(?=\D*$)", lambda m: m.group(1) + "." + "0" * ln, toks[j], count=1)
            elif q == 2:
                toks[j] += rnd.choice("%x#0 'F.") * ln
            elif q == 3:
                toks[j] = rnd.choice("%x#0'F.-+") * ln + toks[j]
            else:
                toks[j] = rnd.choice(["F", "0", "x", "%"]) * ln
        return [inp, rnd.choice([" ", " ", "  "]).join(toks), out], "long parts"
    # valid operations with extreme numbers; the costly ones (bounded, but quadratic) only alone and on small images
    if rnd.random() < .4:
        names = [rnd.choice(["blur", "erode", "dilate", "close", "open", "watershed", "disk", "circle"])]
    else:
        names = [rnd.choice(["resize", "crop", "rotate", "circle", "border", "trim", "extract_document_to", "disk"]) for _ in range(rnd.choice([1, 1, 2, 3]))]
    ops = []
    for n in names:
        toks = list((pipe.bad_op(rnd, lits, im) if rnd.random() < .1 else pipe.one_op(rnd, lits, im, maxpx=3000, name=n))[0])
        for j in range(1, len(toks)):
            if rnd.random() < .7 and not (toks[0] in ("circle", "disk", "border") and j == 1 and rnd.random() < .7):
                nums = [m for m in re.finditer(r"[-+]?\d[\d.e+]*", toks[j])]
                if nums:
                    m = rnd.choice(nums)
                    v = rnd.choice(EXTREME) if rnd.random() < .8 else str(lits.int(rnd, -10, 2 ** 33))
                    if toks[0] in ("circle", "disk") and j == 2:      # time grows with the radius
                        try:
                            if 1e5 < float(v) < 1.08e9:
                                v = rnd.choice(["100000", "65536", "1.1e9"])
                        except ValueError:
                            pass
                    toks[j] = toks[j][:m.start()] + v + toks[j][m.end():]
        ops.append(toks)
    a = pipe.spell(rnd, ops)
    if rnd.random() < .15:
        j = rnd.randrange(len(a))
        s = a[j]
        if s:
            p = rnd.randrange(len(s))
            a[j] = s[:p] + rnd.choice(["", "x", ",", "(", ")", " ", "'", "%", "\x7f", "é"]) + s[p + rnd.randrange(2):]
    return [inp] + a + [out], "extreme parameters"


def exif_block(rnd, orientation=None):
    """APP1 payload, mostly well formed."""
    le = rnd.random() < .5
    e = "<" if le else ">"
    n = rnd.choice([0, 1, 2, 5, 20])
    ent = b""
    for k in range(n):
        ent += struct.pack(e + "HHII", rnd.randrange(0x100, 0x8fff), rnd.choice([1, 2, 3, 4, 5, 7, 9]), rnd.choice([1, 2, 2 ** 31]), rnd.randrange(2 ** 32))
    pos = rnd.randint(0, n)
    tag = struct.pack(e + "HHIHH", 0x112, 3, 1, orientation if orientation is not None else rnd.choice([0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 255, 65535]), 0)
    ent = ent[:12 * pos] + tag + ent[12 * pos:]
    return b"Exif\0\0" + (b"II" if le else b"MM") + struct.pack(e + "HI", 42, 8) + struct.pack(e + "H", n + 1) + ent + struct.pack(e + "I", 0)


def segment(marker, payload):
    return b"\xff" + bytes([marker]) + struct.pack(">H", len(payload) + 2) + payload


def mutate(rnd, b):
    b = bytearray(b)
    for _ in range(rnd.choice([1, 1, 2, 4, 10])):
        k = rnd.randrange(9)
        if not b:
            b = bytearray(rnd.randbytes(4))
        p = rnd.randrange(len(b)) if rnd.random() < .5 else rnd.randrange(min(len(b), 64))
        if k == 0:
            b[p] ^= 1 << rnd.randrange(8)
        elif k == 1:
            b[p] = rnd.choice([0, 1, 127, 128, 255, 254, rnd.randrange(256)])
        elif k == 2:
            del b[p:]
        elif k == 3:
            del b[p:p + rnd.choice([1, 2, 4, 50])]
        elif k == 4:
            b[p:p] = rnd.randbytes(rnd.choice([1, 2, 4, 100]))
        elif k == 5:
            q = rnd.randrange(len(b))
            b[p:p] = b[q:q + rnd.randint(1, 60)]
        elif k == 6:
            b[p:p + 4] = struct.pack(rnd.choice([">I", "<I"]), rnd.choice([0, 1, 0xffffffff, 0x7fffffff, 0x80000000, 0x10000, rnd.randrange(2 ** 32)]))
        elif k == 7:
            b[p:p + 2] = struct.pack(rnd.choice([">H", "<H"]), rnd.choice([0, 1, 0xffff, 0x7fff, 0x8000, rnd.randrange(2 ** 16)]))
        else:
            for q in range(p, min(len(b), p + rnd.choice([4, 30]))):
                b[q] = rnd.randrange(256)
    return bytes(b)


def seed_files(exe, d):
    """Valid JPEGs (made by the program under test), and other formats."""
    rnd = random.Random(5)
    out = []
    for w, h in ((8, 8), (16, 16), (17, 9), (40, 33), (1, 1)):
        data, px, _ = img.input_file(rnd, w, h, kind="doc" if w > 9 else "noise", fmt="rgb")
        p, q = os.path.join(d, "seed.png"), os.path.join(d, "seed.jpg")
        with open(p, "wb") as f:
            f.write(data)
        if run_cli(exe, [p, "rotate 0", q], d).rc == 0:
            out.append(("jpg", open(q, "rb").read()))
    z = zlib.compress(b"\0" * 50)
    out.append(("gif", b"GIF89a\x04\0\x03\0\x80\0\0\xff\0\0\0\xff\0!\xf9\x04\x01\0\0\0\0,\0\0\0\0\x04\0\x03\0\0\x02\x05\x84\x8f\x10\x16\x05\0;"))
    out.append(("psd", b"8BPS\0\1" + bytes(6) + struct.pack(">HIIHH", 3, 4, 5, 8, 3) + bytes(12) + b"\0\0" + rnd.randbytes(60)))
    out.append(("hdr", b"#?RADIANCE\nFORMAT=32-bit_rle_rgbe\n\n-Y 3 +X 4\n" + rnd.randbytes(48)))
    out.append(("pic", b"\x53\x80\xF6\x34" + bytes(84) + b"PICT" + struct.pack(">HH", 4, 3) + bytes(8) + b"\0\x08\0\xe0" + rnd.randbytes(60)))
    out.append(("pngj", b"\x89PNG\r\n\x1a\n" + img.png_chunk(b"IHDR", struct.pack(">IIBBBBB", 4, 3, 8, 2, 0, 0, 0)) + img.png_chunk(b"IDAT", z) + img.png_chunk(b"IEND", b"")))
    return out


def outcome(r, out):
    import re
    try:
        with open(out, "rb") as f:
            b = f.read()
    except OSError:
        b = None
    tx = [re.sub(r"[\d.]+ ?(ms|s|sec|seconds)\b", "", t) for t in (r.out, r.err)]
    return dict(exit_status=r.rc, output=b, printed=tx[0], messages=tx[1])


def c24_case(exe, plain, msan=False, perturb=False):
    env = san_env()
    env["MSAN_OPTIONS"] += ":max_allocation_size_mb=16"
    env["ASAN_OPTIONS"] = env["ASAN_OPTIONS"].replace("quarantine_size_mb=32", "quarantine_size_mb=8")
    env["VF_MAX"] = str(8 << 20)

    def go(i, c):
        rnd = random.Random("%d/24%s/%d" % (SEED, "p" if perturb else "m" if msan else "", i))
        lits = c.lits
        if not hasattr(c, "seeds"):
            c.seeds = seed_files(plain, c.dir)
        out = os.path.join(c.dir, rnd.choice(["o.png", "o.jpg", "o", "o.png", "missing/o.png"]))
        w, h = (rnd.randint(1, 30), rnd.randint(1, 30)) if rnd.random() < .8 else sizes(rnd, lits)
        file_kind = "valid"
        ext = rnd.choice(["png", "jpg", "jpeg", "img", "JPG"])
        if rnd.random() < .5:
            data, _, fk = img.input_file(rnd, w, h)
        else:
            fk, data = rnd.choice(c.seeds)
            if fk == "jpg":
                ext = "jpg"
                pre = b""
                for _ in range(rnd.choice([0, 1, 1, 1, 2, 3])):
                    pre += segment(rnd.choice([0xe1, 0xe1, 0xe1, 0xe0, 0xfe, 0xe2]), rnd.choice([exif_block(rnd), exif_block(rnd), b"http://ns.adobe.com/xap/1.0/\0<x/>", b"", rnd.randbytes(rnd.randrange(99))]))
                data = data[:2] + pre + data[2:]
        both = rnd.random()
        if msan:      # what a decoder does with a damaged file is not followed here
            both = 1
        if both < .6:
            data, file_kind = mutate(rnd, data), "mutated"
        if rnd.random() < .03 and not msan:
            data, file_kind = rnd.randbytes(rnd.choice([0, 1, 2, 3, 10, 1000])), "random"
        inp = os.path.join(c.dir, "in." + ext)
        with open(inp, "wb") as f:
            f.write(data)
        if file_kind == "valid" or both < .3:
            args, what = hostile_args(rnd, lits, inp, out)
        else:
            toks = ["rotate", "90"] if rnd.random() < .5 else pipe.one_op(rnd, lits, (w, h, b""), maxpx=2000)[0]
            args, what = [inp] + pipe.spell(rnd, [toks]) + [out], "plain pipeline"
        if sum(len(a) for a in args) > 120000 or any("\0" in a for a in args):
            return {"evals": 0}
        if os.path.exists(out):
            os.unlink(out)
        r = run_cli(exe, args, c.dir, cpu=150, env=env)
        if r.stopped:
            return {"note": "stopped by the system: inconclusive"}
        info = dict(input=data, file_name=os.path.basename(inp))
        if r.timeout:
            return fail("does not end within 150 s of CPU time", args, **info)
        if r.rc not in (0, 1):
            import re
            m = re.findall(r"(?:runtime error:[^\n]*|ERROR: \w+Sanitizer[^\n]*|SUMMARY[^\n]*)", r.err)
            return fail("exit status %d: %s" % (r.rc, "; ".join(m[:3]) or r.err[-300:]), args, stderr=r.err[-3000:], **info)
        if r.rc == 1 and not r.err.strip() and "sage" not in r.out:
            return fail("exit status 1 without an explanation", args, **info)
        if perturb:       # what fresh memory holds must not show
            a = outcome(r, out)
            for fill in ("1", "254"):
                if os.path.exists(out):
                    os.unlink(out)
                r = run_cli(exe, args, c.dir, cpu=150, env=dict(env, MALLOC_PERTURB_=fill))
                if r.stopped or r.timeout:
                    return {"note": "stopped by the system: inconclusive"}
                b = outcome(r, out)
                for k in a:
                    if a[k] != b[k]:
                        return fail("the contents of fresh memory show in its %s (%r; filled with %s: %r)" % (k, str(a[k])[-200:], fill, str(b[k])[-200:]), args, **info)
        return {"counts": {"file %s %s" % (file_kind, fk): 1, "arguments: " + what: 1, "exit %d" % r.rc: 1}, "hashes": [bytes_hash(data, *args)],
                "sample": (what + ", " + file_kind + " " + fk + ": " + shown(args[1:]))[:400] if i < 60 and i % 6 == 0 else None}
    return go


def c24(ck):
    ck._known_counts = {}
    ck.rule = ("Case i: the CLI built with AddressSanitizer and UBSan (incl. float-cast-overflow; single allocations limited to 8 MB) on a valid, mutated or random file (PNG kinds, JPEG with EXIF segments, "
               "GIF, BMP, TGA, PNM, PSD, HDR, PIC) with a valid, extreme, malformed or random argument list. It must end with status 0 or 1 and a message; then with MemorySanitizer on valid files; then thrice with different contents of fresh memory, where exit status, messages and output must agree; then in process under libFuzzer. "
               "Distinct by file and arguments.")
    lit = literals()
    plain, exe = build_cli("plain"), build_cli("asanwrap")
    build_so()
    pool(ck, c24_case(exe, plain), 100000 if THOROUGH else 12000, 2400 if THOROUGH else 150, "hostile", ctx_maker(ck, "p", lit))
    if not ck.viol:
        pool(ck, c24_case(build_cli("msan"), plain, True), 30000 if THOROUGH else 3000, 900 if THOROUGH else 60, "uninitialised", ctx_maker(ck, "m", lit))
    if not ck.viol:
        pool(ck, c24_case(build_cli("wrap"), plain, True, True), 60000 if THOROUGH else 4000, 900 if THOROUGH else 60, "memory contents", ctx_maker(ck, "f", lit))
    if not ck.viol:
        c24_fuzz(ck, 10000000 if THOROUGH else 40000, 1800 if THOROUGH else 50)


def c24_fuzz(ck, runs, limit):
    import glob, re
    exe = build_cli("fuzz")
    plain = build_cli("plain")
    L = Lib(build_so())
    seeds = os.path.join(ck.scratch, "seeds")
    corpus = os.path.join(ck.scratch, "corpus")
    os.makedirs(seeds)
    os.makedirs(corpus)
    lits = pipe.Lits(literals())
    jp = seed_files(plain, ck.scratch)
    rnd = random.Random("%d/24f" % SEED)
    for k in range(160):
        w, h = rnd.randint(1, 12), rnd.randint(1, 12)
        if rnd.random() < .6:
            data = img.input_file(rnd, w, h)[0]
        else:
            data = rnd.choice(jp)[1]
            if data[:2] == b"\xff\xd8" and rnd.random() < .7:
                data = data[:2] + segment(0xe1, exif_block(rnd)) + data[2:]
        a = pipe.spell(rnd, [pipe.one_op(rnd, lits, (w, h, b""), maxpx=400)[0] for _ in range(rnd.choice([1, 1, 2]))])[:4]
        a = [x.encode()[:255] for x in a]
        with open(os.path.join(seeds, "s%d" % k), "wb") as f:
            f.write(bytes([rnd.randrange(256) & ~4, len(a)]) + b"".join(bytes([len(x)]) + x for x in a) + data)
    words = sorted(pipe.KNOWN) + [s for s in literals()[5] if s and all(32 <= ord(ch) < 127 for ch in s)] + ["50%", "2x2", "1x1+0+0", "FF0000", "\\x89PNG", "IHDR", "IDAT", "PLTE", "tRNS", "Exif", "II*", "MM", "GIF89a",
             "8BPS", "#?RADIANCE", "P6", "P5", "BM", "\\xff\\xe1", "\\xff\\xd8"]
    with open(os.path.join(ck.scratch, "dict"), "w") as f:
        for x in words:
            if '"' not in x and not (x.count("\\") and not x.startswith("\\x")):
                f.write('"%s"\n' % x)
    env = san_env()
    env["VF_MAX"] = "140000"
    env["ASAN_OPTIONS"] += ":detect_stack_use_after_return=0"

    def worker(k):
        sub = os.path.join(ck.scratch, "z%d" % k)
        os.makedirs(sub)
        art = os.path.join(ck.scratch, "zart%d_" % k)
        cmd = [exe, "-runs=%d" % runs, "-max_total_time=%d" % limit, "-seed=%d" % (SEED * 17 + k + 1), "-max_len=2500", "-len_control=0", "-use_value_profile=%d" % (k & 1), "-timeout=200",
               "-rss_limit_mb=4000", "-reload=0", "-artifact_prefix=" + art, "-print_final_stats=1", "-detect_leaks=0", "-close_fd_mask=1", "-dict=" + os.path.join(ck.scratch, "dict"), corpus, seeds]
        with open(art + "log", "wb+") as log:
            rc = subprocess.run(cmd, env=dict(env, VF_SCRATCH=sub), stdin=subprocess.DEVNULL, stdout=log, stderr=log, timeout=limit + 900, cwd=sub).returncode
            log.seek(0, 2)
            log.seek(max(0, log.tell() - 300000))
            txt = log.read().decode("utf8", "replace")
        m = re.search(r"stat::number_of_executed_units:\s*(\d+)", txt)
        cov = re.findall(r"cov: (\d+) ft: (\d+)", txt)
        res = None
        arts = [p for p in glob.glob(art + "*") if "slow-unit" not in p and not p.endswith("log")]
        if arts and rc:
            p = arts[0]
            r2 = subprocess.run([exe, "-timeout=400", "-rss_limit_mb=6000", "-detect_leaks=0", p], env=dict(env, VF_SCRATCH=sub), stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=900)
            t2 = r2.stdout.decode("utf8", "replace")
            if r2.returncode and "out-of-memory" not in t2:
                sm = re.findall(r"(?:runtime error:[^\n]*|ERROR: \w+[^\n]*|SUMMARY[^\n]*)", t2)
                res = dict(what="in process: " + ("; ".join(sm[:3]) or "crash"), kind="clifuzz", input_hex=open(p, "rb").read().hex(), output=t2[-3500:])
            else:
                ck.notes.append("a guided case did not repeat: inconclusive")
        return int(m.group(1)) if m else 0, cov[-1] if cov else None, res

    with ThreadPoolExecutor(JOBS) as ex:
        for n, c, res in ex.map(worker, range(JOBS)):
            ck.add("guided_executions", n)
            ck.evals += n
            if c:
                ck.cov["guided_coverage_edges_max"] = max(ck.cov.get("guided_coverage_edges_max", 0), int(c[0]))
            if res:
                ck.violation(res.pop("what"), **res)
    ck.cov["guided_corpus"] = len(os.listdir(corpus))


# ---- C21, command line part ------------------------------------------------------------
def upright(o, im):
    """The picture whose stored form has orientation o (TIFF 6.0: row 0 / column 0 of the stored picture)."""
    w, h, b = im
    px = [b[4 * i:4 * i + 4] for i in range(w * h)]
    at = {1: lambda x, y: (x, y), 2: lambda x, y: (w - 1 - x, y), 3: lambda x, y: (w - 1 - x, h - 1 - y), 4: lambda x, y: (x, h - 1 - y),
          5: lambda x, y: (y, x), 6: lambda x, y: (y, h - 1 - x), 7: lambda x, y: (w - 1 - y, h - 1 - x), 8: lambda x, y: (w - 1 - y, x)}[o]
    ow, oh = (h, w) if o >= 5 else (w, h)
    out = bytearray()
    for y in range(oh):
        for x in range(ow):
            sx, sy = at(x, y)
            out += px[sy * w + sx]
    return ow, oh, bytes(out)


def tiff_block(rnd, lits, o, where=None):
    """APP1 payload, well formed, with orientation o (None: without the tag)."""
    le = rnd.random() < .5
    e = "<" if le else ">"
    before = [(rnd.choice([0x100, 0x101, 0x10e, 0x10f, 0x110, 0x111]), rnd.choice([2, 3, 4, 5]), rnd.choice([1, 2, 20, 0x01120112]), rnd.choice([0x01120003, 0x00030112, 8, rnd.randrange(2 ** 32)]))
              for _ in range(rnd.choice([0, 0, 1, 3, 11, 40]))]
    after = [(rnd.choice([0x113, 0x11a, 0x128, 0x131, 0x132, 0x213, 0x8769, 0x1201]), rnd.choice([2, 3, 4, 5]), 1, rnd.randrange(2 ** 32)) for _ in range(rnd.choice([0, 1, 2, 9]))]
    ent = [struct.pack(e + "HHII", *t) for t in sorted(before)]
    if o is not None:
        ent.append(struct.pack(e + "HHIHH", 0x112, 3, 1, o, rnd.choice([0, 0, rnd.randrange(65536)])))
    ent += [struct.pack(e + "HHII", *t) for t in sorted(after)]
    gap = rnd.choice([0, 0, 0, 2, 40, 700])
    t = (b"II" if le else b"MM") + struct.pack(e + "HI", 42, 8 + gap) + rnd.randbytes(gap) + struct.pack(e + "H", len(ent)) + b"".join(ent)
    if rnd.random() < .3:      # a thumbnail's directory with an orientation of its own
        t += struct.pack(e + "I", len(t) + 4) + struct.pack(e + "H", 1) + struct.pack(e + "HHIHH", 0x112, 3, 1, rnd.randint(1, 8), 0) + bytes(4)
    else:
        t += bytes(4)
    return b"Exif\0\0" + t + rnd.randbytes(rnd.choice([0, 0, 30, 500]))


def c21_case(exe):
    def go(i, c):
        rnd = random.Random("%d/21/%d" % (SEED, i))
        L, lits = c.lib, c.lits
        if not hasattr(c, "jpegs"):      # JPEG files made by the program, and what it reads from them without EXIF
            c.jpegs = []
            for w, h in ((1, 1), (2, 3), (7, 1), (1, 9), (16, 8), (8, 16), (17, 23), (33, 20), (24, 24), (41, 9)):
                data, _, _ = img.input_file(rnd, w, h, kind="noise", fmt="rgb")
                p, q, o = (os.path.join(c.dir, n) for n in ("s.png", "s.jpg", "b.png"))
                open(p, "wb").write(data)
                if run_cli(exe, [p, "rotate 0", q], c.dir).rc == 0 and run_cli(exe, [q, "rotate 0", o], c.dir).rc == 0:
                    c.jpegs.append((open(q, "rb").read(), img.read_png(open(o, "rb").read())))
            if not c.jpegs:
                return fail("the program makes no JPEG files that it reads again", [])
        data, im = rnd.choice(c.jpegs)
        kind = rnd.random()
        o = rnd.randint(1, 8) if kind < .8 else None if kind < .87 else rnd.choice([0, 9, 10, 255, 256, 257, 264, 65535, 0x8001, lits.int(rnd, 9, 65535)])
        ext = rnd.choice(["jpg", "jpg", "jpeg", "JPG", "JPEG"])
        counts = {}

        def other():
            return segment(rnd.choice([0xe0, 0xe2, 0xed, 0xee, 0xfe]), rnd.randbytes(rnd.choice([0, 1, 20, 300]))) if rnd.random() < .6 else \
                segment(0xe1, rnd.choice([b"http://ns.adobe.com/xap/1.0/\0<x:xmpmeta/>", b"Exif\0\1" + rnd.randbytes(40), b"exif\0\0MM\0*" + rnd.randbytes(30), b"", b"Exif"]))
        exif = segment(0xe1, tiff_block(rnd, lits, o))
        if rnd.random() < .2:
            exif = b"\xff" * rnd.choice([1, 2, 9]) + exif
        pre = b"".join(other() for _ in range(rnd.choice([0, 0, 1, 2, 4])))
        post = b"".join(other() for _ in range(rnd.choice([0, 0, 1])))
        # before the first segment, or after the k-th segment of the file's own
        cuts, p = [2], 2
        while data[p] == 0xff and data[p + 1] not in (0xda, 0xd9):
            p += 2 + struct.unpack(">H", data[p + 2:p + 4])[0]
            cuts.append(p)
        cut = rnd.choice(cuts) if rnd.random() < .6 else 2
        what = "orientation %s" % ("missing" if o is None else o if o in range(1, 9) else "out of range")
        if kind > .97:      # after the picture's data: not to be read
            f, what = data + exif, "after the data"
            o = None
        else:
            f = data[:cut] + pre + exif + post + data[cut:]
        if rnd.random() < .05:      # a file that is no JPEG, with a JPEG's name
            png, px, _ = img.input_file(rnd, 5, 3, kind="noise", fmt="rgba")
            f, im, o, what = png + f, (5, 3, px), None, "PNG named as JPEG"
        counts[what] = 1
        exp = upright(o if o in range(1, 9) else 1, im)
        inp, out = os.path.join(c.dir, "in." + ext), os.path.join(c.dir, "o.png")
        with open(inp, "wb") as fh:
            fh.write(f)
        args = [inp]
        if rnd.random() < .3:
            toks, fn = pipe.one_op(rnd, lits, exp, maxpx=2000, bad=0)
            try:
                exp = fn(L, exp)
            except Refused:
                return {"counts": counts}
            args += pipe.spell(rnd, [toks], plain=True)
        else:
            args += ["rotate 0"]
        args.append(out)
        if os.path.exists(out):
            os.unlink(out)
        r = run_cli(exe, args, c.dir)
        info = dict(input=f, file_name=os.path.basename(inp))
        if r.stopped:
            return {"note": "stopped by the system: inconclusive"}
        if r.rc != 0:
            return fail("exit status %d (%s): %s" % (r.rc, what, r.err[-300:]), args, **info)
        try:
            got = img.read_png(open(out, "rb").read())
        except (OSError, img.BadImage) as e:
            return fail("exit status 0, but the output is unusable: %s" % e, args, **info)
        d = difference(exp, got)
        if d:
            return fail("%s (%s): %s" % ("JPEG is not turned upright", what, d), args, **info)
        return {"counts": counts, "hashes": [bytes_hash(f, *args)], "sample": "%dx%d, %s, block at byte %d" % (im[0], im[1], what, cut) if i < 30 and i % 6 == 0 else None}
    return go


def c21_cli(ck):
    lit = literals()
    exe = build_cli("plain")
    build_so()
    pool(ck, c21_case(exe), 60000 if THOROUGH else 4000, 1200 if THOROUGH else 120, "jpeg", ctx_maker(ck, "e", lit))
