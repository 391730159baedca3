"""Random pipelines: each operation as text, together with what it means in terms of the library."""
import math
from .cli import Refused

NOARG = "grayscale threshold bw_smart bw_smooth sobel flip_x flip_y histogram extract_document draw_corners detect_corners trim".split()
SLOW = ["extract_document", "extract_document_to", "draw_corners", "detect_corners"]
CHEAP = [n for n in NOARG if n not in SLOW]
KNOWN = set(NOARG + "blur resize circle disk watershed crop extract_document_to rotate border erode dilate close open".split())
COLORS = ["FF0000", "00ff00", "#0000FF", "ABCDEF", "000000", "ffffff", "#123456", "7f7F7f", "F00", "#abc", "GGGGGG", "FF00000", "zz", "80FF0000", "12345g", "a"]


class Lits:
    def __init__(self, lit):
        self.ints, self.newi, self.flts, self.newf, self.strs, self.news = lit

    def int(self, rnd, lo, hi):
        if rnd.random() < .35:
            c = [v for v in self.newi if lo <= v <= hi]
            c += [v + d for v in self.newi for d in (-1, 1) if lo <= v + d <= hi]
            c += [int(v) for v in self.newf if lo <= v <= hi]
            if c:
                return rnd.choice(c)
        if rnd.random() < .1:
            c = [v for v in self.ints if lo <= v <= hi]
            if c:
                return rnd.choice(c)
        return rnd.randint(lo, hi)

    def num(self, rnd, lo, hi):
        if rnd.random() < .35:
            c = [float(v) for v in list(self.newf) + list(self.newi) if lo <= v <= hi]
            if c:
                return rnd.choice(c)
        k = rnd.random()
        if k < .4:
            return float(self.int(rnd, math.ceil(lo), math.floor(hi)))
        if k < .6:
            return rnd.randint(math.ceil(lo * 2), math.floor(hi * 2)) / 2
        return rnd.uniform(lo, hi)


def fmt(rnd, v):
    """A spelling of the number; the meaning is whatever float() reads from it."""
    k = rnd.random()
    if v == int(v) and k < .5:
        s = str(int(v))
    elif k < .6:
        s = "%.1f" % v
    elif k < .7:
        s = "%.2f" % v
    elif k < .78:
        s = "%.3e" % v
    elif k < .82 and v >= 0:
        s = "+" + repr(v)
    elif k < .86 and v >= 0:
        s = "00" + repr(v)
    else:
        s = repr(v)
    return s, float(s)


def one_op(rnd, lits, im, maxpx=20000, bad=0.0, name=None):
    """(list of tokens, function(lib, image) -> image). Tokens may be separated by any number of spaces."""
    w, h, _ = im
    if bad and rnd.random() < bad:
        return bad_op(rnd, lits, im)
    if name is None:
        name = rnd.choice(["resize", "crop", "rotate", "circle", "disk", "border", "trim", "blur", "watershed"] * 3 +
                          ["erode", "dilate", "close", "open"] * 2 + CHEAP)
        if rnd.random() < .008:      # half a second each
            name = rnd.choice(SLOW)
    if name == "trim" and rnd.random() < .75:
        s, v = fmt(rnd, rnd.choice([0.0, 1.0, 2.0, lits.num(rnd, 0, 10), lits.num(rnd, 0, 100)]))
        return [name, s + rnd.choice(["", "%", "%"])], lambda L, i: L.trim(i, v)
    if name in NOARG:
        if name == "detect_corners":
            return [name], lambda L, i: i
        toks = [name]
        return toks, lambda L, i: getattr(L, name)(i)
    if name == "blur":
        s, v = fmt(rnd, rnd.choice([lits.num(rnd, 0, 6), lits.num(rnd, 0, 30), 0.0]))
        return [name, s], lambda L, i: L.blur(i, v)
    if name in ("erode", "dilate", "close", "open"):
        s, v = fmt(rnd, rnd.choice([lits.num(rnd, 0, 6), lits.num(rnd, 0, 25), float(rnd.randint(0, 3))]))
        return [name, s], lambda L, i: getattr(L, name)(i, v)
    if name == "resize":
        k = rnd.randrange(5)
        big = math.sqrt(maxpx / (w * h))
        def sc():
            return rnd.choice([lits.num(rnd, .2, 2), lits.num(rnd, .05, 1), 1.0, .5, 2.0, lits.num(rnd, .3, 3)])
        sx, sy = min(sc(), big), min(sc(), big)
        if k == 0:
            a, va = fmt(rnd, sx * 100 if rnd.random() < .4 else float(max(1, round(sx * 100))))
            return [name, a + "%"], lambda L, i: L.resize(i, va / 100.0, va / 100.0)
        if k == 1:
            a, va = fmt(rnd, float(max(1, round(sx * 100))))
            b, vb = fmt(rnd, float(max(1, round(sy * 100))))
            return [name, a + "%x" + b + "%"], lambda L, i: L.resize(i, va / 100.0, vb / 100.0)
        if k == 2:
            tw = lits.int(rnd, 1, max(1, int(min(200, w * 4 * min(1, big)))))
            th = lits.int(rnd, 1, max(1, min(200, maxpx // tw)))
            return [name, "%dx%d" % (tw, th)], lambda L, i: L.resize(i, float(tw) / i[0], float(th) / i[1])
        a, va = fmt(rnd, sx)
        if k == 3:
            return [name, a], lambda L, i: L.resize(i, va, va)
        b, vb = fmt(rnd, sy)
        return [name, a, b], lambda L, i: L.resize(i, va, vb)
    if name in ("circle", "disk"):
        col = rnd.choice(COLORS[:8] + COLORS) if rnd.random() < .7 else "%06X" % rnd.randrange(1 << 24)
        r, vr = fmt(rnd, rnd.choice([lits.num(rnd, 0, 12), lits.num(rnd, 0, max(2, min(w, h))), lits.num(rnd, -3, 200)]))
        x, vx = fmt(rnd, rnd.choice([lits.num(rnd, 0, w), lits.num(rnd, -20, w + 20)]))
        y, vy = fmt(rnd, rnd.choice([lits.num(rnd, 0, h), lits.num(rnd, -20, h + 20)]))
        if rnd.random() < .02:
            col = col * 30
        return [name, col, r, x + "x" + y], lambda L, i: getattr(L, name)(i, col, vr, vx, vy)
    if name == "border":
        col = rnd.choice(COLORS) if rnd.random() < .5 else "%06x" % rnd.randrange(1 << 24)
        bw = lits.int(rnd, 1, 12 if rnd.random() < .7 else 60)
        s = str(bw)
        if rnd.random() < .2:
            s = "%.2f" % (bw + rnd.choice([.0, .25, .75]))
            bw = int(float(s))
        return [name, col, s], lambda L, i: L.border(i, col, bw)
    if name == "rotate":
        a = rnd.choice([0, 90, 180, 270, 360, -90, -180, -270, 450, 540, 630, 720, 810, -360, -450, 90 * rnd.randint(-40, 40), 90 * rnd.randint(-4000000, 4000000)])
        s = rnd.choice(["%d", "%d", "%.1f", "%+d"]) % a
        return [name, s], lambda L, i: L.rotate(i, a)
    if name == "crop":
        x, y = lits.int(rnd, 0, w - 1), lits.int(rnd, 0, h - 1)
        cw, ch = lits.int(rnd, 1, w + 10), lits.int(rnd, 1, h + 10)
        k = rnd.random()
        if k < .15:
            x = -rnd.randint(1, 20)
        if k < .08 or .15 < k < .2:
            y = -rnd.randint(1, 20)
        if rnd.random() < .03:
            cw = rnd.choice([2 ** 31, 4294967295, 100000])
        s = "%dx%d" % (cw, ch)
        k = rnd.random()
        if k < .1:
            return [name, s], lambda L, i: L.crop(i, cw, ch, 0, 0)
        if k < .2:
            return [name, s + "%+d" % x], lambda L, i: L.crop(i, cw, ch, x, 0)
        return [name, s + "%+d%+d" % (x, y)], lambda L, i: L.crop(i, cw, ch, x, y)
    if name == "extract_document_to":
        ow, oh = lits.int(rnd, 1, 90), lits.int(rnd, 1, 90)
        return [name, "%dx%d" % (ow, oh)], lambda L, i: L.extract_document_to(i, ow, oh)
    if name == "watershed":
        pts, toks = [], []
        for _ in range(rnd.choice([1, 2, 2, 3, 4, 7, 12, 40])):
            x, vx = fmt(rnd, float(lits.int(rnd, 0, w - 1)) if rnd.random() < .85 else rnd.uniform(-3, w + 3))
            y, vy = fmt(rnd, float(lits.int(rnd, 0, h - 1)) if rnd.random() < .85 else rnd.uniform(-3, h + 3))
            pts.append((vx, vy))
            toks.append(x + "x" + y)
        if rnd.random() < .3:
            q = rnd.choice("'\"")
            toks[0] = q + toks[0]
            toks[-1] += q
        return [name] + toks, lambda L, i: L.watershed(i, pts)
    raise KeyError(name)


def refuse(L, i):
    raise Refused()


def bad_op(rnd, lits, im):
    w, h, _ = im
    k = rnd.randrange(12)
    col = rnd.choice(COLORS)
    if k == 0:
        n = rnd.choice(sorted(KNOWN))
        cand = [n + "_", n[:-1], n.upper(), n.capitalize(), n + "s", n + rnd.choice("0123456789"), "x" + n, n.replace("_", "-") + "-", "gray", "grey", "mirror", "invert",
                "sharpen", "noop", "none", "identity", n + "_" + n, "x" * 40, n + "x" * 30, "".join(rnd.choice("abcdefghij_") for _ in range(rnd.randint(1, 12)))]
        cand += [s for s in lits.news if s and not any(c in s for c in " ,()%\n\t")] * 6
        n = rnd.choice(cand)
        if n in KNOWN:
            n += "q"
        toks = [n] + (["%d" % rnd.randint(0, 9)] if rnd.random() < .3 else [])
    elif k == 1:
        toks = [rnd.choice("blur resize circle disk watershed crop extract_document_to rotate border erode dilate close open".split())]
    elif k in (2, 3):
        g = "%dx%d" % (rnd.randint(1, 20), rnd.randint(1, 20))
        toks = ["crop", rnd.choice(["0x5", "5x0", "5", "x5", "5x", "axb", g + "+", g + "+1+", g + "+1+2+3", g + "+a+1", g + "+1+b", g + "z", "5y5+0+0", "5.5x4", "5x4.5+0+0",
                                    "-5x5", "5x-5", "%", "50%", "99999999999x5", "5x99999999999", g + "+99999999999+0", g + "+0-99999999999", "4294967296x3", g + "+1+2x"])]
    elif k == 4:
        g = "%dx%d" % (rnd.randint(1, 20), rnd.randint(1, 20))
        toks = ["crop", rnd.choice([g + "+%d+0" % w, g + "+0+%d" % h, g + "+%d+%d" % (w + rnd.randint(0, 50), h), g + "+2147483647+0", g + "+0+2147483647"])]
    elif k == 5:
        toks = ["rotate", rnd.choice(["45", "1", "89", "91", "-1", "30", "90.5", "89.999", "179", "271", "-45", "inf", "nan", "135", "0.1", "269", "361", "100", "200", "400"])]
    elif k in (6, 7):
        n = rnd.choice(["circle", "disk"])
        r = str(rnd.randint(1, 9))
        toks = rnd.choice([[n, col], [n, col, r], [n, col, r, "10"], [n, col, r, "10,5"][:4], [n, col, r, "10*5"], [n, col, r, "10", "5"], [n, col, r, "10:5"], [n, r], [n, col, r, "10+5"]])
        toks = [t.replace(",", ";") for t in toks]
    elif k in (8, 9):
        toks = ["border"] + rnd.choice([[col], [col, "0"], [col, "-1"], [col, "-0.5"], [col, "abc"], ["5"], [col, "nan"], [col, "1e30"], [col, "4294967296"], [col, "-2147483648"], [col, "inf"]])
    elif k == 10:
        toks = ["extract_document_to", rnd.choice(["0x5", "5x0", "-5x5", "5x-5", "50", "axb", "x", "5x", "x5", "10*10", "-1x-1", "auto"])]
    else:
        toks = ["resize", rnd.choice(["0%", "-50%", "0x10", "10x0", "-5x5", "0", "-1", "nan", "0%x50%", "50%x0%", "50%x-5%", "ax5", "inf", "%", "5xa", "1e9%", "99999999x99999999"])]
    return toks, refuse


def spell(rnd, ops, plain=False):
    """Turns operations into one argument list, in one of many equivalent spellings."""
    def sp():
        return " " if plain else " " * rnd.choice([1, 1, 1, 1, 2, 3, 7])

    def ws():
        return "" if plain else rnd.choice(["", "", "", " ", "  ", "\t", "\n", " \t "])
    frags = []
    for toks in ops:
        s = toks[0]
        for t in toks[1:]:
            s += sp() + t
        if not plain and rnd.random() < .25:
            s = "(" + ws() + s + ws() + ")"
        frags.append(ws() + s + ws())
        while not plain and rnd.random() < .06:
            frags.append(rnd.choice(["", " ", "()", "( )", "  "]))
    if not plain and rnd.random() < .08:
        frags.insert(0, rnd.choice(["", " ", "()"]))
    text = ",".join(frags) if not plain else ", ".join(frags)
    mode = 0 if plain else rnd.choice([0, 0, 1, 2])
    if mode == 0:
        return [text]
    if mode == 1:      # as a shell splits it
        return text.split(" ")
    out, cur = [], ""
    for part in text.split(" "):
        if cur == "" and not out:
            cur = part
        elif rnd.random() < .5:
            out.append(cur)
            cur = part
        else:
            cur += " " + part
    return out + [cur]
