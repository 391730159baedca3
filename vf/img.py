"""Our own PNG reader and writer, and test images, for the CLI checks. Images are (w, h, bytes of RGBA)."""
import ctypes as C, struct, zlib

_ref = None


def set_ref(lib):
    global _ref
    _ref = lib


class BadImage(Exception):
    pass


def png_chunk(t, d):
    return struct.pack(">I", len(d)) + t + d + struct.pack(">I", zlib.crc32(t + d))


def _filter(rows, nrows, stride, bpp, types):
    out = C.create_string_buffer(nrows * (stride + 1))
    _ref.ref_filter(rows, C.c_long(nrows), C.c_long(stride), bpp, bytes(types), out)
    return out.raw


def png_bytes(w, h, px, ctype, rnd, depth=8, plte=b"", trns=b"", interlace=False, extra=True):
    """px: samples as ints per pixel, packed here. ctype is PNG's colour type."""
    ch = {0: 1, 2: 3, 3: 1, 4: 2, 6: 4}[ctype]

    def pack(row):
        if depth == 8:
            return bytes(row)
        if depth == 16:
            return b"".join(struct.pack(">H", v) for v in row)
        out = bytearray((len(row) * depth + 7) // 8)
        for i, v in enumerate(row):
            bit = i * depth
            out[bit >> 3] |= v << (8 - depth - (bit & 7))
        return bytes(out)
    bpp = max(1, ch * depth // 8)
    passes = [(0, 0, 1, 1)]
    if interlace:
        passes = [(0, 0, 8, 8), (4, 0, 8, 8), (0, 4, 4, 8), (2, 0, 4, 4), (0, 2, 2, 4), (1, 0, 2, 2), (0, 1, 1, 2)]
    raw = b""
    mode = rnd.choice([0, 1, 2, 3, 4, "mix", "mix"])
    for x0, y0, dx, dy in passes:
        pw, ph = (w - x0 + dx - 1) // dx, (h - y0 + dy - 1) // dy
        if pw <= 0 or ph <= 0:
            continue
        if not interlace and depth == 8:
            data, stride = bytes(px), w * ch
        else:
            rows = []
            for y in range(y0, h, dy):
                r = []
                for x in range(x0, w, dx):
                    r += px[(y * w + x) * ch:(y * w + x) * ch + ch]
                rows.append(pack(r))
            stride = len(rows[0])
            data = b"".join(rows)
        raw += _filter(data, ph, stride, bpp, [rnd.randrange(5) if mode == "mix" else mode for _ in range(ph)])
    z = zlib.compress(raw, rnd.choice([0, 1, 6, 9]))
    out = b"\x89PNG\r\n\x1a\n" + png_chunk(b"IHDR", struct.pack(">IIBBBBB", w, h, depth, ctype, 0, 0, 1 if interlace else 0))
    if extra and rnd.random() < .2:
        out += png_chunk(b"tEXt", b"Comment\0" + rnd.randbytes(rnd.randrange(40)).replace(b"\0", b" "))
    if plte:
        out += png_chunk(b"PLTE", plte)
    if trns:
        out += png_chunk(b"tRNS", trns)
    cut = rnd.choice([len(z), len(z), max(1, len(z) // 3), 7]) if extra else len(z)
    for i in range(0, len(z), cut):
        out += png_chunk(b"IDAT", z[i:i + cut])
    return out + png_chunk(b"IEND", b"")


def read_png(b):
    """Strict: returns (w, h, rgba); the whole file must be one complete 8 bit PNG."""
    if b[:8] != b"\x89PNG\r\n\x1a\n":
        raise BadImage("no PNG signature")
    p, z, ihdr, end = 8, b"", None, False
    while p < len(b):
        if end:
            raise BadImage("data after the end of the PNG")
        if p + 12 > len(b):
            raise BadImage("cut off PNG chunk")
        n, = struct.unpack(">I", b[p:p + 4])
        t, d = b[p + 4:p + 8], b[p + 8:p + 8 + n]
        if p + 12 + n > len(b):
            raise BadImage("cut off PNG chunk")
        if struct.unpack(">I", b[p + 8 + n:p + 12 + n])[0] != zlib.crc32(t + d):
            raise BadImage("PNG checksum")
        if t == b"IHDR":
            ihdr = struct.unpack(">IIBBBBB", d)
        elif t == b"IDAT":
            z += d
        elif t == b"IEND":
            end = True
        p += 12 + n
    if not end or not ihdr:
        raise BadImage("incomplete PNG")
    w, h, depth, ct, _, _, il = ihdr
    if depth != 8 or ct not in (0, 2, 4, 6) or il:
        raise BadImage("unexpected PNG kind %d/%d/%d" % (depth, ct, il))
    ch = {0: 1, 2: 3, 4: 2, 6: 4}[ct]
    try:
        o = zlib.decompressobj()
        raw = o.decompress(z)
    except zlib.error as e:
        raise BadImage("PNG data: %s" % e)
    if not o.eof:
        raise BadImage("PNG data are cut off")
    if len(raw) != h * (w * ch + 1):
        raise BadImage("PNG data have the wrong length")
    out = C.create_string_buffer(max(1, h * w * ch))
    if not _ref.ref_unfilter(raw, C.c_long(h), C.c_long(w * ch), ch, out):
        raise BadImage("PNG filter")
    px = out.raw[:h * w * ch]
    if ch == 4:
        return w, h, px
    r = bytearray(w * h * 4)
    if ch == 3:
        r[0::4], r[1::4], r[2::4], r[3::4] = px[0::3], px[1::3], px[2::3], b"\xff" * (w * h)
    elif ch == 1:
        r[0::4] = r[1::4] = r[2::4] = px
        r[3::4] = b"\xff" * (w * h)
    else:
        r[0::4] = r[1::4] = r[2::4] = px[0::2]
        r[3::4] = px[1::2]
    return w, h, bytes(r)


def decode_any(b):
    """Through the repository's own decoder."""
    w, h = C.c_int(), C.c_int()
    _ref.ref_decode.restype = C.c_void_p
    p = _ref.ref_decode(b, len(b), C.byref(w), C.byref(h))
    if not p:
        return None
    r = C.string_at(p, w.value * h.value * 4)
    _ref.ref_free(C.c_void_p(p))
    return w.value, h.value, r


# ---- test images ------------------------------------------------------------------
def pixels(rnd, w, h, kind=None):
    """RGBA bytes of a test image."""
    n = w * h
    kind = kind or rnd.choice(["noise", "noise", "flat", "grad", "levels", "levels", "doc", "frame", "frame", "bin", "opaque", "alpha"])
    b = bytearray(n * 4)
    if kind in ("noise", "opaque"):
        b[:] = rnd.randbytes(n * 4)
        if kind == "opaque":
            b[3::4] = b"\xff" * n
    elif kind == "flat":
        b[:] = rnd.randbytes(4) * n
    elif kind == "alpha":
        b[:] = rnd.randbytes(4) * n
        b[3::4] = rnd.randbytes(n)
    elif kind == "levels":
        pal = [rnd.randbytes(4) for _ in range(rnd.choice([2, 3, 5]))]
        b[:] = b"".join(rnd.choices(pal, k=n))
    elif kind == "bin":
        pal = [b"\0\0\0\xff", b"\xff\xff\xff\xff"]
        b[:] = b"".join(rnd.choices(pal, weights=[rnd.random() + .05, rnd.random() + .05], k=n))
    elif kind == "grad":
        fx, fy, o = rnd.uniform(-6, 6), rnd.uniform(-6, 6), rnd.randrange(256)
        for y in range(h):
            for x in range(w):
                v = int(o + fx * x + fy * y) % 256
                i = (y * w + x) * 4
                b[i:i + 4] = bytes((v, 255 - v, (v * 3) % 256, 255))
    elif kind == "frame":
        base = rnd.randbytes(3) + b"\xff"
        b[:] = base * n
        x0, y0 = rnd.randrange(0, max(1, w // 2)), rnd.randrange(0, max(1, h // 2))
        x1, y1 = rnd.randrange(x0, w) + 1, rnd.randrange(y0, h) + 1
        for y in range(y0, y1):
            for x in range(x0, x1):
                i = (y * w + x) * 4
                b[i:i + 4] = rnd.randbytes(3) + b"\xff"
        if rnd.random() < .5:      # slight variation in the frame, for thresholds
            for _ in range(n // 3 + 1):
                i = rnd.randrange(n) * 4 + rnd.randrange(3)
                b[i] = max(0, min(255, b[i] + rnd.randint(-4, 4)))
    else:
        bg, fg = rnd.randrange(0, 90), rnd.randrange(150, 256)
        cx, cy = w / 2, h / 2
        a, bb = w * rnd.uniform(.25, .42), h * rnd.uniform(.25, .42)
        sh = rnd.uniform(-.2, .2)
        for y in range(h):
            for x in range(w):
                dx, dy = x - cx + sh * (y - cy), y - cy - sh * (x - cx)
                v = fg if abs(dx) < a and abs(dy) < bb else bg
                v = max(0, min(255, v + rnd.randint(-3, 3)))
                i = (y * w + x) * 4
                b[i:i + 4] = bytes((v, v, v, 255))
    return bytes(b)


def input_file(rnd, w, h, kind=None, fmt=None):
    """(file bytes, RGBA they stand for, description)"""
    n = w * h
    px = pixels(rnd, w, h, kind)
    fmt = fmt or rnd.choice(["rgba"] * 6 + ["rgb", "rgb", "gray", "ga", "pal", "palt", "low", "rgba16", "rgb16", "ppm", "pgm", "rgbai", "rgbi", "keyed", "bmp", "tga"])
    r = bytearray(n * 4)
    if fmt == "rgba":
        return png_bytes(w, h, px, 6, rnd), px, fmt
    if fmt == "rgbai":
        return png_bytes(w, h, px, 6, rnd, interlace=True), px, fmt
    rgb = bytearray(n * 3)
    rgb[0::3], rgb[1::3], rgb[2::3] = px[0::4], px[1::4], px[2::4]
    r[:] = px
    r[3::4] = b"\xff" * n
    if fmt in ("rgb", "rgbi"):
        return png_bytes(w, h, bytes(rgb), 2, rnd, interlace=fmt == "rgbi"), bytes(r), fmt
    if fmt == "rgba16":
        v = [(b << 8) | rnd.randrange(256) for b in px]
        return png_bytes(w, h, v, 6, rnd, depth=16), px, fmt
    if fmt == "rgb16":
        v = [(b << 8) | rnd.randrange(256) for b in rgb]
        return png_bytes(w, h, v, 2, rnd, depth=16), bytes(r), fmt
    if fmt == "keyed":
        k = rnd.randrange(n)
        key = bytes(rgb[3 * k:3 * k + 3])
        for i in range(n):
            if rgb[3 * i:3 * i + 3] == key:
                r[4 * i + 3] = 0
        return png_bytes(w, h, bytes(rgb), 2, rnd, trns=b"".join(b"\0" + bytes([c]) for c in key)), bytes(r), fmt
    if fmt in ("gray", "pgm", "ga", "low"):
        g = px[0::4]
        if fmt == "low":
            d = rnd.choice([1, 2, 4])
            s = [v >> (8 - d) for v in g]
            g = bytes(v * 255 // ((1 << d) - 1) for v in s)
        r[0::4] = r[1::4] = r[2::4] = g
        if fmt == "low":
            return png_bytes(w, h, s, 0, rnd, depth=d), bytes(r), fmt
        if fmt == "gray":
            return png_bytes(w, h, g, 0, rnd), bytes(r), fmt
        if fmt == "pgm":
            return b"P5\n%d %d\n255\n" % (w, h) + g, bytes(r), fmt
        r[3::4] = px[3::4]
        ga = bytearray(2 * n)
        ga[0::2], ga[1::2] = g, px[3::4]
        return png_bytes(w, h, bytes(ga), 4, rnd), bytes(r), fmt
    if fmt in ("pal", "palt"):
        cols = [rnd.randbytes(3) for _ in range(rnd.choice([1, 2, 7, 16, 200, 256]))]
        al = rnd.randbytes(rnd.randint(1, len(cols))) if fmt == "palt" else b""
        idx = bytes(rnd.randrange(len(cols)) for _ in range(n))
        for i, k in enumerate(idx):
            r[4 * i:4 * i + 3] = cols[k]
            r[4 * i + 3] = al[k] if k < len(al) else 255
        return png_bytes(w, h, idx, 3, rnd, plte=b"".join(cols), trns=al), bytes(r), fmt
    if fmt == "ppm":
        return b"P6\n%d %d\n255\n" % (w, h) + bytes(rgb), bytes(r), fmt
    if fmt == "bmp":
        pad = (-3 * w) % 4
        rows = b""
        for y in range(h - 1, -1, -1):
            row = bytearray(rgb[3 * w * y:3 * w * (y + 1)])
            row[0::3], row[2::3] = row[2::3], row[0::3]
            rows += bytes(row) + b"\0" * pad
        return (b"BM" + struct.pack("<IHHI", 54 + len(rows), 0, 0, 54) + struct.pack("<IiiHHIIiiII", 40, w, h, 1, 24, 0, len(rows), 2835, 2835, 0, 0) + rows,
                bytes(r), fmt)
    if fmt == "tga":
        b = bytearray(px)
        b[0::4], b[2::4] = px[2::4], px[0::4]
        return struct.pack("<BBBHHBHHHHBB", 0, 0, 2, 0, 0, 0, 0, 0, w, h, 32, 0x28) + bytes(b), px, fmt
    raise KeyError(fmt)
