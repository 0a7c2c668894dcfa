"""P35: bitmap files are read into exactly their headers, color maps and pixels and written back to the same bytes, or refused."""

import io
import itertools
import logging
import struct

from lib.mc import Suite

FIELDS = ["CharB", "CharM", "Size", "Rsvd16_1", "Rsvd16_2", "ImageOffset", "HeaderSize", "PixelWidth", "PixelHeight", "Planes", "BitPerPixel",
          "CompressionType", "ImageSize", "XPixelsPerMeter", "YPixelsPerMeter", "NumberOfColors", "ImportantColors"]
FMT = "<ccIHHIIIIHHIIIIII"
COLORS = {1: 2, 4: 16, 8: 256}


class Bad(Exception):
    pass


class Either(Exception):
    """not claimed either way, but what is accepted is written back as it was"""


def build(bpp=24, colors=0, maps=None, pad=0, pixels=12, header=40, w=2, h=2, size=None, off=None):
    if maps is None:
        maps = colors or COLORS.get(bpp, 0)
    m = b"".join(bytes([i & 255, i * 3 & 255, i * 7 & 255, i & 1]) for i in range(maps))
    p = bytes(i * 5 + 1 & 255 for i in range(pad))
    d = bytes(i * 11 + 3 & 255 for i in range(pixels))
    off = 54 + len(m) + len(p) if off is None else off
    size = 54 + len(m) + len(p) + len(d) if size is None else size
    return struct.pack(FMT, b"B", b"M", size, 0x1234, 0x5678, off, header, w, h, 1, bpp, 0, len(d), 2835, 2836, colors, 7) + m + p + d


def read(b):
    if len(b) < 54:
        raise Bad()
    f = dict(zip(FIELDS, struct.unpack(FMT, b[:54])))
    if f["Size"] != len(b) or f["ImageOffset"] > len(b) or f["HeaderSize"] > len(b):
        if f["ImageOffset"] < 54:
            raise Either()
        raise Bad()
    if f["ImageOffset"] < 54:
        raise Either()
    n, at = 0, 54
    if f["ImageOffset"] > 54 and f["BitPerPixel"] in COLORS:
        n = f["NumberOfColors"] or COLORS[f["BitPerPixel"]]
        if 54 + 4 * n > f["ImageOffset"]:
            raise Bad()
    maps = [tuple(b[i:i + 4]) for i in range(54, 54 + 4 * n, 4)]
    return f, maps, b[54 + 4 * n:f["ImageOffset"]], b[f["ImageOffset"]:]


def B():
    from edk2toollib.uefi.bmp_object import BmpObject

    return BmpObject


def written(o, before=b""):
    s = io.BytesIO(before)
    s.seek(0, 2)
    o.Write(s)
    return s.getvalue()


def observe(o, want, b, ctx):
    f, maps, pad, pix = want
    for k, v in f.items():
        ctx.eq(getattr(o, k), v, k)
    ctx.eq([(c.Blue, c.Green, c.Red, c.Reserved) for c in o.ColorMapList], maps, "color maps")
    ctx.true((o.ImageData or b"") == pix, "pixel data")
    ctx.true(written(o, b"abc") == b"abc" + b, "the written file differs from the one that was read")


def judge(b, ctx, used=None, at=0):
    try:
        want = read(b)
    except Bad:
        want = None
    except Either:
        want = 0
    s = io.BytesIO(bytes(range(at)) + b)
    s.seek(at)
    try:
        if used is None:
            o = B()(s)
        else:
            o = B()(io.BytesIO(used)) if used else B()()
            o.PopulateFromFileStream(s)
    except (Exception, SystemExit) as e:
        if type(e).__name__ == "CaseTimeout":
            raise
        ctx.true(not want, f"a bitmap was refused: {type(e).__name__} {e}")
        return None
    ctx.true(want is not None, "a malformed bitmap was accepted")
    if want:
        observe(o, want, b, ctx)
    else:
        ctx.true(written(o) == b, "the written file differs from the one that was read")
    return o


SHAPES = [
    dict(),
    dict(bpp=24, pad=2, pixels=0),
    dict(bpp=32, pad=84, header=124, pixels=16),
    dict(bpp=1, pixels=8),
    dict(bpp=1, pad=5, pixels=8, colors=2),
    dict(bpp=4, colors=3, pixels=6),
    dict(bpp=4, pad=1, pixels=1),
    dict(bpp=8, colors=0, pixels=300),
    dict(bpp=8, colors=20, maps=25, pixels=7),
    dict(bpp=16, colors=5, maps=5, pixels=9),
    dict(bpp=8, maps=0, pixels=7),
    dict(bpp=24, pixels=0),
]


def gen_shapes(tier):
    for bpp in (0, 1, 2, 4, 8, 16, 24, 32):
        for colors in (0, 1, 2, 3, 15, 16, 17, 255, 256, 257, 2 ** 32 - 1):
            for maps in sorted({0, 1, 2, 3, 15, 16, 17, 256, 257}):
                for pad in (0, 1, 2, 3, 4, 1000):
                    for pixels in (0, 1, 64) if tier == "quick" else (0, 1, 3, 64, 1000, 70000):
                        yield [dict(bpp=bpp, colors=colors, maps=maps, pad=pad, pixels=pixels)]


def run_shapes(case, ctx):
    b = build(**case[0])
    judge(b, ctx)
    ctx.state(case)


def gen_used(tier):
    for a in range(-1, len(SHAPES)):
        for b in range(len(SHAPES)):
            for at in (0, 1, 53):
                yield [a, b, at]


def run_used(case, ctx):
    a, b, at = case
    judge(build(**SHAPES[b]), ctx, used=b"" if a < 0 else build(**SHAPES[a]), at=at)
    ctx.state(case)


VALUES = {"c": [bytes([v]) for v in (0, 66, 77, 255)], "H": [0, 1, 255, 256, 0xFFFF], "I": [0, 1, 40, 255, 256, 65536, 0x7FFFFFFF, 0x80000000, 0xFFFFFFFF]}


def gen_edit(tier):
    kinds = dict(zip(FIELDS, FMT[1:]))
    for s in (-1, 0, 2, 4):
        for a, b in itertools.combinations(FIELDS, 2):
            for i in range(len(VALUES[kinds[a]])):
                for j in range(len(VALUES[kinds[b]])):
                    yield [s, a, i, b, j]


def run_edit(case, ctx):
    """changed fields, colors and pixels are written"""
    s, a, i, b, j = case
    kinds = dict(zip(FIELDS, FMT[1:]))
    if s < 0:
        o = B()()
        x = bytearray(written(o))
        ctx.eq(len(x), 54, "size of an empty bitmap")
        ctx.eq(struct.unpack(FMT, x)[2:7], (54, 0, 0, 54, 40), "headers of an empty bitmap")
        judge(bytes(x), ctx)
    else:
        x = bytearray(build(**SHAPES[s]))
        o = B()(io.BytesIO(bytes(x)))
    for name, k in ((a, i), (b, j)):
        v = VALUES[kinds[name]][k]
        setattr(o, name, v)
        at = struct.calcsize("<" + FMT[1:1 + FIELDS.index(name)])
        f = struct.pack("<" + kinds[name], v)
        x[at:at + len(f)] = f
    if o.ColorMapList:
        o.ColorMapList[1].Red = 0xAB
        x[54 + 4 + 2] = 0xAB
    if o.ImageData:
        o.ImageData = bytes(len(o.ImageData))
        x[len(x) - len(o.ImageData):] = o.ImageData
    ctx.true(written(o) == bytes(x), f"the written file does not have the changed fields {a} and {b}")
    ctx.state(case)


class Keep(logging.Handler):
    def __init__(self):
        super().__init__(0)
        self.lines = []

    def emit(self, r):
        self.lines.append(r.getMessage())


def gen_print(tier):
    for s in range(-1, len(SHAPES)):
        for image in (False, True):
            for colors in (False, True):
                yield [s, image, colors]


def run_print(case, ctx):
    s, image, colors = case
    o = B()() if s < 0 else B()(io.BytesIO(build(**SHAPES[s])))
    root, keep = logging.getLogger(), Keep()
    old = root.level, logging.root.manager.disable
    root.addHandler(keep)
    root.setLevel(1)
    logging.disable(0)
    try:
        o.Print(image, colors)
    finally:
        root.removeHandler(keep)
        root.setLevel(old[0])
        logging.disable(old[1])
    got = {}
    for line in keep.lines:
        k, _, v = line.partition(":")
        if v.strip():
            got.setdefault(k.strip(), []).append(v.split()[0])
    for f in FIELDS[2:3] + FIELDS[5:]:
        ctx.eq(int(got[f][0], 0), getattr(o, f), f"printed {f}")
    if colors:
        for c in ("Blue", "Green", "Red"):
            ctx.eq([int(x, 0) for x in got.get(c, [])], [getattr(m, c) for m in o.ColorMapList], f"printed {c}")
    else:
        ctx.true("Blue" not in got, "color maps were printed")
    data = [int(x, 16) for x in keep.lines if len(x) == 3 and x[0] == " "]
    pad = [] if s < 0 else list(read(build(**SHAPES[s]))[2])
    ctx.eq(data, pad + (list(o.ImageData or b"") if image else []), "printed data")
    ctx.state(case)


def gen_bad(tier):
    for i in range(len(SHAPES)):
        b = build(**SHAPES[i])
        for at in range(54):
            for v in range(256):
                yield [i, "byte", at, v]
        for n in range(min(len(b), 400)):
            yield [i, "cut", n, 0]
            yield [i, "cut and size", n, 0]
        for n in (1, 2, 10, 54, 100):
            yield [i, "longer", n, 0]
        for size in sorted({0, 1, 13, 14, 39, 40, 41, 53, 54, 55, len(b) - 1, len(b), len(b) + 1, len(b) + 14, 2 ** 31, 2 ** 32 - 1}):
            for off in sorted({0, 1, 14, 40, 53, 54, 55, 58, len(b) - 1, len(b), len(b) + 1, 2 ** 31, 2 ** 32 - 1}):
                for header in (0, 12, 40, 108, 124, len(b) - 14, len(b), len(b) + 1, 2 ** 32 - 1):
                    yield [i, "sizes", [size, off], header]
    if tier != "quick":
        for i in (0, 4, 8):
            for at in list(range(2, 6)) + list(range(10, 18)) + [28, 29, 46, 47]:
                for a2 in range(at + 1, 54):
                    for v in (0, 1, 54, 128, 255):
                        for w in (0, 1, 8, 54, 60, 127, 255):
                            yield [i, "pair", [at, v], [a2, w]]


def run_bad(case, ctx):
    i, what, at, v = case
    b = bytearray(build(**SHAPES[i]))
    if what == "byte":
        b[at] = v
    elif what == "cut":
        del b[at:]
    elif what == "cut and size":
        del b[at:]
        if len(b) >= 6:
            b[2:6] = struct.pack("<I", len(b))
    elif what == "longer":
        b += bytes(at)
    elif what == "sizes":
        b[2:6], b[10:14], b[14:18] = struct.pack("<I", at[0]), struct.pack("<I", at[1]), struct.pack("<I", v)
    else:
        b[at[0]], b[v[0]] = at[1], v[1]
    judge(bytes(b), ctx)
    ctx.state(case)


SUITES = [
    Suite("shapes", gen_shapes, run_shapes, "color depths, numbers of colors, padding and pixels", {"quick": "14256 shapes", "thorough": "28512 shapes"}),
    Suite("used objects", gen_used, run_used, "reading into used and empty objects, at any position of a stream", f"all pairs of {len(SHAPES)} bitmaps"),
    Suite("editing", gen_edit, run_edit, "changed fields, colors and pixels", "all pairs of fields with boundary values, 4 bitmaps"),
    Suite("printing", gen_print, run_print, "the printed fields, colors and data", f"{len(SHAPES) + 1} bitmaps, all options"),
    Suite("malformed", gen_bad, run_bad, "changed bytes, cuts, sizes and offsets", {"quick": "all values of every header byte, all cuts, 9x13x16 sizes", "thorough": "also 35 values of pairs of header bytes"}),
]
