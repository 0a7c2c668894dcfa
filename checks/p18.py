"""P18: hex dumps and C arrays show exactly the bytes given."""

import io
import itertools
import re

from lib.mc import Suite
from lib.sizes import counts

LENS_Q = list(range(0, 50)) + [63, 64, 65, 255, 256, 257, 300]


def data(n, k):
    base = [bytes(range(256)), bytes([0x41, 0x00, 0x7E, 0x7F, 0x20, 0x1F, 0x5C, 0xFF]), b"// \\ \"a\""][k]
    return (base * (n // len(base) + 1))[:n]


def shown(b):
    return "".join(chr(x) if 0x20 <= x <= 0x7E else "." for x in b)


def gen_dump(tier):
    lens = LENS_Q if tier == "quick" else range(0, 600)
    for n in lens:
        for k in range(3):
            for asc, off, sep in itertools.product((True, False), repeat=3):
                for start in (0, 0x10, 0xFF8, 7):
                    yield [n, k, asc, off, sep, start]
    for b in range(256):
        yield [-1, b, True, True, True, 0]


def run_dump(case, ctx):
    from edk2toollib.utility_functions import hexdump

    n, k, asc, off, sep, start = case
    d = bytes([k]) if n == -1 else data(n, k)
    o = io.StringIO()
    hexdump(d, start, o, include_ascii=asc, include_offset=off, include_hex_sep=sep)
    text = o.getvalue()
    if not d:
        ctx.eq(text.strip(), "", "dump of nothing")
        return
    ctx.true(text.endswith("\n"), "ends with a newline")
    lines = text[:-1].split("\n")
    ctx.eq(len(lines), (len(d) + 15) // 16, "number of lines")
    cols = {}
    for i, ln in enumerate(lines):
        chunk = d[i * 16:i * 16 + 16]
        rest = ln
        if off:
            m = re.match(r"(0x[0-9a-fA-F]+) -", rest)
            ctx.true(m is not None, f"offset in {ln!r}")
            ctx.eq(int(m.group(1), 16), start + i * 16, "offset")
            rest = rest[m.end():]
            width = len(m.group(1))
        else:
            width = 0
        for j, b in enumerate(chunk):
            if sep and j == 8:
                ctx.true(rest.startswith(" -"), f"separator in {ln!r}")
                rest = rest[2:]
            m = re.match(r" 0x([0-9a-fA-F]{2})", rest)
            ctx.true(m is not None, f"byte {j} in {ln!r}")
            ctx.eq(int(m.group(1), 16), b, "byte")
            rest = rest[m.end():]
        if asc:
            ctx.eq(rest.strip() if shown(chunk).strip() == shown(chunk) else rest[-len(shown(chunk)) - 1:-1], shown(chunk)
                   if shown(chunk).strip() != shown(chunk) else shown(chunk).strip(), "ascii column")
            pos = len(ln) - 1 - len(chunk)
            ctx.eq(cols.setdefault(width, pos), pos, f"column of the ascii text in {lines!r}")
        else:
            ctx.eq(rest.strip(), "", "nothing after the bytes")
    ctx.state((n, k, asc, off, sep, start))


def gen_carr(tier):
    for n in range(0, 40 if tier == "quick" else 120):
        for k in range(3):
            for row in (1, 2, 7, 8, 16, 17):
                for asc, ln in itertools.product((True, False), repeat=2):
                    for lv in (None, "gLen"):
                        for skip in (0, 3):
                            if skip and n < 4:
                                continue
                            yield [n, k, row, asc, ln, lv, skip]


def run_carr(case, ctx):
    from edk2toollib.utility_functions import export_c_type_array

    n, k, row, asc, ln, lv, skip = case
    d = data(n, k)
    src = io.BytesIO(d)
    src.seek(skip)
    d = d[skip:]
    o = io.StringIO()
    try:
        export_c_type_array(src, "gVar", o, bytes_per_row=row, include_ascii=asc, include_length=ln, length_variable_name=lv)
    except ValueError:
        ctx.eq(len(d), 0, "refused")
        return
    ctx.true(len(d) > 0, "an empty file was accepted")
    text = o.getvalue()
    ctx.true("\\\n" not in text, "a comment continues on the next line")
    code = re.sub(r"//[^\n]*", "", text)
    m = re.fullmatch(r"\s*UINT8\s+gVar\s*\[(\d*)\]\s*=\s*\{(.*?)\}\s*;\s*(.*)", code, re.S)
    ctx.true(m is not None, f"not a C array: {text!r}")
    ctx.eq(m.group(1), str(len(d)) if ln else "", "length")
    body = [x for x in m.group(2).replace("\n", " ").split(",")]
    ctx.eq(bytes(int(x, 16) for x in body), d, "bytes")
    tail = re.sub(r"\s+", " ", m.group(3)).strip()
    ctx.eq(tail, "UINTN gLen = sizeof gVar;" if lv else "", "length variable")
    rows = [x for x in text.split("{", 1)[1].rsplit("};", 1)[0].split("\n") if x.strip()]
    ctx.eq(len(rows), (len(d) + row - 1) // row, "rows")
    for i, r in enumerate(rows):
        chunk = d[i * row:i * row + row]
        ctx.eq(bytes(int(x, 16) for x in re.findall(r"0x[0-9a-fA-F]{2}", r.split("//")[0])), chunk, "bytes of the row")
        if asc:
            ctx.true("// " in r, "comment")
            ctx.eq(r.split("// ", 1)[1][:len(chunk)], shown(chunk), "comment of the row")
        else:
            ctx.true("//" not in r, "no comment wanted")
    ctx.state(repr(case))


# -- sizes: lengths and offsets that need more digits ---------------------------------------------------------


def gen_sizes(tier):
    for n in [*counts(tier, 1025 if tier == "quick" else 4097, 301), 4096, 4097, 65536 + 17]:
        for k in (0, 1) if n < 2000 else (0,):
            yield ["dump", [n, k, True, True, True, 0]]
            yield ["dump", [n, k, True, True, False, 0x10]]
            yield ["dump", [n, k, False, False, True, 0]]
            yield ["carr", [n, k, 16, True, True, "gLen", 0]]
            yield ["carr", [n, k, 10, False, False, None, 3]]
    for start in (0xFF, 0x100, 0xFFF, 0xFFFF, 0x10000, 0xFFFFF0, 0x7FFFFFF0, 0xFFFFFFF0, 0x100000000, 2**40, 2**63 - 16, 2**64 - 16, 2**70):
        for n in (1, 16, 17, 33):
            yield ["dump", [n, 0, True, True, True, start]]
    for row in [*counts(tier, 600, 1)]:
        yield ["carr", [300, 0, row, True, True, "gLen", 0]]


def run_sizes(case, ctx):
    (run_dump if case[0] == "dump" else run_carr)(case[1], ctx)


SUITES = [
    Suite("sizes", gen_sizes, run_sizes, "long data, large offsets, wide rows", "to 65537 bytes, offsets to 2^70, rows to 513"),
    Suite("hexdump", gen_dump, run_dump, "lengths x contents x options", {"quick": "57 lengths <=300", "thorough": "all lengths <600"}),
    Suite("carray", gen_carr, run_carr, "lengths x contents x row widths x options", {"quick": "<40 bytes", "thorough": "<120 bytes"}),
]
