"""P33: a DMAR table is parsed into exactly its structures, device scopes and paths, or refused."""

import itertools
import os
import re
import struct
import xml.etree.ElementTree as ET

from lib.mc import Suite
from lib.sizes import counts

HEAD = [b"DMAR", 0, 1, 0x5A, b"OEMIDX", b"TABLEIDX", 0x12345678, b"CRTR", 0x20210101, 0x26, 0x05]
HNAMES = ["Signature", "Length", "Revision", "Checksum", "OEMID", "OEMTableID", "OEMRevision", "CreatorID", "CreatorRevision", "HostAddressWidth", "Flags"]
SCOPE_TYPES = {1: "PCI Endpoint Device", 2: "PCI Sub-hierarchy", 3: "IOAPIC", 4: "MSI_CAPABLE_HPET", 5: "ACPI_NAMESPACE_DEVICE"}
KINDS = {
    0: ("DRHD", 16, "<HHBBHQ", ["Type", "Length", "Flags", "Reserved", "SegmentNumber", "RegisterBaseAddress"]),
    1: ("RMRR", 24, "<HHHHQQ", ["Type", "Length", "Reserved", "SegmentNumber", "ReservedMemoryBaseAddress", "ReservedMemoryRegionLimitAddress"]),
    2: ("ATSR", 8, "<HHBBH", ["Type", "Length", "Flags", "Reserved", "SegmentNumber"]),
    3: ("RHSA", 20, "<HHIQI", ["Type", "Length", "Reserved", "RegisterBaseAddress", "ProximityDomain"]),
    4: ("ANDD", 8, None, ["Type", "Length", "Reserved", "ACPIDeviceNumber", "ACPIObjectName"]),
}


class Bad(Exception):
    pass


# -- an independent writer and reader ------------------------------------------------------------------------------


def scope(ty, res, eid, bus, path):
    return struct.pack("<BBHBB", ty, 6 + 2 * len(path), res, eid, bus) + b"".join(bytes(p) for p in path)


def build(kind, values, scopes=()):
    d = b"".join(scope(*s) for s in scopes)
    name, size, fmt, _ = KINDS[kind]
    if kind == 4:
        res, dev, obj = values
        return struct.pack("<HH", 4, 8 + len(obj)) + res.to_bytes(3, "little") + bytes([dev]) + obj
    return struct.pack(fmt, kind, size + len(d), *values) + d


def table(structs, head=None):
    h = list(head or HEAD)
    body = b"".join(structs)
    h[1] = 48 + len(body)
    return struct.pack("<4sIBB6s8sI4sIBB", *h) + bytes(10) + body


def read(b):
    if len(b) < 48:
        raise Bad()
    head = struct.unpack("<4sIBB6s8sI4sIBB", b[:38])
    out, at = [], 48
    while at < len(b):
        if len(b) - at < 4:
            raise Bad()
        ty, n = struct.unpack("<HH", b[at:at + 4])
        if ty > 4:
            raise Bad()
        name, size, fmt, _ = KINDS[ty]
        if n < size or at + n > len(b):
            raise Bad()
        s = b[at:at + n]
        at += n
        if ty == 4:
            out.append((4, (4, n, int.from_bytes(s[4:7], "little"), s[7], s[8:]), None))
            continue
        vals = struct.unpack(fmt, s[:size])
        if ty == 3:
            out.append((3, vals, None))
            continue
        scopes, i = [], size
        while i < n:
            if n - i < 6:
                raise Bad()
            t, sn, res, eid, bus = struct.unpack("<BBHBB", s[i:i + 6])
            if not 1 <= t <= 5 or sn < 6 or sn % 2 or i + sn > n:
                raise Bad()
            scopes.append((t, sn, res, eid, bus, tuple((s[k], s[k + 1]) for k in range(i + 6, i + sn, 2))))
            i += sn
        out.append((ty, vals, scopes))
    return head, out


def scope_path(s):
    return "%02d:" % s[4] + ":".join("%02d.%d" % p for p in s[5])


def path(scopes):
    return ", ".join(scope_path(s) for s in scopes)


# -- observations --------------------------------------------------------------------------------------------------


def one(v):
    return v[0] if isinstance(v, tuple) else v


def norm(tag):
    return re.sub("[^a-z0-9]", "", tag.lower())


def num(s):
    return int(s, 16)


def text_of(el, name, want, ctx):
    v = el.get(name)
    ctx.true(v is not None, f"{el.tag} has no {name}")
    if isinstance(want, bytes):
        ctx.true(v in (str(want), want.decode("latin-1")), f"{el.tag} {name}: {v!r} instead of {want!r}")
    else:
        ctx.eq(num(v), want, f"{el.tag} {name}")


def observe(t, want, ctx, xml=True):
    head, structs = want
    h = t.dmar_table
    for n, v in zip(HNAMES, head):
        ctx.eq(getattr(h, n), v, f"header {n}")
    ctx.eq(t.DMARBitEnabled(), bool(head[10] & 4), "DMAR bit")
    ctx.eq(t.ANDDCount(), sum(k == 4 for k, *_ in structs), "number of ANDDs")
    ctx.eq(len(h.SubStructs), len(structs), "number of structures")
    ctx.eq([r.getPath() for r in h.RMRRlist], [path(s) for k, _, s in structs if k == 1], "RMRR paths")
    numbers = [v for v in head if isinstance(v, int)]
    for (k, vals, scopes), s in zip(structs, h.SubStructs):
        name, _, _, fields = KINDS[k]
        for f, v in zip(fields, vals):
            ctx.eq(getattr(s, f), v, f"{name} {f}")
        numbers += [v for v in vals if isinstance(v, int)]
        if scopes is None:
            continue
        ctx.eq(len(s.DeviceScope), len(scopes), f"{name} device scopes")
        for w, d in zip(scopes, s.DeviceScope):
            ctx.eq((d.Type, d.Length, d.Reserved, d.EnumerationID, d.StartBusNumber), w[:5], f"{name} device scope")
            ctx.eq([(one(p[0]), one(p[1])) for p in d.Path], list(w[5]), f"{name} device scope path")
            ctx.eq(d.TypeString, SCOPE_TYPES[w[0]], "device scope type")
            ctx.eq(d.getPath(), scope_path(w), "device scope path text")
            numbers += w[:5]
    text = str(t)
    ctx.eq([num(x) for x in re.findall(r":\s*0x([0-9A-Fa-f]+)\s*$", text, re.M)], numbers, "numbers in the text")
    ctx.eq([x for x in re.findall(r"Path\s*: (.*)$", text, re.M)], [scope_path(w) for _, _, sc in structs for w in sc or ()], "paths in the text")
    if not xml:
        return
    try:
        root = ET.fromstring(ET.tostring(t.toXml()))
    except ET.ParseError as e:
        ctx.fail(f"the XML is not well-formed: {e}")
    ctx.eq(norm(root.tag), "dmartable", "root of the XML")
    ctx.eq(len(root), 1 + len(structs), "elements in the XML")
    for n, v in zip(HNAMES, head):
        text_of(root[0], n, v, ctx)
    for (k, vals, scopes), el in zip(structs, root[1:]):
        name, _, _, fields = KINDS[k]
        ctx.true(norm(el.tag) in (name.lower(), "astr" if k == 2 else ""), f"{name} is called {el.tag} in the XML")
        for f, v in zip(fields, vals):
            text_of(el, f, v, ctx)
        ctx.eq([norm(x.tag) for x in el], [norm(SCOPE_TYPES[w[0]]) for w in scopes or ()], f"{name} device scopes in the XML")
        for w, x in zip(scopes or (), el):
            for f, v in zip(("Type", "Length", "Reserved", "EnumerationID", "StartBusNumber"), w[:5]):
                text_of(x, f, v, ctx)


def parse(b):
    from edk2toollib.acpi.dmar_parser import DMARTable

    return DMARTable(b)


def judge(b, ctx, xml=True):
    try:
        want = read(b)
    except Bad:
        want = None
    try:
        t = parse(b)
    except MemoryError:
        ctx.fail("the parser takes all memory")
    except (Exception, SystemExit) as e:
        if type(e).__name__ == "CaseTimeout":
            raise
        ctx.true(want is None, f"a table was refused: {type(e).__name__} {e}")
        return
    ctx.true(want is not None, "a malformed table was accepted")
    observe(t, want, ctx, xml)


# -- suites --------------------------------------------------------------------------------------------------------

S1 = (1, 0, 0, 0, [(0x1F, 2)])
S2 = (2, 0x1234, 0, 0xFF, [(1, 0), (0, 7)])
S3 = (3, 0, 2, 0xF0, [(0xFF, 0xFF)])
S4 = (4, 0xFFFF, 3, 0, [(0, 0), (2, 3), (4, 5)])
S5 = (5, 0, 0xFF, 1, [])
STRUCTS = [
    build(0, (1, 0, 0, 0xFED90000), ()),
    build(0, (0, 0xA5, 0xFFFF, 0xFFFFFFFFFFFFFFFF), (S1, S3, S4)),
    build(1, (0, 0, 0x3E2E000, 0x3E4DFFF), (S1,)),
    build(1, (0xFFFF, 7, 0, 0xFFFFFFFFFFFFFFFF), (S2, S5)),
    build(1, (0, 0, 0, 0), ()),
    build(2, (1, 0, 3), ()),
    build(2, (0, 0xFF, 0), (S2, S2)),
    build(3, (0, 0xFED91000, 1)),
    build(3, (0xFFFFFFFF, 0, 0xFFFFFFFF)),
    build(4, (0, 1, b"\\_SB.PCI0.I2C0\0")),
    build(4, (0x010203, 0xFF, b"")),
    build(4, (0xFFFFFF, 0, b"<&\">\xff\x01")),
]


def gen_tables(tier):
    for k in range(0, 4 if tier == "quick" else 5):
        for c in itertools.product(range(len(STRUCTS)), repeat=k):
            yield list(c)


def run_tables(case, ctx):
    judge(table([STRUCTS[i] for i in case]), ctx)
    ctx.state(case)


def gen_fields(tier):
    for i in (1, 2, 3, 6, 8, 9, 10):
        width = {1: 4, 2: 1, 3: 1, 6: 4, 8: 4, 9: 1, 10: 1}[i]
        for v in range(256) if width == 1 else sorted({0, 1, 255, 256, 2 ** 31, 2 ** 32 - 1} | {1 << k for k in range(32)}):
            yield ["head", i, v]
    for s in ("", "a", "<&>", "\xff\x00\x01", "  "):
        yield ["text", s]
    for kind, (name, size, fmt, fields) in KINDS.items():
        for at in range(4, size):
            for v in range(256):
                yield ["byte", kind, at, v]
    for at in range(6):
        for v in range(256):
            yield ["scope", at, v]


def run_fields(case, ctx):
    what, *rest = case
    st = [STRUCTS[1], STRUCTS[3], STRUCTS[6], STRUCTS[8], STRUCTS[9]]
    if what == "head":
        b = bytearray(table(st))
        i, v = rest
        at, n = {1: (4, 4), 2: (8, 1), 3: (9, 1), 6: (24, 4), 8: (32, 4), 9: (36, 1), 10: (37, 1)}[i]
        b[at:at + n] = v.to_bytes(n, "little")
        b = bytes(b)
    elif what == "text":
        h = list(HEAD)
        d = rest[0].encode("latin-1")
        h[0], h[4], h[5], h[7] = (d + bytes(8))[:4], (d + bytes(8))[:6], (d + bytes(8))[:8], (d + b"    ")[:4]
        b = table(st, h)
    elif what == "byte":
        kind, at, v = rest
        s = bytearray(st[kind])
        s[at] = v
        st[kind] = bytes(s)
        b = table(st)
    else:
        at, v = rest
        s = bytearray(scope(*S4))
        s[at] = v
        b = table([st[0], struct.pack("<HHHHQQ", 1, 24 + len(s), 0, 0, 1, 2) + bytes(s), st[2]])
    judge(b, ctx)
    ctx.state(case)


def gen_paths(tier):
    vals = (0, 1, 9, 10, 0x1F, 99, 100, 255)
    for bus in vals:
        for p in itertools.product(vals, repeat=2):
            yield [[[1, bus, [p]]]]
            yield [[[2, bus, [[0, 0], p, [31, 7]]], [1, 1, [[2, 3]]]]]
    for n in range(0, 125):
        yield [[[1, 0, [[i & 31, i & 7] for i in range(n)]]]]
    for k in range(0, 6 if tier == "quick" else 9):
        for c in itertools.product((1, 2), repeat=k):
            yield [[[t, i, [[i, t]] * t] for i, t in enumerate(c)]]


def run_paths(case, ctx):
    for kind, vals in ((0, (0, 0, 0, 0)), (1, (0, 0, 0, 0)), (2, (0, 0, 0))):
        b = table([build(kind, vals, [(t, 0, 0, bus, [tuple(x) for x in p]) for t, bus, p in case[0]]), STRUCTS[2]])
        judge(b, ctx, len(case[0]) < 4)
    ctx.state(case)



def gen_golden(tier):
    rm = range(4)
    for k in range(0, 4 if tier == "quick" else 5):
        for c in itertools.product(rm, repeat=k):
            for g in range(16):
                yield [list(c), g]
            yield [list(c), None]
            yield [list(c), "missing"]


RM = [STRUCTS[2], STRUCTS[3], build(1, (0, 1, 0, 0), (S1, S1)), build(1, (0, 0, 5, 6), ((1, 0, 0, 10, [(10, 1)]),))]


def run_golden(case, ctx):
    """CheckRMRRCount holds if and only if the paths of all RMRRs are in the golden file"""
    c, g = case
    paths = [path(read(table([s]))[1][0][2]) for s in RM]
    t = parse(table([STRUCTS[1], *[RM[i] for i in c], STRUCTS[9]]))
    if g is None:
        got, known = t.CheckRMRRCount(), []
    elif g == "missing":
        got, known = t.CheckRMRRCount(os.path.join(ctx.tmp(), "none.xml")), []
    else:
        known = [p for i, p in enumerate(paths) if g >> i & 1]
        f = os.path.join(ctx.tmp(), "golden.xml")
        root = ET.Element("RMRRs")
        for p in [*known, "99:99.9"]:
            e = ET.SubElement(root, "RMRR")
            ET.SubElement(e, "Name").text = "x"
            ET.SubElement(e, "Path").text = p
        ET.ElementTree(root).write(f)
        got = t.CheckRMRRCount(f)
    ctx.eq(bool(got), all(paths[i] in known for i in c), "all RMRRs are known")
    ctx.state(case)


BASES = [
    table([STRUCTS[1], STRUCTS[2]]),
    table([STRUCTS[6], STRUCTS[9], STRUCTS[3]]),
    table([STRUCTS[8], STRUCTS[0], STRUCTS[10]]),
]


def gen_bad(tier):
    for i, b in enumerate(BASES):
        for at in range(48, len(b)):
            for v in range(256):
                yield [i, "byte", at, v]
        for n in list(range(0, 38)) + list(range(48, len(b))):
            yield [i, "cut", n, 0]
        for at in range(48, len(b) + 1):
            for n in (1, 2, 3, 4, 6, 8, 16):
                for v in (0, 1, 4, 8, 255):
                    yield [i, "insert", at, [n, v]]
            for n in (1, 2, 4, 6):
                yield [i, "remove", at, n]
    # every length of a structure and of a scope, with the data for it or without
    for kind in range(6):
        for n in list(range(0, 80)) + [0xFF, 0x100, 0x7FFF, 0x8000, 0xFFFF]:
            for have in (0, 4, 20, 40, 80):
                yield [kind, "length", n, have]
    for ty in range(8):
        for n in range(0, 40):
            for have in range(0, 20 if tier == "quick" else 40, 1):
                yield [ty, "scope", n, have]
    if tier != "quick":
        for i, b in enumerate(BASES):
            for at in range(48, len(b) - 1):
                for v in (0, 1, 2, 5, 6, 7, 8, 16, 24, 40, 255):
                    for w in range(256):
                        yield [i, "pair", at, [v, w]]


def run_bad(case, ctx):
    i, what, at, v = case
    if what == "length":
        body = bytes([1, 8, 0, 0, 0, 0, 1, 1]) * 20
        size = KINDS[i][1] if i in KINDS else 4
        s = struct.pack("<HH", i, at) + bytes(max(0, size - 4)) + body
        b = table([STRUCTS[2], s[:v]])
    elif what == "scope":
        s = (struct.pack("<BBHBB", i, at, 0, 0, 0) + bytes(range(40)))[:v]
        b = table([struct.pack("<HHBBH", 2, 8 + len(s), 0, 0, 0) + s, STRUCTS[2]])
    else:
        b = bytearray(BASES[i])
        if what == "byte":
            b[at] = v
        elif what == "cut":
            del b[at:]
        elif what == "insert":
            b[at:at] = bytes([v[1]]) * v[0]
        elif what == "pair":
            b[at:at + 2] = bytes(v)
        else:
            del b[at:at + v]
        b = bytes(b)
    judge(bytes(b), ctx)
    ctx.state(case)


# -- sizes: number of structures and scopes, length of paths and names -------------------------------------------


def gen_sizes(tier):
    for n in counts(tier, 300, 0):
        for what in ("structures", "scopes", "name"):
            yield [what, n]
    for n in (1000, 4095, 4096, 32767, 65527):
        yield ["name", n]


def run_sizes(case, ctx):
    what, n = case
    if what == "structures":
        parts = [STRUCTS[(i * 5) % len(STRUCTS)] for i in range(n)]
    elif what == "scopes":
        parts = [build(0, (0, 0, 0, 0), [(1 + i % 2, 0, 0, i & 255, [(i & 31, i & 7)] * (1 + i % 3)) for i in range(n)]), STRUCTS[2], build(1, (0, 0, 0, 0), [S1] * n)]
    else:
        parts = [build(4, (0, 1, (b"\\_SB.PCI0.I2C0" * (n // 14 + 1))[:n])), STRUCTS[2]]
    judge(table(parts), ctx, n < 70)
    ctx.state(tuple(case))


SUITES = [
    Suite("sizes", gen_sizes, run_sizes, "number of structures and scopes, length of names", "counts up to 24 and edges to 300, names to 65527 bytes"),
    Suite("tables", gen_tables, run_tables, "sequences of structures: fields, text, XML", {"quick": f"<=3 of {len(STRUCTS)}", "thorough": f"<=4 of {len(STRUCTS)}"}),
    Suite("fields", gen_fields, run_fields, "values of header, structure and device scope fields", "all values of every byte"),
    Suite("paths", gen_paths, run_paths, "device scope paths", {"quick": "boundary numbers, <=124 path entries, <=5 scopes", "thorough": "boundary numbers, <=124 path entries, <=8 scopes"}),
    Suite("golden", gen_golden, run_golden, "comparison of RMRRs with the golden file", {"quick": "<=3 RMRRs, all golden files of 4 paths", "thorough": "<=4 RMRRs, all golden files of 4 paths"}),
    Suite("malformed", gen_bad, run_bad, "changed bytes, cuts, insertions and removals, lengths of structures and scopes", {"quick": "all values of every byte in 3 tables, all lengths", "thorough": "also 11x256 values of byte pairs"}),
]
