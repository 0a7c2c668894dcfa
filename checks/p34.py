"""P34: an IVRS table is decoded into exactly its entries, encoded to the same bytes, kept consistent or refused."""

import contextlib
import io
import itertools
import re
import struct
import xml.etree.ElementTree as ET

from lib.mc import Suite
from lib.sizes import counts

HNAMES = ["Signature", "Length", "Revision", "Checksum", "OEMID", "OEMTableID", "OEMRevision", "CreatorID", "CreatorRevision", "IVinfo", "Reserved"]
HFMT = "<4sIBB6s8sI4sIIQ"
HEAD = [b"IVRS", 0, 2, 0, b"OEMIDX", b"TABLEIDX", 0x12345678, b"CRTR", 0x20210101, 0x203042, 0]
VNAMES = ["Type", "Flags", "Length", "DeviceID", "CapabilityOffset", "IOMMUBaseAddress", "SegmentGroup", "IOMMUInfo", "IOMMUFeatureInfo"]
VFMT = "<BBHHHQHHI"
MNAMES = ["Type", "Flags", "Length", "DeviceID", "AuxiliaryData", "Reserved", "IVMDStartAddress", "IVMDMemoryBlockLength"]
MFMT = "<BBHHHQQQ"
TAGS = {0: "reserved", 1: "all", 2: "select", 3: "range", 66: "aliasselect", 67: "aliasrange", 70: "extendedselect", 71: "extendedrange", 72: "specialdevice", 240: "variablelengthacpihiddevice"}


class Bad(Exception):
    pass


# -- an independent writer and reader ------------------------------------------------------------------------------


def seal(b):
    b = bytearray(b)
    b[9] = 0
    b[9] = -sum(b) & 0xFF
    return bytes(b)


def table(structs, head=None):
    h = list(head or HEAD)
    body = b"".join(structs)
    h[1] = 48 + len(body)
    return seal(struct.pack(HFMT, *h) + body)


def ivhd(ty, dtes, flags=0, dev=2, cap=0x40, base=0xFD200000, seg=0, info=0, feat=0, efr=0, res=0):
    d = b"".join(dtes)
    size = 24 if ty == 0x10 else 40
    return struct.pack(VFMT, ty, flags, size + len(d), dev, cap, base, seg, info, feat) + (b"" if ty == 0x10 else struct.pack("<QQ", efr, res)) + d


def ivmd(ty, flags=8, dev=0, aux=0, res=0, start=0x1000, length=0x2000):
    return struct.pack(MFMT, ty, flags, 32, dev, aux, res, start, length)


def acpi(hid, cid, uid, dev=0x10, setting=0x80):
    if uid is None:
        f, u = 0, b""
    elif isinstance(uid, int):
        f, u = 1, struct.pack("<Q", uid)
    else:
        f, u = 2, uid
    return struct.pack("<BHB8s8sBB", 240, dev, setting, hid, cid, f, len(u)) + u


def read_dte(s, i):
    """-> (fields, length, True if reserved bits are zero)"""
    if len(s) - i < 4:
        raise Bad()
    ty, dev, st = struct.unpack("<BHB", s[i:i + 4])
    n = {0: 4, 1: 4, 2: 4, 3: 8, 66: 8, 67: 12, 70: 8, 71: 12, 72: 8, 240: 22}.get(ty)
    if n is None or len(s) - i < n:
        raise Bad()
    d = dict(Type=ty, DeviceID=dev, DTESetting=st)
    e = s[i:i + n]
    zero = True
    if ty in (66, 67):
        a, d["SourceDeviceID"], b = struct.unpack("<BHB", e[4:8])
        zero = not a and not b
    if ty in (70, 71):
        (d["ExtendedDTESetting"],) = struct.unpack("<I", e[4:8])
    if ty == 72:
        d["Handle"], d["SourceDeviceID"], d["Variety"] = struct.unpack("<BHB", e[4:8])
    if ty in (3, 67, 71):
        a, d["EndDeviceID"], b = struct.unpack("<BHB", e[-4:])
        if a != 4:
            raise Bad()
        zero = zero and not b
    if ty == 240:
        d["HID"], d["CID"], d["UIDFormat"], k = struct.unpack("<8s8sBB", e[4:])
        d["UIDLength"] = k
        u = s[i + 22:i + 22 + k]
        if len(u) != k or d["UIDFormat"] > 2 or k != {0: 0, 1: 8}.get(d["UIDFormat"], k):
            raise Bad()
        d["UID"] = None if d["UIDFormat"] == 0 else struct.unpack("<Q", u)[0] if d["UIDFormat"] == 1 else u
        n += k
    return d, n, zero


def read_struct(s, at):
    if at >= len(s):
        raise Bad()
    ty = s[at]
    if ty in (0x20, 0x21, 0x22):
        if len(s) - at < 32:
            raise Bad()
        v = struct.unpack(MFMT, s[at:at + 32])
        if v[2] != 32:
            raise Bad()
        return ("IVMD", v, None, None), 32, True
    if ty not in (0x10, 0x11, 0x40):
        raise Bad()
    size = 24 if ty == 0x10 else 40
    if len(s) - at < size:
        raise Bad()
    v = struct.unpack(VFMT, s[at:at + 24])
    ex = None if ty == 0x10 else struct.unpack("<QQ", s[at + 24:at + 40])
    n = v[2]
    if n < size or at + n > len(s):
        raise Bad()
    i, out, zero = size, [], True
    sub = s[at:at + n]
    while i < n:
        d, k, z = read_dte(sub, i)
        out.append(d)
        i += k
        zero = zero and z
    return ("IVHD", v, ex, out), n, zero


def read(b):
    if len(b) < 48 or sum(b) & 0xFF:
        raise Bad()
    head = struct.unpack(HFMT, b[:48])
    if head[1] != len(b) or not head[9] & 0x1E:
        raise Bad()
    at, out, zero = 48, [], True
    while at < len(b):
        s, n, z = read_struct(b, at)
        out.append(s)
        at += n
        zero = zero and z
    return head, out, zero


# -- observations --------------------------------------------------------------------------------------------------


def norm(tag):
    return re.sub("[^a-z0-9]", "", tag.lower())


def attr(el, names, want, ctx):
    v = next((el.get(n) for n in names if el.get(n) is not None), None)
    ctx.true(v is not None, f"{el.tag} has no {names[0]}")
    if isinstance(want, bytes):
        ctx.true(v in (str(want), want.decode("latin-1")), f"{el.tag} {names[0]}: {v!r} instead of {want!r}")
    elif isinstance(want, str):
        ctx.eq(v, want, f"{el.tag} {names[0]}")
    else:
        ctx.eq(int(v, 16), want, f"{el.tag} {names[0]}")


def ascii_only(structs, head):
    t = [head[0], head[4], head[5], head[7]]
    for _, _, _, dtes in structs:
        for d in dtes or ():
            if d["Type"] == 240:
                t += [d["HID"], d["CID"]] + ([d["UID"]] if d["UIDFormat"] == 2 else [])
    return all(c < 128 and c not in (10, 11, 12, 13, 28, 29, 30) for x in t for c in x)


def observe_dte(o, d, ctx):
    for f, v in d.items():
        ctx.eq(getattr(o, f), v, f"device entry {d['Type']} {f}")


def observe_struct(o, s, ctx):
    kind, v, ex, dtes = s
    for f, x in zip(VNAMES if kind == "IVHD" else MNAMES, v):
        ctx.eq(getattr(o, f), x, f"{kind} {f}")
    if kind == "IVHD":
        if ex is not None:
            ctx.eq((o.IOMMUEFRImage, o.Reserved), ex, "IVHD EFR image and reserved field")
        ctx.eq(len(o.DeviceTableEntries), len(dtes), "number of device entries")
        for x, d in zip(o.DeviceTableEntries, dtes):
            observe_dte(x, d, ctx)


def ats(v):
    return "ATS requests blocked" if v & 0x80000000 else "ATS allowed"


def observe(t, want, ctx, prints=True):
    head, structs, zero = want
    h = t.acpi_header
    for n, v in zip(HNAMES, head):
        if n != "Checksum" or zero:
            ctx.eq(getattr(h, n), v, f"header {n}")
    ctx.eq(len(t.SubStructs), len(structs), "number of entries")
    for o, s in zip(t.SubStructs, structs):
        observe_struct(o, s, ctx)
    ctx.eq([id(x) for x in t.IVMD_list], [id(o) for o, s in zip(t.SubStructs, structs) if s[0] == "IVMD"], "list of IVMDs")
    if not any(s[1][0] == 0x20 for s in structs):
        ctx.eq(t.IVRSBitEnabled(), bool(head[9] & 2), "IVRS bit")
    if not prints:
        return
    try:
        root = ET.fromstring(ET.tostring(t.ToXmlElementTree()))
    except ET.ParseError as e:
        ctx.fail(f"the XML is not well-formed: {e}")
    ctx.eq(len(root), 1 + len(structs), "elements in the XML")
    for n, v in zip(HNAMES[:-1], head):
        if n != "Checksum" or zero:
            attr(root[0], [n], v, ctx)
    numbers = [head[i] for i in (1, 2, 3, 6, 8, 9)]
    words = []
    for (kind, v, ex, dtes), el in zip(structs, root[1:]):
        ctx.eq(norm(el.tag), kind.lower(), "element in the XML")
        numbers += v
        for f, x in zip(VNAMES if kind == "IVHD" else MNAMES, v):
            attr(el, ["EndofRange"] if f == "AuxiliaryData" and v[0] == 0x22 else [f, "IOMMU" + f], x, ctx)
        if ex is not None:
            attr(el, ["IOMMUEFRImage"], ex[0], ctx)
        ctx.eq([norm(x.tag) for x in el], [TAGS[d["Type"]] for d in dtes or ()], "device entries in the XML")
        for d, x in zip(dtes or (), el):
            ty = d["Type"]
            attr(x, ["Type"], ty, ctx)
            attr(x, ["DeviceID", "StartofRange"], d["DeviceID"], ctx)
            attr(x, ["DTESetting"], d["DTESetting"], ctx)
            numbers += [ty, d["DeviceID"]]
            if "EndDeviceID" in d:
                attr(x, ["EndofRange"], d["EndDeviceID"], ctx)
                numbers.append(d["EndDeviceID"])
            numbers.append(d["DTESetting"])
            if "SourceDeviceID" in d:
                attr(x, ["SourceDeviceID"], d["SourceDeviceID"], ctx)
                numbers.append(d["SourceDeviceID"])
            if "ExtendedDTESetting" in d:
                attr(x, ["ExtendedDTESetting"], ats(d["ExtendedDTESetting"]), ctx)
                words.append(ats(d["ExtendedDTESetting"]))
            if ty == 72:
                attr(x, ["Handle"], d["Handle"], ctx)
                numbers.append(d["Handle"])
                name = {1: "IOAPIC", 2: "HPET"}.get(d["Variety"])
                got = x.get("Variety")
                ctx.true(got == name if name else "IOAPIC" not in got and "HPET" not in got, f"variety {d['Variety']} is {got}")
                words += [name] if name else []
            if ty == 240:
                vals = list(x.attrib.values())
                for f in ("HID", "CID"):
                    ctx.true(str(d[f]) in vals or d[f].decode("latin-1") in vals, f"{f} is not in the XML")
                attr(x, ["UniqueIDFormat"], str(d["UIDFormat"]), ctx)
                attr(x, ["UniqueIDLength"], str(d["UIDLength"]), ctx)
                attr(x, ["UniqueID"], "None" if d["UID"] is None else d["UID"], ctx)
                if d["UIDFormat"] == 1:
                    numbers.append(d["UID"])
    if ascii_only(structs, head) and zero:
        out = io.StringIO()
        with contextlib.redirect_stdout(out):
            t.DumpInfo()
        text = out.getvalue()
        fixed = re.sub(r"^.*(ID +: [^0]|Unique ID +:(?! 0x)|OEM .*ID|Creator ID|Hardware ID|Compatible ID|Extended DTE).*$", "", text, flags=re.M)
        ctx.eq([int(x, 16) for x in re.findall(r":\s*0x([0-9A-Fa-f]+)\s*$", fixed, re.M)], numbers, "numbers printed")
        ctx.eq(re.findall(r": (ATS requests blocked|ATS allowed|IOAPIC|HPET)$", text, re.M), words, "settings printed")


def T():
    from edk2toollib.acpi.ivrs_parser import IVRS_TABLE

    return IVRS_TABLE


def judge(b, ctx, prints=True, used=None):
    try:
        want = read(b)
    except Bad:
        want = None
    t = T()() if used is None else T()(used)
    try:
        t.Decode(b)
    except MemoryError:
        ctx.fail("the parser takes all memory")
    except (Exception, SystemExit) as e:
        if type(e).__name__ == "CaseTimeout":
            raise
        ctx.true(want is None, f"a table was refused: {type(e).__name__} {e}")
        return
    ctx.true(want is not None, "a malformed table was accepted")
    observe(t, want, ctx, prints)
    e = bytes(t.Encode())
    if want[2]:
        ctx.eq(e, b, "encoded table")
    else:
        ctx.eq(len(e), len(b), "length of the encoded table")
        ctx.eq(sum(e) & 0xFF, 0, "checksum of the encoded table")


# -- suites --------------------------------------------------------------------------------------------------------

DTES = [
    struct.pack("<BHB", 0, 0, 0),
    struct.pack("<BHB", 1, 0, 0x97),
    struct.pack("<BHB", 2, 0x1234, 0xFF),
    struct.pack("<BHBBHB", 3, 0x0003, 1, 4, 0xFFFE, 0),
    struct.pack("<BHBBHB", 66, 0xFF00, 2, 0, 0xA5, 0),
    struct.pack("<BHBBHBBHB", 67, 0xFF00, 0x80, 0, 0xA500, 0, 4, 0xFFFF, 0),
    struct.pack("<BHBI", 70, 0x4321, 0, 0x80000000),
    struct.pack("<BHBIBHB", 71, 0x0008, 3, 0x7FFFFFFF, 4, 0x0FFF, 0),
    struct.pack("<BHBBHB", 72, 0, 0xD7, 0x21, 0xA0, 1),
    struct.pack("<BHBBHB", 72, 0, 0, 0xFF, 0x14, 2),
    acpi(b"AMDI0020", b"\0" * 8, b"\\_SB.FUR0"),
    acpi(b"AMDI0040", b"PNP0D40 ", 0x0123456789ABCDEF),
    acpi(b"ABCD0001", b"EFGH0002", None),
]
STRUCTS = [
    ivhd(0x10, [DTES[3], DTES[8]], flags=0xFF),
    ivhd(0x10, []),
    ivhd(0x11, [DTES[1], DTES[5]], seg=0xFFFF, info=0x1234, feat=0xFFFFFFFF, efr=0xFFFFFFFFFFFFFFFF),
    ivhd(0x40, [DTES[10], DTES[2], DTES[11]], base=0xFFFFFFFFFFFFFFFF, efr=0x58F77EF22294ADE, res=0xA5A5A5A5A5A5A5A5),
    ivhd(0x40, []),
    ivmd(0x20, 0xFF, start=0xFFFFFFFFFFFFF000, length=0xFFFFFFFFFFFFFFFF),
    ivmd(0x21, dev=0xFFFF, res=0xFFFFFFFFFFFFFFFF),
    ivmd(0x22, dev=0x10, aux=0xFFFF, length=0),
]


def gen_tables(tier):
    for k in range(0, 4 if tier == "quick" else 5):
        for c in itertools.product(range(len(STRUCTS)), repeat=k):
            yield [list(c), None]
    for k in range(0, 3):
        for c in itertools.product(range(len(STRUCTS)), repeat=k):
            for u in range(len(STRUCTS)):
                yield [list(c), [u, 6]]


def run_tables(case, ctx):
    c, u = case
    judge(table([STRUCTS[i] for i in c]), ctx, used=None if u is None else table([STRUCTS[i] for i in u]))
    ctx.state(case)


def gen_dtes(tier):
    for k in range(0, 4 if tier == "quick" else 5):
        for c in itertools.product(range(len(DTES)), repeat=k):
            yield [0x10, list(c)]
    for ty in (0x11, 0x40):
        for k in range(0, 3 if tier == "quick" else 4):
            for c in itertools.product(range(len(DTES)), repeat=k):
                yield [ty, list(c)]


def run_dtes(case, ctx):
    ty, c = case
    judge(table([ivhd(ty, [DTES[i] for i in c]), STRUCTS[6]]), ctx, len(c) < 4)
    # the IVHD on its own, in a used object, and its entries one after the other
    b = ivhd(ty, [DTES[i] for i in c])
    o = T().IVHD_STRUCT(STRUCTS[2])
    o.Decode(b)
    want = read_struct(b, 0)[0]
    observe_struct(o, want, ctx)
    ctx.eq(bytes(o.Encode()), b, "encoded IVHD")
    o = T().IVHD_STRUCT(ivhd(ty, []))
    for k, i in enumerate(c):
        e = T().DEVICE_TABLE_ENTRY.Factory(DTES[i] + b"more data")
        observe_dte(e, want[3][k], ctx)
        ctx.eq(bytes(e.Encode()), DTES[i], "encoded device entry")
        ctx.eq(e.Length, len(DTES[i]), "length of a device entry")
        o.addDTEEntry(e)
        ctx.eq(bytes(o.Encode()), ivhd(ty, [DTES[j] for j in c[:k + 1]]), "IVHD with an entry more")
    ctx.state(case)


def gen_acpi(tier):
    for f in range(0, 5):
        for n in range(0, 256):
            for have in (n, max(0, n - 1), n + 1, 8):
                yield [f, n, have]
    for f in (16, 128, 255):
        yield [f, 0, 0]


def run_acpi(case, ctx):
    f, n, have = case
    d = struct.pack("<BHB8s8sBB", 240, 1, 2, b"ABCD0001", b"EFGH0002", f, n) + (b"\\_SB.PCI0.DEV." * 20)[:have]
    for more in ([], [DTES[2]]):
        judge(table([ivhd(0x40, [d, *more]), STRUCTS[6]]), ctx)
    ctx.state(case)


def gen_fields(tier):
    for s in range(len(STRUCTS)):
        for at in range(1, len(STRUCTS[s])):
            for v in range(256):
                yield ["struct", s, at, v]
    for at in range(4, 48):
        for v in range(256):
            yield ["head", 0, at, v]
    for s in range(len(DTES)):
        for at in range(len(DTES[s])):
            for v in range(256):
                yield ["dte", s, at, v]
    for s in range(len(STRUCTS)):
        for v in range(256):
            yield ["struct", s, 0, v]


def run_fields(case, ctx):
    what, s, at, v = case
    if what == "head":
        b = bytearray(table([STRUCTS[0], STRUCTS[6]]))
        b[at] = v
        if at != 9:
            b = seal(b)
    elif what == "struct":
        x = bytearray(STRUCTS[s])
        x[at] = v
        b = table([bytes(x), STRUCTS[6]])
    else:
        x = bytearray(DTES[s])
        x[at] = v
        b = table([ivhd(0x11, [DTES[2], bytes(x), DTES[3]])])
    judge(bytes(b), ctx)
    ctx.state(case)


def gen_build(tier):
    for k in range(1, 5 if tier == "quick" else 6):
        for c in itertools.product(range(len(STRUCTS)), repeat=k):
            yield list(c)


def run_build(case, ctx):
    """entries added one after the other: length and checksum follow, and the table can be read again"""
    t = T()(table([]))
    for k, i in enumerate(case):
        o = (T().IVHD_STRUCT if i < 5 else T().IVMD_STRUCT)(STRUCTS[i])
        (t.addIVHDEntry if i < 5 else t.addIVMDEntry)(o)
        want = table([STRUCTS[j] for j in case[:k + 1]])
        ctx.eq(bytes(t.Encode()), want, "encoded table")
        ctx.eq(t.acpi_header.Length, len(want), "length")
        ctx.eq(T().validateChecksum8(bytes(t.Encode())), 0, "checksum")
        ctx.state(case[:k + 1])
    observe(t, read(want), ctx, len(case) < 3)
    t.acpi_header.OEMRevision = 7
    t.updateACPISum()
    ctx.eq(sum(t.Encode()) & 0xFF, 0, "checksum after a change")


BASES = [table([STRUCTS[0], STRUCTS[6]]), table([STRUCTS[3], STRUCTS[2]]), table([STRUCTS[7], STRUCTS[4]])]


def gen_bad(tier):
    for i, b in enumerate(BASES):
        for at in range(len(b)):
            for v in range(1, 256) if tier != "quick" else (1, 2, 4, 8, 16, 32, 64, 128, 255, 254):
                yield [i, "sum", at, v]
        for n in range(len(b)):
            for fix in range(3):
                yield [i, "cut", n, fix]
        for at in range(48, len(b) + 1):
            for n in (1, 2, 4, 8, 12, 32):
                for v in (0, 1, 4, 32, 255):
                    yield [i, "insert", at, [n, v]]
            for n in (1, 2, 4, 8, 12):
                yield [i, "remove", at, n]
    for ty in (0x10, 0x11, 0x40, 0x20, 0x22):
        for n in list(range(0, 90)) + [0xFF, 0x100, 0x7FFF, 0xFFFF]:
            for have in (0, 4, 8, 24, 32, 40, 44, 60, 80):
                yield [ty, "length", n, have]
    if tier != "quick":
        for i, b in enumerate(BASES):
            for at in range(48, len(b) - 1):
                for v in (0, 1, 2, 3, 4, 16, 32, 66, 72, 240, 255):
                    for w in range(256):
                        yield [i, "pair", at, [v, w]]


def run_bad(case, ctx):
    i, what, at, v = case
    if what == "length":
        s = bytes([i, 0]) + struct.pack("<H", at) + bytes(36) + bytes([2, 8, 0, 1]) * 20
        b = table([STRUCTS[6], s[:v]])
    else:
        b = bytearray(BASES[i])
        if what == "sum":
            b[at] = (b[at] + v) & 0xFF
        elif what == "cut":
            del b[at:]
            if v and len(b) > 10:
                if v == 2:
                    b[4:8] = struct.pack("<I", len(b))
                b = seal(b)
        elif what == "insert":
            b[at:at] = bytes([v[1]]) * v[0]
        elif what == "pair":
            b[at:at + 2] = bytes(v)
        else:
            del b[at:at + v]
        if what in ("insert", "remove", "pair"):
            b[4:8] = struct.pack("<I", len(b))
            b = seal(b)
    judge(bytes(b), ctx)
    ctx.state(case)


# -- entries of the wrong kind ---------------------------------------------------------------------------------------

CLASSES = {0: "RESERVED", 1: "ALL", 2: "SELECT", 3: "RANGE_START", 66: "ALIAS_SELECT", 67: "ALIAS_RANGE_START", 70: "EX_SELECT", 71: "EX_RANGE_START", 72: "SPECIAL", 240: "ACPI"}


def gen_kinds(tier):
    for c in CLASSES:
        for d in range(len(DTES)):
            for used in (None, *range(len(DTES))):
                if used is None or DTES[used][0] == c:
                    yield ["class", c, d, used]
    for ty in range(256):
        yield ["factory", ty]
    for f in range(256):
        yield ["uid", f]


def run_kinds(case, ctx):
    from edk2toollib.acpi.ivrs_parser import IVRS_TABLE as T

    if case[0] == "class":
        _, c, d, used = case
        o = getattr(T, "DEVICE_TABLE_ENTRY_" + CLASSES[c])(*([] if used is None else [DTES[used] + b"tail"]))
        try:
            o.Decode(DTES[d] + b"tail")
            ok = True
        except Exception:  # noqa: BLE001
            ok = False
        ctx.eq(ok, DTES[d][0] == c, f"a {CLASSES[c]} entry of type {DTES[d][0]} is decoded")
        if ok:
            ctx.eq((o.Encode(), o.Length), (DTES[d], len(DTES[d])), "encoding")
    elif case[0] == "factory":
        e = T.DEVICE_TABLE_ENTRY.Factory(bytes([case[1]]) + next((d[1:] for d in DTES if d[0] == case[1]), bytes(30)) + bytes(4))
        ctx.eq(type(e).__name__, "DEVICE_TABLE_ENTRY_" + CLASSES[case[1]] if case[1] in CLASSES else "NoneType", "class for the type")
    else:
        b = bytearray(acpi(b"AMDI0040", b"PNP0D40 ", 5))
        b[20] = case[1]
        try:
            o = T.DEVICE_TABLE_ENTRY_ACPI(bytes(b))
            ctx.true(case[1] in (0, 1, 2), f"the format {case[1]} of a unique id was accepted")
            ctx.eq(o.UIDFormat, case[1], "format")
        except Exception as e:  # noqa: BLE001
            ctx.true(case[1] not in (1, 2), f"refused: {e!r}")
    ctx.state(case)


# -- sizes: number of entries and device entries ---------------------------------------------------------------


def gen_sizes(tier):
    for n in counts(tier, 300, 0):
        yield ["structures", n]
        for ty in (0x10, 0x11, 0x40):
            yield ["devices", n, ty]
    for n in (1000, 4096, 8000):
        yield ["devices", n, 0x40]


def run_sizes(case, ctx):
    what, n = case[:2]
    if what == "structures":
        parts = [STRUCTS[(i * 3) % len(STRUCTS)] for i in range(n)]
    else:
        parts = [ivhd(case[2], [DTES[i % (9 if n < 1000 else 3)] for i in range(n)]), STRUCTS[6]]
    judge(table(parts), ctx, n < 70)
    ctx.state(tuple(case))


SUITES = [
    Suite("sizes", gen_sizes, run_sizes, "number of entries and device entries", "counts up to 24 and edges to 300, device entries to 8000"),
    Suite("tables", gen_tables, run_tables, "sequences of entries, new and used objects: fields, bytes, XML, text", {"quick": f"<=3 of {len(STRUCTS)}", "thorough": f"<=4 of {len(STRUCTS)}"}),
    Suite("device entries", gen_dtes, run_dtes, "sequences of device entries in an IVHD, decoded and added", {"quick": f"<=3 of {len(DTES)}", "thorough": f"<=4 of {len(DTES)}"}),
    Suite("ACPI devices", gen_acpi, run_acpi, "formats and lengths of unique ids", "all lengths, 8 formats"),
    Suite("fields", gen_fields, run_fields, "values of the fields of headers and entries", "all values of every byte"),
    Suite("building", gen_build, run_build, "sequences of added entries", {"quick": f"<=4 of {len(STRUCTS)}", "thorough": f"<=5 of {len(STRUCTS)}"}),
    Suite("malformed", gen_bad, run_bad, "changed bytes, cuts, insertions and removals, lengths", {"quick": "10 changes of every byte without checksum, all cuts and lengths", "thorough": "all changes of every byte, 11x256 values of byte pairs"}),
    Suite("kinds", gen_kinds, run_kinds, "entries decoded by the class of another type, types and formats that do not exist", f"10 classes x {len(DTES)} entries, new and used; all types and formats"),
]
