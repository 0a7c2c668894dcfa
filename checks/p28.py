"""P28: capsules of any nesting are encoded with consistent sizes and decoded to the same nesting; others are refused."""

import contextlib
import io
import itertools
import struct
import uuid

from lib.mc import Suite
from lib.sizes import counts

FMP = uuid.UUID("6dcbd5ed-e82d-4c44-bda1-7194199ad92a")
OTHER = uuid.UUID("01234567-89ab-cdef-fedc-ba9876543210")
PK7 = uuid.UUID("4aafd29d-68df-49ee-8aa9-347d375665a7")
IDS = [uuid.UUID(int=0), OTHER]
FLAGS = (("PersistAcrossReset", 0x10000), ("PopulateSystemTable", 0x20000), ("InitiateReset", 0x40000))

# A capsule is described by nested lists:
#   payload header: [fw, lsv, hex of the extended header, hex of the payload]
#   auth header:    [count, hex of the certificate, payload header | None]
#   image:          [version, id, index, instance, auth | None, hex of the vendor code]
#   fmp:            [version, [hex of drivers], [images]]
#   capsule:        [fmp guid?, hex of the extended header, oem flags, flag set, fmp | hex of payload | None]


# -- independent encoder and decoder ----------------------------------------------------------------------------


def enc_payload(p):
    ext = bytes.fromhex(p[2])
    return struct.pack("<4sIII", b"MSS1", 16 + len(ext), p[0], p[1]) + ext + bytes.fromhex(p[3])


def enc_auth(a):
    c = bytes.fromhex(a[1])
    return struct.pack("<QIHH", a[0], 24 + len(c), 0x200, 0xEF1) + PK7.bytes_le + c + (enc_payload(a[2]) if a[2] else b"")


def enc_image(i):
    p = enc_auth(i[4]) if i[4] else b""
    v = bytes.fromhex(i[5])
    return struct.pack("<I16sB3xIIQ", i[0], IDS[i[1]].bytes_le, i[2], len(p), len(v), i[3]) + p + v


def enc_fmp(f):
    items = [bytes.fromhex(d) for d in f[1]] + [enc_image(i) for i in f[2]]
    off = 8 + 8 * len(items)
    out = struct.pack("<IHH", f[0], len(f[1]), len(f[2]))
    for it in items:
        out += struct.pack("<Q", off)
        off += len(it)
    return out + b"".join(items)


def enc_capsule(c):
    ext = bytes.fromhex(c[1])
    p = b"" if c[4] is None else bytes.fromhex(c[4]) if isinstance(c[4], str) else enc_fmp(c[4])
    fl = c[2] | sum(v for k, (_, v) in enumerate(FLAGS) if c[3] >> k & 1)
    return struct.pack("<16sIIII", (FMP if c[0] else OTHER).bytes_le, 32 + len(ext), fl, 32 + len(ext) + len(p), 0) + ext + p


def dec_payload(b):
    if len(b) < 16:
        raise ValueError
    sig, hs, fw, lsv = struct.unpack("<4sIII", b[:16])
    if sig != b"MSS1" or not 16 <= hs <= len(b):
        raise ValueError
    return [fw, lsv, b[16:hs].hex(), b[hs:].hex()]


def dec_auth(b):
    if len(b) < 32:
        raise ValueError
    n, ln, rev, typ, g = struct.unpack("<QIHH16s", b[:32])
    if not 24 <= ln <= len(b) - 8 or (rev, typ, g) != (0x200, 0xEF1, PK7.bytes_le):
        raise ValueError
    rest = b[8 + ln :]
    return [n, b[32 : 8 + ln].hex(), dec_payload(rest) if rest else None]


def dec_image(b):
    if len(b) < 40:
        raise ValueError
    ver, g, idx, ps, vs, inst = struct.unpack("<I16sB3xIIQ", b[:40])
    if ver < 2 or idx < 1 or ps + vs != len(b) - 40:
        raise ValueError
    p = b[40 : 40 + ps]
    return [ver, uuid.UUID(bytes_le=g), idx, inst, dec_auth(p) if p else None, b[40 + ps :].hex()]


def dec_fmp(b):
    if len(b) < 8:
        raise ValueError
    ver, nd, ni = struct.unpack("<IHH", b[:8])
    start = 8 + 8 * (nd + ni)
    if ver < 1 or len(b) < start:
        raise ValueError
    off = list(struct.unpack(f"<{nd + ni}Q", b[8:start]))
    if any(not start <= o <= len(b) for o in off) or off != sorted(off):
        raise ValueError
    items = [b[x:y] for x, y in zip(off, off[1:] + [len(b)])]
    return [ver, [d.hex() for d in items[:nd]], [dec_image(i) for i in items[nd:]]]


def dec_capsule(b):
    if len(b) < 32:
        raise ValueError
    g, hs, fl, size, _ = struct.unpack("<16sIIII", b[:32])
    if not 32 <= hs <= len(b) or size != len(b):
        raise ValueError
    p = b[hs:]
    fmp = g == FMP.bytes_le
    return [fmp, b[32:hs].hex(), fl & 0xFFFF, fl >> 16 & 7, (dec_fmp(p) if fmp and p else p.hex() or None)]


# -- the real objects --------------------------------------------------------------------------------------------


def build(c):
    from edk2toollib.uefi.edk2.fmp_payload_header import FmpPayloadHeaderClass
    from edk2toollib.uefi.fmp_auth_header import FmpAuthHeaderClass
    from edk2toollib.uefi.fmp_capsule_header import FmpCapsuleHeaderClass, FmpCapsuleImageHeaderClass
    from edk2toollib.uefi.uefi_capsule_header import UefiCapsuleHeaderClass

    def payload(p):
        o = FmpPayloadHeaderClass()
        o.FwVersion, o.LowestSupportedVersion = p[0], p[1]
        if p[2]:
            o.HeaderSize = 16 + len(p[2]) // 2
            if bytes.fromhex(p[2]).strip(b"\0"):
                o.ExtendedHeader = bytes.fromhex(p[2])
        o.Payload = bytes.fromhex(p[3])
        return o

    def auth(a):
        o = FmpAuthHeaderClass()
        o.MonotonicCount = a[0]
        if a[1]:
            o.AuthInfo.add_cert_data(bytes.fromhex(a[1]))
        if a[2]:
            o.FmpPayloadHeader = payload(a[2])
        return o

    def image(i):
        o = FmpCapsuleImageHeaderClass()
        # the values of a new header are left alone where they are the wanted ones
        for name, v, default in (("Version", i[0], 2), ("UpdateImageTypeId", IDS[i[1]], IDS[0]), ("UpdateImageIndex", i[2], 0), ("UpdateHardwareInstance", i[3], 0)):
            if v != default:
                setattr(o, name, v)
        if i[4]:
            o.FmpAuthHeader = auth(i[4])
        o.VendorCodeBytes = bytes.fromhex(i[5])
        return o

    o = UefiCapsuleHeaderClass()
    if not c[0]:
        o.CapsuleGuid = OTHER
    if c[1]:
        o.HeaderSize = 32 + len(c[1]) // 2
        if bytes.fromhex(c[1]).strip(b"\0"):
            o.ExtendedHeader = bytes.fromhex(c[1])
    if c[2]:
        o.OemFlags = c[2]
    for k, (name, _) in enumerate(FLAGS):
        if c[3] >> k & 1:
            setattr(o, name, True)
    if isinstance(c[4], str):
        o.Payload = bytes.fromhex(c[4])
    elif c[4]:
        f = FmpCapsuleHeaderClass()
        if c[4][0] != 1:
            f.Version = c[4][0]
        for d in c[4][1]:
            f.AddEmbeddedDriver(bytes.fromhex(d))
        for i in c[4][2]:
            f.AddFmpCapsuleImageHeader(image(i))
        o.FmpCapsuleHeader = f
    return o


def show(o):
    """a decoded object as a description, with the size fields checked against each other"""

    def payload(p, b):
        assert bytes(b) == p.Encode() and p.HeaderSize + len(p.Payload) == len(b)
        return [p.FwVersion, p.LowestSupportedVersion, bytes(b[16 : p.HeaderSize]).hex(), bytes(p.Payload).hex()]

    def auth(a):
        return [a.MonotonicCount, bytes(a.AuthInfo.cert_data).hex(), payload(a.FmpPayloadHeader, a.Payload) if a.FmpPayloadHeader else None]

    def image(i):
        assert i.UpdateImageSize == len(i.Payload) and i.UpdateVendorCodeSize == len(i.VendorCodeBytes)
        return [i.Version, i.UpdateImageTypeId, i.UpdateImageIndex, i.UpdateHardwareInstance, auth(i.FmpAuthHeader) if i.FmpAuthHeader else None, bytes(i.VendorCodeBytes).hex()]

    f = o.FmpCapsuleHeader
    if f is None:
        p = bytes(o.Payload).hex() or None
    else:
        p = [f.Version, [bytes(f.GetEmbeddedDriver(i)).hex() for i in range(f.EmbeddedDriverCount)], [image(f.GetFmpCapsuleImageHeader(i)) for i in range(f.PayloadItemCount)]]
    assert o.CapsuleImageSize == o.HeaderSize + len(o.Payload)
    return [o.CapsuleGuid == FMP, None, o.OemFlags, sum(1 << k for k, (n, _) in enumerate(FLAGS) if getattr(o, n)), p]


PAY = [None, [1, 0, "", ""], [0xFFFFFFFF, 0x80000000, "", "aabb"], [0x10002, 0x10001, "00" * 8, "4d535331"], [7, 8, "a1b2c3", "99"]]
CERT = ["", "30", "0102030405060708090a0b"]
DRV = ["", "11", "dd" * 9]
REUSE = [
    [1, "", 0, 0, [1, ["ee"], [[2, 0, 1, 5, [3, "99", [7, 6, "", "88"]], "77"]]]],
    [0, "", 0xFFFF, 7, "1234"],
    [1, "00" * 8, 1, 0, None],
]


def auths():
    return [None] + [[n, c, p] for n in (0, 2**64 - 1) for c in CERT for p in PAY]


def gen_build(tier):
    for g in (1, 0):
        for ext in ("", "00" * 8, "a1b2c3", "01" * 40):
            for oem in (0, 1, 0x8000, 0xFFFF):
                for fl in range(8):
                    for p in (None,) if g else (None, "00", "6dcb" * 20):
                        yield [g, ext, oem, fl, p]
    for a in auths():
        for v in ("", "ab", "cd" * 17):
            for idx, inst in ((1, 0), (255, 2**64 - 1), (2, 1 << 32)):
                yield [1, "", 0, 1, [1, [], [[2, 1, idx, inst, a, v]]]]
    images = [[2, k & 1, 1 + k, k, a, v] for k, (a, v) in enumerate([(None, ""), (None, "aa"), ([1, "", None], ""), ([1, "3001", [5, 4, "", "cafe"]], ""), ([1, "30", [5, 4, "0000", ""]], "bb")])]
    n = 2 if tier == "quick" else 3
    for d in range(n + 1):
        for ds in itertools.product(DRV, repeat=d):
            for i in range(n + 1):
                for im in itertools.product(range(len(images)), repeat=i):
                    yield [1, "", 0, 1, [1, list(ds), [images[x] for x in im]]]
    for ver in (1, 2, 0xFFFFFFFF):
        for iv in (2, 3, 0xFFFFFFFF):
            yield [1, "", 0, 1, [ver, [], [[iv, 0, 1, 0, None, ""]]]]


def norm(c):
    c = [bool(c[0]), None, c[2], c[3], c[4] or None]
    if isinstance(c[4], list):
        c[4] = [c[4][0], c[4][1], [[i[0], IDS[i[1]], *i[2:]] for i in c[4][2]]]
    return c


def check_decoded(o, want, b, ctx, how):
    try:
        got = show(o)
    except AssertionError:
        ctx.fail(f"sizes of the decoded capsule are not consistent ({how})")
    ctx.eq(got, want, f"decoded capsule ({how})")
    ctx.eq(o.Encode(), b, f"encoding the decoded capsule ({how})")
    ctx.step(2)


def dump(c, b):
    """the lines of DumpInfo: names and values"""
    hs = 32 + len(c[1]) // 2
    yield "CapsuleGuid", str(FMP if c[0] else OTHER).upper()
    yield "HeaderSize", f"{hs:08X}"
    yield "Flags", f"{c[2] | c[3] << 16:08X}"
    yield "OEM Flags", f"{c[2]:04X}"
    for k, n in enumerate(("PERSIST_ACROSS_RESET", "POPULATE_SYSTEM_TABLE", "INITIATE_RESET")):
        if c[3] >> k & 1:
            yield ("CAPSULE_FLAGS_" + n,)
    yield "CapsuleImageSize", f"{len(b):08X}"
    yield "sizeof (Payload)", f"{len(b) - hs:08X}"
    if isinstance(c[4], list):
        yield "Version", f"{c[4][0]:08X}"
        yield "EmbeddedDriverCount", f"{len(c[4][1]):08X}"
        for d in c[4][1]:
            yield "sizeof (EmbeddedDriver)", f"{len(d) // 2:08X}"
        yield "PayloadItemCount", f"{len(c[4][2]):08X}"
        yield "ItemOffsetList", ""
        for i in c[4][2]:
            yield "Version", f"{i[0]:08X}"
            yield "UpdateImageTypeId", str(IDS[i[1]]).upper()
            yield "UpdateImageIndex", f"{i[2]:08X}"
            yield "UpdateImageSize", "00000000"
            yield "UpdateVendorCodeSize", f"{len(i[5]) // 2:08X}"
            yield "UpdateHardwareInstance", f"{i[3]:016X}"
            yield "sizeof (Payload)", "00000000"
            yield "sizeof (VendorCodeBytes)", f"{len(i[5]) // 2:08X}"


def run_build(case, ctx):
    from edk2toollib.uefi.uefi_capsule_header import UefiCapsuleHeaderClass

    b = enc_capsule(case)
    o = build(case)
    ctx.eq(o.Encode(), b, "encoding")
    ctx.eq(o.Encode(), b, "encoding again")
    ctx.eq(o.CapsuleImageSize, len(b), "CapsuleImageSize")
    want = norm(case)
    n = UefiCapsuleHeaderClass()
    ctx.eq(bytes(n.Decode(b)), b[32 + len(case[1]) // 2 :], "payload")
    check_decoded(n, want, b, ctx, "new object")
    for r in REUSE:
        m = build(r)
        m.Decode(b)
        check_decoded(m, want, b, ctx, "object that held another capsule")
        m = UefiCapsuleHeaderClass()
        m.Decode(enc_capsule(r))
        m.Decode(b)
        check_decoded(m, want, b, ctx, "object that decoded another capsule")
    if any(i[4] for i in (case[4][2] if isinstance(case[4], list) else [])):
        ctx.state(b.hex())  # the certificate's DumpInfo writes to the stdout of the time of its import
        return
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        n.DumpInfo()
    got = [tuple(x.strip() for x in line.split("=")) for line in out.getvalue().splitlines()]
    ctx.eq([(g[0].split(".")[-1], *g[1:]) for g in got], list(dump(case, b)), "DumpInfo")
    ctx.state(b.hex())


# -- the levels on their own ---------------------------------------------------------------------------------------


def gen_levels(tier):
    for a in auths()[1:]:
        for old in (None, [9, "9999", [9, 9, "", "99"]]):
            yield ["auth", a, old]
    for p in PAY[1:]:
        for old in (None, [9, 9, "00000000", "99"]):
            yield ["payload", p, old]
    for i in ([2, 1, 1, 7, None, ""], [2, 0, 1, 7, [1, "30", [5, 4, "", "cafe"]], "bb"]):
        for old in (None, [2, 1, 9, 9, [9, "9999", [9, 9, "", "99"]], "99"]):
            yield ["image", i, old]


def run_levels(case, ctx):
    from edk2toollib.uefi.edk2.fmp_payload_header import FmpPayloadHeaderClass
    from edk2toollib.uefi.fmp_auth_header import FmpAuthHeaderClass
    from edk2toollib.uefi.fmp_capsule_header import FmpCapsuleImageHeaderClass

    kind, d, old = case
    cls, enc = {"auth": (FmpAuthHeaderClass, enc_auth), "payload": (FmpPayloadHeaderClass, enc_payload), "image": (FmpCapsuleImageHeaderClass, enc_image)}[kind]
    o = cls()
    if old:
        o.Decode(enc(old))
    b = enc(d)
    rest = o.Decode(b)
    ctx.eq(o.Encode(), b, "encoding")
    if kind == "auth":
        ctx.eq(bytes(rest), enc_payload(d[2]) if d[2] else b"", "payload")
        ctx.eq((o.MonotonicCount, bytes(o.AuthInfo.cert_data)), (d[0], bytes.fromhex(d[1])), "fields")
        ctx.true(o.IsSigned(b), "IsSigned is false for a PKCS7 certificate")
        for x in (b[:7], b"", b[:31], b[:8] + struct.pack("<I", 23) + b[12:], b[:16] + OTHER.bytes_le + b[32:], b[:12] + b"\0\0" + b[14:]):
            ctx.eq(o.IsSigned(x), False, "IsSigned for an invalid buffer")
    elif kind == "payload":
        ctx.eq(bytes(rest), bytes.fromhex(d[3]), "payload")
        ctx.eq((o.FwVersion, o.LowestSupportedVersion, o.HeaderSize), (d[0], d[1], 16 + len(d[2]) // 2), "fields")
        out = io.StringIO()
        with contextlib.redirect_stdout(out):
            o.DumpInfo()
        want = [int.from_bytes(b"MSS1", "little"), 16 + len(d[2]) // 2, d[0], d[1], len(d[3]) // 2]
        ctx.eq([line.split("=")[1].split()[0] for line in out.getvalue().splitlines()], [f"{v:08X}" for v in want], "DumpInfo")
        ctx.true("(MSS1)" in out.getvalue(), "DumpInfo does not show the signature")
    ctx.step(4)
    ctx.state(repr(case))


# -- malformed -------------------------------------------------------------------------------------------------------

BASES = [
    [1, "", 5, 1, [1, [], [[2, 1, 1, 7, [1, "3001", [5, 4, "", "cafe"]], "bb"]]]],
    [1, "00" * 4, 5, 6, [1, ["dddd", ""], [[2, 1, 1, 7, None, "bb"], [2, 0, 2, 0, [1, "", None], ""]]]],
    [1, "", 0, 0, [1, ["dd", "ee"], []]],
    [0, "", 0, 3, "0102030405"],
    [1, "", 0, 0, None],
]


def gen_bad(tier):
    for k, base in enumerate(BASES):
        n = len(enc_capsule(base))
        for cut in range(n):
            yield [k, "cut", cut]
            yield [k, "fixcut", cut]
        for pos in range(n):
            for v in range(256):
                yield [k, "set", pos, v]
            if tier != "quick":
                # pairs of changed bytes
                for pos2 in range(pos + 1, n):
                    for v, w in itertools.product((0, 1, 2, 8, 24, 40, 255), repeat=2):
                        yield [k, "set", pos, v, pos2, w]
            yield [k, "add", pos]
            yield [k, "del", pos]


def run_bad(case, ctx):
    from edk2toollib.uefi.uefi_capsule_header import UefiCapsuleHeaderClass

    b = enc_capsule(BASES[case[0]])
    pos = case[2]
    if case[1] == "cut":
        b = b[:pos]
    elif case[1] == "fixcut":
        b = b[:pos]
        if pos >= 32:
            b = b[:24] + struct.pack("<I", pos) + b[28:]
    elif case[1] == "set":
        b = bytearray(b)
        b[pos] = case[3]
        if len(case) > 4:
            b[case[4]] = case[5]
        b = bytes(b)
    elif case[1] in ("add", "del"):
        # a byte more or less, the outermost size fits
        b = b[:pos] + b"\x5a" + b[pos:] if case[1] == "add" else b[:pos] + b[pos + 1 :]
        if len(b) > 32:
            b = b[:24] + struct.pack("<I", len(b)) + b[28:]
    try:
        want = dec_capsule(b)
    except ValueError:
        want = None
    o = UefiCapsuleHeaderClass()
    try:
        o.Decode(b)
        got = show(o)
    except ValueError:
        got = None
    except AssertionError:
        ctx.fail("sizes of the decoded capsule are not consistent")
    if want:
        want[1] = None
    ctx.eq(got, want, "decoded or refused")
    ctx.step()
    ctx.state(b.hex())


# -- sizes: number of drivers and images, length of every part ------------------------------------------------


def gen_sizes(tier):
    for n in counts(tier, 1025, 0):
        yield ["drivers", n]
        yield ["images", n]
    for n in [*counts(tier, 4097, 0, 72), 65535, 65536, 65537, 200000]:
        for what in ("driver", "payload", "vendor", "cert", "whole", "ext"):
            yield [what, n]


def run_sizes(case, ctx):
    from edk2toollib.uefi.uefi_capsule_header import UefiCapsuleHeaderClass

    what, n = case
    big = (bytes(range(1, 252)) * (n // 251 + 1))[:n].hex()
    img = [2, 1, 1, 5, [1, "3001", [5, 4, "", "cafe"]], "ab"]
    c = {
        "drivers": lambda: [1, "", 0, 1, [1, [f"{i % 251:02x}" * (1 + i % 3) for i in range(n)], [img]]],
        "images": lambda: [1, "", 0, 1, [1, ["aa"], [[2, i & 1, 1 + i % 255, i, [i, "30", [i, 0, "", f"{i:08x}"]] if i % 3 else None, ""] for i in range(n)]]],
        "driver": lambda: [1, "", 0, 1, [1, ["aa", big, "bb"], [img]]],
        "payload": lambda: [1, "", 0, 1, [1, ["aa"], [[2, 1, 1, 5, [1, "3001", [5, 4, "", big]], "ab"], img]]],
        "vendor": lambda: [1, "", 0, 1, [1, ["aa"], [[2, 1, 1, 5, None, big], img]]],
        "cert": lambda: [1, "", 0, 1, [1, ["aa"], [[2, 1, 1, 5, [1, big, [5, 4, "", "cafe"]], "ab"], img]]],
        "whole": lambda: [0, "", 3, 1, big or None],
        "ext": lambda: [1, big, 0, 1, [1, ["aa"], [[2, 1, 1, 5, [1, "3001", [5, 4, big, "cafe"]], "ab"]]]],
    }[what]()
    want = enc_capsule(c)
    b = build(c).Encode()
    ctx.true(b == want, f"encoding ({what} {n}): {len(b)} bytes, expected {len(want)}")
    o = UefiCapsuleHeaderClass()
    o.Decode(want)
    try:
        got = show(o)
    except AssertionError:
        ctx.fail(f"sizes of the decoded capsule are not consistent ({what} {n})")
    ctx.true(got == norm(c), f"decoded capsule ({what} {n})")
    ctx.true(o.Encode() == want, f"encoding the decoded capsule ({what} {n})")
    ctx.state(tuple(case))


SUITES = [
    Suite("sizes", gen_sizes, run_sizes, "number of drivers and images, length of every part", "<=1025 drivers or images, parts to 200000 bytes"),
    Suite("capsules", gen_build, run_build, "nestings of drivers, images, authentication, payload headers and vendor code", {"quick": "<=2 drivers, <=2 images", "thorough": "<=3 drivers, <=3 images"}),
    Suite("levels", gen_levels, run_levels, "authentication, payload and image headers on their own, fresh and reused", "all combinations of the parts"),
    Suite("malformed", gen_bad, run_bad, "cuts, byte changes, insertions and deletions at every position of 5 capsules", {"quick": "all values of every byte", "thorough": "also 49 values of every pair of bytes"}),
]
