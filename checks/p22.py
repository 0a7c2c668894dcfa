"""P22: variable headers and attributes are encoded and decoded without loss."""

import io
import itertools
import struct
import uuid

from lib.mc import Suite
from lib.sizes import counts

KINDS = ["Var", "AuthVar"]
NAMES = ["", "A", "Boot0000", "dbx", "\u00e9\u4e2d", "x\U0001f600", "a b\nc", "n" * 40, "\ufefft", "t\ufeff", "\ufffe", "\0", "a\0b"]
DATAS = [b"", b"\0", b"\xff\xff", b"abc", b"\xaa\x55\xaa\x55", bytes(range(256)), b"\xff" * 33]
GUIDS = [uuid.UUID(int=0), uuid.UUID("00112233-4455-6677-8899-aabbccddeeff"), uuid.UUID(int=2**128 - 1)]
STATES = [0x3F, 0x7F, 0x3D, 0x3C, 0xFF]
ATTRS = [0, 7, 0x27, 0x80000000, 0xFFFFFFFF]
AUTHS = [(0, b"\0" * 16, 0), (2**64 - 1, bytes(range(16)), 2**32 - 1), (1, b"\xff" * 16, 0x01020304)]
SIZE = {"Var": 32, "AuthVar": 60}


def ref(kind, name, data, guid, state, attr, auth, start=0x55AA, reserved=0):
    nm = name.encode("utf-16-le") + b"\0\0"
    h = struct.pack("<HBBL", start, state, reserved, attr)
    if kind == "AuthVar":
        h += struct.pack("<Q", auth[0]) + auth[1] + struct.pack("<L", auth[2])
    return h + struct.pack("<LL", len(nm), len(data)) + guid.bytes_le + nm + data


def new(kind):
    from edk2toollib.uefi.edk2 import variable_format as VF

    return VF.VariableHeader() if kind == "Var" else VF.AuthenticatedVariableHeader()


def fields(v, kind):
    return [v.Name, bytes(v.Data), v.VendorGuid, v.State, v.Attributes] + ([(v.MonotonicCount, v.TimeStamp, v.PubKeyIndex)] if kind == "AuthVar" else [])


def gen_var(tier):
    for kind in KINDS:
        for n in range(len(NAMES)):
            for d in range(len(DATAS)):
                for g in range(len(GUIDS)):
                    yield [kind, n, d, g, STATES, ATTRS]


def run_var(case, ctx):
    kind, n, d, g, states, attrs = case
    name, data, guid = NAMES[n], DATAS[d], GUIDS[g]
    for state, attr, auth in itertools.product(states, attrs, AUTHS if kind == "AuthVar" else [None]):
        want = [name, data, guid, state, attr] + ([auth] if kind == "AuthVar" else [])
        enc = ref(kind, name, data, guid, state, attr, auth)
        pad = -len(enc) % 4
        # building
        v = new(kind)
        ctx.eq((v.StartId, v.State, v.Attributes), (0x55AA, 0x3F, 3), "default header")
        v.set_data(b"other data")
        v.set_name("Other")
        v.set_name(name)
        v.set_data(data)
        v.VendorGuid, v.State, v.Attributes = guid, state, attr
        if kind == "AuthVar":
            v.MonotonicCount, v.TimeStamp, v.PubKeyIndex = auth
        ctx.eq(v.serialize(), enc, "serialize")
        ctx.eq(v.serialize(True), enc + b"\xff" * pad, "serialize with padding")
        ctx.eq((v.StructSize, v.get_buffer_data_size(), v.get_buffer_padding_size(), v.get_buffer_size()),
               (SIZE[kind], len(enc), pad, len(enc) + pad), "sizes")
        ctx.eq(v.pack_struct(), enc[:SIZE[kind]], "pack_struct")
        # reading, with other bytes around
        for tail in (b"", b"\xff" * pad, b"\xaaU?\0tail"):
            w = new(kind).load_from_bytes(enc + tail)
            ctx.eq(fields(w, kind), want, "load_from_bytes")
            ctx.eq(w.serialize(True), enc + b"\xff" * pad, "serialize after load_from_bytes")
            f = io.BytesIO(b"head" + enc + tail)
            f.seek(4)
            w = new(kind).load_from_file(f)
            ctx.eq((fields(w, kind), f.tell()), (want, 4), "load_from_file and position")
            ctx.eq(w.serialize(), enc, "serialize after load_from_file")
            ctx.eq((w.get_buffer_size(), w.NameSize, w.DataSize), (len(enc) + pad, len(name.encode("utf-16-le")) + 2, len(data)), "sizes after loading")
            ctx.step(2)
        # a reader object can be used again
        w = new(kind)
        w.load_from_bytes(ref(kind, "First", b"12345", GUIDS[1], 0x3C, 5, AUTHS[1]))
        w.load_from_bytes(enc)
        ctx.eq(fields(w, kind), want, "second load_from_bytes")
        # not a variable
        for start in (0xFFFF, 0, 0xAA55, 0x55AB):
            bad = ref(kind, name, data, guid, state, attr, auth, start)
            for how in ("bytes", "file"):
                f = io.BytesIO(b"head" + bad)
                f.seek(4)
                try:
                    new(kind).load_from_bytes(bad) if how == "bytes" else new(kind).load_from_file(f)
                    ctx.fail("read something without the variable signature")
                except EOFError:
                    ctx.true(how == "bytes" or f.tell() == 4, "position after refusing")
        ctx.state((kind, n, d, g, state, attr, auth))


# -- the two headers before the variables ---------------------------------------------------------------------


def gen_head(tier):
    for sig in ("var", "auth", "other"):
        for size in (0, 0x1234, 0xFFFFFFFF):
            for fmt in (0x5A, 0, 0xFF):
                for st in (0xFE, 1):
                    for r0, r1 in ((0, 0), (0x1234, 0xFFFFFFFF)):
                        yield ["store", sig, size, fmt, st, r0, r1]
    for g in range(3):
        for ln in (0, 0x10000, 2**64 - 1):
            for sig in ("_FVH", "_FVX", "\0\0\0\0"):
                for vals in ((0, 72, 0, 0, 0, 2, 0, 0), (0xFFFFFFFF, 0xFFFF, 0x1234, 0x5678, 0xFF, 0xFE, 2**64 - 1, 1)):
                    yield ["fv", g, ln, sig, list(vals)]


def run_head(case, ctx):
    from edk2toollib.uefi.edk2.variable_format import VariableStoreHeader
    from edk2toollib.uefi.pi_firmware_volume import EfiFirmwareVolumeHeader

    if case[0] == "store":
        _, sig, size, fmt, st, r0, r1 = case
        g = {"var": uuid.UUID("ddcf3616-3275-4164-98b6-fe85707ffe7d"), "auth": uuid.UUID("aaf32c78-947b-439a-a180-2e144ec37792"), "other": uuid.UUID(int=5)}[sig]
        b = g.bytes_le + struct.pack("<LBBHL", size, fmt, st, r0, r1)
        f = io.BytesIO(b"xy" + b + b"more")
        f.seek(2)
        try:
            h = VariableStoreHeader().load_from_file(f)
        except Exception:  # noqa: BLE001
            ctx.eq(sig, "other", "a valid store header was refused")
            ctx.eq(f.tell(), 2, "position")
            return
        ctx.true(sig != "other", "an unknown store was accepted")
        ctx.eq([h.Signature, h.Size, h.Format, h.State, h.Type, h.StructSize], [g, size, fmt, st, "Var" if sig == "var" else "AuthVar", 28], "fields")
        ctx.eq((h.serialize(), f.tell()), (b, 2), "serialize and position")
    else:
        _, gi, ln, sig, v = case
        b = bytes(range(16)) + GUIDS[gi].bytes_le + struct.pack("<Q", ln) + sig.encode() + struct.pack("<LHHHBBQQ", *v)
        f = io.BytesIO(b"xy" + b + b"more")
        f.seek(2)
        try:
            h = EfiFirmwareVolumeHeader().load_from_file(f)
        except Exception:  # noqa: BLE001
            ctx.true(sig != "_FVH", "a valid FV header was refused")
            ctx.eq(f.tell(), 2, "position")
            return
        ctx.eq(sig, "_FVH", "signature")
        ctx.eq([h.FileSystemGuid, h.FvLength, h.Attributes, h.HeaderLength, h.Checksum, h.ExtHeaderOffset, h.Reserved, h.Revision, h.Blockmap0, h.Blockmap1],
               [GUIDS[gi], ln] + v, "fields")
        ctx.eq((h.serialize(), f.tell()), (b, 2), "serialize and position")
    ctx.step(2)
    ctx.state(repr(case))


# -- attributes --------------------------------------------------------------------------------------------------

BITS = [("NON_VOLATILE", "NV", 1), ("BOOTSERVICE_ACCESS", "BS", 2), ("RUNTIME_ACCESS", "RT", 4), ("HARDWARE_ERROR_RECORD", "HW", 8),
        ("AUTHENTICATED_WRITE_ACCESS", "AW", 16), ("TIME_BASED_AUTHENTICATED_WRITE_ACCESS", "AT", 32), ("APPEND_WRITE", "AP", 64)]


def gen_attr(tier):
    for m in range(128):
        for high in (0, 0x80, 0x80000000):
            yield ["value", m | high]
    names = [b for b in BITS]
    for k in range(1, 4 if tier == "quick" else 5):
        for t in itertools.permutations(range(7), k):
            yield ["text", list(t)]
    for t in ("XX", "NV,XX", "NV,,BS", ",", "NV,", "NV;BS", "EFI_VARIABLE_NV", "NON_VOLATILE", "1", "NVBS"):
        yield ["bad", t]
    for t in ("None", "1.5", "b'NV'", "[]"):
        yield ["type", t]


def run_attr(case, ctx):
    from edk2toollib.uefi.uefi_multi_phase import EfiVariableAttributes as E

    if case[0] == "value":
        v = case[1]
        e = E(v)
        ctx.eq((int(e), e.attributes, e.encode()), (v, v, struct.pack("<I", v)), "value and encoding")
        fs = io.BytesIO(struct.pack("<I", v) + b"rest")
        d = E(decodefs=fs)
        ctx.eq((int(d), fs.tell()), (v, 4), "decoding and position")
        fs.seek(0)
        o = E("NV,BS")
        ctx.eq((o.decode(fs), int(o)), (v, v), "decode")
        known = v & 0x7F
        ctx.eq(sorted(filter(None, str(e).split(","))), sorted("EFI_VARIABLE_" + n for n, _, b in BITS if b & v), "names")
        ctx.eq(sorted(filter(None, e.get_short_string().split(","))), sorted(s for _, s, b in BITS if b & v), "short names")
        ctx.eq((int(E(str(e))), int(E(e.get_short_string()))), (known, known), "names read back")
        o.update(v)
        ctx.eq(int(o), v, "update")
        ctx.eq(int(E()), 0, "default")
    elif case[0] == "text":
        want = sum(BITS[i][2] for i in case[1])
        for style in itertools.product(("long", "short", "lower", "mixed"), repeat=min(2, len(case[1]))):
            parts = []
            for j, i in enumerate(case[1]):
                s = style[j % len(style)]
                n, sh, _ = BITS[i]
                parts.append({"long": "EFI_VARIABLE_" + n, "short": sh, "lower": sh.lower(), "mixed": "Efi_Variable_" + n.lower()}[s])
            for sep in (",", ", ", " ,", ",  "):
                t = sep.join(parts)
                ctx.eq(int(E(t)), want, f"{t!r}")
                ctx.eq(E.parse_attributes_str(" " + t + " "), want, f"{t!r} with spaces")
            ctx.eq(int(E(",".join(parts + parts[:1]))), want, "repeated name")
            ctx.step()
    else:
        x = case[1] if case[0] == "bad" else {"None": None, "1.5": 1.5, "b'NV'": b"NV", "[]": []}[case[1]]
        e = E(7)
        try:
            e.update(x)
            ctx.fail(f"{x!r} was accepted")
        except (ValueError if case[0] == "bad" else TypeError):
            ctx.eq(int(e), 7, "value after refusing")
    ctx.state(repr(case))


# -- sizes: length of names and data ------------------------------------------------------------------------


def gen_sizes(tier):
    for kind in KINDS:
        for n in [*counts(tier, 4097, 0, 72), 65535, 65536, 65537, 1 << 20]:
            yield [kind, "data", n]
            if n <= 70000:
                yield [kind, "name", n]


def run_sizes(case, ctx):
    kind, what, n = case
    for fill in range(3):
        name = ("n", "\u00e9", "\U0001f600")[fill] * n if what == "name" else "N"
        data = bytes([(0, 0xFF, 0x55)[fill]]) * n if what == "data" else b"d"
        auth = AUTHS[1] if kind == "AuthVar" else None
        enc = ref(kind, name, data, GUIDS[1], 0x3F, 7, auth)
        pad = b"\xff" * (-len(enc) % 4)
        v = new(kind)
        v.set_name(name)
        v.set_data(data)
        v.VendorGuid, v.State, v.Attributes = GUIDS[1], 0x3F, 7
        if auth:
            v.MonotonicCount, v.TimeStamp, v.PubKeyIndex = auth
        ctx.true(v.serialize() == enc, f"encoding ({what} {n})")
        ctx.true(v.serialize(True) == enc + pad, f"encoding with padding ({what} {n})")
        ctx.eq((v.get_buffer_data_size(), v.get_buffer_size()), (len(enc), len(enc + pad)), "sizes")
        want = [name, data, GUIDS[1], 0x3F, 7] + ([auth] if auth else [])
        w = new(kind).load_from_bytes(enc + pad + b"\xaa\x55")
        ctx.true(fields(w, kind) == want, f"decoding ({what} {n})")
        f = io.BytesIO(b"head" + enc + pad + b"\xaa\x55")
        f.seek(4)
        w = new(kind).load_from_file(f)
        ctx.true(fields(w, kind) == want, f"decoding a file ({what} {n})")
        ctx.eq((w.get_buffer_data_size(), w.get_buffer_size()), (len(enc), len(enc + pad)), "sizes after decoding")
    ctx.state(tuple(case))


SUITES = [
    Suite("sizes", gen_sizes, run_sizes, "length of names and data", "names to 65537 characters, data to 1 MiB"),
    Suite("variables", gen_var, run_var, "names x data x GUIDs x states x attributes", "13 names, 7 data, 3 GUIDs, 5 states, 5 attributes, 3 authentication fields"),
    Suite("headers", gen_head, run_head, "variable store and firmware volume headers", "all field combinations listed"),
    Suite("attributes", gen_attr, run_attr, "all attribute sets, spellings and orders", {"quick": "<=3 names in every order", "thorough": "<=4"}),
]
