"""P24: firmware volume, firmware file and fault tolerant write structures are read and written byte for byte."""

import importlib
import io
import itertools
import struct
import uuid

from lib.mc import Suite

SIG = uuid.UUID("9e58292b-7c68-497d-a0ce-6500fd9f1b95")
# name -> (module, class, [(attribute, offset, size, kind)], total size, can be written)
S = {
    "fv": ("edk2toollib.uefi.pi_firmware_volume", "EfiFirmwareVolumeHeader",
           [("ZeroVector", 0, 16, "b"), ("FileSystemGuid", 16, 16, "g"), ("FvLength", 32, 8, "u"), ("Signature", 40, 4, "sig"), ("Attributes", 44, 4, "u"),
            ("HeaderLength", 48, 2, "u"), ("Checksum", 50, 2, "u"), ("ExtHeaderOffset", 52, 2, "u"), ("Reserved", 54, 1, "u"), ("Revision", 55, 1, "u"),
            ("Blockmap0", 56, 8, "u"), ("Blockmap1", 64, 8, "u")], 72, True),
    "ext": ("edk2toollib.uefi.pi_firmware_volume", "EfiFirmwareVolumeExtHeader", [("FileSystemGuid", 0, 16, "id"), ("ExtHeaderSize", 16, 4, "u")], 20, False),
    "ffs": ("edk2toollib.uefi.pi_firmware_file", "EfiFirmwareFileSystemHeader",
            [("FileSystemGuid", 0, 16, "g"), ("Checksum", 16, 2, "u"), ("Type", 18, 1, "u"), ("Attributes", 19, 1, "u"), ("Size0", 20, 1, "u"),
             ("Size1", 21, 1, "u"), ("Size2", 22, 1, "u"), ("State", 23, 1, "u")], 24, True),
    "block": ("edk2toollib.uefi.edk2.ftw_working_block_format", "EfiFtwWorkingBlockHeader",
              [("Signature", 0, 16, "gsig"), ("Crc", 16, 4, "u"), ("WorkingBlockValidFields", 20, 1, "u"), ("Reserved1", 21, 1, "u"), ("Reserved2", 22, 1, "u"),
               ("Reserved3", 23, 1, "u"), ("WriteQueueSize", 24, 8, "u")], 32, True),
    "whead": ("edk2toollib.uefi.edk2.ftw_working_block_format", "EfiFtwWriteHeader",
              [("StatusBits", 0, 1, "u"), ("ReservedByte1", 1, 1, "u"), ("ReservedByte2", 2, 1, "u"), ("ReservedByte3", 3, 1, "u"), ("CallerId", 4, 16, "id"),
               ("ReservedUint32", 20, 4, "u"), ("NumberOfWrites", 24, 8, "u"), ("PrivateDataSize", 32, 8, "u")], 40, True),
    "wrec": ("edk2toollib.uefi.edk2.ftw_working_block_format", "EfiFtwWriteRecord",
             [("StatusBits", 0, 1, "u"), ("ReservedByte1", 1, 1, "u"), ("ReservedByte2", 2, 1, "u"), ("ReservedByte3", 3, 1, "u"), ("ReservedUint32", 4, 4, "u"),
              ("Lba", 8, 8, "u"), ("Offset", 16, 8, "u"), ("Length", 24, 8, "u"), ("RelativeOffset", 32, 8, "s")], 40, True),
}
GUIDS = [uuid.UUID(int=0), uuid.UUID("00112233-4455-6677-8899-aabbccddeeff"), uuid.UUID(int=2**128 - 1)]


def values(kind, size):
    if kind == "b":
        return [bytes(size), bytes(range(1, size + 1)), b"\xff" * size]
    if kind in ("g", "id"):
        return [g.bytes_le for g in GUIDS]
    if kind == "sig":
        return [b"_FVH"]
    if kind == "gsig":
        return [SIG.bytes_le]
    m = 1 << (8 * size)
    return [v.to_bytes(size, "little") for v in dict.fromkeys((0, 1, 0x80 % m, m >> 1, m - 1, (m >> 1) - 1, 0x0102030405060708 % m, m - 4096 if size == 8 else m - 2))]


def want(kind, raw):
    if kind in ("g", "gsig"):
        return uuid.UUID(bytes_le=raw)
    if kind in ("b", "sig", "id"):
        return raw
    return int.from_bytes(raw, "little", signed=kind == "s")


def gen(tier):
    for name, (_, _, fields, size, _) in S.items():
        # every pair of fields takes all combinations of its values, over two backgrounds
        idx = range(len(fields))
        combos = itertools.combinations(idx, 2) if tier == "quick" else itertools.combinations(idx, 3)
        for c in combos:
            for bg in (0, 1, -1):
                yield [name, list(c), bg]


def make(case):
    name, c, bg = case
    fields, size = S[name][2], S[name][3]
    vals = [values(k, n) for _, _, n, k in fields]
    for pick in itertools.product(*(range(len(vals[i])) for i in c)):
        b = bytearray(size)
        for j, (_, o, n, _) in enumerate(fields):
            b[o:o + n] = vals[j][pick[c.index(j)]] if j in c else vals[j][bg if bg < len(vals[j]) else 0]
        yield bytes(b)


def run(case, ctx):
    mod, cls, fields, size, writable = S[case[0]]
    cls = getattr(importlib.import_module(mod), cls)
    again = cls()
    edited = cls().load_from_file(io.BytesIO(next(make([case[0], [0, 1], 1]))))
    for b in make(case):
        for before, after in ((b"", b""), (b"abc", b"tail")):
            f = io.BytesIO(before + b + after)
            f.seek(len(before))
            h = cls()
            ctx.true(h.load_from_file(f) is h, "load_from_file returns the object")
            ctx.eq(f.tell(), len(before), "position")
            for obj in (h, again.load_from_file(f)):
                for a, o, n, k in fields:
                    got = getattr(obj, a)
                    if k == "id" and isinstance(got, uuid.UUID):
                        got = got.bytes_le
                    ctx.eq(got, want(k, b[o:o + n]), f"{a} of {cls.__name__}")
                if writable:
                    ctx.eq(obj.serialize(), b, "serialize")
            if writable:  # made, or edited, by setting the fields
                for obj in (cls(), edited):
                    for a, o, n, k in fields:
                        setattr(obj, a, want(k, b[o:o + n]))
                    ctx.eq(obj.serialize(), b, "serialize of the fields set")
            if case[0] == "ffs":
                ctx.eq(h.get_size(), int.from_bytes(b[20:23], "little"), "file size")
            ctx.step()
        ctx.state((case[0], b))


def gen_bad(tier):
    for name in S:
        for n in range(S[name][3]):
            yield [name, "short", n]
    for name, o, n in (("fv", 40, 4), ("block", 0, 16)):
        for i in range(o, o + n):
            for v in range(1, 256):
                yield [name, "flip", i, v]


def run_bad(case, ctx):
    mod, cls, fields, size, writable = S[case[0]]
    cls = getattr(importlib.import_module(mod), cls)
    b = bytearray(next(make([case[0], [0, 1], 1])))
    b = b[:case[2]] if case[1] == "short" else b
    if case[1] == "flip":
        b[case[2]] ^= case[3]
    f = io.BytesIO(b"ab" + bytes(b))
    f.seek(2)
    try:
        cls().load_from_file(f)
        ctx.fail("a bad structure was accepted")
    except Exception as e:  # noqa: BLE001
        ctx.true(case[1] == "flip" or isinstance(e, struct.error), f"unexpected {e!r}")
    ctx.eq(f.tell(), 2, "position after refusing")
    ctx.state(repr(case))


SUITES = [
    Suite("fields", gen, run, "all combinations of the boundary values of all pairs (triples) of fields", {"quick": "pairs, 3 backgrounds", "thorough": "triples, 3 backgrounds"}),
    Suite("refused", gen_bad, run_bad, "cut structures and damaged signatures", "all lengths, all single byte changes of signatures"),
]
