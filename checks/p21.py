"""P21: a variable store in a ROM image keeps exactly the variables it was given and nothing else changes."""

import itertools
import os
import struct
import uuid

from lib.mc import Suite
from lib.sizes import counts

VAR = uuid.UUID("ddcf3616-3275-4164-98b6-fe85707ffe7d")
AUTH = uuid.UUID("aaf32c78-947b-439a-a180-2e144ec37792")
NVFV = uuid.UUID("fff12b8d-7696-4c8b-a985-2747075b4f50")
GUIDS = [uuid.UUID(int=0x1234), uuid.UUID("8be4df61-93ca-11d2-aa0d-00e098032b8c")]
PRE = bytes(range(24))

# name, data, guid, state, attributes; sizes 0..3 modulo the alignment
POOL = [
    ["A", b"\x01", 0, 0x3F, 7], ["Bo", b"", 1, 0x3F, 3], ["", b"\xff\xff\xff\xff", 0, 0x3D, 7], ["Long Name", bytes(range(30)), 1, 0x3F, 0x27],
    ["\u00e9\U0001f600", b"\x55\xaa", 0, 0x3C, 0xFFFFFFFF],
]
HDR = {"Var": 32, "AuthVar": 60}


def var_bytes(kind, v, reserved=0):
    name, data, g, state, attr = v
    nm = name.encode("utf-16-le") + b"\0\0"
    h = struct.pack("<HBBL", 0x55AA, state, reserved, attr)
    if kind == "AuthVar":
        h += struct.pack("<Q", 3 + attr) + bytes(range(16)) + struct.pack("<L", 9)
    h += struct.pack("<LL", len(nm), len(data)) + GUIDS[g].bytes_le
    b = h + nm + data
    return b + b"\xff" * (-len(b) % 4)


def image(kind, size, variables, post, tail):
    """tail: how the rest of the FV after the variable store looks (a working block, for example)"""
    body = b"".join(var_bytes(kind, v) for v in variables)
    body += b"\xff" * (size - 28 - len(body))
    fv_len = 72 + size + len(tail)
    fvh = b"\0" * 16 + NVFV.bytes_le + struct.pack("<Q4sLHHHBBQQ", fv_len, b"_FVH", 0xFEFF, 72, 0x1234, 0, 0, 2, 1, 0)
    vsh = (VAR if kind == "Var" else AUTH).bytes_le + struct.pack("<LBBHL", size, 0x5A, 0xFE, 0, 0)
    return PRE + fvh + vsh + body + tail + post, fv_len


POSTS = {"none": b"", "var": None, "bytes": bytes(range(200, 256))}


def gen_load(tier):
    n = 3 if tier == "quick" else 4
    for kind in HDR:
        for k in range(n):
            for t in itertools.permutations(range(len(POOL)), k):
                for slack in (0, 4, 28, "hdr", 100):
                    for post in POSTS:
                        for tail in ("none", "var"):
                            yield [kind, list(t), slack, post, tail]


def setup(case, ctx):
    kind, t, slack, post, tail = case
    used = sum(len(var_bytes(kind, POOL[i])) for i in t)
    size = 28 + used + (HDR[kind] if slack == "hdr" else slack)
    follow = var_bytes(kind, POOL[3])
    p = follow if POSTS[post] is None else POSTS[post]
    img, fv_len = image(kind, size, [POOL[i] for i in t], p, follow if tail == "var" else b"")
    path = os.path.join(ctx.tmp(), "rom.bin")
    with open(path, "wb") as f:
        f.write(img)
    return path, img, fv_len, size


def view(v, kind):
    r = [v.Name, bytes(v.Data), v.VendorGuid, v.State, v.Attributes]
    return r + ([v.MonotonicCount, v.TimeStamp, v.PubKeyIndex] if kind == "AuthVar" else [])


def want_view(i, kind):
    n, d, g, s, a = POOL[i]
    return [n, d, GUIDS[g], s, a] + ([3 + a, bytes(range(16)), 9] if kind == "AuthVar" else [])


def run_load(case, ctx):
    from edk2toollib.uefi.edk2.variablestore_manulipulations import VariableStore

    kind, t, slack, post, tail = case
    path, img, fv_len, size = setup(case, ctx)
    vs = VariableStore(path, len(PRE), fv_len)
    ctx.eq([view(v, kind) for v in vs.variables], [want_view(i, kind) for i in t], "variables of the store")
    ctx.step()
    room = size - 28 - sum(len(var_bytes(kind, POOL[i])) for i in t)
    try:
        vs.flush_to_file()
        ctx.true(room >= HDR[kind], "a store without room for the terminator was written")
    except Exception as e:  # noqa: BLE001
        ctx.true(room < HDR[kind], f"a store whose variables fit was refused: {e}")
    del vs
    ctx.eq(open(path, "rb").read(), img, "writing back a store that was not changed")
    ctx.step()
    ctx.state(("load", repr(case)))


# -- histories -------------------------------------------------------------------------------------------------

OPS = [["add", 0], ["add", 3], ["add", 4], ["data", 0, "6162636465"], ["data", -1, ""], ["name", 0, "New"], ["state", 0, 0x3C], ["del", 0], ["swap"],
       ["flush"], ["reopen"]]


def gen_hist(tier):
    depth = 4 if tier == "quick" else 5
    for kind in HDR:
        for init, room in (([0], 150), ([1, 2], 60), ([3, 0], 300)):
            for k in range(1, depth + 1):
                for t in itertools.product(range(len(OPS)), repeat=k):
                    if t[-1] not in (9, 10) or (k > 1 and t[-1] == 10 and t[-2] == 10):
                        continue
                    if tier == "quick" and k == 4 and kind == "AuthVar" and init != [0]:
                        continue
                    yield [kind, init, room, list(t)]


def run_hist(case, ctx):
    from edk2toollib.uefi.edk2 import variable_format as VF
    from edk2toollib.uefi.edk2.variablestore_manulipulations import VariableStore

    kind, init, room, ops = case
    path, img, fv_len, size = setup([kind, init, room, "var", "var"], ctx)
    disk = img
    model = [list(POOL[i]) for i in init]
    saved = [list(v) for v in model]
    base = len(PRE)
    start = base + 72 + 28
    vs = VariableStore(path, base, fv_len)
    for o in ops:
        op = OPS[o]
        if op[0] == "add":
            n, d, g, s, a = POOL[op[1]]
            v = VF.VariableHeader() if kind == "Var" else VF.AuthenticatedVariableHeader()
            ctx.eq(type(v), type(vs.get_new_var_class()), "class of new variables")
            v.set_name(n)
            v.set_data(d)
            v.VendorGuid, v.State, v.Attributes = GUIDS[g], s, a
            if kind == "AuthVar":
                v.MonotonicCount, v.TimeStamp, v.PubKeyIndex = 3 + a, bytes(range(16)), 9
            vs.add_variable(v)
            model.append([n, d, g, s, a])
        elif op[0] in ("data", "name", "state", "del"):
            if not model:
                continue
            i = op[1]
            if op[0] == "data":
                vs.variables[i].set_data(bytes.fromhex(op[2]))
                model[i][1] = bytes.fromhex(op[2])
            elif op[0] == "name":
                vs.variables[i].set_name(op[2])
                model[i][0] = op[2]
            elif op[0] == "state":
                vs.variables[i].State = op[2]
                model[i][3] = op[2]
            else:
                del vs.variables[i]
                del model[i]
        elif op[0] == "swap":
            vs.variables.reverse()
            model.reverse()
        elif op[0] == "flush":
            body = b"".join(var_bytes(kind, v) for v in model) + b"\xff" * HDR[kind]
            fits = len(body) <= size - 28
            try:
                vs.flush_to_file()
                ctx.true(fits, "a store that does not fit was written")
            except Exception as e:  # noqa: BLE001
                ctx.true(not fits, f"a store that fits was refused: {e}")
            if fits:
                disk = disk[:start] + body + disk[start + len(body):]
                saved = [list(v) for v in model]
        else:
            del vs
            ctx.eq(open(path, "rb").read(), disk, f"image after {ops}")
            vs = VariableStore(path, base, fv_len)
            model = [list(v) for v in saved]
        ctx.eq([[v.Name, bytes(v.Data), v.VendorGuid, v.State, v.Attributes] for v in vs.variables],
               [[n, d, GUIDS[g], s, a] for n, d, g, s, a in model], f"variables after {op}")
        ctx.eq(open(path, "rb").read(), disk, f"image after {op}")
        ctx.step()
        ctx.state((kind, repr(model), hash(disk)))
    del vs
    ctx.eq(open(path, "rb").read(), disk, "image after closing")


# -- images that have to be refused ------------------------------------------------------------------------------


def gen_bad(tier):
    for kind in HDR:
        for what in ("none", "fvsig", "fvguid", "size", "beyond", "storesig", "format", "state", "missing", "cut 1", "cut 30", "cut tail", "base", "other state", "other format"):
            for t in ([], [0], [3, 1]):
                yield [kind, what, t]


def run_bad(case, ctx):
    from edk2toollib.uefi.edk2.variablestore_manulipulations import VariableStore

    kind, what, t = case
    path, img, fv_len, size = setup([kind, t, 100, "var", "none"], ctx)
    b = bytearray(img)
    base, n = len(PRE), fv_len
    if what == "fvsig":
        b[base + 40] ^= 1
    elif what == "fvguid":
        b[base + 16] ^= 1
    elif what == "size":
        n += 4
    elif what == "beyond":
        n = len(b)
    elif what == "storesig":
        b[base + 72] ^= 1
    elif what == "format":
        b[base + 72 + 20] = 0xFF
    elif what == "state":
        b[base + 72 + 21] = 0xFF
    elif what.startswith("cut"):
        # the file ends before the volume does; nothing after the volume is needed
        b = b[:base + n - (0 if what == "cut tail" else int(what[4:]))]
    elif what == "base":
        base += 8
    elif what == "other format":
        b[base + 72 + 20] = 0x5B
    elif what == "other state":
        b[base + 72 + 21] = 0xFC
    elif what == "missing":
        path += ".x"
    if what != "missing":
        with open(path, "wb") as f:
            f.write(b)
    try:
        VariableStore(path, base, n)
        ctx.true(what in ("none", "cut tail"), "an unusable image was accepted")
    except Exception as e:  # noqa: BLE001
        ctx.true(what not in ("none", "cut tail"), f"a good image was refused: {e}")
    if what != "missing":
        ctx.eq(open(path, "rb").read(), bytes(b), "image after refusal")
    ctx.state((kind, what, repr(t)))


# -- sizes: number of variables, length of names and data ---------------------------------------------------


def gen_sizes(tier):
    for kind in HDR:
        for n in counts(tier, 513, 1, 40):
            yield [kind, "many", n]
        for n in counts(tier, 4097, 0, 40):
            yield [kind, "data", n]
            yield [kind, "name", n]
        for n in (65535, 65536, 65537, 200000):
            yield [kind, "data", n]


def run_sizes(case, ctx):
    from edk2toollib.uefi.edk2.variablestore_manulipulations import VariableStore

    kind, what, n = case
    if what == "many":
        vs = [[f"V{i}", bytes([i & 0xFF]) * (i % 7), i % 2, 0x3F, 7] for i in range(n)]
    elif what == "data":
        vs = [["a", b"x", 0, 0x3F, 7], ["b", bytes(i * 7 & 0xFF for i in range(n)), 1, 0x3F, 7], ["c", b"yy", 0, 0x3F, 7]]
    else:
        vs = [["a", b"x", 0, 0x3F, 7], [("n" * n)[:n], b"data", 1, 0x3F, 7], ["c", b"yy", 0, 0x3F, 7]]
    size = 28 + sum(len(var_bytes(kind, v)) for v in vs) + HDR[kind] + 64
    img, fv_len = image(kind, size, vs, b"POST" * 5, b"")
    path = os.path.join(ctx.tmp(), "rom.bin")

    def stored():
        return [[v.Name, bytes(v.Data), v.VendorGuid] for v in VariableStore(path, len(PRE), fv_len).variables]

    with open(path, "wb") as f:
        f.write(img)
    want = [[v[0], v[1], GUIDS[v[2]]] for v in vs]
    ctx.true(stored() == want, f"variables of a store ({what} {n})")
    s = VariableStore(path, len(PRE), fv_len)
    s.flush_to_file()
    with open(path, "rb") as f:
        ctx.true(f.read() == img, f"written back unchanged ({what} {n})")
    for at in sorted({0, len(vs) // 2, len(vs) - 1}):  # without one of them
        with open(path, "wb") as f:
            f.write(img)
        s = VariableStore(path, len(PRE), fv_len)
        del s.variables[at]
        s.flush_to_file()
        ctx.true(stored() == want[:at] + want[at + 1:], f"store without variable {at} ({what} {n})")
        with open(path, "rb") as f:
            got = f.read()
        ctx.eq(len(got), len(img), "size of the image")
        body = b"".join(var_bytes(kind, v) for v in vs[:at] + vs[at + 1:]) + b"\xff" * HDR[kind]
        start = len(PRE) + 72 + 28
        ctx.true(got == img[:start] + body + img[start + len(body):], f"image without variable {at} ({what} {n})")
    with open(path, "wb") as f:
        f.write(img)
    s = VariableStore(path, len(PRE), fv_len)  # one with the longest data changed
    big = bytes(len(vs[-1][1]) + 1)
    s.variables[-1].set_data(big)
    s.flush_to_file()
    ctx.true(stored() == want[:-1] + [[want[-1][0], big, want[-1][2]]], f"last variable changed ({what} {n})")
    ctx.state(tuple(case))


SUITES = [
    Suite("sizes", gen_sizes, run_sizes, "number of variables, length of names and data", "<=513 variables, names to 4097 characters, data to 200000 bytes"),
    Suite("load", gen_load, run_load, "images with variables, room left and surroundings", {"quick": "<=2 of 5 variables", "thorough": "<=3"}),
    Suite("histories", gen_hist, run_hist, "sequences of changes, flushes and reopenings", {"quick": "depth <=4 over 11 operations", "thorough": "depth <=5"}),
    Suite("refused", gen_bad, run_bad, "damaged headers and wrong bases", "15 defects x 2 kinds"),
]
