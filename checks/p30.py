"""P30: firmware policies keep exactly their rules through any building, serialising and parsing; others are refused."""

import contextlib
import io
import itertools
import struct
import uuid

from lib.mc import Suite
from lib.sizes import counts

PUB = uuid.UUID("5AE6F808-8384-4EB9-A23A-0CCC1093E3DD")
OTHER = uuid.UUID("00112233-4455-6677-8899-aabbccddeeff")
KEY = 0xEF100000
STR, DW, QW = 0, 2, 5

# A rule is [root key, sub key name, value name, type, value]


class Bad(Exception):
    pass


# -- an independent reader and writer ---------------------------------------------------------------------------


def rd(fmt, b, at):
    n = struct.calcsize(fmt)
    if at < 0 or at + n > len(b):
        raise Bad()
    return struct.unpack(fmt, b[at:at + n])


def rd_str(t, at):
    (n,) = rd("<H", t, at)
    d = t[at + 2:at + 2 + n]
    if len(d) != n:
        raise Bad()
    try:
        return d.decode("utf-16-le"), at + 2 + n
    except UnicodeDecodeError:
        raise Bad() from None


def read(b, strict=False):
    """-> (header, legacy entries, rules, offset of the table); rules also carry the offset after the value"""
    if len(b) < 32:
        raise Bad()
    fv, pv, pub, r1 = rd("<HI16sH", b, 0)
    if fv > 2:
        raise Bad()
    at = 24 + 16 * r1
    opt, r2, rn = rd("<IHH", b, at)
    at += 8
    if strict and (r1 or r2):
        raise Bad()
    legacy = [list(rd("<III", b, at + 12 * i)) for i in range(r2)]
    at += 12 * r2
    heads = [rd("<IIII", b, at + 16 * i) for i in range(rn)]
    at += 16 * rn
    t = b[at:]
    rules, ends = [], []
    for key, o1, o2, o3 in heads:
        s, v = rd_str(t, o1)[0], rd_str(t, o2)[0]
        (ty,) = rd("<H", t, o3)
        o3 += 2
        if ty == STR:
            val, end = rd_str(t, o3)
        elif ty == DW:
            val, end = rd("<I", t, o3)[0], o3 + 4
        elif ty == QW:
            val, end = rd("<Q", t, o3)[0], o3 + 8
        elif strict:
            raise Bad()
        else:
            val, end = None, o3
        rules.append([key, s, v, ty, val])
        ends.append(end)
    r1s = [b[24 + 16 * i:40 + 16 * i] for i in range(r1)]
    return (fv, pv, uuid.UUID(bytes_le=pub), r1s, opt), legacy, rules, t, ends


def wr_str(s):
    d = s.encode("utf-16-le", "surrogatepass")
    return struct.pack("<H", len(d)) + d


def wr_val(ty, v):
    return struct.pack("<H", ty) + (wr_str(v) if ty == STR else struct.pack("<I" if ty == DW else "<Q", v) if ty in (DW, QW) else b"")


def head(rules, r2=0, fv=2, pv=1, pub=PUB, r1=b"", opt=0):
    return struct.pack("<HI16sH", fv, pv, pub.bytes_le, len(r1) // 16) + r1 + struct.pack("<IHH", opt, r2, rules)


def write(rules, share=True, order=1, gap=0, legacy=(), **kw):
    """a policy whose table holds each string and value once (or once per rule), in either order, with gaps"""
    chunks = []
    for r in rules:
        for c in (wr_str(r[1]), wr_str(r[2]), wr_val(r[3], r[4])):
            if not share or c not in chunks:
                chunks.append(c)
    table, where = b"", {}
    for i, c in list(enumerate(chunks))[::order]:
        table += b"\xa5" * gap
        where.setdefault(c, []).append(len(table))
        table += c
    for v in where.values():
        v.sort()
    b = head(len(rules), len(legacy), **kw)
    for x in legacy:
        b += struct.pack("<III", *x)
    for r in rules:
        b += struct.pack("<IIII", r[0], *[where[c][0] if share else where[c][-1] for c in (wr_str(r[1]), wr_str(r[2]), wr_val(r[3], r[4]))])
    return b + table


# -- the library's view -------------------------------------------------------------------------------------------


def lib():
    from edk2toollib.windows.policy import firmware_policy

    return firmware_policy


def mk(r):
    L = lib()
    v = L.PolicyString(r[4]) if r[3] == STR else r[4]
    return L.Rule(r[0], L.PolicyString(r[1]), L.PolicyString(String=r[2]), L.PolicyValue(L.PolicyValueType(r[3]), v))


def view(o):
    rules = []
    for r in o.Rules:
        ty = r.Value.GetValueType().Get()
        v = r.Value.value
        rules.append([r.RootKey, r.SubKeyName.String, r.ValueName.String, ty, v.String if ty == STR else v if ty in (DW, QW) else None])
    return rules


def header(o):
    return (o.FormatVersion, o.PolicyVersion, o.PolicyPublisher, [x.bytes_le for x in o.Reserved1], o.OptionFlags)


def load(b, how, pre=b""):
    L = lib()
    fs = io.BytesIO(pre + b)
    fs.seek(len(pre))
    if how == "ctor":
        return L.FirmwarePolicy(fs)
    o = L.FirmwarePolicy()
    o.FromFileStream(fs, how == "bytes")
    return o


def check(o, ctx, want, hdr=None):
    """what the object holds and what it serialises to, read independently"""
    ctx.eq(view(o), want, "rules")
    ctx.eq(o.RulesCount, len(want), "RulesCount")
    out = bytearray(b"before")
    o.Serialize(out)
    ctx.eq(bytes(out[:6]), b"before", "output before the policy")
    b = bytes(out[6:])
    st = io.BytesIO()
    o.SerializeToStream(st)
    ctx.eq(st.getvalue(), b, "policy written to a stream")
    h, legacy, rules, table, ends = read(b)
    ctx.eq(rules, want, "serialised rules")
    ctx.eq(legacy, [], "legacy entries")
    ctx.eq(h, hdr or (2, 1, PUB, [], 0), "serialised header")
    for r, e in zip(rules, ends):
        ctx.true(e <= len(table) and (r[3] != STR or table[e:e + 2] == b"\0\0"), f"value of {r} ends within the table, strings with a NUL")
    ctx.eq((o.ValueTableOffset, o.ValueTableSize), (len(b) - len(table), len(table)), "place of the value table")
    ctx.eq(view(o), want, "rules after serialising")
    return b


# -- histories ------------------------------------------------------------------------------------------------------

RULES = [
    [KEY, "UEFI", "Policy", QW, 1],
    [KEY, "UEFI", "Policy", QW, 2],
    [KEY, "UEFI", "Policy", DW, 1],
    [KEY, "Target", "Manufacturer", STR, "Contoso"],
    [KEY, "Target", "Manufacturer", STR, ""],
    [0x81000000, "UEFI", "Policy", QW, 1],
    [KEY, "", "", STR, "\U0001f600\ufeff"],
]
TARGETS = [{"Manufacturer": "Contoso", "Nonce": 2**64 - 1}, {"Nonce": 0}, {"Product": "Nonce", "Manufacturer": ""}, {}]
OPS = [["add", i] for i in range(len(RULES))] + [["policy", 1], ["policy", 2**63]] + [["target", i] for i in range(len(TARGETS))] + [["bytes"], ["offset"], ["ctor"]]


def gen_hist(tier):
    n = 3 if tier == "quick" else 4
    for k in range(n + 1):
        yield from (list(x) for x in itertools.product(range(len(OPS)), repeat=k))


def run_hist(case, ctx):
    o = lib().FirmwarePolicy()
    want = []
    b = check(o, ctx, want)
    for i in case:
        op = OPS[i]
        if op[0] == "add":
            r = RULES[op[1]]
            ctx.eq(o.AddRule(mk(r)), r not in want, f"AddRule({r})")
            new = [r]
        elif op[0] == "policy":
            o.SetDevicePolicy(op[1])
            new = [[KEY, "UEFI", "Policy", QW, op[1]]]
        elif op[0] == "target":
            o.SetDeviceTarget(dict(TARGETS[op[1]]))
            new = [[KEY, "Target", k, QW if k == "Nonce" else STR, v] for k, v in TARGETS[op[1]].items()]
        else:
            o = load(b, op[0], b"xyz" if len(want) % 2 else b"")
            new = []
        want = want + [r for r in new if r not in want]
        b = check(o, ctx, want)
        ctx.state(want)


# -- rules and values ---------------------------------------------------------------------------------------------

STRINGS = ["", "A", "AB", "\xe9", "\U0001f600", "a\U0010ffffb", "\0", "A\0", "\ufeff", "\uffff", " ", "x" * 300, "y" * 32767]
VALUES = [[STR, s] for s in STRINGS] + [[DW, v] for v in (0, 1, 0x7FFFFFFF, 0x80000000, 0xFFFFFFFF)] + [[QW, v] for v in (0, 1, 2**32, 2**63 - 1, 2**63, 2**64 - 1)]
KEYS = [0, 1, KEY, 0xFFFFFFFF]


def gen_values(tier):
    for s in STRINGS:
        for n in STRINGS[:7]:
            for v in VALUES:
                yield [[KEY, s, n, *v]]
                yield [[KEY, n, s, *v]]
    for k in KEYS:
        for v in VALUES:
            for w in VALUES:
                yield [[k, "S", "N", *v], [k, "S", "M", *w]]


def run_values(case, ctx):
    L = lib()
    o = L.FirmwarePolicy()
    for r in case:
        ctx.true(o.AddRule(mk(r)), "AddRule")
        # the parts on their own, at the beginning and in the middle of bytes and streams
        for c, d, pick in (
            (wr_str(r[1]), L.PolicyString, lambda x: x.String),
            (wr_val(r[3], r[4]), L.PolicyValue, lambda x: [x.valueType.vt, x.value.String if r[3] == STR else x.value]),
            (wr_val(r[3], r[4]), L.PolicyValueType, lambda x: x.Get()),
        ):
            want = {L.PolicyString: r[1], L.PolicyValue: [r[3], r[4]], L.PolicyValueType: r[3]}[d]
            for pre in (b"", b"\xff" * 3):
                buf = pre + c + b"\xee"
                ctx.eq(pick(d.FromBytes(buf, len(pre))), want, "FromBytes")
                fs = io.BytesIO(buf)
                fs.seek(1)
                ctx.eq(pick(d.FromFileStream(fs, len(pre))), want, "FromFileStream at an offset")
                fs.seek(len(pre))
                ctx.eq(pick(d.FromFileStream(fs)), want, "FromFileStream")
            out = bytearray(b"q")
            d.FromBytes(c).Serialize(out)
            full = c + (b"\0\0" if d is L.PolicyValue and r[3] == STR else b"")
            ctx.eq(bytes(out), b"q" + (full if d is not L.PolicyValueType else c[:2]), "Serialize")
            ctx.step()
    b = check(o, ctx, case)
    for how in ("bytes", "offset", "ctor"):
        ctx.eq(check(load(b, how), ctx, case), b, "policy after a round trip")
    ctx.state(case)


def gen_eq(tier):
    base = [KEY, "Sub", "Name", STR, "V"]
    alts = [[base]]
    for i, vs in ((0, KEYS), (1, STRINGS[:8]), (2, STRINGS[:8])):
        alts.append([base[:i] + [v] + base[i + 1:] for v in vs])
    alts.append([base[:3] + v for v in VALUES])
    flat = [r for a in alts for r in a]
    for a, b in itertools.product(range(len(flat)), repeat=2):
        yield [flat[a], flat[b]]


def run_eq(case, ctx):
    a, b = mk(case[0]), mk(case[1])
    same = case[0] == case[1]
    ctx.eq(a == b, same, "equality of the rules")
    ctx.eq(a != b, not same, "inequality of the rules")
    # offsets do not matter
    sink = bytearray()
    b.Serialize(sink, bytearray(), 100)
    ctx.eq(a == b, same, "equality with other offsets")
    ctx.state(case)


# -- parsing ------------------------------------------------------------------------------------------------------------

POOL = [
    [KEY, "Target", "Target", STR, "Target"],
    [KEY, "Target", "Nonce", QW, 2**63],
    [KEY, "UEFI", "Policy", QW, 3],
    [0x81000000, "", "UEFI", DW, 0xFFFFFFFF],
    [0, "UEFI", "", STR, ""],
]
LEGACY = [[1, 2, 3], [0xFFFFFFFF, 0, 0x80000000]]


def gen_parse(tier):
    n = 3 if tier == "quick" else 4
    for k in range(n + 1):
        for t in itertools.product(range(len(POOL)), repeat=k):
            for share in (True, False):
                for order in (1, -1):
                    for gap in (0, 1, 5):
                        yield [list(t), share, order, gap, 0, "std"]
    for t in ([], [0], [1, 2]):
        for leg in (0, 1, 2):
            for h in ("std", "old", "opt", "res1", "res2", "max"):
                for pre in (True, False):
                    yield [t, pre, 1, 0, leg, h]


HEADS = {
    "std": {},
    "old": {"fv": 0, "pv": 0, "pub": OTHER},
    "opt": {"fv": 1, "pv": 7, "opt": 0x80000001},
    "res1": {"r1": OTHER.bytes_le},
    "res2": {"r1": OTHER.bytes_le + PUB.bytes_le},
    "max": {"pv": 0xFFFFFFFF, "opt": 0xFFFFFFFF},
}


def run_parse(case, ctx):
    t, share, order, gap, leg, h = case
    rules = [POOL[i] for i in t]
    b = write(rules, share, order, gap, LEGACY[:leg], **HEADS[h])
    hd, legacy, want, table, _ = read(b)
    ctx.eq((want, legacy), (rules, LEGACY[:leg]), "self check of the reference")
    for how in ("bytes", "offset", "ctor"):
        for pre in (b"", b"\0" * 37):
            o = load(b, how, pre)
            ctx.eq(view(o), rules, f"rules, parsed by {how} at {len(pre)}")
            ctx.eq(header(o), hd, "header")
            ctx.eq((o.RulesCount, o.Reserved2Count, o.Reserved1Count), (len(rules), leg, len(hd[3])), "counts")
            ctx.eq([[x.ObjectType, x.Element, x.OffsetToValue] for x in o.Reserved2], legacy, "legacy entries")
            ctx.eq(bytes(o.ValueTable), table, "value table")
            ctx.eq(o.ValueTableSize, len(table), "size of the value table")
            if not leg and not hd[3]:
                check(o, ctx, rules, hd)
            # an object that is used again holds nothing of its former policy
            o.FromFileStream(io.BytesIO(write(POOL[2:4])), how != "offset")
            ctx.eq((view(o), header(o), o.Reserved2), (POOL[2:4], (2, 1, PUB, [], 0), []), "object used again")
            check(o, ctx, POOL[2:4])
    ctx.state(b)


MALF = [write(POOL[1:2]), write(POOL[:1] + POOL[4:5]), write(POOL[2:3], legacy=LEGACY[:1], r1=OTHER.bytes_le), write([])]


def gen_bad(tier):
    for m, b in enumerate(MALF):
        for i in range(len(b) + 1):
            yield [m, "cut", i]
            yield [m, "insert", i, 0]
            if i < len(b):
                yield [m, "delete", i]
                for v in range(256):
                    yield [m, "byte", i, v]
    if tier != "quick":
        for m, b in enumerate(MALF):
            for i in range(len(b) - 1):
                for j in range(i + 1, min(len(b), i + 20)):
                    for v in (0, 1, 2, 5, 9, 0x10, 0x7F, 0xD8, 0xFF):
                        for w in (0, 1, 2, 5, 0x20, 0xDC, 0xFF):
                            yield [m, "two", i, v, j, w]


def run_bad(case, ctx):
    L = lib()
    b = bytearray(MALF[case[0]])
    if case[1] == "cut":
        b = b[:case[2]]
    elif case[1] == "insert":
        b[case[2]:case[2]] = bytes([case[3]])
    elif case[1] == "delete":
        del b[case[2]]
    else:
        b[case[2]] = case[3]
        if case[1] == "two":
            b[case[4]] = case[5]
    b = bytes(b)
    for strict in (False, True):
        try:
            want = read(b, strict)
        except Bad:
            want = None
        for how in ("bytes", "offset"):
            L.STRICT = strict
            try:
                o = load(b, how)
            except Exception:
                ctx.eq(True, want is None, f"refused (strict {strict}, by {how})")
                continue
            finally:
                L.STRICT = False
            ctx.true(want is not None, f"{b.hex()} was accepted (strict {strict}, by {how})")
            ctx.eq((header(o), [[x.ObjectType, x.Element, x.OffsetToValue] for x in o.Reserved2], view(o), bytes(o.ValueTable)), want[:4], "contents")
    ctx.state(b)


# -- the printed policy -----------------------------------------------------------------------------------------------


def gen_print(tier):
    for i in range(64):
        for j in (None, 0, 1, 16, 63):
            yield [(1 << i) | (0 if j is None else 1 << j)]
    for v in (0, 3, 2**64 - 1, 2**64 - 4):
        yield [v]


def run_print(case, ctx):
    v = case[0]
    o = lib().FirmwarePolicy()
    o.SetDeviceTarget({"Manufacturer": "Contoso", "Nonce": 5})
    o.SetDevicePolicy(v)
    b = check(o, ctx, view(o))
    for p in (o, load(b, "bytes")):
        out = io.StringIO()
        with contextlib.redirect_stdout(out):
            p.Print()
        text = out.getvalue()
        for bit, words in ((1, "Clear UEFI Secure Boot Keys"), (2, "Clear the Trusted Platform Module (TPM)")):
            ctx.eq(text.count(words), 1 if v & bit else 0, f"action {words!r}")
        ctx.true(f"0x{v:x}\n" in text and "Contoso" in text and str(PUB) in text, "printed values")
        ctx.eq(check(p, ctx, view(p)), b, "policy after printing")
    ctx.state(v)


# -- sizes: number of rules, length of names and values ---------------------------------------------------------


def gen_sizes(tier):
    for n in counts(tier, 513 if tier == "quick" else 1025, 0):
        for what in ("rules", "same", "names"):
            yield [what, n]
    for n in [*counts(tier, 4097, 0), 16383, 16384, 32766, 32767]:
        for what in ("value", "sub", "name"):
            yield [what, n]


def run_sizes(case, ctx):
    what, n = case
    x = "x" * n
    if what == "rules":
        rules = [[KEY, f"Sub{i % 7}", f"Name{i}", (STR, DW, QW)[i % 3], f"v{i}" if i % 3 == 0 else i] for i in range(n)]
    elif what == "same":
        rules = [[KEY, "S", "N", DW, i] for i in range(n)]
    elif what == "names":
        rules = [[KEY, "S" * (i % 50), "N" * (i // 50), QW, 1] for i in range(n)]
    else:
        rules = [[KEY, "A", "B", STR, "before"], [KEY, x if what == "sub" else "Sub", x if what == "name" else "Name", STR, x if what == "value" else "v"],
                 [KEY, "C", "D", QW, 5]]
    o = lib().FirmwarePolicy()
    for r in rules:
        ctx.true(o.AddRule(mk(r)), f"AddRule ({what} {n})")
    if n <= 64:
        for r in rules:
            ctx.true(not o.AddRule(mk(r)), f"AddRule of a rule that is there ({what} {n})")
    b = check(o, ctx, rules)
    for how in ("bytes", "ctor"):
        ctx.true(check(load(b, how), ctx, rules) == b, f"policy after a round trip ({what} {n})")
    b = write(rules, share=False)
    check(load(b, "ctor"), ctx, rules)
    ctx.state(tuple(case))


SUITES = [
    Suite("sizes", gen_sizes, run_sizes, "number of rules, length of names and values", "<=513 (1025) rules, names and values to 32767 characters"),
    Suite("histories", gen_hist, run_hist, "adding rules, device policies and targets, serialising and parsing again", {"quick": f"<=3 of {len(OPS)} operations", "thorough": f"<=4 of {len(OPS)} operations"}),
    Suite("values", gen_values, run_values, "names, types and values of rules, and the parts on their own", f"{len(STRINGS)} strings, {len(VALUES)} values, pairs of rules"),
    Suite("equality", gen_eq, run_eq, "equality of rules", "all pairs of rules that differ in one field or are equal"),
    Suite("parsing", gen_parse, run_parse, "layouts of the value table, headers, legacy entries, both ways of parsing, used objects", {"quick": "<=3 rules of 5", "thorough": "<=4 rules of 5"}),
    Suite("malformed", gen_bad, run_bad, "cuts, insertions, deletions and byte changes in 4 policies, strict and not", {"quick": "all values of every byte", "thorough": "also 63 values of near pairs of bytes"}),
    Suite("printing", gen_print, run_print, "the actions printed for a device policy", "all bits and pairs with 4 bits"),
]
