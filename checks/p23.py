"""P23: variable policy entries are decoded exactly."""

import itertools
import struct
import uuid

from lib.mc import Suite

NS = [uuid.UUID(int=0), uuid.UUID("00112233-4455-6677-8899-aabbccddeeff"), uuid.UUID(int=2**128 - 1)]
NAMES = [None, "A", "Boot####", "\u00e9\u0100", "x\U0001f600y", "\ufeffn", "\u0100\u0041", "n" * 20]
LOCKS = {0: "NONE", 1: "NOW", 2: "ON_CREATE", 3: "ON_VAR_STATE"}
STATE_NAMES = ["S", "\u0100\u0200", "Long State", "\ufeffs"]
NUMS = [(0, 0xFFFFFFFF, 0, 0), (1, 2, 7, 0x40), (0xFFFFFFFF, 0, 0x80000000, 0x7F), (0x12345678, 0x9ABCDEF0, 0x01020304, 0x10203040)]
BITS = [("NON_VOLATILE", 1), ("BOOTSERVICE_ACCESS", 2), ("RUNTIME_ACCESS", 4), ("HARDWARE_ERROR_RECORD", 8),
        ("AUTHENTICATED_WRITE_ACCESS", 16), ("TIME_BASED_AUTHENTICATED_WRITE_ACCESS", 32), ("APPEND_WRITE", 64)]


def u16(s, end=True):
    return s.encode("utf-16-le") + (b"\0\0" if end else b"")


def lock_bytes(ns, value, name, end=True):
    return NS[ns].bytes_le + bytes([value, 0xAF]) + u16(name, end)


def entry(ns, nums, lock, lockbody, name, version=0x10000, size=None):
    nm = u16(name) if name is not None else b""
    off = 44 + len(lockbody)
    return struct.pack("<IHH16sIIIIB3s", version, off + len(nm) if size is None else size, off, NS[ns].bytes_le, *nums, lock, b"\xaf\0\1") + lockbody + nm


def names(attr):
    return sorted("EFI_VARIABLE_" + n for n, b in BITS if attr & b)


def gen_entry(tier):
    for ns in range(len(NS)):
        for n in range(len(NAMES)):
            for k in range(len(NUMS)):
                for lock in LOCKS:
                    states = [None] if lock != 3 else itertools.product(range(len(NS)), (0, 1, 255), range(len(STATE_NAMES)))
                    for s in states:
                        yield [ns, n, k, lock, list(s) if s else None]


def check_entry(ctx, e, ns, n, k, lock, s, xref=True):
    ctx.eq([e.Namespace, e.Name, e.LockPolicyType], [NS[ns], NAMES[n], lock], "namespace, name and lock type")
    ctx.eq((e.MinSize, e.MaxSize, e.AttributesMustHave, e.AttributesCantHave), NUMS[k], "sizes and attributes")
    if s:
        ctx.eq([e.LockPolicy.Namespace, e.LockPolicy.Value, e.LockPolicy.Name], [NS[s[0]], s[1], STATE_NAMES[s[2]]], "lock state")
    else:
        ctx.eq(e.LockPolicy, None, "lock state")
    for x in ({}, None, {NS[1]: "gOne", NS[2]: "gTwo"}):
        row = e.csv_row() if x is None else e.csv_row(x)
        x = x or {}
        g = lambda i: x.get(NS[i], NS[i])  # noqa: E731
        ctx.eq(len(row), len(e.csv_header()), "columns")
        d = dict(zip(e.csv_header(), row))
        must, cant = d.pop("AttributesMustHave"), d.pop("AttributesCantHave")
        ctx.eq([sorted(filter(None, must.split(","))), sorted(filter(None, cant.split(",")))], [names(NUMS[k][2]), names(NUMS[k][3])], "attribute columns")
        ctx.eq(d, {"Namespace": g(ns), "Name": NAMES[n], "LockPolicyType": LOCKS[lock], "VarStateNamespace": g(s[0]) if s else "N/A",
                   "VarStateName": STATE_NAMES[s[2]] if s else "N/A", "VarStateValue": s[1] if s else "N/A",
                   "MinSize": "0x%08X" % NUMS[k][0], "MaxSize": "0x%08X" % NUMS[k][1]}, "csv row")
    t = str(e)
    for part in (str(NS[ns]), str(NAMES[n])) + tuple("0x%08X" % v for v in NUMS[k]) + ((STATE_NAMES[s[2]],) if s else (LOCKS[lock],)):
        ctx.true(part in t, f"{part!r} is missing in {t!r}")


def run_entry(case, ctx):
    from edk2toollib.uefi.edk2.variable_policy import VariableLockOnVarStatePolicy, VariablePolicyEntry

    ns, n, k, lock, s = case
    body = lock_bytes(s[0], s[1], STATE_NAMES[s[2]]) if s else b""
    b = entry(ns, NUMS[k], lock, body, NAMES[n])
    for rest in (b"", b"\0", b"next entry"):
        e = VariablePolicyEntry()
        ctx.eq(e.decode(b + rest), rest, "what is left after the entry")
        check_entry(ctx, e, ns, n, k, lock, s)
        ctx.step()
        if s:
            p = VariableLockOnVarStatePolicy()
            ctx.eq(p.decode(body + rest), rest, "what is left after the lock state")
            ctx.eq([p.Namespace, p.Value, p.Name], [NS[s[0]], s[1], STATE_NAMES[s[2]]], "lock state alone")
            ctx.true(str(NS[s[0]]) in str(p) and STATE_NAMES[s[2]] in str(p), "text of the lock state")
    # an object that is used again
    e = VariablePolicyEntry()
    e.decode(entry(1, NUMS[1], 3, lock_bytes(1, 9, "Old"), "OldName"))
    e.decode(b)
    check_entry(ctx, e, ns, n, k, lock, s)
    ctx.step()
    ctx.state(repr(case))


def gen_seq(tier):
    kinds = [[0, 1, 0, 0, None], [1, 0, 1, 1, None], [2, 2, 2, 3, [1, 255, 2]], [1, 4, 3, 2, None], [0, 0, 1, 3, [2, 0, 1]]]
    for k in range(1, 4 if tier == "quick" else 6):
        for t in itertools.product(range(len(kinds)), repeat=k):
            yield [kinds[i] for i in t]


def run_seq(case, ctx):
    from edk2toollib.uefi.edk2.variable_policy import VariablePolicyEntry

    buf = b""
    for ns, n, k, lock, s in case:
        buf += entry(ns, NUMS[k], lock, lock_bytes(s[0], s[1], STATE_NAMES[s[2]]) if s else b"", NAMES[n])
    one = VariablePolicyEntry()
    buf1 = buf
    for c in case:
        e = VariablePolicyEntry()
        buf = e.decode(buf)
        check_entry(ctx, e, *c)
        buf1 = one.decode(buf1)
        check_entry(ctx, one, *c)
        ctx.step()
    ctx.eq((buf, buf1), (b"", b""), "what is left in the end")
    ctx.state(repr(case))


def gen_bad(tier):
    for v in (0, 0xFFFF, 0x10001, 0x20000, 0x100, 0xFFFFFFFF):
        yield ["version", v]
    for v in range(4, 256):
        yield ["lock", v]
    for v in range(44):
        yield ["short", v]
    for name in STATE_NAMES + [""]:
        for cut in range(0, 21):
            yield ["state", name, cut]


def run_bad(case, ctx):
    from edk2toollib.uefi.edk2.variable_policy import VariableLockOnVarStatePolicy, VariablePolicyEntry

    good = entry(1, NUMS[1], 0, b"", "Name")
    what = case[0]
    if what == "state":
        body = lock_bytes(1, 2, case[1], end=False)
        for extra in (b"", b"\0", b"A\0", b"\0A", b"A\0\0", b"\0A\0"):
            # no aligned terminator within
            x = (body + extra)[case[2]:]
            t = x[18:]
            if any(t[i:i + 2] == b"\0\0" for i in range(0, len(t), 2)):
                continue
            for how in ("alone", "entry"):
                try:
                    if how == "alone":
                        VariableLockOnVarStatePolicy().decode(x)
                    else:
                        VariablePolicyEntry().decode(entry(1, NUMS[1], 3, x, None))
                    ctx.fail("a lock state without the end of its name was accepted")
                except (ValueError, struct.error):
                    pass
                ctx.step()
        ctx.state(repr(case))
        return
    if what == "version":
        b = entry(1, NUMS[1], 0, b"", "Name", version=case[1])
    elif what == "lock":
        b = entry(1, NUMS[1], case[1], b"", "Name")
    else:
        b = good[: case[1]]
    try:
        VariablePolicyEntry().decode(b)
        ctx.fail("a malformed entry was accepted")
    except (ValueError, struct.error):
        pass
    e = VariablePolicyEntry()
    ctx.eq((e.decode(good), e.Name), (b"", "Name"), "the good entry")
    ctx.state(repr(case))


def gen_fresh(tier):
    for k in ("entry", "state"):
        for first in (None, 0, 1, 2, 3):
            yield [k, first]


def run_fresh(case, ctx):
    """New objects start empty: no limits, no attributes, no lock; whatever other objects decoded or were set to."""
    from edk2toollib.uefi.edk2.variable_policy import VariableLockOnVarStatePolicy, VariablePolicyEntry

    what, first = case
    body = lock_bytes(1, 9, "Old") if first == 3 else b""
    if first is not None:
        old = VariablePolicyEntry()
        old.decode(entry(1, NUMS[1], first, body, "OldName"))
    zero = uuid.UUID(int=0)
    if what == "state":
        p = VariableLockOnVarStatePolicy()
        ctx.eq([p.Namespace, p.Value, p.Name], [zero, 0, None], "a new lock state")
        ctx.true(str(zero) in str(p), "text of a new lock state")
        p.Namespace, p.Value, p.Name = NS[2], 77, "Set"
        ctx.true(all(x in str(p) for x in (str(NS[2]), "77", "Set")), "text of a lock state that was filled in")
        q = VariableLockOnVarStatePolicy()
        ctx.eq([q.Namespace, q.Value, q.Name], [zero, 0, None], "another new lock state")
    else:
        for _ in range(2):
            e = VariablePolicyEntry()
            ctx.eq([e.Version, e.Namespace, e.Name, e.LockPolicyType, e.LockPolicy], [0x10000, zero, None, 0, None], "a new entry")
            ctx.eq([e.MinSize, e.MaxSize, e.AttributesMustHave, e.AttributesCantHave], [0, 0xFFFFFFFF, 0, 0], "a new entry accepts every variable")
            d = dict(zip(e.csv_header(), e.csv_row()))
            ctx.eq([d[k] for k in ("Namespace", "Name", "LockPolicyType", "VarStateNamespace", "VarStateName", "VarStateValue", "MinSize", "MaxSize")],
                   [zero, None, "NONE", "N/A", "N/A", "N/A", "0x00000000", "0xFFFFFFFF"], "row of a new entry")
            ctx.true(all(x in str(e) for x in (str(zero), "NONE", "0x00000000", "0xFFFFFFFF")), "text of a new entry")
            e.decode(entry(2, NUMS[2], 2, b"", "Name"))
        # filled in by hand
        for lock, name in LOCKS.items():
            e = VariablePolicyEntry()
            e.Namespace, e.Name, e.LockPolicyType, e.MinSize, e.MaxSize = NS[1], "Mine", lock, 5, 0xABCDEF
            e.AttributesMustHave, e.AttributesCantHave = 3, 0x40
            if lock == 3:
                e.LockPolicy = VariableLockOnVarStatePolicy()
                e.LockPolicy.Namespace, e.LockPolicy.Value, e.LockPolicy.Name = NS[2], 7, "State"
            d = dict(zip(e.csv_header(), e.csv_row({NS[1]: "gOne"})))
            ctx.eq([d[k] for k in ("Namespace", "Name", "LockPolicyType", "VarStateNamespace", "VarStateName", "VarStateValue", "MinSize", "MaxSize")],
                   ["gOne", "Mine", name] + ([NS[2], "State", 7] if lock == 3 else ["N/A"] * 3) + ["0x00000005", "0x00ABCDEF"], "row of an entry filled in by hand")
            ctx.eq([sorted(filter(None, d[k].split(","))) for k in ("AttributesMustHave", "AttributesCantHave")], [names(3), names(0x40)], "attributes")
            ctx.step()
    ctx.state(repr(case))


SUITES = [
    Suite("fresh", gen_fresh, run_fresh, "new objects, before and after others were decoded; entries filled in by hand", "2 kinds x 5 histories x 4 locks"),
    Suite("entries", gen_entry, run_entry, "namespaces x names x numbers x locks", "3 x 8 x 4 x (3 + 36)"),
    Suite("sequences", gen_seq, run_seq, "entries one after the other", {"quick": "<=3 of 5", "thorough": "<=5 of 5"}),
    Suite("malformed", gen_bad, run_bad, "wrong versions, lock types, cut buffers", "all lock types, all lengths"),
]
