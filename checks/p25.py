"""P25: signature lists and databases are encoded, merged, sorted and de-duplicated without loss."""

import io
import itertools
import struct
import uuid

from lib.mc import Suite
from lib.sizes import counts

SHA = uuid.UUID("c1c41626-504c-4092-aca9-41f936934328")
X509 = uuid.UUID("a5c059a1-94e4-4aa7-87b5-ab155c2bf072")
OWN = [uuid.UUID(int=1), uuid.UUID("77fa9abd-0359-4d32-bd60-28f4e78f784b")]
HASH = [bytes([v]) * 31 + bytes([w]) for v, w in ((9, 0), (1, 0), (1, 1), (0xFF, 0), (0, 0))]
CERT = [b"\x30\x82cert-b", b"\x30\x82cert-a", b"\x30\x82cert-a-longer", b"\x30", b"\xff" * 48]
# an element: [data index, owner index]


def esl_bytes(kind, elems, size=None):
    data = HASH if kind == "S" else CERT
    body = b"".join(OWN[o].bytes_le + data[i] for i, o in elems)
    es = size if size is not None else (16 + len(data[elems[0][0]]) if elems else 48)
    return (SHA if kind == "S" else X509).bytes_le + struct.pack("<III", 28 + len(body), 0, es) + body


def split(b):
    """Parse the encoding of a database: [(type, size, [(owner, data)])]"""
    out = []
    while b:
        t = uuid.UUID(bytes_le=b[:16])
        ln, hs, es = struct.unpack("<III", b[16:28])
        body = b[28 + hs:ln]
        assert hs == 0 and len(b) >= ln >= 28, "malformed list"
        assert not body or (es and len(body) % es == 0), "malformed list size"
        out.append((t, es, [(body[i:i + 16], body[i + 16:i + es]) for i in range(0, len(body), es or 1)]))
        b = b[ln:]
    return out


def build(kind, elems, how):
    from edk2toollib.uefi.authenticated_variables_structure_support import (
        EfiSignatureDataEfiCertSha256,
        EfiSignatureDataEfiCertX509,
        EfiSignatureList,
    )

    if how == "decode" or not elems:
        return EfiSignatureList(filestream=io.BytesIO(esl_bytes(kind, elems)))
    e = EfiSignatureList(typeguid=SHA if kind == "S" else X509)
    data = HASH if kind == "S" else CERT
    e.AddSignatureHeader(None, SigSize=16 + len(data[elems[0][0]]))
    for i, o in elems:
        if kind == "S":
            e.AddSignatureData(EfiSignatureDataEfiCertSha256(digest=data[i], sigowner=OWN[o]))
        else:
            e.AddSignatureData(EfiSignatureDataEfiCertX509(cert=data[i], sigowner=OWN[o]))
    return e


def raw(kind, elems):
    d = HASH if kind == "S" else CERT
    return [(OWN[o].bytes_le, d[i]) for i, o in elems]


# -- signature lists --------------------------------------------------------------------------------------------


def gen_list(tier):
    pool = [[i, o] for i in range(4) for o in range(2)]
    n = 4 if tier == "quick" else 5
    for k in range(n + 1):
        for t in itertools.product(range(len(pool)), repeat=k):
            if k == n and len(set(x // 2 for x in t)) > 3:
                continue
            yield ["S", [pool[i] for i in t]]
    # certificates of one list have the same size
    for k in range(1, 4):
        for t in itertools.product([0, 1], [0, 1], repeat=k):
            yield ["X", [[t[2 * j], t[2 * j + 1]] for j in range(k)]]


def run_list(case, ctx):
    from edk2toollib.uefi.authenticated_variables_structure_support import EfiSignatureList

    kind, elems = case
    enc = esl_bytes(kind, elems)
    for how in ("decode", "build"):
        e = build(kind, elems, how)
        ctx.eq(e.encode(), enc, f"encoding ({how})")
        out = io.BytesIO()
        e.write(out)
        ctx.eq(out.getvalue(), enc, "write")
        fs = io.BytesIO(b"xx" + enc + b"tail")
        fs.seek(2)
        d = EfiSignatureList(filestream=fs)
        ctx.eq((d.encode(), fs.tell()), (enc, 2 + len(enc)), "decoded list and position")
        ctx.step(2)
        # sorting without removing anything
        e = build(kind, elems, how)
        dup = e.SortBySignatureDataValue(deduplicate=False)
        want = sorted(raw(kind, elems), key=lambda x: x[1])
        ctx.eq(split(e.encode())[0][2], want, "sorted list")
        ctx.eq(split(dup.encode())[0][2], [], "duplicates without deduplication")
        # with
        e = build(kind, elems, how)
        dup = e.SortBySignatureDataValue()
        first, rest = [], []
        for x in want:
            (rest if first and first[-1][1] == x[1] else first).append(x)
        t, es, got = split(e.encode())[0]
        ctx.eq((t, got), (SHA if kind == "S" else X509, first), "sorted list without duplicates (the first of each stays)")
        t, es, got = split(dup.encode())[0]
        ctx.eq((t, got), (SHA if kind == "S" else X509, rest), "duplicates")
        ctx.eq([split(EfiSignatureList(filestream=io.BytesIO(x.encode())).encode())[0][2] for x in (e, dup)], [first, rest], "both read back")
        ctx.step(2)
    ctx.state(repr(case))


# -- histories of one list --------------------------------------------------------------------------------------


def gen_hist(tier):
    ops = [["add", 0, 0], ["add", 1, 1], ["merge", []], ["merge", [[0, 1], [2, 0]]], ["merge", None], ["mergex"], ["sort"], ["cycle"], ["bad"], ["header"]]
    n = 4 if tier == "quick" else 5
    for start in ("new", "header", "empty", "one"):
        for k in range(1, n + 1):
            for t in itertools.product(range(len(ops)), repeat=k):
                yield [start, [ops[i] for i in t]]


def run_hist(case, ctx):
    from edk2toollib.uefi.authenticated_variables_structure_support import (
        EfiSignatureDataEfiCertSha256,
        EfiSignatureDataEfiCertX509,
        EfiSignatureList,
    )

    start, ops = case
    model, ready = [], start != "new"
    if start == "empty" or start == "one":
        model = [(0, 0)] if start == "one" else []
        e = EfiSignatureList(filestream=io.BytesIO(esl_bytes("S", model)))
    else:
        e = EfiSignatureList(typeguid=SHA)
        if start == "header":
            e.AddSignatureHeader(None, SigSize=48)
    for op in ops:
        if op[0] == "add":
            try:
                e.AddSignatureData(EfiSignatureDataEfiCertSha256(digest=HASH[op[1]], sigowner=OWN[op[2]]))
                ctx.true(ready, "data added to a list without header")
                model.append((op[1], op[2]))
            except Exception as x:  # noqa: BLE001
                ctx.true(not ready, f"adding refused: {x!r}")
        elif op[0] == "merge":
            before = list(model)
            src = esl_bytes("S", op[1]) if op[1] is not None else None
            other = EfiSignatureList(filestream=io.BytesIO(src)) if src else None
            if other is None:  # an empty list that was never filled
                other = EfiSignatureList(typeguid=SHA)
            e.MergeSignatureList(other)
            model += [tuple(x) for x in op[1] or []]
            if src:
                ctx.eq(other.encode(), src, "merged list")
            # adding goes on where there are signatures
            ready = ready or bool(model)
            ctx.eq(len(before) + len(op[1] or []), len(model), "model")
        elif op[0] == "mergex":
            for o in (build("X", [[0, 0]], "decode"), "text"):
                try:
                    e.MergeSignatureList(o)
                    ctx.fail("a list of another type was merged")
                except Exception as x:  # noqa: BLE001
                    ctx.true("Violation" not in type(x).__name__, "a list of another type was merged")
        elif op[0] == "sort":
            e.SortBySignatureDataValue()
            model.sort(key=lambda x: HASH[x[0]])
            model = [x for i, x in enumerate(model) if i == 0 or model[i - 1][0] != x[0]]
        elif op[0] == "cycle":
            if not ready and not model and e.signature_header_size == -1:
                continue
            e = EfiSignatureList(filestream=io.BytesIO(e.encode()))
        elif op[0] == "bad":
            n = e.signature_list_size
            try:
                e.AddSignatureData(EfiSignatureDataEfiCertX509(cert=b"of another size" * 4, sigowner=OWN[0]))
                ctx.fail("data of another size was added")
            except Exception as x:  # noqa: BLE001
                ctx.true("Violation" not in type(x).__name__, "data of another size was added")
            ctx.eq(e.signature_list_size, n, "size after refusing")
        else:
            try:
                e.AddSignatureHeader(None, SigSize=48)
                ready = True
                ctx.eq(model, [], "list that got a header")
            except Exception as x:  # noqa: BLE001
                ctx.true(ready or e.signature_header_size == 0, f"header refused: {x!r}")
        if e.signature_header_size != -1 or model:
            ctx.eq(split(e.encode())[0][2], raw("S", model), f"content after {op}")
            ctx.eq(e.signature_list_size, 28 + 48 * len(model), "list size")
        ctx.step()
        ctx.state((start, repr(model), ready))


# -- databases ----------------------------------------------------------------------------------------------------

LISTS = [["S", [[0, 0]]], ["S", [[1, 0], [0, 1]]], ["S", [[2, 1], [2, 0], [1, 1]]], ["S", []], ["X", [[0, 0]]], ["X", [[1, 0]]], ["X", [[0, 1]]],
         ["X", [[2, 0]]], ["X", [[3, 1]]], ["X", [[4, 0]]]]


def gen_db(tier):
    n = 4 if tier == "quick" else 5
    for k in range(n + 1):
        for t in itertools.product(range(len(LISTS)), repeat=k):
            yield list(t)


def canon(lists):
    sha, x = [], []
    for k, elems in lists:
        (sha if k == "S" else x).extend(raw(k, elems))
    can, dup = [], []
    sha.sort(key=lambda v: v[1])
    for i, v in enumerate(sha):
        (dup if i and sha[i - 1][1] == v[1] else can).append(("S", v))
    x.sort(key=lambda v: v[1])
    for i, v in enumerate(x):
        (dup if i and x[i - 1][1] == v[1] else can).append(("X", v))
    return can, dup


def flat(b):
    return [("S" if t == SHA else "X", x) for t, es, xs in split(b) for x in xs]


def run_db(case, ctx):
    from edk2toollib.uefi.authenticated_variables_structure_support import EfiSignatureDatabase

    lists = [LISTS[i] for i in case]
    enc = b"".join(esl_bytes(k, e) for k, e in lists)
    can, dup = canon(lists)
    for how in ("decode", "build", "shared"):
        if how == "decode":
            fs = io.BytesIO(b"head" + enc)
            fs.seek(4)
            db = EfiSignatureDatabase(filestream=fs)
            ctx.eq(fs.tell(), 4 + len(enc), "position after decoding")
        elif how == "build":
            db = EfiSignatureDatabase(esl_list=[build(k, e, "build") for k, e in lists])
        else:
            if len(set(case)) == len(case):
                continue
            objs = {i: build(*LISTS[i], "build") for i in case}
            db = EfiSignatureDatabase(esl_list=[objs[i] for i in case])
        ctx.eq(db.encode(), enc, "encoding")
        out = io.BytesIO()
        db.write(out)
        ctx.eq(out.getvalue(), enc, "write")
        text = io.StringIO()
        db.print(compact=True, outfs=text)
        shown = [ln.split(",") for ln in text.getvalue().splitlines() if ln.startswith("ESD")]
        ctx.eq([(a, b, bytes.fromhex(c)) for a, b, c in shown],
               [("ESD:EFI_CERT_" + ("SHA256" if k == "S" else "X509"), str(OWN[o]), (HASH if k == "S" else CERT)[i]) for k, e in lists for i, o in e], "compact print")
        c, d = db.get_canonical_and_dupes()
        ctx.eq(flat(c.encode()), can, f"canonical form ({how})")
        ctx.eq(flat(d.encode()), dup, f"duplicates ({how})")
        # one list of hashes at most, in front; one list per certificate
        ctx.eq([k for k, _, xs in split(c.encode()) if xs], ([SHA] if any(k == "S" for k, _ in can) else []) + [X509] * sum(k == "X" for k, _ in can), "lists of the canonical form")
        ctx.eq(db.encode(), enc, "the database itself afterwards")
        ctx.eq(flat(db.get_canonical().encode()), can, "canonical form, second time")
        ctx.eq(flat(db.get_duplicates().encode()), dup, "duplicates, second time")
        for x, want in ((c, can), (d, dup)):
            back = EfiSignatureDatabase(filestream=io.BytesIO(x.encode()))
            ctx.eq(back.encode(), x.encode(), "result read back")
        c2, d2 = c.get_canonical_and_dupes()
        ctx.eq((flat(c2.encode()), flat(d2.encode())), (can, []), "canonical form of the canonical form")
        ctx.step(5)
    ctx.state(repr(case))


# -- malformed ------------------------------------------------------------------------------------------------------


def gen_bad(tier):
    for k, e in (("S", [[0, 0], [1, 1]]), ("X", [[0, 0]]), ("X", [[4, 1]])):
        b = esl_bytes(k, e)
        for n in range(1, len(b)):
            yield [k, e, "cut", n]
        for ls in list(range(0, len(b) + 40)) + [2**32 - 1, 2**31]:
            if ls != len(b):
                yield [k, e, "list", ls]
        for hs in list(range(1, len(b) + 8)) + [2**32 - 1]:
            yield [k, e, "header", hs]
        for es in list(range(0, len(b) + 8)) + [2**32 - 1]:
            yield [k, e, "size", es]
        yield [k, e, "type", 0]


def run_bad(case, ctx):
    from edk2toollib.uefi.authenticated_variables_structure_support import EfiSignatureDatabase, EfiSignatureList

    k, e, what, v = case
    b = bytearray(esl_bytes(k, e))
    ls, hs, es = struct.unpack("<III", b[16:28])
    body = len(b) - 28
    ok = False
    if what == "cut":
        b = b[:v]
    elif what == "type":
        b[0] ^= 0xFF
    else:
        if what == "list":
            ls = v
            ok = v == 28 or (v > 28 and v < len(b) and (v - 28) % es == 0)
        elif what == "header":
            hs = v
        else:
            es = v
            ok = v and body % v == 0 and (v == 48 if k == "S" else v >= 16)
        b[16:28] = struct.pack("<III", ls, hs, es)
    for cls in (EfiSignatureList, EfiSignatureDatabase):
        try:
            x = cls(filestream=io.BytesIO(bytes(b)))
            accepted = True
        except Exception:  # noqa: BLE001
            accepted = False
        if cls is EfiSignatureList:
            ctx.eq(accepted, bool(ok), f"{what} {v}: accepted")
            if accepted:
                ctx.eq(x.encode(), bytes(b[:ls]), "encoding of what was accepted")
        elif accepted:
            ctx.eq(x.encode(), bytes(b), "encoding of the database that was accepted")
            ctx.true(ok, "malformed database")
    ctx.state(repr(case))


# -- single signatures ------------------------------------------------------------------------------------------

CONTENTS = ["", "00", "ff" * 31, "0a" * 32, "41" * 33, "30820102" * 12, "7e7f1f20" * 25]


def gen_items(tier):
    for kind in "SX":
        for c in range(len(CONTENTS)):
            for o in range(len(OWN)):
                for how in ("create", "createfs", "value", "decode", "factory"):
                    for off in (0, 1, 16, 40):
                        yield [kind, c, o, how, off]


def run_items(case, ctx):
    import hashlib

    from edk2toollib.uefi import authenticated_variables_structure_support as a
    from edk2toollib.utility_functions import hexdump

    kind, c, o, how, off = case
    content = bytes.fromhex(CONTENTS[c])
    typ, cls = (SHA, a.EfiSignatureDataEfiCertSha256) if kind == "S" else (X509, a.EfiSignatureDataEfiCertX509)
    data = content
    fs = io.BytesIO(b"\x5a" * off + content)
    fs.seek(off)
    if how in ("create", "createfs"):
        if kind == "S":
            data = hashlib.sha256(content).digest()
        x = a.EfiSignatureDataFactory.create(typ, fs, OWN[o]) if how == "create" else cls(createfs=fs, sigowner=OWN[o])
    elif how == "value":
        if kind == "S" and len(content) != 32:
            refused(ctx, lambda: cls(digest=content, sigowner=OWN[o]), "a digest of the wrong length")
            ctx.state(repr(case))
            return
        x = cls(**{"digest" if kind == "S" else "cert": content}, sigowner=OWN[o])
    else:
        fs = io.BytesIO(b"\x5a" * off + OWN[o].bytes_le + content + b"more")
        size = 16 + len(content)
        fs.seek(off)
        short = kind == "S" and len(content) != 32
        if how == "factory":
            if short:
                refused(ctx, lambda: a.EfiSignatureDataFactory.factory(fs, typ, size), "a SHA256 signature of the wrong size")
                ctx.state(repr(case))
                return
            x = a.EfiSignatureDataFactory.factory(fs, typ, size)
        elif kind == "S":
            if len(content) + 4 < 32:
                refused(ctx, lambda: cls(decodefs=fs), "a SHA256 signature that is too short")
                ctx.state(repr(case))
                return
            data = (content + b"more")[:32]
            size = 48
            x = cls(decodefs=fs)
        else:
            x = cls(decodefs=fs, decodesize=size)
            for bad in (15, 0, -1, size + 5):
                fs.seek(off)
                refused(ctx, lambda: cls(decodefs=fs, decodesize=bad), f"decode size {bad}")
            fs.seek(off + size)
        ctx.eq(fs.tell(), off + size, "position after the signature")
    enc = OWN[o].bytes_le + data
    ctx.eq((x.signature_owner, bytes(x.signature_data)), (OWN[o], data), "fields")
    ctx.eq((x.encode(), x.get_total_size()), (enc, len(enc)), "encoding and size")
    out = io.BytesIO(b"pre")
    out.seek(3)
    x.write(out)
    ctx.eq(out.getvalue(), b"pre" + enc, "written")
    refused(ctx, lambda: x.write(None), "a missing output stream")
    name = "SHA256" if kind == "S" else "X509"
    for compact in (True, False, None):
        t = io.StringIO()
        x.print(outfs=t) if compact is None else x.print(compact, t)
        t = t.getvalue()
        if compact:
            ctx.eq(t, f"ESD:EFI_CERT_{name},{OWN[o]},{data.hex().upper()}\n", "compact text")
            continue
        ctx.true(str(OWN[o]) in t.splitlines()[1], "the owner is not printed")
        if kind == "S":
            ctx.true(t.endswith(data.hex().upper() + "\n"), "the digest is not printed")
        else:
            h = io.StringIO()
            hexdump(data, outfs=h)
            ctx.true(t.endswith("\n" + h.getvalue()), "the certificate is not printed")
    # the signature in a list on its own
    e = a.EfiSignatureList(typeguid=typ)
    refused(ctx, lambda: e.AddSignatureData(x), "a signature before the size is known")
    refused(ctx, lambda: e.encode(), "a list whose header is not known")
    e.AddSignatureHeader(None, SigSize=len(enc))
    refused(ctx, lambda: e.AddSignatureHeader(None, SigSize=len(enc)), "a second signature header")
    e.AddSignatureData(x)
    want = typ.bytes_le + struct.pack("<III", 28 + len(enc), 0, len(enc)) + enc
    ctx.eq(e.encode(), want, "list")
    other = a.EfiSignatureDataEfiCertX509(cert=data + b"!", sigowner=OWN[o])
    refused(ctx, lambda: e.AddSignatureData(other), "a signature of another size")
    ctx.eq(e.encode(), want, "list after a refusal")
    t = io.StringIO()
    e.print(compact=True, outfs=t)
    ctx.eq(t.getvalue(), f"ESL:{typ},{len(enc) + 28:x},0,{len(enc):x},NONE\nESD:EFI_CERT_{name},{OWN[o]},{data.hex().upper()}\n", "compact list")
    t = io.StringIO()
    e.print(outfs=t)
    words = [v.rsplit(None, 1)[-1] for v in t.getvalue().splitlines()[1:6]]
    ctx.eq(words, [str(typ), f"{len(enc) + 28:x}", "0", f"{len(enc):x}", "NONE"], "printed list")
    ctx.true(str(OWN[o]) in t.getvalue(), "the signature is not printed with its list")
    for f in (a.EfiSignatureDataFactory.factory, lambda s, ty, n: a.EfiSignatureDataFactory.create(ty, s, OWN[o])):
        for ty in (uuid.UUID(int=5), a.EfiSignatureDataFactory.EFI_CERT_X509_SHA256_GUID, None):
            refused(ctx, lambda: f(io.BytesIO(bytes(200)), ty, 48), "an unsupported type")
        refused(ctx, lambda: f(None, typ, 48), "no stream")
    refused(ctx, lambda: cls(), "a signature without any content")
    ctx.state(repr(case))


def refused(ctx, f, what):
    try:
        f()
    except (Exception) as e:  # noqa: BLE001
        ctx.true(not isinstance(e, (TypeError, AttributeError)), f"{what}: {e!r}")
        return
    ctx.fail(f"{what} was accepted")


# -- sizes: number of signatures and lists, length of certificates ----------------------------------------------


def gen_sizes(tier):
    for n in counts(tier, 1025, 1, 40):
        yield ["hashes", n]
        yield ["lists", n]
    for n in [*counts(tier, 4097, 1, 40), 65535, 65536, 65537]:
        yield ["cert", n]


def run_sizes(case, ctx):
    from edk2toollib.uefi import authenticated_variables_structure_support as A

    what, n = case
    own = OWN[1]
    if what == "cert":
        certs = [bytes((i * m) & 0xFF for i in range(n)) for m in (7, 3)]
        enc = X509.bytes_le + struct.pack("<III", 28 + 2 * (16 + n), 0, 16 + n) + b"".join(own.bytes_le + c for c in certs)
        e = A.EfiSignatureList(typeguid=X509)
        e.AddSignatureHeader(None, SigSize=16 + n)
        for c in certs:
            e.AddSignatureData(A.EfiSignatureDataEfiCertX509(cert=c, sigowner=own))
    elif what == "hashes":
        vals = [struct.pack(">I", (i * 7919) % 1000003) * 8 for i in range(n)]
        body = b"".join(own.bytes_le + v for v in vals)
        enc = SHA.bytes_le + struct.pack("<III", 28 + len(body), 0, 48) + body
        e = A.EfiSignatureList(typeguid=SHA)
        e.AddSignatureHeader(None, SigSize=48)
        for v in vals:
            e.AddSignatureData(A.EfiSignatureDataEfiCertSha256(digest=v, sigowner=own))
    if what != "lists":
        ctx.true(e.encode() == enc, f"encoding ({what} {n})")
        f = io.BytesIO(b"xx" + enc + b"tail")
        f.seek(2)
        d = A.EfiSignatureList(filestream=f)
        ctx.true((d.encode(), f.tell()) == (enc, 2 + len(enc)), f"decoding ({what} {n})")
        db = A.EfiSignatureDatabase(filestream=io.BytesIO(enc * 2))
        ctx.true(db.encode() == enc * 2, f"database of two lists ({what} {n})")
        if what == "hashes":
            twice = A.EfiSignatureList(filestream=io.BytesIO(SHA.bytes_le + struct.pack("<III", 28 + 2 * len(body), 0, 48) + body + body))
            dup = twice.SortBySignatureDataValue()
            srt = sorted((own.bytes_le, v) for v in vals)
            ctx.true(split(twice.encode())[0][2] == srt, f"sorted without duplicates ({n})")
            ctx.true(split(dup.encode())[0][2] == srt, f"duplicates ({n})")
    else:
        lists = [(SHA.bytes_le + struct.pack("<III", 76, 0, 48) + own.bytes_le + struct.pack(">I", (i * 7919) % 1000003) * 8) for i in range(n)]
        db = A.EfiSignatureDatabase(filestream=io.BytesIO(b"".join(lists)))
        ctx.true(db.encode() == b"".join(lists), f"database of {n} lists")
        dup, canon = db.GetDuplicates(), db.GetCanonical()
        got = [x for t, es, xs in split(canon.encode()) for x in xs]
        ctx.true(got == sorted((x[28:44], x[44:]) for x in lists), f"canonical database of {n} lists")
        ctx.eq([x for t, es, xs in split(dup.encode()) for x in xs], [], f"duplicates of {n} lists")
        db = A.EfiSignatureDatabase(filestream=io.BytesIO(b"".join(lists + lists)))
        ctx.true([x for t, es, xs in split(db.GetCanonical().encode()) for x in xs] == got, f"canonical database of {n} lists, twice")
        ctx.true(sorted(x for t, es, xs in split(db.GetDuplicates().encode()) for x in xs) == got, f"duplicates of {n} lists, twice")
    ctx.state(tuple(case))


SUITES = [
    Suite("sizes", gen_sizes, run_sizes, "number of signatures and lists, length of certificates", "<=1025 signatures or lists, certificates to 65537 bytes"),
    Suite("lists", gen_list, run_list, "all lists: encode, decode, sort, de-duplicate", {"quick": "<=4 of 8 hashes (4: <=3 distinct), <=3 certificates", "thorough": "<=5 hashes"}),
    Suite("histories", gen_hist, run_hist, "adding, merging, sorting, reading back", {"quick": "depth <=4, 10 operations, 4 starts", "thorough": "depth <=5"}),
    Suite("databases", gen_db, run_db, "all sequences of lists", {"quick": "<=4 of 10 lists", "thorough": "<=5"}),
    Suite("malformed", gen_bad, run_bad, "all cuts and size fields", "3 lists, all sizes"),
    Suite("items", gen_items, run_items, "one signature from a value, a created content or a stream", "7 contents x 2 kinds x 2 owners x 5 ways x 4 offsets"),
]
