"""P47: a deprecated name does exactly what the name that replaces it does.

Differential histories: two equal objects get the same operations, one by the replacing names, the other by deprecated ones
(in every mixture); results, exceptions, streams and the whole state are compared after every operation. Deprecated names
warn, replacing names never do.
"""

import datetime
import io
import itertools
import os
import uuid
import warnings

from lib.mc import Suite
from edk2toollib.uefi import authenticated_variables_structure_support as av
from edk2toollib.uefi import wincert as wc
from edk2toollib.uefi.edk2.parsers.base_parser import BaseParser
from edk2toollib.uefi.edk2.path_utilities import Edk2Path
from edk2toollib import utility_functions as uf

G1, G2 = uuid.UUID("8be4df61-93ca-11d2-aa0d-00e098032b8c"), uuid.UUID("00000000-0000-0000-0000-0000000000ff")
SHA, X509 = av.EfiSignatureDataFactory.EFI_CERT_SHA256_GUID, av.EfiSignatureDataFactory.EFI_CERT_X509_GUID
DER = bytes.fromhex("300b06092a864886f70d010701")
T = datetime.datetime(2021, 3, 4, 5, 6, 7)
D1, D2 = bytes(range(32)), b"\xff" * 32


def pkcs1(data=b"sig", length=None):
    return (24 + len(data) if length is None else length).to_bytes(4, "little") + b"\x00\x02\xf0\x0e" + wc.WinCertPkcs1.EFI_HASH_SHA256.bytes_le + data


def guid_cert(data=DER, rev=b"\x00\x02", length=None):
    return (24 + len(data) if length is None else length).to_bytes(4, "little") + rev + b"\xf1\x0e" + wc.WinCertUefiGuid.PKCS7Guid.bytes_le + data


def sig(data=D1, owner=G1):
    return owner.bytes_le + data


def esl(*data, type=SHA):
    size = 16 + len(data[0]) if data else 0
    body = b"".join(sig(d) for d in data)
    return type.bytes_le + (28 + len(body)).to_bytes(4, "little") + bytes(4) + size.to_bytes(4, "little") + body


TIME = av.EfiTime(T).encode()
AUTH = TIME + guid_cert()


class Out:
    """Results of a call that must be the same."""


def snap(x, depth=0):
    assert depth < 12
    if isinstance(x, memoryview):
        return ("memoryview", bytes(x))
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, [snap(i, depth + 1) for i in x])
    if isinstance(x, dict):
        return ("dict", [(k, snap(v, depth + 1)) for k, v in sorted(x.items())])
    if isinstance(x, (io.BytesIO, io.StringIO)):
        return (type(x).__name__, x.getvalue(), x.tell())
    if isinstance(x, (uuid.UUID, datetime.datetime, bytes, str, int, float, bool, type(None), Edk2Path, type)):
        return repr(x) if not isinstance(x, Edk2Path) else "Edk2Path"
    return (type(x).__name__, snap(vars(x), depth + 1))


def call(method, make=None, **kw):
    """An operation: the method (old, new) with fresh arguments."""
    old, new = method

    def op(obj, name):
        args = make() if make else []
        k = {n: v() for n, v in kw.items()}
        r = getattr(obj, (old, new)[name])(*args, **k)
        return [r, args, list(k.values())]

    return op


def attr(old, new, *values):
    """Reading and writing an attribute."""

    def get(obj, name):
        return getattr(obj, (old, new)[name])

    def put(v):
        def op(obj, name):
            setattr(obj, (old, new)[name], v)

        return op

    return [(f"{new}", get)] + [(f"{new}={v!r:.30}", put(v)) for v in values]


def calls(old, new, *makes, **kws):
    ops = [(f"{new}{i}", call((old, new), m)) for i, m in enumerate(makes)]
    return ops


def B(data, pos=0):
    def make():
        f = io.BytesIO(data)
        f.seek(pos)
        return [f]

    return make


def S():
    return [io.StringIO()]


def pre(make, *more, first=False):
    return (lambda: [*more, *make()]) if first else (lambda: [*make(), *more])


def compact(c):
    return lambda: [c, io.StringIO()]


NONE = lambda: [None]  # noqa: E731
APPEND = B(b"abc", 3)


def kinds():
    k = {}
    k["pkcs1"] = (
        lambda: [wc.WinCertPkcs1(), wc.WinCertPkcs1(io.BytesIO(pkcs1()))],
        attr("HashAlgorithm", "hash_algorithm", wc.WinCertPkcs1.EFI_HASH_SHA256, G2)
        + attr("CertData", "cert_data", None, memoryview(b"xy"))
        + calls("AddCertData", "add_cert_data", B(b"cert"), B(b"cert", 2), NONE)
        + calls("PopulateFromFileStream", "decode", B(pkcs1() + b"more"), B(b"x" + pkcs1(b"a"), 1), B(pkcs1(length=99)), B(b"short"), NONE)
        + calls("Print", "print", S)
        + calls("Write", "write", B(b""), APPEND, NONE),
    )
    k["uefi_guid"] = (
        lambda: [wc.WinCertUefiGuid(), wc.WinCertUefiGuid(guid_cert())],
        attr("CertData", "cert_data", b"", b"xy", DER)
        + attr("CertType", "cert_type", G1, wc.WinCertUefiGuid.PKCS7Guid)
        + calls("Encode", "encode", list)
        + calls("Decode", "decode", lambda: [guid_cert() + b"rest"], lambda: [b"short"], B(guid_cert() + b"rest"), lambda: [5])
        + calls("AddCertData", "add_cert_data", lambda: [b"data"], B(b"cert", 2), lambda: ["text"], lambda: [7])
        + calls("PopulateFromFileStream", "decode", B(guid_cert()), B(guid_cert(rev=b"\x01\x02")), B(guid_cert(length=99)), B(b"x"), NONE)
        + calls("GetCertificate", "get_certificate", list)
        + calls("Print", "print", S)
        + calls("DumpInfo", "dump_info", S)
        + calls("Write", "write", B(b""), APPEND, NONE),
    )
    for name, cls, args, data in (
        ("x509", av.EfiSignatureDataEfiCertX509, {"cert": b"certificate", "sigowner": G1}, b"der"),
        ("sha256", av.EfiSignatureDataEfiCertSha256, {"digest": D1, "sigowner": G1}, D2),
    ):
        size = [(16 + len(data),), (16,), (15,), (99,)] if name == "x509" else [()]
        k[name] = (
            lambda cls=cls, args=args: [cls(**args)],
            attr("SignatureOwner", "signature_owner", G2)
            + attr("SignatureData", "signature_data", D2, None)
            + calls(
                "PopulateFromFileStream", "decode", *[pre(B(sig(data) + b"more"), *s) for s in size], pre(B(b"x" + sig(data), 1), *size[0]),
                pre(B(b"short"), *size[0]), pre(NONE, *size[0]),
            )
            + calls("Print", "print", compact(False), compact(True))
            + [("print kw", call(("Print", "print"), None, outfs=io.StringIO, compact=lambda: True))]
            + [("print out", call(("Print", "print"), None, outfs=io.StringIO))]
            + calls("Write", "write", B(b""), APPEND, NONE)
            + calls("GetBytes", "encode", list)
            + calls("GetTotalSize", "get_total_size", list),
        )
    k["list"] = (
        lambda: [av.EfiSignatureList(), av.EfiSignatureList(typeguid=SHA), av.EfiSignatureList(io.BytesIO(esl(D2, D1)))],
        attr("SignatureData_List", "signature_data_list", None, [])
        + calls("PopulateFromFileStream", "decode", B(esl(D1) + b"more"), B(b"x" + esl(b"abc", b"def", type=X509), 1), B(esl()), B(esl(D1)[:-1]), B(esl(D1, type=G1)), NONE)
        + calls("Print", "print", compact(False), compact(True))
        + [("print kw", call(("Print", "print"), None, outfs=io.StringIO))]
        + calls("Write", "write", B(b""), APPEND, NONE)
        + calls("GetBytes", "encode", list),
    )
    k["database"] = (
        lambda: [av.EfiSignatureDatabase(), av.EfiSignatureDatabase(io.BytesIO(esl(D2, D1, D1) + esl(b"b", type=X509) + esl(b"a", type=X509) + esl(b"a", type=X509)))],
        attr("EslList", "esl_list", [])
        + calls("PopulateFromFileStream", "decode", B(esl(D1) + esl(D2)), B(b""), B(b"x" + esl(D1), 1), B(b"short"), NONE)
        + calls("Print", "print", compact(False), compact(True))
        + [("print kw", call(("Print", "print"), None, outfs=io.StringIO))]
        + calls("Write", "write", B(b""), APPEND, NONE)
        + calls("GetBytes", "encode", list)
        + calls("GetCanonicalAndDupes", "get_canonical_and_dupes", list)
        + calls("GetCanonical", "get_canonical", list)
        + calls("GetDuplicates", "get_duplicates", list),
    )
    k["time"] = (
        lambda: [av.EfiTime(T)],
        calls("PopulateFromFileStream", "decode", B(av.EfiTime(datetime.datetime(1999, 12, 31, 23, 59, 58)).encode() + b"x"), B(b"x" + TIME, 1), B(b"short"), B(bytes(16)), NONE)
        + calls("Print", "print", S)
        + calls("Encode", "encode", list)
        + calls("Write", "write", B(b""), APPEND, NONE),
    )
    k["auth2"] = (
        lambda: [av.EfiVariableAuthentication2(T), av.EfiVariableAuthentication2(decodefs=io.BytesIO(AUTH + esl(D1)))],
        calls("Encode", "encode", list)
        + calls("PopulateFromFileStream", "decode", B(AUTH + b"payload"), B(b"x" + AUTH, 1), B(AUTH + esl(D2)), B(AUTH[:-1]), NONE)
        + calls("Print", "print", S)
        + [("print kw", call(("Print", "print"), None, outfs=io.StringIO))]
        + calls("Write", "write", B(b""), APPEND, NONE)
        + calls("SetPayload", "set_payload", B(b"payload"), B(esl(D1)), B(b"xy", 1), B(b""), NONE),
    )
    return k


KINDS = kinds()
SILENT = {("auth2", "write"), ("database", "decode")}


def attempt(f, *args):
    with warnings.catch_warnings(record=True) as seen:
        warnings.simplefilter("always")
        try:
            r = ("returned", snap(f(*args)))
        except Exception as e:  # noqa: BLE001
            r = ("raised", type(e).__name__, str(e))
    return r, len(seen)


def gen(tier):
    for kind, (starts, ops) in KINDS.items():
        for start in range(len(starts())):
            n = range(len(ops))
            for i in n:
                yield [kind, start, [i], [0]]
            for i, j in itertools.product(n, n):
                for names in ([0, 0], [0, 1], [1, 0]):
                    yield [kind, start, [i, j], names]
            if tier != "quick":
                for h in itertools.product(n, n, n):
                    for names in ([0, 0, 0], [1, 0, 0], [0, 0, 1], [0, 1, 0]):
                        yield [kind, start, list(h), names]


def run(case, ctx):
    kind, start, history, names = case
    starts, ops = KINDS[kind]
    a, b = starts()[start], starts()[start]
    ctx.eq(snap(a), snap(b), "initial state")
    for i, name in zip(history, names):
        label, op = ops[i]
        ctx.step()
        got, warned = attempt(op, a, name)
        want, new_warned = attempt(op, b, 1)
        ctx.eq(got, want, f"{kind}.{label} by its deprecated name" if name == 0 else f"{kind}.{label} after deprecated names")
        ctx.eq(snap(a), snap(b), f"state after {kind}.{label}")
        ctx.eq(new_warned, 0, f"warnings of {kind}.{label}")
        if name == 0 and (kind, label.rstrip("0123456789")) not in SILENT:
            ctx.true(warned >= 1, f"{kind}.{label} by its deprecated name warns")
    ctx.state((kind, start, str(snap(b))))


# functions and classes
def gen_functions(tier):
    streams = ["", "00" * 8, pkcs1().hex(), guid_cert().hex(), (pkcs1() + b"xyz").hex(), pkcs1(length=99).hex(), guid_cert(rev=b"\1\1").hex()]
    for s in streams:
        for pos in (0, 1):
            yield ["wincert", s, pos]
    yield ["wincert", None, 0]
    for t in (str(SHA), str(X509), str(G1), None):
        for size in (48, 16, 19, 47, 15, 0):
            for s in ((sig() + b"x").hex(), sig(b"abc").hex(), "", None):
                yield ["factory", t, size, s]
        for s in (D1.hex(), "", b"cert".hex(), None):
            for owner in (str(G1), None):
                yield ["create", t, s, owner]
    yield ["auth2", "time", None]
    for s in ("", AUTH.hex(), (AUTH + b"pay").hex(), (AUTH + esl(D1)).hex(), AUTH[:-1].hex()):
        yield ["auth2", "stream", s]
    for n in (0, 1, 15, 16, 17, 40):
        for flags in itertools.product((True, False), repeat=3):
            for start in (0, 5, 0x1000):
                yield ["hexdump", n, list(flags), start]
    for s in (None, "o"):
        yield ["auth2 encode", s]


def stream(h, pos=0):
    if h is None:
        return None
    f = io.BytesIO(bytes.fromhex(h))
    f.seek(pos)
    return f


def run_functions(case, ctx):
    what = case[0]
    u = lambda t: t and uuid.UUID(t)  # noqa: E731
    if what == "wincert":
        def f(old):
            s = stream(*case[1:])
            return [(wc.WinCert.Factory if old else wc.WinCert.factory)(s), s]
    elif what == "factory":
        def f(old):
            s = stream(case[3])
            return [(av.EfiSignatureDataFactory.Factory if old else av.EfiSignatureDataFactory.factory)(s, u(case[1]), case[2]), s]
    elif what == "create":
        def f(old):
            s = stream(case[2])
            return [(av.EfiSignatureDataFactory.Create if old else av.EfiSignatureDataFactory.create)(u(case[1]), s, u(case[3])), s]
    elif what == "auth2":
        def f(old):
            cls = av.EFiVariableAuthentication2 if old else av.EfiVariableAuthentication2
            o = cls(time=T) if case[1] == "time" else cls(decodefs=stream(case[2]))
            ctx.true(isinstance(o, av.EfiVariableAuthentication2), "kind of object")
            return [vars(o), o.encode()] if case[1] == "time" or case[2] else []
    elif what == "auth2 encode":
        def f(old):
            o = av.EfiVariableAuthentication2(decodefs=stream((AUTH + b"payload").hex()))
            s = io.BytesIO()
            if old:
                return [o.Encode(s) if case[1] else o.Encode(), s]
            if case[1]:
                o.write(s)
            return [o.encode(), s]
    else:
        def f(old):
            s = io.StringIO()
            data = [(i * 37) & 255 for i in range(case[1])]
            asc, off, sep = case[2]
            if old:
                uf.PrintByteList(data, asc, off, sep, case[3], outfs=s)
            else:
                uf.hexdump(data, offset_start=case[3], outfs=s, include_ascii=asc, include_offset=off, include_hex_sep=sep)
            return s.getvalue()

    (got, warned), (want, silent) = attempt(f, True), attempt(f, False)
    ctx.step()
    ctx.eq(got, want, what)
    ctx.true(warned >= 1, f"{what}: the deprecated name warns")
    ctx.eq(silent, 0, f"{what}: warnings of the replacing name")


# paths of parsers
FILES = ["ws/A/a.txt", "ws/P/A/a.txt", "ws/P/A/b.txt", "Q/A/b.txt", "Q/A/c.txt", "ws/x.txt", "t/x.txt", "t/y.txt"]
PPS = {"": [], "P": ["P"], "PQ": ["P", "../Q"], "QP": ["../Q", "P"], "none": None, "missing": ["nowhere", "P"]}
NAMES = ["A/a.txt", "A/b.txt", "A/c.txt", "x.txt", "y.txt", "z.txt", "P/A/a.txt", "../Q/A/c.txt"]


def gen_paths(tier):
    for pps in PPS:
        for target in (False, True):
            for rel in (False, True):
                for again in ([None] + list(PPS) if tier != "quick" or pps in ("", "PQ") else [None]):
                    yield [pps, target, rel, again]


def run_paths(case, ctx):
    pps, target, rel, again = case
    root = os.path.realpath(ctx.tmp())
    for f in FILES:
        os.makedirs(os.path.join(root, os.path.dirname(f)), exist_ok=True)
        with open(os.path.join(root, f), "w"):
            pass
    ws = os.path.join(root, "ws")

    def paths(k):
        return PPS[k] and [os.path.normpath(os.path.join(ws, p)) for p in PPS[k]]

    def build(old):
        p = BaseParser("")
        if target:
            p.TargetFilePath = os.path.join(root, "t", "f.dsc")
        here = os.getcwd()
        try:
            os.chdir(root)
            for k in (pps, again):
                if k is None:
                    continue
                if old:
                    p.SetBaseAbsPath("ws" if rel else ws)
                    ctx.true(p.SetPackagePaths(paths(k)) is p, "SetPackagePaths returns the parser")
                else:
                    p.SetEdk2Path(Edk2Path(ws, paths(k) or [], error_on_invalid_pp=False))
        finally:
            os.chdir(here)
        known = [p.RootPath, sorted(p.PPs)] if all(k != "missing" and k != "none" for k in (pps, again)) else []
        return [p.FindPath(*n.split("/")) for n in NAMES] + [p.FindPath(n) for n in NAMES] + known

    (got, _), (want, silent) = attempt(build, True), attempt(build, False)
    ctx.step(len(NAMES))
    ctx.eq(got, want, "files found")
    ctx.eq(want[0], "returned", "paths are set")
    ctx.eq(silent, 0, "warnings of SetEdk2Path")


SUITES = [
    Suite("history", gen, run, "objects of 8 kinds: operations by deprecated and replacing names",
          {"quick": "all histories of <=2 of 9..28 operations, all mixtures of names", "thorough": "<=3 operations"}),
    Suite("function", gen_functions, run_functions, "factories, the old class and PrintByteList: arguments", "7 streams x 2 positions, 4 types x 6 sizes x 4 streams, 6 lengths x 8 options x 3 offsets"),
    Suite("paths", gen_paths, run_paths, "SetBaseAbsPath and SetPackagePaths: package paths, target file, set again", "6 lists of package paths, 8 names"),
]
ASSUMPTIONS = ["default output streams are not redirected"]
