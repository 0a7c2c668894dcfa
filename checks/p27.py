"""P27: WIN_CERTIFICATE structures are read and written exactly; malformed ones are refused."""

import io
import itertools
import struct
import uuid

from checks import p26
from lib.mc import Suite
from lib.sizes import counts

PK7 = uuid.UUID("4aafd29d-68df-49ee-8aa9-347d375665a7")
SHA = uuid.UUID("51aa59de-fdf2-4ea3-bc63-875fb7842ee9")
GUIDS = [PK7, SHA, uuid.UUID(int=0)]
DATA = [b"", b"\x30", b"cert data", bytes(range(256)), b"\xff" * 33]
REV, T1, TG = 0x200, 0x0EF0, 0x0EF1


def cert_bytes(typ, g, data, length=None, rev=REV):
    return struct.pack("<LHH", 24 + len(data) if length is None else length, rev, typ) + GUIDS[g].bytes_le + data


def refused(f, ctx, what, exc=Exception):
    try:
        r = f()
    except exc:
        return
    ctx.fail(f"accepted: {what} -> {r!r}")


# -- histories of building ------------------------------------------------------------------------------------


def gen_build(tier):
    n = 4 if tier == "quick" else 5
    ops = ["bytes0", "bytes2", "stream3", "offset2", "bytearray1", "assign4", "assign1", "bad", "encode", "decode", "decodefs", "decodebad"]
    for k in range(1, n + 1):
        for t in itertools.product(ops, repeat=k):
            yield list(t)


def run_build(case, ctx):
    from edk2toollib.uefi.wincert import WinCertUefiGuid

    c = WinCertUefiGuid()
    model = b""
    for op in case:
        if op == "bad":
            for x in (None, 5, "text is refused as well" if False else [1]):
                refused(lambda: c.add_cert_data(x), ctx, repr(x), ValueError)
        elif op == "encode":
            ctx.eq(c.encode(), cert_bytes(TG, 0, model), "encode")
            out = io.BytesIO()
            c.write(out)
            ctx.eq(out.getvalue(), cert_bytes(TG, 0, model), "write")
        elif op == "decode":
            model = DATA[4]
            ctx.eq(c.decode(cert_bytes(TG, 0, model) + b"rest"), b"rest", "what is left")
        elif op == "decodefs":
            model = DATA[3]
            fs = io.BytesIO(b"12" + cert_bytes(TG, 0, model) + b"rest")
            fs.seek(2)
            c.decode(fs)
            ctx.eq(fs.tell(), 2 + 24 + len(model), "position")
        elif op == "decodebad":
            for b in (cert_bytes(TG, 1, DATA[2]), cert_bytes(T1, 0, DATA[2]), cert_bytes(TG, 0, DATA[2], rev=0x100), cert_bytes(TG, 0, DATA[2])[:20]):
                refused(lambda: c.decode(b), ctx, repr(b), ValueError)
                refused(lambda: c.decode(io.BytesIO(b)), ctx, repr(b), ValueError)
        elif op.startswith("assign"):
            model = DATA[int(op[-1])]
            c.cert_data = model
            # the length follows when the certificate is encoded
            ctx.eq(c.encode(), cert_bytes(TG, 0, model), "encode")
        else:
            model = DATA[int(op[-1])]
            arg = {"b": lambda: model, "s": lambda: io.BytesIO(model), "o": lambda: io.BytesIO(b"abc" + model)}[op[0]]()
            if op.startswith("offset"):
                arg.seek(3)
            if op.startswith("bytearray"):
                arg = bytearray(model)
            c.add_cert_data(arg)
        ctx.eq((bytes(c.get_certificate()), bytes(c.cert_data), c.get_length(), c.Hdr_dwLength), (model, model, 24 + len(model), 24 + len(model)), f"after {op}")
        ctx.eq((c.Hdr_wRevision, c.Hdr_wCertificateType, c.cert_type), (REV, TG, PK7), f"header after {op}")
        ctx.step()
    ctx.eq(c.encode(), cert_bytes(TG, 0, model), "encoding in the end")
    ctx.state(repr(case))


# -- decoding everything --------------------------------------------------------------------------------------


def gen_decode(tier):
    for typ in (T1, TG, 0, 2, 0xEF2, 0xFFFF):
        for g in range(3):
            for d in range(len(DATA)):
                for rest in (b"", b"r", b"rest of it"):
                    yield [typ, g, d, rest.decode(), REV]
        for rev in (0, 0x100, 0x201, 0x2):
            yield [typ, 0, 2, "", rev]


def run_decode(case, ctx):
    from edk2toollib.uefi.wincert import WinCert, WinCertPkcs1, WinCertUefiGuid

    typ, g, d, rest, rev = case
    b = cert_bytes(typ, g, DATA[d], rev=rev)
    n = len(b)
    rest = rest.encode()

    def stream():
        fs = io.BytesIO(b"head" + b + rest)
        fs.seek(4)
        return fs

    good = typ == TG and g == 0 and rev == REV
    for how in ("bytes", "init", "stream", "factory"):
        fs = stream()
        f = {"bytes": lambda: WinCertUefiGuid(b + rest), "init": lambda: WinCertUefiGuid(fs), "stream": lambda: WinCertUefiGuid().decode(fs) or None,
             "factory": lambda: WinCert.factory(fs)}[how]
        if how == "factory" and typ != TG:
            continue
        if not good:
            refused(f, ctx, case, ValueError)
            continue
        c = f()
        if how == "stream":
            continue
        ctx.eq((c.Hdr_dwLength, c.Hdr_wRevision, c.Hdr_wCertificateType, c.cert_type, bytes(c.cert_data)), (n, REV, TG, PK7, DATA[d]), "fields")
        ctx.eq(c.encode(), b, "encode")
        if how != "bytes":
            ctx.eq(fs.tell(), 4 + n, "position")
        ctx.step()
    if typ == T1:
        for how in ("init", "factory", "again"):
            fs = stream()
            c = None

            def load():
                if how == "again":
                    x = WinCertPkcs1(io.BytesIO(cert_bytes(T1, 1, b"earlier")))
                    x.decode(fs)
                    return x
                return WinCertPkcs1(fs) if how == "init" else WinCert.factory(fs)

            if not DATA[d] and not rest:
                refused(load, ctx, "no signature", ValueError)
                continue
            c = load()
            ctx.eq((type(c), c.Hdr_dwLength, c.Hdr_wRevision, c.Hdr_wCertificateType, c.hash_algorithm, bytes(c.cert_data)),
                   (WinCertPkcs1, n, rev, T1, GUIDS[g], DATA[d]), "fields")
            ctx.eq((c.encode(), fs.tell()), (b, 4 + n), "encode and position")
            out = io.BytesIO()
            c.write(out)
            ctx.eq(out.getvalue(), b, "write")
            text = io.StringIO()
            c.print(text)
            t = text.getvalue()
            for part in (f"0x{n:0X}", f"0x{rev:0X}", f"0x{T1:0X}", str(GUIDS[g])):
                ctx.true(part in t, f"{part} is missing in the printed certificate")
            ctx.step()
    elif typ != TG:
        fs = stream()
        ctx.eq((WinCert.factory(fs), fs.tell()), (None, 4), "certificate of another type")
    ctx.state(repr(case))


def gen_new(tier):
    for g in range(3):
        for d in range(len(DATA)):
            for pos in (0, 1, 5):
                yield [g, d, pos]


def run_new(case, ctx):
    """a PKCS1 certificate from its parts"""
    from edk2toollib.uefi.wincert import WinCertPkcs1

    g, d, pos = case
    c = WinCertPkcs1()
    refused(lambda: c.add_cert_data(io.BytesIO(b"x")), ctx, "no hash algorithm", ValueError)
    c.set_hash_algorithm(GUIDS[g])
    fs = io.BytesIO(b"12345"[:pos] + DATA[d])
    fs.seek(pos)
    c.add_cert_data(fs)
    ctx.eq((c.encode(), c.Hdr_dwLength), (cert_bytes(T1, g, DATA[d]), 24 + len(DATA[d])), "encoding")
    refused(lambda: c.add_cert_data(io.BytesIO(b"again")), ctx, "data twice", ValueError)
    ctx.eq(c.encode(), cert_bytes(T1, g, DATA[d]), "encoding after refusing")
    ctx.step(2)
    ctx.state(repr(case))


# -- malformed --------------------------------------------------------------------------------------------------


def gen_bad(tier):
    for typ in (T1, TG):
        for d in (1, 2, 4):
            n = 24 + len(DATA[d])
            for cut in range(n):
                yield [typ, d, "cut", cut]
            for ln in list(range(0, n + 12)) + [2**31, 2**32 - 1]:
                yield [typ, d, "length", ln]


def run_bad(case, ctx):
    from edk2toollib.uefi.wincert import WinCert, WinCertPkcs1, WinCertUefiGuid

    typ, d, what, v = case
    n = 24 + len(DATA[d])
    b = cert_bytes(typ, 0, DATA[d])[:v] if what == "cut" else cert_bytes(typ, 0, DATA[d], length=v)
    loads = [lambda: WinCert.factory(io.BytesIO(b))]
    loads += [lambda: WinCertPkcs1(io.BytesIO(b))] if typ == T1 else [lambda: WinCertUefiGuid(b), lambda: WinCertUefiGuid(io.BytesIO(b))]
    for f in loads:
        if what == "length" and 24 <= v <= n:
            c = f()
            ctx.eq((bytes(c.cert_data), c.encode()), (DATA[d][: v - 24], b[:v]), "shorter certificate")
        else:
            refused(f, ctx, case)
        ctx.step()
    ctx.state(repr(case))


def gen_print(tier):
    for who in ("a", "b"):
        for wrap in (True, False):
            for bad in (False, True):
                yield [who, wrap, bad]


def run_print(case, ctx):
    """certificates are shown, wrapped in a ContentInfo or not"""
    from cryptography.hazmat.primitives import hashes
    from cryptography.hazmat.primitives.serialization import Encoding, pkcs7
    from edk2toollib.uefi.wincert import WinCertUefiGuid
    from pyasn1.codec.der.decoder import decode as der_decode
    from pyasn1.codec.der.encoder import encode as der_encode
    from pyasn1_modules import rfc2315

    who, wrap, bad = case
    k, cert = p26.key(who)
    sig = pkcs7.PKCS7SignatureBuilder().set_data(b"x").add_signer(cert, k, hashes.SHA256()).sign(Encoding.DER, [pkcs7.PKCS7Options.DetachedSignature, pkcs7.PKCS7Options.Binary])
    if not wrap:
        ci, _ = der_decode(sig, asn1Spec=rfc2315.ContentInfo())
        sig = der_encode(der_decode(ci["content"], asn1Spec=rfc2315.SignedData())[0])
    if bad:
        sig = sig[:-5]
    c = WinCertUefiGuid()
    c.add_cert_data(sig)
    if bad:
        refused(lambda: c.print(io.StringIO()), ctx, "damaged certificate", ValueError)
    else:
        out = io.StringIO()
        c.print(out)
        ctx.eq(out.getvalue(), str(c), "str")
        for part in ("%08X" % (24 + len(sig)), "0200", "0EF1", str(PK7).upper(), "%08X" % len(sig)):
            ctx.true(part in str(c), f"{part} is missing")
    ctx.state(repr(case))


# -- sizes of the certificate data ----------------------------------------------------------------------------


def gen_sizes(tier):
    for n in [*counts(tier, 4097, 1, 300), 65535 - 24, 65535, 65536, 65537, 1 << 20]:
        for g in range(3):
            for rest in (0, 1, n):
                yield [n, g, rest]


def run_sizes(case, ctx):
    from edk2toollib.uefi.wincert import WinCert, WinCertPkcs1, WinCertUefiGuid

    n, g, rest = case
    data, tail = bytes(i * 11 & 0xFF for i in range(n)), b"\x30" * rest
    for typ in (TG, T1):
        if typ == TG and g:
            continue
        b = cert_bytes(typ, g, data)
        for how in ("factory", "init", "bytes", "build"):
            f = io.BytesIO(b"12" + b + tail)
            f.seek(2)
            if how == "factory":
                c = WinCert.factory(f)
            elif how == "init":
                c = (WinCertUefiGuid if typ == TG else WinCertPkcs1)(f)
            elif how == "bytes":
                if typ == T1:
                    continue
                c = WinCertUefiGuid(b + tail)
                ctx.true(WinCertUefiGuid().decode(b + tail) == tail, f"data after {n} bytes")
            else:
                c = (WinCertUefiGuid if typ == TG else WinCertPkcs1)()
                if typ == T1:
                    c.set_hash_algorithm(GUIDS[g])
                c.add_cert_data(io.BytesIO(data))
            ctx.true(bytes(c.cert_data) == data, f"data of {n} bytes ({how})")
            ctx.eq(c.Hdr_dwLength, len(b), f"length ({how})")
            ctx.true(c.encode() == b, f"encoding of {n} bytes ({how})")
            if how in ("factory", "init"):
                ctx.eq(f.tell(), 2 + len(b), "position")
    ctx.state(tuple(case))


SUITES = [
    Suite("sizes", gen_sizes, run_sizes, "length of the certificate data and of what follows", "all <=300 bytes, edges to 1 MiB, 3 lengths of what follows"),
    Suite("histories", gen_build, run_build, "setting, encoding, decoding in all orders", {"quick": "depth <=4 of 12 operations", "thorough": "depth <=5"}),
    Suite("decoding", gen_decode, run_decode, "types, GUIDs, revisions, data, what follows", "6 types x 3 GUIDs x 5 data x 3 tails"),
    Suite("pkcs1", gen_new, run_new, "PKCS1 certificates from parts", "3 GUIDs x 5 data x 3 positions"),
    Suite("malformed", gen_bad, run_bad, "all cuts and lengths", "6 certificates, every length"),
    Suite("print", gen_print, run_print, "certificates shown", "2 signers"),
]
