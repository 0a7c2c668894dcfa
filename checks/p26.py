"""P26: authenticated variables carry exactly the payload, time and signature they were built with."""

import datetime
import io
import itertools
import os
import struct
import uuid

from checks import p25
from lib.mc import Suite
from lib.sizes import counts

G = "4FCBCF26-5148-4713-982C-692E0DAD2F2A"
ESL = p25.esl_bytes("S", [[0, 0], [1, 1]]) + p25.esl_bytes("X", [[1, 0]])
PAYLOADS = {"none": None, "empty": b"", "raw": b"Hello UEFI", "esl": ESL, "esl2": p25.esl_bytes("S", [[2, 0]]), "cutesl": ESL[:-1], "zeros": bytes(40)}
DATES = [(1970, 1, 1, 0, 0, 0), (2022, 12, 31, 23, 59, 59), (2000, 2, 29, 12, 1, 2), (9999, 9, 9, 9, 9, 9), (1, 1, 1, 1, 1, 1)]
_keys = {}


def key(n):
    from cryptography import x509
    from cryptography.hazmat.primitives.serialization import load_pem_private_key

    if n not in _keys:
        with open(os.path.join(os.path.dirname(__file__), "data", n + ".pem"), "rb") as f:
            b = f.read()
        _keys[n] = (load_pem_private_key(b, None), x509.load_pem_x509_certificate(b[b.index(b"-----BEGIN CERT"):]))
    return _keys[n]


def time_bytes(d):
    return struct.pack("<H6B", *d, 0) + bytes(8)


def is_db(b):
    """What a signature database is: well-formed lists of the supported types."""
    try:
        while b:
            t = uuid.UUID(bytes_le=b[:16])
            ls, hs, es = struct.unpack("<III", b[16:28])
            if hs or ls < 28 or ls > len(b) or t not in (p25.SHA, p25.X509) or (ls > 28 and (es < 16 or (ls - 28) % es or (t == p25.SHA and es != 48))):
                return False
            b = b[ls:]
        return True
    except (struct.error, ValueError):
        return False


# -- EFI_TIME -----------------------------------------------------------------------------------------------------


def gen_time(tier):
    for y in (1, 1998, 2024, 2023, 9999):
        for mo in range(0, 14):
            for d in (0, 1, 28, 29, 30, 31, 32):
                yield [y, mo, d]


def run_time(case, ctx):
    from edk2toollib.uefi.authenticated_variables_structure_support import EfiTime

    y, mo, d = case
    for h, mi, s in itertools.product((0, 23, 24), (0, 59, 60), (0, 59, 60)):
        try:
            dt = datetime.datetime(y, mo, d, h, mi, s)
        except ValueError:
            dt = None
        b = struct.pack("<H6B", y, mo, d, h, mi, s, 0) + bytes(8)
        if dt is not None:
            t = EfiTime(time=dt)
            ctx.eq((t.encode(), t.get_datetime()), (b, dt), "encoding")
            ctx.eq(EfiTime(time=dt.replace(microsecond=999999)).encode(), b, "encoding of a time with microseconds")
            out = io.BytesIO()
            t.write(out)
            ctx.eq(out.getvalue(), b, "write")
        for how in ("stream", "from_binary", "again"):
            fs = io.BytesIO(b"abc" + b + b"rest")
            fs.seek(3)
            try:
                if how == "stream":
                    t = EfiTime(decodefs=fs)
                    ctx.eq(fs.tell(), 19, "position")
                elif how == "again":
                    t = EfiTime(time=datetime.datetime(2011, 1, 1))
                    ctx.eq(t.decode(fs), dt, "decode returns the time")
                else:
                    t = EfiTime.from_binary(b)
            except ValueError:
                ctx.eq(dt, None, "a valid time was refused")
                continue
            ctx.true(dt is not None, f"an impossible time was accepted: {case} {h} {mi} {s}")
            ctx.eq((t.get_datetime(), t.encode()), (dt, b), how)
            # nanoseconds
            nb = b[:8] + struct.pack("<L", 123456789) + b[12:]
            ctx.eq(EfiTime(decodefs=io.BytesIO(nb)).get_datetime(), dt.replace(microsecond=123456), "nanoseconds")
            ctx.eq(EfiTime.from_binary(nb).get_datetime(), dt.replace(microsecond=123456), "nanoseconds")
        if dt is not None:
            for extra in (b"\0", b"more", bytes(16)):
                ctx.eq(EfiTime.from_binary(b + extra).get_datetime(), dt, "data after the time")
        for n in range(0, 16):
            for f in (lambda: EfiTime(decodefs=io.BytesIO(b[:n])), lambda: EfiTime.from_binary(b[:n])):
                try:
                    f()
                    ctx.fail("a short buffer was accepted")
                except ValueError:
                    pass
        ctx.step()
    ctx.state(repr(case))


# -- the builder --------------------------------------------------------------------------------------------------


def gen_build(tier):
    n = 2 if tier == "quick" else 3
    forms = ("bytes", "stream", "offset")
    for name in ("", "db", "B\u00f6\U0001f600"):
        for attr in (0x27, "NV,BS,RT,AT", "EFI_VARIABLE_APPEND_WRITE", 0):
            for d in range(len(DATES)):
                for form in forms:
                    for first in PAYLOADS:
                        yield [name, attr, d, form, [first], "a", [], True]
    for form in forms:
        for k in range(2, n + 2):
            for t in itertools.product(PAYLOADS, repeat=k):
                yield ["dbx", 0x67, 1, form, list(t), "a", [], True]
    for signer in ("a", "b"):
        for extra in ([], ["a"], ["b"], ["a", "b"]):
            for omit in (True, False):
                for p in PAYLOADS:
                    yield ["dbx", 0x67, 2, "bytes", [p], signer, extra, omit]


class Wrap:
    def __init__(self, c):
        self.certificate = c


def run_build(case, ctx):
    from cryptography.hazmat.primitives import hashes
    from cryptography.hazmat.primitives.asymmetric import padding
    from cryptography.hazmat.primitives.serialization import Encoding
    from edk2toollib.uefi.authenticated_variables_structure_support import EfiVariableAuthentication2, EfiVariableAuthentication2Builder
    from pyasn1.codec.der.decoder import decode as der_decode
    from pyasn1.codec.der.encoder import encode as der_encode
    from pyasn1_modules import rfc2315

    name, attr, d, form, payloads, signer, extra, omit = case
    val = attr if isinstance(attr, int) else {"N": 0x27, "E": 0x40}[attr[0]]
    dt = datetime.datetime(*DATES[d])
    head = name.encode("utf-16-le") + uuid.UUID(G).bytes_le + struct.pack("<I", val) + time_bytes(DATES[d])

    def as_form(p):
        if p is None or form == "bytes":
            return p
        fs = io.BytesIO(b"skipped" + p if form == "offset" else p)
        fs.seek(7 if form == "offset" else 0)
        return fs

    b = None
    for i, pn in enumerate(payloads):
        arg = as_form(PAYLOADS[pn])
        if b is None:
            b = EfiVariableAuthentication2Builder(name, G if d % 2 else uuid.UUID(G), attr, arg, dt)
        else:
            b.update_payload(arg)
        ctx.eq(b.get_digest(), head + (PAYLOADS[pn] or b""), f"data to be signed after payloads {payloads[:i + 1]}")
        ctx.step()
    ctx.eq(b.get_signature(), b"", "signature before signing")
    k, cert = key(signer)
    b.sign(cert, k, [Wrap(key(x)[1]) for x in extra])
    v = b.finalize() if omit and form != "bytes" else b.finalize(omit_content_info=omit)
    want = PAYLOADS[payloads[-1]] or b""
    enc = v.encode()
    sig = b.get_signature()
    ctx.eq(enc, time_bytes(DATES[d]) + struct.pack("<LHH", 24 + len(sig), 0x200, 0xEF1) + uuid.UUID("4aafd29d-68df-49ee-8aa9-347d375665a7").bytes_le + sig + want,
           "encoded variable")
    # the signature
    if omit:
        sd, rest = der_decode(sig, asn1Spec=rfc2315.SignedData())
    else:
        ci, rest = der_decode(sig, asn1Spec=rfc2315.ContentInfo())
        ctx.eq(ci["contentType"], rfc2315.signedData, "content type")
        sd, _ = der_decode(ci["content"], asn1Spec=rfc2315.SignedData())
    ctx.eq(rest, b"", "data after the signature")
    ctx.true(not sd["contentInfo"]["content"].hasValue(), "the signed content is not detached")
    infos = list(sd["signerInfos"])
    ctx.eq(len(infos), 1, "signers")
    ctx.true(not infos[0]["authenticatedAttributes"].hasValue(), "attributes in the signature")
    cert.public_key().verify(bytes(infos[0]["encryptedDigest"]), head + want, padding.PKCS1v15(), hashes.SHA256())
    got = {der_encode(c["certificate"]) for c in sd["certificates"]}
    ctx.eq(got, {key(x)[1].public_bytes(Encoding.DER) for x in [signer] + extra}, "certificates")
    ctx.step(2)
    # reading it
    w = EfiVariableAuthentication2(decodefs=io.BytesIO(enc))
    ctx.eq(w.encode(), enc, "encoding of the decoded variable")
    out = io.BytesIO()
    w.write(out)
    ctx.eq(out.getvalue(), enc, "write")
    for x in (v, w):
        ctx.eq((bytes(x.payload or b""), x.payload_size, x.time.get_datetime(), bytes(x.auth_info.get_certificate())), (want, len(want), dt, sig), "parts")
        ctx.eq(x.sig_list_payload is not None, bool(want) and is_db(want), "signature lists in the payload")
        if x.sig_list_payload is not None:
            ctx.eq(x.sig_list_payload.encode(), want, "signature lists of the payload")
        text = io.StringIO()
        x.print(text)
        t = text.getvalue().split("VARIABLE PAYLOAD")[1]
        ctx.eq("EfiSignatureList" in t, bool(want) and is_db(want), "printed payload")
        if want == PAYLOADS["raw"]:
            ctx.true("Hello UEFI" in t, "printed payload")
    ctx.step(2)
    ctx.state(repr(case))


# -- payload histories of the variable itself --------------------------------------------------------------------


def gen_pay(tier):
    n = 4 if tier == "quick" else 5
    names = [p for p in PAYLOADS if p != "none"]
    for k in range(1, n + 1):
        for t in itertools.product(names, repeat=k):
            yield list(t)


def run_pay(case, ctx):
    from edk2toollib.uefi.authenticated_variables_structure_support import EfiVariableAuthentication2

    cert = struct.pack("<LHH", 24 + 3, 0x200, 0xEF1) + uuid.UUID("4aafd29d-68df-49ee-8aa9-347d375665a7").bytes_le + b"abc"
    v = EfiVariableAuthentication2(time=datetime.datetime(*DATES[1]))
    v.auth_info.add_cert_data(b"abc")
    r = EfiVariableAuthentication2(decodefs=io.BytesIO(time_bytes(DATES[0]) + cert + ESL))
    for pn in case:
        want = PAYLOADS[pn]
        enc = time_bytes(DATES[1]) + cert + want
        fs = io.BytesIO(b"xyz" + want)
        fs.seek(3)
        v.set_payload(fs)
        r.decode(io.BytesIO(enc))
        for x in (v, r, EfiVariableAuthentication2(decodefs=io.BytesIO(enc))):
            ctx.eq(x.encode(), enc, f"encoding with payload {pn}")
            out = io.BytesIO()
            x.write(out)
            ctx.eq(out.getvalue(), enc, f"write with payload {pn}")
            ctx.eq((bytes(x.payload or b""), x.payload_size), (want, len(want)), "payload")
            ctx.eq(x.sig_list_payload is not None, bool(want) and is_db(want), f"signature lists in payload {pn}")
            if x.sig_list_payload is not None:
                ctx.eq(x.sig_list_payload.encode(), want, "signature lists")
        ctx.step(3)
    ctx.state(repr(case))


# -- default times ------------------------------------------------------------------------------------------------

MAKERS = ("time", "variable", "old", "builder", "builder_none")
ready = False


def gen_default(tier):
    n = 2 if tier == "quick" else 3
    for k in range(1, n + 1):
        for t in itertools.product(MAKERS, repeat=k):
            for explicit in (False, True):
                yield [list(t), explicit]


def run_default(case, ctx):
    """An object made without a time has the time at which it was made, not an earlier one."""
    import time

    from edk2toollib.uefi import authenticated_variables_structure_support as a

    global ready
    if not ready:
        time.sleep(1.2)  # the import is in the past
        ready = True
    which, explicit = case
    old = datetime.datetime(2001, 2, 3, 4, 5, 6)
    made = []

    def make(m, *args):
        if m == "time":
            return a.EfiTime(*args)
        if m == "variable":
            return a.EfiVariableAuthentication2(*args)
        if m == "old":
            return a.EFiVariableAuthentication2(*args)
        kw = {"efi_time": args[0]} if args else {}
        return a.EfiVariableAuthentication2Builder("db", G, 0x27, *([None] if m == "builder_none" else [b"x"]), **kw)

    def when(o):
        o = getattr(o, "authenticated_variable", o)
        return getattr(o, "time", o).get_datetime() if not isinstance(o, a.EfiTime) else o.get_datetime()

    for m in which:
        if explicit:
            ctx.eq(when(make(m, old)), old, f"given time of {m}")
        t0 = datetime.datetime.now()
        o = make(m)
        t1 = datetime.datetime.now()
        ctx.true(t0.replace(microsecond=0) <= when(o) <= t1, f"default time of {m}: {when(o)}, made between {t0} and {t1}")
        made.append((o, when(o)))
        ctx.step()
        time.sleep(0.01)
    for o, t in made:
        ctx.eq(when(o), t, "the time changed later")
    ctx.state(repr(case))


# -- sizes: length of the payload, the name and the number of signatures -----------------------------------------


def gen_sizes(tier):
    for n in [*counts(tier, 4097, 0), 65535, 65536, 65537]:
        for what in ("raw", "cert", "name"):
            if what != "name" or n < 1100:
                yield [what, n]
    for n in counts(tier, 513, 0):
        yield ["hashes", n]


def run_sizes(case, ctx):
    from edk2toollib.uefi.authenticated_variables_structure_support import EfiVariableAuthentication2, EfiVariableAuthentication2Builder

    what, n = case
    pay, sig, name = b"payload", b"abc", "db"
    if what == "raw":
        pay = b"R" * n
    elif what == "cert":
        sig = bytes(i * 7 & 0xFF for i in range(n))
    elif what == "name":
        name = "n\u00e9"[n % 2] * n
    else:
        pay = p25.esl_bytes("S", [[i % 5, i % 2] for i in range(n)])
    tb = time_bytes(DATES[1])
    b = EfiVariableAuthentication2Builder(name, G, 0x27, pay, datetime.datetime(*DATES[1]))
    head = name.encode("utf-16-le") + uuid.UUID(G).bytes_le + struct.pack("<I", 0x27) + tb
    ctx.true(b.get_digest() == head + pay, f"data to be signed ({what} {n})")
    enc = tb + struct.pack("<LHH", 24 + len(sig), 0x200, 0xEF1) + uuid.UUID("4aafd29d-68df-49ee-8aa9-347d375665a7").bytes_le + sig + pay
    f = io.BytesIO(b"xyz" + enc)
    f.seek(3)
    v = EfiVariableAuthentication2(decodefs=f)
    ctx.true(v.encode() == enc, f"encoding of the decoded variable ({what} {n})")
    ctx.true((bytes(v.payload or b""), v.payload_size, bytes(v.auth_info.get_certificate())) == (pay, len(pay), sig), f"parts ({what} {n})")
    if v.sig_list_payload is not None:
        ctx.true(v.sig_list_payload.encode() == pay, f"signature lists ({what} {n})")
    ctx.eq(v.sig_list_payload is not None, bool(pay) and is_db(pay), "signature lists in the payload")
    w = EfiVariableAuthentication2(time=datetime.datetime(*DATES[1]))
    w.auth_info.add_cert_data(sig)
    w.set_payload(io.BytesIO(pay))
    ctx.true(w.encode() == enc, f"encoding of a new variable ({what} {n})")
    if what in ("raw", "hashes") and n in (0, 1, 64, 256, 65537):
        cert = key("a")[1]
        b.sign(cert, key("a")[0])
        ctx.true(b.finalize().encode().endswith(pay), f"signed variable ({what} {n})")
    ctx.state(tuple(case))


SUITES = [
    Suite("sizes", gen_sizes, run_sizes, "length of payload, name and signature, number of hashes", "to 65537 bytes, names to 1025 characters, <=513 hashes"),
    Suite("times", gen_time, run_time, "EFI_TIME of all boundary dates, impossible ones included", "5 years x 14 months x 7 days x 27 times"),
    Suite("builder", gen_build, run_build, "payload updates, signing, decoding; signatures are verified", {"quick": "<=3 payloads of 7 in 3 forms", "thorough": "<=4 payloads"}),
    Suite("payloads", gen_pay, run_pay, "sequences of payloads", {"quick": "<=4 of 6", "thorough": "<=5"}),
    Suite("defaults", gen_default, run_default, "sequences of objects made without a time", {"quick": "<=2 of 5", "thorough": "<=3"}),
]
