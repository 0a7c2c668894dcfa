"""P37: a status code's text is the one of the UEFI specification, in both widths and in every spelling."""

import itertools
import re

from lib.mc import Suite

ERRORS = """Load Error|Invalid Parameter|Unsupported|Bad Buffer Size|Buffer Too Small|Not Ready|Device Error|Write Protected|Out Of Resources|Volume Corrupted|Volume Full|No Media
Media Changed|Not Found|Access Denied|No Response|No Mapping|Timeout|Not Started|Already Started|Aborted|ICMP Error|TFTP Error|Protocol Error|Incompatible Version
Security Violation|CRC Error|End Of Media|Reserved (29)|Reserved (30)|End Of File|Invalid Language|Compromised Data|IP Address Conflict|HTTP Error""".replace("\n", "|").split("|")
WARNINGS = ["Success", "Unknown Glyph", "Delete Failure", "Write Failure", "Buffer Too Small", "Stale Data", "File System", "Reset Required"]
UNKNOWN = "Undefined StatusCode"
# the library's names of these differ from the specification's only in wording
SAME = {"volumecorrupt": "volumecorrupted", "incompatibleerror": "incompatibleversion"}


def norm(s):
    s = re.sub("[^a-z0-9]", "", s.lower())
    return SAME.get(s, s)


def want(value, bits):
    high = 1 << (bits - 1)
    n = value & (high - 1)
    if value & high:
        return "notvalid" if n == 0 else norm(ERRORS[n - 1]) if n <= len(ERRORS) else norm(UNKNOWN)
    return norm(WARNINGS[n]) if n < len(WARNINGS) else norm(UNKNOWN)


def judge(v, bits, ctx, spell=False):
    from edk2toollib.uefi.status_codes import UefiStatusCode

    u = UefiStatusCode()
    direct, text = (u.Convert32BitToString, u.ConvertHexString32ToString) if bits == 32 else (u.Convert64BitToString, u.ConvertHexString64ToString)
    w = want(v, bits)
    ctx.eq(norm(direct(v)), w, f"{bits} bit status code {v:#x}")
    ctx.eq(norm(text(hex(v))), w, f"{bits} bit status code '{v:#x}'")
    if spell:
        for s in ("%x", "%X", "0x%X", "0X%x", "0x%0" + str(bits // 4) + "x", " 0x%x ", "0x%0" + str(bits // 4) + "X\n"):
            ctx.eq(norm(text(s % v)), w, f"{bits} bit status code {s % v!r}")
    ctx.state((bits, v))


def gen_low(tier):
    top = 1 << (16 if tier == "quick" else 20)
    step = top // 64
    for bits in (32, 64):
        for lo in range(0, top, step):
            yield [bits, lo, step]


def run_low(case, ctx):
    bits, lo, n = case
    for v in range(lo, lo + n):
        judge(v, bits, ctx, v < 256)
        judge(v | 1 << (bits - 1), bits, ctx, v < 256)


def gen_bits(tier):
    for bits in (32, 64):
        for k in range(0, 3 if tier == "quick" else 4):
            for c in itertools.combinations(range(6, bits), k):
                yield [bits, list(c)]


def run_bits(case, ctx):
    bits, at = case
    base = sum(1 << i for i in at)
    for low in range(64):
        judge(base | low, bits, ctx)
    judge((1 << bits) - 1 - base, bits, ctx, True)


SUITES = [
    Suite("low", gen_low, run_low, "codes", {"quick": "all codes below 2^16 with and without the high bit, 32 and 64 bits; 8 spellings of those below 256", "thorough": "all codes below 2^20"}),
    Suite("bits", gen_bits, run_bits, "undefined codes", {"quick": "all values with <=2 of the bits 6.. set and all low six bits, and their complements", "thorough": "<=3"}),
]
