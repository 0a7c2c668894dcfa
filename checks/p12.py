"""P12: GUID text <-> UUID conversions, and GUID lists gathered from DEC/INF files and trees."""

import io
import itertools
import os
import re
import uuid

from checks.common_parsers import write
from lib.mc import Suite
from lib.sizes import counts

BASE = bytes.fromhex("0123456789abcdef0fedcba98765f010")
HEX = "[0-9a-fA-F]"
REG = re.compile(f"{HEX}{{8}}-{HEX}{{4}}-{HEX}{{4}}-{HEX}{{4}}-{HEX}{{12}}")
X = lambda n: rf"\s*0[xX]{HEX}{{1,{n}}}\s*"
CRE = re.compile(r"\{" + X(8) + "," + X(4) + "," + X(4) + r",\s*\{" + ",".join([X(2)] * 8) + r"\}\s*\}")


def cform(u, style):
    """Spellings of the C initialiser."""
    upper, short, sp1, sp2, X0 = style
    f = list(u.fields[:3])
    b = list(u.bytes[8:])
    h = "X" if upper else "x"

    def num(v, w):
        return X0 + (("%" + h) % v if short else ("%0" + str(w) + h) % v)

    return ("{" + sp1 + ("," + sp2).join([num(f[0], 8), num(f[1], 4), num(f[2], 4)]) + "," + sp2 + "{" + sp1
            + ("," + sp2).join(num(x, 2) for x in b) + sp1 + "}" + sp1 + "}")


STYLES = [list(x) for x in itertools.product([0, 1], [0, 1], ["", " "], ["", " ", "  "], ["0x"])]


def gen_values(tier):
    """One byte takes all values (and pairs of bytes a few) while the others stay at two backgrounds."""
    for bg in (BASE.hex(), "00" * 16, "ff" * 16):
        for i in range(16):
            for v in range(256):
                b = bytearray(bytes.fromhex(bg))
                b[i] = v
                yield b.hex()
    for i, j in itertools.combinations(range(16), 2):
        for v, w in itertools.product((0, 0x0A, 0xA0, 0xFF) if tier == "thorough" else (0, 0x0A), repeat=2):
            b = bytearray(BASE)
            b[i], b[j] = v, w
            yield b.hex()


def run_values(case, ctx):
    from edk2toollib.uefi.edk2.parsers.base_parser import BaseParser
    from edk2toollib.uefi.edk2.parsers.guid_parser import GuidParser as G

    u = uuid.UUID(bytes=bytes.fromhex(case))
    reg = str(u)
    c = G.c_guid_str_from_uuid(u)
    ctx.eq(G.uuid_from_guidstring(c), u, "C text made from a uuid parses to it")
    ctx.eq(G.reg_guid_from_c_format(c).lower(), reg, "registry text of the C text")
    ctx.eq(G.reg_guid_str_from_uuid(u).lower(), reg, "registry text")
    ctx.eq(CRE.fullmatch(c) is not None, True, "C text has the C format")
    for r in (reg, reg.upper(), "{" + reg + "}", "  " + reg + " ", "{ " + reg.upper() + " }", "\t{" + reg + "}\n", "\n" + reg + "\r\n"):
        ctx.eq(bool(G.is_guid_in_reg_format(r)), True, f"{r!r} recognised")
        ctx.eq(G.uuid_from_guidstring(r), u, f"uuid of {r!r}")
        ctx.eq(G.uuid_from_guidstring(G.c_guid_from_reg_format(r)), u, f"C text of {r!r}")
    for st in STYLES:
        t = cform(u, st)
        ctx.eq(bool(G.is_guid_in_c_format(t)), True, f"{t!r} recognised")
        ctx.eq(bool(G.is_guid_in_reg_format(t)), False, f"{t!r} is not registry format")
        ctx.eq(G.uuid_from_guidstring(t), u, f"uuid of {t!r}")
        if st[2] == "" or st[3] != "":
            ctx.eq(BaseParser("").ParseGuid(t), reg.upper(), f"ParseGuid of {t!r}")
    ctx.state(case)


EDITS = list("0gx,{}- 1")


def gen_long(tier):
    """Fields with a digit too many."""
    for st in range(len(STYLES)):
        for i in range(11):
            for d in "18aF":
                yield [st, i, d]


def run_long(case, ctx):
    from edk2toollib.uefi.edk2.parsers.base_parser import BaseParser
    from edk2toollib.uefi.edk2.parsers.guid_parser import GuidParser as G

    st, i, d = case
    # without leading zeros, so that every field is full
    t = cform(uuid.UUID(bytes=bytes([0x81 + j for j in range(16)])), STYLES[st])
    parts = t.split("0x")
    parts[i + 1] = d + parts[i + 1]
    t = "0x".join(parts)
    ctx.eq(G.uuid_from_guidstring(t), None, f"uuid of {t!r}")
    try:
        got = BaseParser("").ParseGuid(t)
    except RuntimeError:
        got = "refused"
    ctx.eq(got, "refused", f"ParseGuid of {t!r}")
    ctx.state(t)


def gen_edits(tier):
    u = uuid.UUID(bytes=BASE)
    for text in (str(u), cform(u, STYLES[0]), cform(u, STYLES[5])):
        for i in range(len(text) + 1):
            yield [text, i, "", 1]
            for c in EDITS:
                yield [text, i, c, 0]
                yield [text, i, c, 1]
    for t in ("", " ", "{}", "0", "-" * 4, "{" * 3, "{,}", "gEfiGuid", "{{},{}}"):
        yield [t, 0, "", 0]


def run_edits(case, ctx):
    """Every single-character edit: either it still is that format and gives the right value, or it is refused."""
    from edk2toollib.uefi.edk2.parsers.guid_parser import GuidParser as G

    text, i, c, drop = case
    t = text[:i] + c + text[i + drop:]
    s = t.strip()
    want = None
    if CRE.fullmatch(s):
        n = [int(x, 16) for x in re.sub(r"[{}\s]", "", s).split(",")]
        want = uuid.UUID(fields=(n[0], n[1], n[2], n[3], n[4], int.from_bytes(bytes(n[5:]), "big")))
    elif REG.fullmatch(s.strip("{} ")):
        want = uuid.UUID(s.strip("{} "))
    ctx.eq(G.uuid_from_guidstring(t), want, f"uuid of {t!r}")
    from edk2toollib.uefi.edk2.parsers.base_parser import BaseParser

    if t.count(",") != 10 or CRE.fullmatch(s):
        try:
            got = BaseParser("").ParseGuid(t)
        except RuntimeError:
            got = "refused"
        ctx.eq(got, str(want).upper() if t.count(",") == 10 else "refused", f"ParseGuid of {t!r}")
    if want is None:
        ctx.eq(bool(G.is_guid_in_c_format(t) or G.is_guid_in_reg_format(t)), False, f"{t!r} refused")
        ctx.eq(G.reg_guid_from_c_format(t), "", f"registry text of {t!r}")
        ctx.eq(G.c_guid_from_reg_format(t), "", f"C text of {t!r}")
    ctx.state(t)


# -- lists of GUIDs from trees ------------------------------------------------------------------------

GU = [str(uuid.UUID(int=0xabcdef0122233334c4445555555555a0 + i)) for i in range(8)]
FILES = {
    "A.dec": lambda: ("[Defines]\nPACKAGE_NAME = A\nPACKAGE_GUID = %s\n[Guids]\ngA = %s\n[Protocols]\ngP = %s\n[Ppis]\ngI = %s\n"
                      % (GU[0], *[cform(uuid.UUID(g), STYLES[3]) for g in GU[1:4]]),
                      [("A", GU[0]), ("gA", GU[1]), ("gP", GU[2]), ("gI", GU[3])]),
    "M.inf": lambda: ("[Defines]\nBASE_NAME = M\nFILE_GUID = %s\n" % GU[4], [("M", GU[4])]),
    "N.INF": lambda: ("[Defines]\nBASE_NAME = N\nFILE_GUID = %s\n" % GU[5].upper(), [("N", GU[5])]),
    "NoGuid.inf": lambda: ("[Defines]\nBASE_NAME = X\n", []),
    "B.DEC": lambda: ("[Guids]\ngB = %s\n" % cform(uuid.UUID(GU[6]), STYLES[0]), [("gB", GU[6])]),
    "note.txt": lambda: ("[Defines]\nBASE_NAME = X\nFILE_GUID = %s\n" % GU[7], []),
}
DIRS = ["", "d", "d/e"]
IGNORES = [[], ["d/"], ["*.inf"], ["e/"], ["A.dec", "M.inf"], ["*.dec", "!A.dec"], ["/d/M.inf"], ["# comment", ""]]


def gen_tree(tier):
    names = list(FILES)
    for a in itertools.product(range(4), repeat=len(names)):
        if tier == "quick" and sum(1 for x in a if x == 3) < 3:
            continue
        for ig in range(len(IGNORES)):
            yield [list(a), ig]


def run_tree(case, ctx):
    from edk2toollib.uefi.edk2.guid_list import GuidList

    place, ig = case
    ws = os.path.join(ctx.tmp(), "ws")
    os.makedirs(ws)
    ignore = IGNORES[ig]
    want = []
    for (name, mk), p in zip(FILES.items(), place):
        if p == 3:
            continue
        text, guids = mk()
        path = write(os.path.join(ws, DIRS[p], name), text)
        rel = os.path.relpath(path, ws)
        hidden = False
        for pat in ignore:
            if pat == "d/":
                hidden |= rel.startswith("d/")
            elif pat == "e/":
                hidden |= "/e/" in "/" + rel
            elif pat == "!A.dec":
                hidden &= os.path.basename(rel) != "A.dec"
            elif pat.startswith("*."):
                hidden |= rel.endswith(pat[1:])
            elif pat.startswith("/"):
                hidden |= rel == pat[1:]
            elif pat and not pat.startswith("#"):
                hidden |= os.path.basename(rel) == pat
        if not hidden:
            want += [(n, g.upper(), path) for n, g in guids]
    got = [(g.name, g.guid, g.absfilepath) for g in GuidList.guidlist_from_filesystem(ws, list(ignore))]
    ctx.eq(sorted(got), sorted(want), f"GUIDs below the folder with ignore {ignore}")
    ctx.state((tuple(place), ig))


# -- sizes ----------------------------------------------------------------------------------------------


def gen_sizes(tier):
    for what in ("guids", "infs", "decs", "depth", "ignores", "folders"):
        for n in counts(tier, {"depth": 40, "guids": 1025}.get(what, 129), low=1):
            yield [what, n]


def run_sizes(case, ctx):
    from edk2toollib.uefi.edk2.guid_list import GuidList

    what, n = case
    ws = os.path.join(ctx.tmp(), "ws")
    os.makedirs(ws)
    guid = lambda i: str(uuid.UUID(int=(i + 1) << 64 | (i * 7 + 1)))  # noqa: E731
    want, ignore = [], []

    def inf(path, i):
        p = write(os.path.join(ws, path), f"[Defines]\nBASE_NAME = M{i}\nFILE_GUID = {guid(i)}\n")
        want.append((f"M{i}", guid(i).upper(), p))

    if what == "guids":
        p = write(os.path.join(ws, "P.dec"), "[Guids]\n" + "".join(f"g{i} = {cform(uuid.UUID(guid(i)), STYLES[i % len(STYLES)])}\n" for i in range(n)))
        want += [(f"g{i}", guid(i).upper(), p) for i in range(n)]
    elif what == "infs":
        for i in range(n):
            inf(f"M{i}.inf", i)
    elif what == "decs":
        for i in range(n):
            p = write(os.path.join(ws, f"P{i}.dec"), f"[Protocols]\ng{i} = {cform(uuid.UUID(guid(i)), STYLES[3])}\n")
            want.append((f"g{i}", guid(i).upper(), p))
    elif what == "depth":
        for i in range(n):
            inf("d/" * i + f"M{i}.inf", i)
    elif what == "folders":
        for i in range(n):
            inf(f"d{i}/M{i}.inf", i)
    else:
        for i in range(n):
            inf(f"d{i}/M{i}.inf", i)
        keep = want[-1:]
        want[:] = keep
        ignore = [f"/d{i}/" for i in range(n - 1)]
    got = [(g.name, g.guid, g.absfilepath) for g in GuidList.guidlist_from_filesystem(ws, list(ignore))]
    ctx.eq(sorted(got), sorted(want), "GUIDs below the folder")
    ctx.state(repr(case))


SUITES = [
    Suite("sizes", gen_sizes, run_sizes, "numbers of GUIDs, files, folders and rules, depth of folders", {"quick": "every number up to 24 and edges up to 129 (1025 GUIDs)", "thorough": "every number up to 72"}),
    Suite("long", gen_long, run_long, "fields with a digit too many are refused", "every field, 4 digits, all spellings"),
    Suite("edits", gen_edits, run_edits, "single-character edits of GUID texts", "3 texts, all positions, 9 characters"),
    Suite("tree", gen_tree, run_tree, "GUID lists of directory trees", "6 files over 3 directories, 8 ignore lists"),
    Suite("values", gen_values, run_values, "all byte values at every position, all spellings", "1 byte exhaustive, 2 bytes"),
]
