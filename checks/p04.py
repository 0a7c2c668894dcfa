"""P04: '#' comments end a line exactly outside quoted strings; comments and blank lines change no parse result."""

import itertools
import os
import re

from checks.common_parsers import edk2path, make_ws, write
from lib.mc import Suite
from lib.sizes import counts

ALPHA = 'a #"\'\\='


def ref(line):
    """Index of the comment start, or None: quotes toggle, a backslash takes the quote meaning from the next character."""
    quote = None
    i = 0
    esc = False
    while i < len(line):
        c = line[i]
        if esc:
            esc = False
            if c == "#" and quote is None:
                return i
            i += 1
            continue
        if c == "\\":
            esc = True
        elif quote:
            if c == quote:
                quote = None
        elif c in "\"'":
            quote = c
        elif c == "#":
            return i
        i += 1
    return None


def gen(tier):
    n = 6 if tier == "quick" else 7
    for k in (1, 2, 3):
        for p in itertools.product(ALPHA, repeat=k):
            yield ["".join(p), 0 if k < 3 else n - 3]


def run(case, ctx):
    from edk2toollib.uefi.edk2.parsers.base_parser import HashFileParser

    pre, more = case
    p = HashFileParser("")
    n = 0
    for k in range(more + 1):
        for t in itertools.product(ALPHA, repeat=k):
            line = pre + "".join(t)
            cut = ref(line)
            want = (line if cut is None else line[:cut]).strip()
            got = p.StripComment(line).strip()
            n += 1
            if got != want:
                ctx.fail(f"{line!r}: stripped to {got!r}, expected {want!r}")
            ctx.state((want, cut is None))
    ctx.step(n)


# -- comment insensitivity of whole files -----------------------------------------------------------

DSC = ["[Defines]", "PLATFORM_NAME = Test", 'DEFINE M = "a#b"', "SUPPORTED_ARCHITECTURES = X64|IA32", "[LibraryClasses.X64]",
       "BaseLib|TestPkg/BaseLib.inf", "[Components.X64]", "TestPkg/A.inf {", "<LibraryClasses>", "DebugLib|TestPkg/D.inf", "}",
       '!if $(M) == "a#b"', "TestPkg/B.inf", "!else", "TestPkg/C.inf", "!endif", "[PcdsFixedAtBuild]", "gTestTokenSpaceGuid.PcdX|5"]
FDF = ["[Defines]", "DEFINE FD_BASE = 0x800", "DEFINE S = 'x#y'", "[FD.MAIN]", "BaseAddress = 1", "[FV.ONE]",
       "INF TestPkg/A.inf", "FILE FREEFORM = 7E175642-F3AD-490A-9F8A-2E9FC6933DDD {", 'SECTION UI = "N#1"', "SECTION RAW = a.bin", "}",
       "INF TestPkg/B.inf", "!if $(S) == 'x#y'", "INF TestPkg/C.inf", "!endif"]
INF = ["[Defines]", "BASE_NAME = Mod", "LIBRARY_CLASS = ModLib|PEIM DXE_DRIVER", "MODULE_TYPE = DXE_DRIVER", "[Packages]", "MdePkg/MdePkg.dec",
       "[Sources]", "A.c", "[Sources.X64]", "X.nasm", "[LibraryClasses]", "BaseLib", "[Protocols]", "gEfiProt", "[Guids]", "gGuid",
       "[Ppis]", "gPpi", "[Pcd]", "gTok.PcdX", "[Binaries]", "PE32|a.efi"]
DEC = ["[Defines]", "PACKAGE_NAME = TestPkg", "PACKAGE_GUID = 7E175642-F3AD-490A-9F8A-2E9FC6933DDD", "[Includes]", "Include", "[Includes.X64]", "Include/X64",
       "[LibraryClasses]", "BaseLib|Include/BaseLib.h", "[Guids]",
       "gG = { 0xD3B36F2C, 0xD551, 0x11D4, { 0x9A, 0x46, 0x00, 0x90, 0x27, 0x3F, 0xC1, 0x4D }}",
       "[Protocols]", "gP = { 0xD3B36F2C, 0xD551, 0x11D4, { 0x9A, 0x46, 0x00, 0x90, 0x27, 0x3F, 0xC1, 0x4E }}",
       "[Ppis]", "gI = { 0xD3B36F2C, 0xD551, 0x11D4, { 0x9A, 0x46, 0x00, 0x90, 0x27, 0x3F, 0xC1, 0x4F }}",
       "[PcdsFixedAtBuild]", "gTok.PcdX|0x5|UINT32|0x1"]
TT = ["ACTIVE_PLATFORM = TestPkg/Test.dsc", "TARGET = DEBUG", "TARGET_ARCH = X64", "MAX_CONCURRENT_THREAD_NUMBER = 4"]
RICH = {
    "dsc": ["[Defines]", "PLATFORM_NAME = Test", "SUPPORTED_ARCHITECTURES = X64|IA32", "DEFINE A = 1", "EDK_GLOBAL B = TestPkg",
            "FLASH_DEFINITION = $(B)/x.fdf", "[SkuIds]", "0|DEFAULT", "[LibraryClasses.common.PEIM, LibraryClasses.X64]",
            "BaseLib|$(B)/BaseLib.inf", "NULL|TestPkg/N.inf", "[Components]", "TestPkg/C.inf", "[Components.IA32]", "$(B)/I.inf {",
            "<LibraryClasses>", "DebugLib|TestPkg/D.inf", "NULL|TestPkg/E.inf", "<PcdsFixedAtBuild>", "gTestTokenSpaceGuid.PcdQ|3",
            "<Defines>", "FILE_GUID = 7E175642-F3AD-490A-9F8A-2E9FC6933DDD", "<BuildOptions>", "GCC:*_*_*_CC_FLAGS = -D X=1", "}",
            "!ifdef $(A)", "TestPkg/B.inf", "!elseif $(A) == 2 AND $(B) != 3", "TestPkg/G.inf", "!else", "TestPkg/H.inf", "!endif",
            "[PcdsDynamicDefault.common.DEFAULT]", 'gTestTokenSpaceGuid.PcdX|L"a b"|VOID*|0x10', "[BuildOptions]",
            "GCC:*_*_*_DLINK_FLAGS = -z x=1", "!include TestPkg/inc.dsc.inc"],
    "fdf": ["[Defines]", "DEFINE FD_BASE = 0x800", "B = TestPkg", "[FD.MAIN]", "BaseAddress = $(FD_BASE)|gTok.PcdX", "0x0|0x10", "FV = ONE",
            "[FV.ONE]", "DEFINE L = TestPkg/L", "BlockSize = 0x10", "INF $(L).inf", "INF RuleOverride = ACPI TestPkg/A.inf",
            "INF USE = X64 TestPkg/U.inf", "FILE FV_IMAGE = 7E175642-F3AD-490A-9F8A-2E9FC6933DDD {",
            "SECTION FV_IMAGE = DXEFV", "}", "FILE RAW = 7E175642-F3AD-490A-9F8A-2E9FC6933DDE {", "SECTION RAW = a.bin",
            "SECTION RAW = b.bin", "}", "!if $(FD_BASE) == 0x800 OR $(B) == 3", "INF TestPkg/O.inf", "!endif",
            "!include TestPkg/inc.fdf.inc", "[Rule.Common.PEIM]", "FILE PEIM = $(NAMED_GUID) {", "PE32 PE32 x.efi", "}", "[Capsule.X]",
            "CAPSULE_GUID = 1"],
    "inf": ["[Defines]", "INF_VERSION = 0x1", "BASE_NAME = Mod", "DEFINE P = Sub/dir", "LIBRARY_CLASS = ModLib|PEIM",
            "[Sources.X64, Sources.IA32]", "$(P)/A.c|GCC", "Sub/B.c", "[LibraryClasses.common.PEIM]", "BaseLib|gTok.Pcd", "[Guids]",
            "gG|gTok.F ## CONSUMES", "[FixedPcd.X64]", "gTok.PcdX|0x5", "[FeaturePcd]", "gTok.PcdY", "[Depex]", "gA AND gB",
            "[BuildOptions]", "GCC:*_*_*_CC_FLAGS = -D X=1", '[UserExtensions.TianoCore."ExtraFiles"]', "X.uni"],
    "dec": ["[Defines]", "DEC_SPECIFICATION = 0x5", "PACKAGE_NAME = TestPkg", "PACKAGE_VERSION = 0.1", "[Includes, Includes.X64]", "Include",
            "[Includes.Common.Private]", "Private", "[LibraryClasses.common, LibraryClasses.X64]", "BaseLib|Include/BaseLib.h",
            "[Guids.common.Private]", "gG = { 0xD3B36F2C, 0xD551, 0x11D4, { 0x9A, 0x46, 0x00, 0x90, 0x27, 0x3F, 0xC1, 0x4D }}",
            "[PcdsFixedAtBuild, PcdsPatchableInModule.X64]", "gTok.PcdX|0x5|UINT32|0x1", 'gTok.PcdV|L"a b"|VOID*|0x2',
            "gTok.PcdS|{0x0}|STRUCT|0x3 {", "<HeaderFiles>", "a.h", "<Packages>", "TestPkg/TestPkg.dec", "}", "gTok.PcdS.f|5"],
    "txt": ["ACTIVE_PLATFORM = TestPkg/Test.dsc", "TARGET_ARCH = X64 IA32", "TOOL_CHAIN_TAG = GCC5"],
}
FILES = {"dsc": DSC, "fdf": FDF, "inf": INF, "dec": DEC, "txt": TT}
NOISE = ["  # tail", "\t#", " # [Components.X64] \"quoted\" 'c' $(M)", "#x", " ## !if FALSE"]
LINES = ["# whole", "", "   ", "  # it's", "#[Defines]", "# !endif", '#"']


def parse(kind, path, ws):
    pp = edk2path(ws)
    if kind == "dsc":
        from edk2toollib.uefi.edk2.parsers.dsc_parser import DscParser
        d = DscParser().SetEdk2Path(pp)
        d.ParseFile(path)
        return [d.LocalVars, d.LibraryClassToInstanceDict, d.SixMods, d.ThreeMods, d.OtherMods, d.Libs, d.ScopedLibraryDict, d.Pcds, d.PcdValueDict,
                [list(c) for c in d.Components], [x["data"] for x in d.SixModsEnhanced]]
    if kind == "fdf":
        from edk2toollib.uefi.edk2.parsers.fdf_parser import FdfParser
        d = FdfParser().SetEdk2Path(pp)
        d.ParseFile(path)
        return [d.Dict, d.FVs, d.FDs]
    if kind == "inf":
        from edk2toollib.uefi.edk2.parsers.inf_parser import InfParser
        d = InfParser().SetEdk2Path(pp)
        d.ParseFile(path)
        return [d.Dict, d.LibraryClass, d.SupportedPhases, d.PackagesUsed, d.LibrariesUsed, d.ProtocolsUsed, d.GuidsUsed,
                d.PpisUsed, d.PcdsUsed, d.Sources, d.Binaries, d.ScopedLibraryDict, d.ScopedSourceDict]
    if kind == "dec":
        from edk2toollib.uefi.edk2.parsers.dec_parser import DecParser
        d = DecParser().SetEdk2Path(pp)
        d.ParseFile(path)
        return [d.Dict, [(g.name, str(g.guid)) for g in d.Guids + d.Protocols + d.PPIs],
                [(x.name, x.path) for x in d.LibraryClasses], [(x.token_space_name, x.name, x.default_value) for x in d.Pcds],
                [str(i) for i in d.IncludePaths]]
    from edk2toollib.uefi.edk2.parsers.targettxt_parser import TargetTxtParser
    d = TargetTxtParser().SetEdk2Path(pp)
    d.ParseFile(path)
    return [d.Dict]


def gen_files(tier):
    for kind, lines in FILES.items():
        n = len(lines)
        for i in range(n):
            for k in range(len(NOISE)):
                yield [kind, [["tail", i, k]]]
            yield [kind, [["indent", i, 0]]]
            yield [kind, [["trail", i, 0]]]
        for i in range(n + 1):
            for k in range(len(LINES)):
                yield [kind, [["line", i, k]]]
        for i, j in itertools.combinations(range(n), 2):
            yield [kind, [["tail", i, (i + j) % len(NOISE)], ["line", j, (i * j) % len(LINES)]]]
        yield [kind, [["tail", i, i % len(NOISE)] for i in range(n)]]
        yield [kind, [["line", i, i % len(LINES)] for i in range(n)]]


def gen_rich(tier):
    for kind, lines in RICH.items():
        n = len(lines)
        for i in range(n):
            for k in range(len(NOISE)):
                yield [kind, [["tail", i, k]], 1]
            yield [kind, [["indent", i, 0]], 1]
            yield [kind, [["trail", i, 0]], 1]
        for i in range(n + 1):
            for k in range(len(LINES)):
                yield [kind, [["line", i, k]], 1]
        yield [kind, [["tail", i, i % len(NOISE)] for i in range(n)], 1]
        yield [kind, [["line", i, i % len(LINES)] for i in range(n)], 1]
        if tier == "thorough":
            for i, j in itertools.combinations(range(n), 2):
                for k in range(len(NOISE)):
                    yield [kind, [["tail", i, k], ["tail", j, (k + 1) % len(NOISE)]], 1]
                for k in range(len(LINES)):
                    yield [kind, [["line", i, k], ["line", j, (k + i) % len(LINES)]], 1]


# -- white space between the parts of a line ------------------------------------------------------------

GAPS = ["  ", "\t", " \t "]
AROUND = ["", " ", "\t", "  "]


def places(line):
    """Spaces between words, and the operators around which spaces mean nothing, outside quoted strings."""
    out = []
    for m in re.finditer(r" +", line):
        out.append((m.start(), m.end(), None))
    if not line.startswith("!"):
        for m in re.finditer(r" *([|=,{]) *", line):
            out.append((m.start(), m.end(), m.group(1)))
    return [(a, b, op) for a, b, op in out if line[:a].count('"') % 2 == 0 and line[:a].count("'") % 2 == 0]


def edits_of(line):
    out = []
    for a, b, op in places(line):
        out += [(a, b, g) for g in GAPS] if op is None else [(a, b, x + op + y) for x, y in itertools.product(AROUND, repeat=2)]
    return out


def apply(line, edits):
    for a, b, new in sorted(edits, reverse=True):
        line = line[:a] + new + line[b:]
    return line


def gen_white(tier):
    for rich, files in enumerate((FILES, RICH)):
        for kind, lines in files.items():
            for i, line in enumerate(lines):
                edits = edits_of(line)
                for j, x in enumerate(edits):
                    yield [kind, rich, i, j]
                    if tier == "thorough" or rich or kind in ("inf", "fdf"):
                        for k in range(j + 1, len(edits)):
                            if x[1] <= edits[k][0]:  # another place of the line
                                yield [kind, rich, i, j, k]
            for end in range(4):
                yield [kind, rich, -1, end]


def canon(x):
    """Texts kept as written are compared up to white space inside them, never at their ends."""
    if isinstance(x, str):
        return re.sub(r"(?<=\S)\s*([|=,{}])\s*(?=\S)", r"\1", re.sub(r"(?<=\S)\s+(?=\S)", " ", x)).replace("{ ", "{").replace("{\t", "{")
    if isinstance(x, dict):
        return {canon(k): canon(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [canon(v) for v in x]
    return x


def run_white(case, ctx):
    kind, rich, i, *js = case
    ws = ws_files(ctx)
    lines = list((RICH if rich else FILES)[kind])
    clean = parse(kind, write(os.path.join(ws, "TestPkg", "clean." + kind), "\n".join(lines) + "\n"), ws)
    path = os.path.join(ws, "TestPkg", "white." + kind)
    if i < 0:
        nl, end = [("\n", ""), ("\r\n", "\r\n"), ("\r\n", ""), ("\n", "\n\n\n")][js[0]]
        with open(path, "w", newline="") as f:
            f.write(nl.join(lines) + end)
        what = f"{kind} file with {nl!r} between the lines and {end!r} at the end"
        ctx.eq(parse(kind, path, ws), clean, what)
    else:
        edits = edits_of(lines[i])
        lines[i] = apply(lines[i], [edits[j] for j in js])
        got = parse(kind, write(path, "\n".join(lines) + "\n"), ws)
        ctx.eq(canon(got), canon(clean), f"{kind} file with {lines[i]!r}")
    ctx.state(tuple(case))


def ws_files(ctx):
    ws = make_ws(ctx)
    write(os.path.join(ws, "TestPkg", "inc.dsc.inc"), "[Components.X64]\nTestPkg/Inc.inf\n")
    write(os.path.join(ws, "TestPkg", "inc.fdf.inc"), "INF TestPkg/Inc.inf\n")
    return ws


def run_files(case, ctx):
    kind, edits, *rich = case
    ws = ws_files(ctx)
    lines = list((RICH if rich else FILES)[kind])
    clean = parse(kind, write(os.path.join(ws, "TestPkg", "clean." + kind), "\n".join(lines) + "\n"), ws)
    extra = {}
    for e, i, k in edits:
        if e == "tail":
            sep = "" if NOISE[k][0] in " \t" else " "
            lines[i] = lines[i] + sep + NOISE[k]
        elif e == "indent":
            lines[i] = "    " + lines[i]
        elif e == "trail":
            lines[i] = lines[i] + "   "
        else:
            extra[i] = LINES[k]
    out = []
    for i in range(len(lines) + 1):
        if i in extra:
            out.append(extra[i])
        if i < len(lines):
            out.append(lines[i])
    noisy = parse(kind, write(os.path.join(ws, "TestPkg", "noisy." + kind), "\n".join(out) + "\n"), ws)
    ctx.state((kind, tuple(out)))
    ctx.eq(noisy, clean, f"{kind} file with comments")


CHARS = [chr(c) for c in range(0x20, 0x7F)] + ["\t", "é", "ß", "漢", "\u00a0", "\ufeff", "😀"]


def gen_chars(tier):
    for c in CHARS:
        yield c


def run_chars(case, ctx):
    """Every pair of characters around a '#', a quoted '#' and both."""
    from edk2toollib.uefi.edk2.parsers.base_parser import HashFileParser

    p = HashFileParser("")
    for d in CHARS:
        for line in (f"{case}{d}#x", f"{case}#{d}", f'"{case}#{d}"#x', f"'{case}#{d}'#x", f"a {case}{d} b", f"#{case}{d}", f'{case}"#"{d}#"', f"{case} \"q\" {d} # it's"):
            cut = ref(line)
            got, want = p.StripComment(line).strip(), (line if cut is None else line[:cut]).strip()
            if got != want:
                ctx.fail(f"{line!r}: stripped to {got!r}, expected {want!r}")
            ctx.step()
        ctx.state(case + d)


def gen_sizes(tier):
    for kind in FILES:
        for what in ("comments", "blanks", "comment length", "spaces", "indent", "tail length"):
            for n in counts(tier, 1025 if tier != "quick" else 257):
                yield [kind, what, n]
    for what in ("quoted", "escaped", "hashes", "quotes", "long"):
        for n in counts(tier, 1025):
            yield ["line", what, n]


def run_sizes(case, ctx):
    kind, what, n = case
    if kind == "line":
        from edk2toollib.uefi.edk2.parsers.base_parser import HashFileParser

        line, want = {
            "quoted": ('"' + "#" * n + '" b # c', '"' + "#" * n + '" b'),
            "escaped": ('"' + '\\"#' * n + '" b # c', '"' + '\\"#' * n + '" b'),
            "hashes": ("a b " + "#" * (n + 1), "a b"),
            "quotes": ('"#" ' * n + "x# c", '"#" ' * n + "x"),
            "long": ("x y" * n + "'#'# c", "x y" * n + "'#'"),
        }[what]
        ctx.eq(HashFileParser("").StripComment(line).strip(), want, "line without its comment")
        ctx.state(repr(case))
        return
    ws = ws_files(ctx)
    lines = list(FILES[kind])
    clean = parse(kind, write(os.path.join(ws, "TestPkg", "clean." + kind), "\n".join(lines) + "\n"), ws)
    at = n % len(lines)
    if what == "comments":
        lines[at:at] = ["# a comment"] * n
    elif what == "blanks":
        lines[at:at] = [""] * n
    elif what == "comment length":
        lines.insert(at, "#" + "c" * n)
    elif what == "spaces":
        lines = [x + " " * n for x in lines]
    elif what == "indent":
        lines = [" " * n + x for x in lines]
    else:
        lines = [x + " # " + "c " * n for x in lines]
    noisy = parse(kind, write(os.path.join(ws, "TestPkg", "noisy." + kind), "\n".join(lines) + "\n"), ws)
    ctx.eq(noisy, clean, f"{kind} file with {n} {what}")
    ctx.state(repr(case))


SUITES = [
    Suite("chars", gen_chars, run_chars, "every pair of characters around '#' and quotes", "102 x 102 characters x 8 forms"),
    Suite("sizes", gen_sizes, run_sizes, "numbers of comments, blank lines and quotes, lengths of comments and white space", {"quick": "every number up to 24 and edges up to 257", "thorough": "every number up to 72 and edges up to 1025"}),
    Suite("white", gen_white, run_white, "white space and line ends of two files per format", "one place, and pairs of places, of every line"),
    Suite("rich", gen_rich, run_files, "comment / blank-line edits of a larger file per format", {"quick": "1 edit, all lines at once", "thorough": "<=2 edits"}),
    Suite("files", gen_files, run_files, "comment / blank-line edits of one file per format", "<=2 edits, and all lines at once"),
    Suite("line", gen, run, "every line over a 7-character alphabet", {"quick": "<=6 characters", "thorough": "<=7 characters"}),
]
