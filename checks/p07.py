"""P07: INF parsing — defines, per-section lists, per-architecture sources and libraries."""

import itertools
import os

from checks.common_parsers import edk2path, make_ws, write
from lib.mc import Suite, sequences, subsets
from lib.sizes import counts

KINDS = {"Packages": "PackagesUsed", "LibraryClasses": "LibrariesUsed", "Protocols": "ProtocolsUsed", "Guids": "GuidsUsed",
         "Ppis": "PpisUsed", "Pcd": "PcdsUsed", "FixedPcd": "PcdsUsed", "FeaturePcd": "PcdsUsed", "PatchPcd": "PcdsUsed",
         "PcdEx": "PcdsUsed", "Sources": "Sources", "Binaries": "Binaries", "BuildOptions": None, "Depex": None,
         "UserExtensions": None}
LISTS = sorted({v for v in KINDS.values() if v})

SECTIONS = [
    ["Defines", [""], ["INF_VERSION = 0x00010005", "BASE_NAME=Mod"]],
    ["Defines", [""], ["LIBRARY_CLASS = ModLib|PEIM DXE_DRIVER", "FILE_GUID = 7E175642-F3AD-490A-9F8A-2E9FC6933DDD"]],
    ["Packages", [""], ["MdePkg/MdePkg.dec", "TestPkg/TestPkg.dec"]],
    ["LibraryClasses", [""], ["BaseLib", "DebugLib|gTok.PcdDebug"]],
    ["LibraryClasses", ["X64"], ["X64Lib", "BaseLib"]],
    ["LibraryClasses", ["common", "IA32"], ["MixLib"]],
    ["Sources", [""], ["A.c", "B.c|MSFT", "Sub/C.h | GCC"]],
    ["Sources", ["X64"], ["X64/a.nasm", "A.c"]],
    ["Sources", ["IA32", "AARCH64"], ["ia.c"]],
    ["Protocols", ["X64"], ["gEfiA", "gEfiB ## CONSUMES"]],
    ["Guids", [""], ["gGuid|gTok.Feature"]],
    ["Ppis", [""], ["gPpi"]],
    ["Pcd", [""], ["gTok.PcdA|0x10", "gTok.PcdB"]],
    ["FixedPcd", ["X64"], ["gTok.PcdC"]],
    ["FeaturePcd", [""], ["gTok.PcdD"]],
    ["PatchPcd", [""], ["gTok.PcdE"]],
    ["PcdEx", [""], ["gTok.PcdF"]],
    ["Binaries", ["X64"], ["PE32|a.efi|*"]],
    ["BuildOptions", [""], ["GCC:*_*_*_CC_FLAGS = -Wall"]],
    ["Depex", [""], ["gEfiX AND gEfiY"]],
]


def render(prog, style=0):
    out = []
    for kind, scopes, items in prog:
        k = [kind, kind.lower(), kind.upper()][style % 3]
        sep = ", " if style % 2 == 0 else ","
        out.append(("  [" if style == 2 else "[") + sep.join(k + ("." + s if s else "") for s in scopes) + "]" + (" " if style == 1 else ""))
        out += [("  " if style % 2 == 0 else "") + i for i in items]
    return out


def model(prog):
    m = {"Dict": {}, "LibraryClass": "", "Phases": [], "libs": {}, "srcs": {}}
    for k in LISTS:
        m[k] = []
    for kind, scopes, items in prog:
        for it in items:
            it = it.split("#")[0].strip()
            if kind == "Defines":
                a, _, b = it.partition("=")
                m["Dict"][a.strip()] = b.strip()
                if a.strip().lower() == "library_class":
                    m["LibraryClass"] = b.partition("|")[0].strip()
                    m["Phases"] = b.partition("|")[2].split()
                continue
            name = it.partition("|")[0].strip()
            if KINDS[kind]:
                m[KINDS[kind]].append(name)
            if kind in ("LibraryClasses", "Sources"):
                d = m["libs" if kind == "LibraryClasses" else "srcs"]
                for s in scopes:
                    d.setdefault((s or "common").lower(), []).append(name)
    return m


ALL = ["SEC", "PEIM", "PEI_CORE", "DXE_DRIVER", "DXE_CORE", "DXE_RUNTIME_DRIVER", "UEFI_DRIVER", "SMM_CORE", "DXE_SMM_DRIVER",
       "UEFI_APPLICATION", "MM_STANDALONE", "MM_CORE_STANDALONE", "HOST_APPLICATION"]


def check(ctx, p, m):
    ctx.eq(dict(p.Dict), m["Dict"], "[Defines] values")
    ctx.eq(p.LibraryClass, m["LibraryClass"], "library class")
    ctx.eq(p.Parsed, True, "Parsed")
    for k in LISTS:
        ctx.eq(list(getattr(p, k)), m[k], k)
    for archs in subsets(["IA32", "X64", "AARCH64"]):
        for want, got in ((m["libs"], p.get_libraries(archs)), (m["srcs"], p.get_sources(archs))):
            w = sorted(set(sum((want.get(a, []) for a in ["common"] + [x.lower() for x in archs]), [])))
            ctx.eq(sorted(got), w, f"entries for {archs}")
    ctx.state(repr(m))


def run(case, ctx):
    from edk2toollib.uefi.edk2.parsers.inf_parser import InfParser

    prog, style = case
    ws = make_ws(ctx)
    f = write(os.path.join(ws, "TestPkg", "T.inf"), "\n".join(render(prog, style)) + "\n")
    p = InfParser().SetEdk2Path(edk2path(ws))
    p.ParseFile(f)
    check(ctx, p, model(prog))


def gen(tier):
    n = 3 if tier == "quick" else 4
    for k in range(1, n + 1):
        menu = SECTIONS if k < 4 else SECTIONS[:10]
        for i, s in enumerate(itertools.product(menu, repeat=k)):
            if k < 3:
                for style in range(3):
                    yield [list(s), style]
            else:
                yield [list(s), i % 3]


def gen_scope(tier):
    """Interleaved scoped sections of sources and libraries."""
    scopes = [[""], ["X64"], ["IA32"], ["common"], ["X64", "IA32"], ["common", "X64"], ["AARCH64", "X64", "IA32"]]
    menu = [[k, s, items] for k, items in (("LibraryClasses", ["L1", "L2|f"]), ("Sources", ["a.c", "b.c|G"])) for s in scopes]
    menu.append(["Guids", ["X64"], ["gG"]])
    for s in sequences(menu, 2 if tier == "quick" else 3, 1):
        for style in range(3):
            yield [s, style]


def gen_lc(tier):
    ph = ["", "BASE", "base", "PEIM", "PEIM DXE_DRIVER", "SEC PEIM PEI_CORE", " UEFI_DRIVER "]
    for key in ("LIBRARY_CLASS", "library_class", "Library_Class"):
        for name in ("ModLib", "NULL"):
            for p in ph:
                for sep in ("|", " | ", None):
                    yield [key, name, p, sep]


def run_lc(case, ctx):
    from edk2toollib.uefi.edk2.parsers.inf_parser import InfParser

    key, name, ph, sep = case
    ws = make_ws(ctx)
    val = name if sep is None else name + sep + ph
    f = write(os.path.join(ws, "TestPkg", "T.inf"), f"[Defines]\nBASE_NAME = x\n{key} = {val}\n[Sources]\na.c\n")
    p = InfParser().SetEdk2Path(edk2path(ws))
    p.ParseFile(f)
    want = ALL if sep is None or ph.strip().lower() in ("", "base") else ph.split()
    ctx.eq(p.LibraryClass, name, "library class")
    ctx.eq(list(p.SupportedPhases), want, "supported phases")
    ctx.state(case)


def gen_paths(tier):
    for form in ("absolute", "workspace", "package", "cwd", "missing"):
        yield ["main", form]
    for line in ("X = 1", "A.c", "gTok.PcdA", "LIBRARY_CLASS = Y", "TestPkg/TestPkg.dec"):
        yield ["before", line]


def run_paths(case, ctx):
    """Paths of the file; lines before the first section mean nothing."""
    from edk2toollib.uefi.edk2.parsers.inf_parser import InfParser

    what, x = case
    ws = make_ws(ctx)
    pp = os.path.join(ws, "Sub")
    write(os.path.join(pp, "OtherPkg", "OtherPkg.dec"), "[Defines]\n")
    f = path = os.path.join(ws, "TestPkg", "T.inf")
    prog = [SECTIONS[0], SECTIONS[6], SECTIONS[4], SECTIONS[12]]
    lines = render(prog)
    if what == "main":
        path = {"absolute": f, "workspace": "TestPkg/T.inf", "package": "OtherPkg/T.inf", "cwd": f"../{os.path.basename(ws)}/TestPkg/T.inf",
                "missing": os.path.join(ws, "TestPkg", "M.inf")}[x]
        f = os.path.join(pp, "OtherPkg", "T.inf") if x == "package" else f
    else:
        lines.insert(0, x)
    write(f, "\n".join(lines) + "\n")
    p = InfParser().SetEdk2Path(edk2path(ws, [pp]))
    ctx.step()
    try:
        p.ParseFile(path)
        refused = False
    except OSError:
        refused = True
    ctx.eq(refused, x == "missing", "refused")
    if not refused:
        ctx.eq(os.path.abspath(p.Path), f, "path")
        check(ctx, p, model(prog))


NAMES = ["Resources.c", "MySources,v2.h", "DEFINES.h", "DEFINE.c", "LibraryClasses.c", "XLibraryClasses.X64.h", "sources.X64.c", "defines",
         "Packages.c", "INF_a.c", "include.h", "gPpi|gTok.F", "a|b|c", "x.c | MSFT"]


def gen_names(tier):
    """Entries with names like keywords of the format, between other entries."""
    kinds = [k for k in KINDS if k not in ("BuildOptions", "Depex", "UserExtensions")]
    for k in kinds:
        for scope in ("", "X64"):
            for n in NAMES:
                for other in kinds:
                    for style in range(3):
                        yield [[[k, [scope], ["A.c", n, "B.c"]], [other, ["IA32"], ["C.c", "D.c"]]], style]
                        if tier == "thorough":
                            for n2 in NAMES:
                                yield [[[k, [scope], [n, n2]], [other, ["IA32"], ["C.c", n2]]], style]
    for n in NAMES:  # sections that are not reported
        for k in ("BuildOptions", "Depex", "UserExtensions"):
            yield [[["Sources", ["X64"], ["A.c"]], [k, [""], [n, "Z.c"]], ["LibraryClasses", [""], ["L"]]], 0]


def gen_macros(tier):
    vals = ["v", "a=b", "a = b", "a==b", "=", "x|y", "DEFINE"]
    for v in vals:
        for gap in (" ", "\t", "  "):
            for eq in (" = ", "=", "\t=\t"):
                for kind in ("Sources", "LibraryClasses", "Packages", "Protocols", "Guids", "Pcd", "Ppis", "Binaries"):
                    for place in range(3):
                        yield [v, gap, eq, kind, place]


def run_macros(case, ctx):
    from edk2toollib.uefi.edk2.parsers.inf_parser import InfParser

    v, gap, eq, kind, place = case
    ws = make_ws(ctx)
    define = f"DEFINE{gap}M{eq}{v}"
    head = ["[Defines]", "BASE_NAME = x"]
    body = [f"[{kind}.X64]", "$(M)1", "p/$(M)"]
    lines = [head + [define] + body, head + body[:1] + [define] + body[1:], ["[Defines]", "  " + define + "  ", "BASE_NAME = x"] + body][place]
    f = write(os.path.join(ws, "TestPkg", "T.inf"), "\n".join(lines) + "\n")
    p = InfParser().SetEdk2Path(edk2path(ws))
    p.ParseFile(f)
    want = [x.partition("|")[0].strip() for x in (v + "1", "p/" + v)]
    ctx.eq(list(getattr(p, KINDS[kind])), want, f"entries that use {define!r}")
    ctx.eq(dict(p.Dict), {"BASE_NAME": "x"}, "[Defines] values")
    if " " not in v and v[0] != "=":
        for k, got in (("Sources", p.get_sources(["X64"])), ("LibraryClasses", p.get_libraries(["X64"]))):
            ctx.eq(sorted(got), sorted(want) if k == kind else [], f"{k} for X64")
    ctx.state(tuple(case))


def sized(what, n):
    last = [["Guids", [""], ["gLast"]]]
    if what in LISTED:
        return [[what, ["X64" if what in ("Sources", "LibraryClasses") else ""], [f"Name{i}" if what != "Sources" else f"Src{i}.c" for i in range(n)]], *last]
    if what == "sections":
        return [[LISTED[i % len(LISTED)], [("", "X64", "IA32")[i % 3]], [f"N{i}"]] for i in range(n)] + last
    if what == "scopes":
        return [["Sources", ["X64"] + [f"ARCH{i}" for i in range(n)], ["a.c"]], ["LibraryClasses", [f"ARCH{i}" for i in range(n)] + ["IA32"], ["L"]], *last]
    if what == "definitions":
        return [["Defines", [""], [f"D{i} = v{i}" for i in range(n)]], *last]
    if what == "phases":
        return [["Defines", [""], ["LIBRARY_CLASS = Lib|" + " ".join(ALL[i % len(ALL)] for i in range(n + 1))]], *last]
    assert what == "length"
    return [["Defines", [""], ["D" * (n + 1) + " = " + "v" * (n + 1)]], ["Sources", [""], ["d/" * (n // 2) + "s" * (n + 1) + ".c"]], ["LibraryClasses", ["X64"], ["L" * (n + 1) + "|gTok." + "P" * n]],
            ["Protocols", [""], ["gP" + "p" * n]], *last]


LISTED = [k for k, v in KINDS.items() if v]


def gen_sizes(tier):
    for what in LISTED + ["sections", "scopes", "definitions", "phases", "length"]:
        for n in counts(tier, 257 if tier == "quick" else 1025):
            yield [what, n]


def run_sizes(case, ctx):
    run([sized(*case), case[1] % 3], ctx)


SUITES = [
    Suite("sizes", gen_sizes, run_sizes, "numbers of entries, sections, scopes, definitions and phases, lengths of names", {"quick": "17 kinds x every number up to 24 and 12 edges up to 257", "thorough": "every number up to 72 and 20 edges up to 1025"}),
    Suite("names", gen_names, run, "entries named like keywords in every section", "14 names, 12 x 12 sections"),
    Suite("macros", gen_macros, run_macros, "macro definitions and uses", "7 values, 9 spellings, 8 sections"),
    Suite("paths", gen_paths, run_paths, "paths of the file, lines before the first section", "5 forms of paths"),
    Suite("libclass", gen_lc, run_lc, "LIBRARY_CLASS forms", "all"),
    Suite("scopes", gen_scope, run, "scoped source/library sections", "<=2 (3) sections"),
    Suite("sections", gen, run, "sequences of sections", "<=3 (4) sections from 20"),
]
