"""P48: files named in description files are found by precedence, and the lines of a parsed file can be written and parsed again.

An absolute path names that file; any other path names the first that exists of: below the workspace, next to the file being
parsed (for DSC files, the one with the !include), below the package paths in order. Nothing else: not the current directory,
not another file of the same name.
"""

import itertools
import os
import pathlib

from checks.common_parsers import edk2path, write
from lib.mc import Suite, sequences, subsets
from lib.sizes import counts

PLACES = ["ws", "target", "pp1", "pp2", "cwd", "other"]


def dirs(ctx):
    """The directories files can be in. Neither is inside another, except for the workspace and the target's directory."""
    t = os.path.realpath(ctx.tmp())
    d = {
        "ws": os.path.join(t, "work space"),
        "target": os.path.join(t, "work space", "TestPkg"),
        "pp1": os.path.join(t, "one"),
        "pp2": os.path.join(t, "work space", "two"),
        "cwd": os.path.join(t, "cwd", "in"),
        "other": os.path.join(t, "other"),
    }
    for p in d.values():
        os.makedirs(p, exist_ok=True)
    return d


NAMES = {
    "plain": ["A.inc"],
    "dir": ["Pkg/A.inc"],
    "parts": ["Pkg", "Sub", "A.inc"],
    "dots": ["Pkg/../A.inc"],
    "up": ["../up/A.inc"],
    "dot": ["./A.inc"],
    "twice": ["TestPkg/TestPkg/A.inc"],
    "directory": ["Pkg"],
    "case": ["a.INC"],
    "space": ["a b.inc"],
    "pathlib": None,
    "link": ["Link.inc"],
}


def gen_find(tier):
    for name in NAMES:
        for s in subsets(PLACES, max_len=6):
            for target, paths in itertools.product((0, 1), (0, 1, 2)):
                yield [name, list(s), target, paths]
    for s in subsets(PLACES, max_len=6):
        for name in ("absolute", "absolute parts", "none"):
            yield [name, list(s), 1, 2]


def run_find(case, ctx):
    from edk2toollib.uefi.edk2.parsers.base_parser import BaseParser, HashFileParser

    name, present, target, paths = case
    d = dirs(ctx)
    parts = NAMES.get(name) or ["Pkg", "P.inc"]
    if name in ("absolute", "absolute parts", "none"):
        parts = ["A.inc"]
    # what the file is called on disk
    rel = os.path.join(*parts)
    for p in d.values():
        os.makedirs(os.path.join(p, "Pkg" if name == "dots" else ""), exist_ok=True)
        if name == "case":
            write(os.path.join(p, "A.inc"), "decoy")
    for p in present:
        f = os.path.join(d[p], rel)
        if name == "directory":
            os.makedirs(f, exist_ok=True)
        elif name == "link":
            write(os.path.join(d[p], "Real.inc"), p)
            os.symlink("Real.inc", f)
        else:
            os.makedirs(os.path.dirname(f), exist_ok=True)
            write(os.path.normpath(f), p)
    pps = [d["pp1"], d["pp2"]][:paths] if paths < 2 else [d["pp2"], d["pp1"]]
    old = os.getcwd()
    os.chdir(d["cwd"])
    try:
        for kind in (BaseParser, HashFileParser):
            p = kind("test")
            p.SetEdk2Path(edk2path(d["ws"], pps))
            if target:
                p.TargetFilePath = os.path.join(d["target"], "T.dsc")
            if name == "none":
                ctx.eq(p.FindPath(None), None, "no path")
                continue
            if name.startswith("absolute"):
                for x in PLACES:
                    a = os.path.join(d[x], "A.inc")
                    arg = [a] if name == "absolute" else [d[x], "A.inc"]
                    ctx.eq(p.FindPath(*arg), a if x in present else None, f"file in {x}")
                    ctx.step()
                continue
            args = [pathlib.Path(*parts)] if name == "pathlib" else parts
            places = [d["ws"]] + ([d["target"]] if target else []) + pps
            want = next((os.path.normpath(os.path.join(q, rel)) for q in places if os.path.exists(os.path.join(q, rel))), None)
            got = p.FindPath(*args)
            ctx.eq(got and os.path.normpath(got), want, "file found")
            ctx.true(got is None or os.path.isabs(got), "absolute path")
            ctx.step()
            ctx.state((name, tuple(present), want and os.path.relpath(want, d["ws"])))
    finally:
        os.chdir(old)


# -- includes ------------------------------------------------------------------------------------
# A main file includes Sub/A.inc (or not), which includes B.inc; the main file includes B.inc again, before or after.
SPOTS = ["ws", "target", "sub", "pp1", "pp2", "cwd"]


def gen_include(tier):
    for kind in ("dsc", "fdf"):
        for s in subsets(SPOTS):
            for shape in ("main", "nested", "before", "after", "both"):
                yield [kind, list(s), shape]


def run_include(case, ctx):
    from edk2toollib.uefi.edk2.parsers.dsc_parser import DscParser
    from edk2toollib.uefi.edk2.parsers.fdf_parser import FdfParser

    kind, present, shape = case
    d = dirs(ctx)
    d["sub"] = os.path.join(d["target"], "Sub")
    os.makedirs(d["sub"])
    dsc = kind == "dsc"
    if not dsc and "sub" in present and shape != "main":
        present = [s for s in present if s != "sub"]
    for p in present:
        # each says where it is; in a DSC both in the definitions and in the modules
        write(os.path.join(d[p], "B.inc"), f"[Defines]\nDEFINE LAST = {p}\n[Components]\nTestPkg/{p}.inf\n" if dsc else f"[FV.X]\nINF TestPkg/{p}.inf\n")
    write(os.path.join(d["sub"], "A.inc"), "!include B.inc\n")
    b, a = ["!include B.inc"], ["!include TestPkg/Sub/A.inc"]
    incs = {"main": b, "nested": a, "before": b + a, "after": a + b, "both": b + a + b}[shape]
    main = os.path.join(d["target"], "T." + kind)
    write(main, ("[Defines]\nDEFINE FIRST = 1\nSUPPORTED_ARCHITECTURES = X64\n" if dsc else "") + "\n".join(incs) + "\n")
    order = {False: ["ws", "target", "pp1", "pp2"], True: ["ws", "sub", "pp1", "pp2"] if dsc else ["ws", "target", "pp1", "pp2"]}
    wants = []
    for i in incs:
        wants.append(next((p for p in order[i is a[0]] if p in present), None))
    old = os.getcwd()
    os.chdir(d["cwd"])
    try:
        p = (DscParser if dsc else FdfParser)().SetEdk2Path(edk2path(d["ws"], [d["pp1"], d["pp2"]]))
        try:
            p.ParseFile(main)
            refused = False
        except FileNotFoundError:
            refused = True
    finally:
        os.chdir(old)
    ctx.step()
    ctx.eq(refused, None in wants, "missing include refused")
    if refused:
        return
    ctx.state((kind, shape, tuple(wants)))
    infs = [f"TestPkg/{w}.inf" for w in wants]
    if not dsc:
        ctx.eq(list(p.FVs["X"]["Infs"]), infs, "INFs of the included files")
        return
    ctx.eq(list(p.OtherMods), infs, "modules of the included files") if p.OtherMods else ctx.eq(list(p.GetMods()), infs, "modules of the included files")
    ctx.eq(p.LocalVars.get("LAST"), wants[-1], "definition of the last included file")
    files = {main} | {os.path.join(d[w], "B.inc") for w in wants} | ({os.path.join(d["sub"], "A.inc")} if a[0] in incs else set())
    ctx.eq({os.path.normpath(f) for f in p.GetAllDscPaths()}, files, "files that make up the DSC")


# -- the parsed lines, written -------------------------------------------------------------------
# [lines of the file, lines parsed]; %I is the path of an include file with the lines that follow it.
FRAGMENTS = {
    "define": (["[Defines]", "  DEFINE A = one  # comment"], ["[Defines]", "DEFINE A = one"]),
    "use": (["[Defines]", "DEFINE B = $(A)/x"], None),
    "comment": (["", "  # [Components]", "\t", "# TestPkg/No.inf"], []),
    "comp": (["[Components.X64]", "\tTestPkg/M1.inf # c", "  TestPkg/M2.inf {", "  # c", "    <LibraryClasses>", "      L|TestPkg/O.inf", "  }"],
             ["[Components.X64]", "TestPkg/M1.inf", "TestPkg/M2.inf {", "<LibraryClasses>", "L|TestPkg/O.inf", "}"]),
    "lib": (["[LibraryClasses]", "  L|TestPkg/L.inf"], ["[LibraryClasses]", "L|TestPkg/L.inf"]),
    "pcd": (["[PcdsFixedAtBuild]", '  gT.PcdA|"a # b"|VOID*|8 # c'], ["[PcdsFixedAtBuild]", 'gT.PcdA|"a # b"|VOID*|8']),
    "active": (["[Components.X64]", "!if 1 == 1 # c", "TestPkg/Yes.inf", "!else", "TestPkg/No.inf", "!endif"], ["[Components.X64]", "TestPkg/Yes.inf"]),
    "inactive": (["!if 1 == 2", "[Components.X64]", "TestPkg/No.inf", "!include Missing.inc", "!elseif 2 == 2", "[Components.X64]", "TestPkg/Elif.inf", "!endif"],
                 ["[Components.X64]", "TestPkg/Elif.inf"]),
    "include": (["[Components.X64]", "!include TestPkg/One.inc", "TestPkg/After.inf"], ["[Components.X64]", "TestPkg/In1.inf", "TestPkg/In2.inf", "TestPkg/After.inf"]),
    "build": (["[BuildOptions]", "  MSFT:*_*_*_CC_FLAGS = /D X # c"], ["[BuildOptions]", "MSFT:*_*_*_CC_FLAGS = /D X"]),
}


def gen_lines(tier):
    for f in sequences(list(FRAGMENTS), 3 if tier == "quick" else 4):
        if "use" in f and "define" not in f[: f.index("use")]:
            continue
        yield f


def results(p):
    return {
        "lines": list(p.Lines), "modules": p.GetMods(), "other modules": list(p.OtherMods), "libraries": list(p.Libs), "scoped": dict(p.ScopedLibraryDict),
        "components": [[a, b, dict(c)] for a, b, c in p.Components], "definitions": dict(p.LocalVars), "PCDs": sorted(p.PcdValueDict.items()),
    }


def run_lines(case, ctx):
    from edk2toollib.uefi.edk2.parsers.dsc_parser import DscParser

    d = dirs(ctx)
    head = ["[Defines]", "SUPPORTED_ARCHITECTURES = X64"]
    raw, want = list(head), list(head)
    for f in case:
        a, b = FRAGMENTS[f]
        raw += a
        want += ["[Defines]", "DEFINE B = one/x"] if f == "use" else b
    write(os.path.join(d["target"], "One.inc"), "TestPkg/In1.inf\n!include TestPkg/Two.inc\n")
    write(os.path.join(d["target"], "Two.inc"), "# comment\n  TestPkg/In2.inf")
    main = os.path.join(d["target"], "T.dsc")
    write(main, "\n".join(raw))
    p = DscParser().SetEdk2Path(edk2path(d["ws"], []))
    p.ParseFile(main)
    ctx.eq(list(p.Lines), want, "parsed lines")
    out = os.path.join(d["other"], "out.dsc")
    write(out, "old\n" * 9)
    p.WriteLinesToFile(out)
    with open(out) as f:
        ctx.eq(f.read(), "".join(x + "\n" for x in want), "written lines")
    q = DscParser().SetEdk2Path(edk2path(d["ws"], []))
    q.ParseFile(out)
    ctx.eq(results(q), results(p), "the written file means the same")
    ctx.step(len(want))
    ctx.state(tuple(want))


# -- sizes: number of lines and of package paths, length of lines and depth of directories ----------------------------


def gen_sizes(tier):
    for n in counts(tier, 1025, 1, 12 if tier == "quick" else 40):
        yield ["lines", n]
        yield ["long", n]
    for n in counts(tier, 257, 1, 12 if tier == "quick" else 40):
        yield ["paths", n]
        yield ["deep", n]


def run_sizes(case, ctx):
    from edk2toollib.uefi.edk2.parsers.base_parser import HashFileParser
    from edk2toollib.uefi.edk2.parsers.dsc_parser import DscParser

    what, n = case
    d = dirs(ctx)
    if what in ("lines", "long"):
        w = [f"TestPkg/M{i}.inf" for i in range(n)] if what == "lines" else ["TestPkg/" + "m" * n + ".inf", "TestPkg/end.inf"]
        want = ["[Defines]", "SUPPORTED_ARCHITECTURES = X64", "[Components.X64]", *w]
        main = os.path.join(d["target"], "T.dsc")
        write(main, "\n".join(x + ("  # comment" if i % 5 == 4 else "") for i, x in enumerate(want)))
        p = DscParser().SetEdk2Path(edk2path(d["ws"], []))
        p.ParseFile(main)
        ctx.eq(list(p.Lines), want, f"parsed lines ({what} {n})")
        out = os.path.join(d["other"], "out.dsc")
        p.WriteLinesToFile(out)
        with open(out) as f:
            ctx.eq(f.read(), "".join(x + "\n" for x in want), f"written lines ({what} {n})")
    else:
        pps = [os.path.join(d["other"], f"p{i}") for i in range(n if what == "paths" else 2)]
        sub = "/".join(["s"] * n) if what == "deep" else "s"
        for i, q in enumerate(pps):
            write_deep(os.path.join(q, sub, f"own{i}.inc"))
            if i:
                write_deep(os.path.join(q, sub, "common.inc"))
        p = HashFileParser("test")
        p.SetEdk2Path(edk2path(d["ws"], pps))
        p.TargetFilePath = os.path.join(d["target"], "T.dsc")
        for i, q in enumerate(pps):
            ctx.eq(p.FindPath(f"{sub}/own{i}.inc"), os.path.join(q, sub, f"own{i}.inc"), f"file in path {i} ({what} {n})")
        ctx.eq(p.FindPath(f"{sub}/common.inc"), os.path.join(pps[1], sub, "common.inc") if len(pps) > 1 else None, f"file in all but the first ({what} {n})")
        write_deep(os.path.join(d["target"], sub, "common.inc"))
        ctx.eq(p.FindPath(f"{sub}/common.inc"), os.path.join(d["target"], sub, "common.inc"), f"file next to the target ({what} {n})")
    ctx.state(tuple(case))


def write_deep(path):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    write(path, "x")


SUITES = [
    Suite("sizes", gen_sizes, run_sizes, "number of lines and package paths, length of lines, depth of directories", "counts up to 12 and edges to 1025 (lines) and 257 (paths)"),
    Suite("lines", gen_lines, run_lines, "Lines and WriteLinesToFile of a DSC", {"quick": "all sequences of <=3 of 10 fragments", "thorough": "all sequences of <=4 of 10 fragments"}),
    Suite("find", gen_find, run_find, "FindPath", "files in all sets of 6 places, 12 forms of names, with and without target and package paths; absolute paths"),
    Suite("include", gen_include, run_include, "!include in DSC and FDF files", "files in all sets of 6 places, 5 nestings"),
]
