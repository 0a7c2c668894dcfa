"""P05: DSC parsing — modules, components with overrides, scoped library instances, PCDs, includes."""

import itertools
import os

from checks.common_parsers import edk2path, make_ws, write
from lib.mc import Suite, sequences
from lib.sizes import counts

# A program is a list of sections [kind, scope, items]; kinds: comp, lib, pcd, other.


def render(prog, style=0):
    """Lines of a program and, per line, the item it stems from."""
    names = {"comp": ["Components", "components", "COMPONENTS"], "lib": ["LibraryClasses", "libraryclasses", "LIBRARYCLASSES"],
             "pcd": ["PcdsFixedAtBuild", "pcdsfeatureflag", "PcdsDynamicExDefault"], "build": ["BuildOptions"] * 3,
             "def": ["Defines"] * 3, "sku": ["SkuIds"] * 3}
    out = []
    for kind, scope, items in prog:
        n = names[kind][style % 3]
        if kind == "lib" and isinstance(scope, list):
            sec = ", ".join(n + ("." + s if s else "") for s in scope)
        else:
            sec = n + ("." + scope if scope else "")
        out.append(f"[{sec}]")
        for it in items:
            if kind == "comp":
                path, over = it
                if over is None:
                    out.append(f"  {path}")
                    continue
                out.append([f"  {path} {{", f"{path}  {{", f" {path}{{"][style % 3])
                for okind, entries in over:
                    out.append({"lib": "    <LibraryClasses>", "pcd": "    <PcdsFixedAtBuild>", "build": "    <BuildOptions>",
                                "def": "    <Defines>"}[okind])
                    for a, b in entries:
                        sep = {"lib": "|", "pcd": "|", "build": " = ", "def": " = "}[okind]
                        out.append(f"      {a}{sep if style != 2 else (' ' + sep.strip() + ' ')}{b}")
                out.append("  }")
            elif kind in ("lib", "pcd"):
                out.append(f"  {it[0]}|{it[1]}" if style != 2 else f"  {it[0]} | {it[1]}")
            else:
                out.append(f"  {it[0]} = {it[1]}")
    return out


def low(s):
    return s.lower()


def model(prog, archs):
    m = {"x64": [], "ia32": [], "other": [], "libs": [], "components": [], "scoped": {}, "pcds": [], "pcdvals": {},
         "classes": {}}

    def lib(c, i):
        m["libs"].append(i)
        m["classes"].setdefault(c, []).append(i)

    for kind, scope, items in prog:
        if kind == "comp":
            key = {"x64": "x64", "ia32": "ia32"}.get((scope or "").lower(), "other")
            for path, over in items:
                m[key].append(path)
                ov = {"NULL": []}
                for okind, entries in over or []:
                    for a, b in entries:
                        if okind == "lib":
                            lib(a, b)
                            if a.lower() == "null":
                                ov["NULL"].append(b)
                            else:
                                ov[a.lower()] = b
                        elif okind == "pcd":
                            m["pcds"].append(a)
                            m["pcdvals"][a] = b
                if not scope or scope.lower() == "common":
                    for a in archs:
                        m["components"].append([path, a.lower(), ov])
                else:
                    m["components"].append([path, scope.lower(), ov])
        elif kind == "lib":
            scopes = scope if isinstance(scope, list) else [scope]
            for c, i in items:
                lib(c, i)
                for s in scopes:
                    k = ((s or "common") + "." + c).lower()
                    cur = [x for x in m["scoped"].get(k, []) if x != i]
                    m["scoped"][k] = [i] + cur
        elif kind == "pcd":
            for a, b in items:
                m["pcds"].append(a)
                m["pcdvals"][a] = b
    return m


def parse(ctx, ws, path, inputs=None):
    from edk2toollib.uefi.edk2.parsers.dsc_parser import DscParser

    d = DscParser().SetEdk2Path(edk2path(ws))
    if inputs:
        d.SetInputVars(inputs)
    d.ParseFile(path)
    ctx.step()
    return d


def compare(ctx, d, m, ws, classes=True):
    ctx.eq(list(d.SixMods), m["x64"], "X64 modules")
    ctx.eq(list(d.ThreeMods), m["ia32"], "IA32 modules")
    ctx.eq(list(d.OtherMods), m["other"], "other modules")
    ctx.eq(sorted(d.GetMods()), sorted(m["x64"] + m["ia32"] + m["other"]), "all modules")
    ctx.eq(list(d.GetLibs()), m["libs"], "library instances in order")
    ctx.eq([[p, a.lower(), {k: v for k, v in o.items()}] for p, a, o in d.Components], m["components"],
           "components (path, arch, overrides)")
    ctx.eq(dict(d.ScopedLibraryDict), m["scoped"], "library instances per scope")
    ctx.eq(list(d.Pcds), m["pcds"], "PCDs in order")
    ctx.eq(dict(d.PcdValueDict), m["pcdvals"], "PCD values")
    if classes:
        want = {c: [os.path.join(ws, i) if os.path.exists(os.path.join(ws, i)) else None for i in v]
                for c, v in m["classes"].items()}
        ctx.eq(dict(d.LibraryClassToInstanceDict), want, "library class -> instance files")
    ctx.state(repr(m))


HDR = ["[Defines]", "  PLATFORM_NAME = Test", "  SUPPORTED_ARCHITECTURES = {}"]


def run_prog(case, ctx):
    prog, archs, style = case
    ws = make_ws(ctx)
    write(os.path.join(ws, "TestPkg", "L1.inf"), "")
    f = write(os.path.join(ws, "TestPkg", "T.dsc"),
              "\n".join([h.format("|".join(archs)) for h in HDR] + render(prog, style)) + "\n")
    compare(ctx, parse(ctx, ws, f), model(prog, archs), ws)


L1, L2, L3 = "TestPkg/L1.inf", "TestPkg/L2.inf", "OtherPkg/Lib/L3.inf"
PCD = "gTestTokenSpaceGuid.PcdA"
PCD2 = "gTestTokenSpaceGuid.PcdAB"
ITEMS = [
    ["TestPkg/A.inf", None],
    ["TestPkg/B.inf", []],
    ["TestPkg/A.inf", [["lib", [["BaseLib", L1]]]]],
    ["TestPkg/C.inf", [["lib", [["NULL", L1], ["NULL", L2], ["DebugLib", L3]]]]],
    ["TestPkg/D.INF", [["pcd", [[PCD, "1"]]], ["lib", [["BaseLib", L2]]]]],
    ["TestPkg/E.inf", [["lib", [["BaseLib", L2]]], ["build", [["MSFT:*_*_*_CC_FLAGS", "/D X"], ["GCC:*_*_*_CC_FLAGS", "-Wall -DX={1}"]]], ["pcd", [[PCD, "2"]]]]],
    ["TestPkg/F.inf", [["lib", [["BaseLib", L1]]], ["pcd", [[PCD2, "0x10"]]], ["lib", [["BaseLib", L2], ["NULL", L3]]]]],
]
SECTIONS = [
    ["comp", "X64", [ITEMS[0], ITEMS[3]]],
    ["comp", "IA32", [ITEMS[2], ITEMS[0]]],
    ["comp", "", [ITEMS[4]]],
    ["comp", "common", [ITEMS[1]]],
    ["comp", "AARCH64", [ITEMS[5], ITEMS[6]]],
    ["lib", "", [["BaseLib", L1], ["DebugLib", L2]]],
    ["lib", "X64", [["BaseLib", L2]]],
    ["lib", "common.PEIM", [["DebugLib", L3], ["debuglib", L1]]],
    ["lib", ["X64.PEIM", "IA32"], [["BaseLib", L3]]],
    ["lib", ["common", "X64.DXE_DRIVER", "AARCH64"], [["NULL", L1]]],
    ["pcd", "", [[PCD, "TRUE"], [PCD2, '"a|b"']]],
    ["pcd", "X64", [[PCD, "0x1|UINT32|4"]]],
    ["build", "", [["*_*_*_CC_FLAGS", "-DX"]]],
    ["sku", "", [["0", "DEFAULT"]]],
]


def gen_sections(tier):
    for n in (1, 2, 3):
        for i, s in enumerate(itertools.product(SECTIONS, repeat=n)):
            yield [list(s), ["X64"] if i % 2 else ["IA32", "X64"], i % 3 if n == 3 else 0]
            if n < 3:
                yield [list(s), ["IA32", "X64", "AARCH64"], 1]
                yield [list(s), ["X64"], 2]


def gen_components(tier):
    n = 3 if tier == "quick" else 4
    for items in sequences(ITEMS, n, 1):
        for scope in ("X64", "x64", "IA32", "", "Common", "AARCH64", "common"):
            if len(items) >= 3 and scope in ("x64", "Common", "common"):
                continue
            yield [[["comp", scope, items]], ["IA32", "X64"], len(items) % 3]


def gen_libs(tier):
    """Histories of library definitions in one or two scopes: the last definition comes first."""
    entries = [[c, i] for c in ("BaseLib", "DebugLib") for i in (L1, L2, L3)]
    n = 3 if tier == "quick" else 4
    for h in sequences(entries, n, 1):
        for scope in ("", "common", "X64.PEIM", ["X64", "X64.PEIM"]):
            yield [[["lib", scope, h]], ["X64"], 0]
    for a in sequences([["BaseLib", L1], ["BaseLib", L2], ["baselib", L3]], 2, 1):
        for b in sequences([["BaseLib", L1], ["BASELIB", L2], ["BaseLib", L3]], 2, 1):
            for s1, s2 in itertools.product(["", "common", "X64", ["X64", "common"]], repeat=2):
                yield [[["lib", s1, a], ["comp", "X64", [ITEMS[3]]], ["lib", s2, b]], ["X64"], 1]


# -- includes --------------------------------------------------------------------------------------

BODY = [["comp", "X64", [ITEMS[0], ITEMS[3], ITEMS[1]]], ["lib", ["X64.PEIM", "IA32"], [["BaseLib", L3], ["DebugLib", L2]]],
        ["comp", "IA32", [ITEMS[2]]]]


def gen_includes(tier):
    n = len(render(BODY))
    cuts = range(n + 1)
    dirs = ["TestPkg", "TestPkg/Inc", "OtherPkg"]
    for a, b in itertools.combinations(cuts, 2):
        for d in dirs:
            yield [[a, b], None, d, None, "ws"]
            if d != "OtherPkg":
                yield [[a, b], None, d, None, "rel"]
    # nested: an include inside the include, then another include after it
    step = 2 if tier == "quick" else 1
    for a, b in itertools.combinations(list(cuts)[::step], 2):
        for c, e in itertools.combinations(range(0, b - a + 1, step), 2):
            for d1, d2 in (("TestPkg/Inc", "TestPkg"), ("TestPkg", "TestPkg/Inc"), ("TestPkg/Inc", "TestPkg/Inc/Deep")):
                for form in ("ws", "rel"):
                    yield [[a, b], [c, e], d1, d2, form]


def run_includes(case, ctx):
    """Splitting a file into (nested) includes changes nothing but file/line attribution."""
    (a, b), inner, d1, d2, form = case
    ws = make_ws(ctx, ("TestPkg", "OtherPkg"))
    body = render(BODY)
    main_lines = [h.format("X64") for h in HDR]
    where = []  # (text, file, line)
    main = os.path.join(ws, "TestPkg", "T.dsc")
    f1 = os.path.join(ws, d1, "one.dsc.inc")
    files = {main: [], f1: []}
    paths = {main}

    def ref(target, frm):
        return os.path.relpath(target, ws) if form == "ws" else os.path.relpath(target, os.path.dirname(frm))

    def emit(f, text):
        files[f].append(text)
        where.append((text.strip(), f, len(files[f])))

    def include(f, t):
        files[f].append(f"!include {ref(t, f)}")
        paths.add(t)

    for t in main_lines:
        emit(main, t)
    for t in body[:a]:
        emit(main, t)
    include(main, f1)
    sub = body[a:b]
    if inner is None:
        for t in sub:
            emit(f1, t)
    else:
        f2 = os.path.join(ws, d2, "two.dsc.inc")
        files[f2] = []
        c, e = inner
        for t in sub[:c]:
            emit(f1, t)
        include(f1, f2)
        for t in sub[c:e]:
            emit(f2, t)
        f3 = os.path.join(ws, d1, "three.dsc.inc")
        files[f3] = []
        include(f1, f3)  # an include after an include, relative to the same including file
        for t in sub[e:]:
            emit(f1, t)
    f4 = os.path.join(ws, "TestPkg", "four.dsc.inc")
    files[f4] = []
    include(main, f4)
    for t in body[b:]:
        emit(main, t)
    for f, lines in files.items():
        write(f, "\n".join(lines) + ("\n" if lines else ""))
    d = parse(ctx, ws, main)
    compare(ctx, d, model(BODY, ["X64"]), ws, classes=False)
    ctx.eq({os.path.normpath(p) for p in d.GetAllDscPaths()}, paths, "files that make up the DSC")
    want = []
    for scope in ("[Components.IA32]", "[Components.X64]"):
        sect, depth = None, 0
        for text, f, n in where:
            if text.startswith("["):
                sect, depth = text, 0
            elif sect == scope:
                if depth == 0 and ".inf" in text:
                    want.append({"file": f, "lineno": n, "data": text.split()[0]})
                depth += text.count("{") - text.count("}")
    got = [{"file": x["file"], "lineno": x["lineno"], "data": x["data"]} for x in d.GetModsEnhanced()]
    ctx.eq(got, want, "file and line of every module")


# -- PCDs and conditions ----------------------------------------------------------------------------


def gen_pcds(tier):
    names = [PCD, PCD2, "gOther.PcdA"]
    vals = ["1", "0", "TRUE", "FALSE", '"x"', "2 | UINT8|1", "0x2"]
    for n1, v1 in itertools.product(names, vals):
        for n2, v2 in itertools.product(names, vals if tier == "thorough" else vals[:2] + vals[4:6]):
            for q in names:
                for cond in ("{} == 1", "{} == TRUE", '{} == "x"', "{} == 2"):
                    yield [[[n1, v1], [n2, v2]], q, cond]


def run_pcds(case, ctx):
    """A condition on a PCD sees the last value given above it; PCDs on inactive lines do not exist."""
    from checks.p02 import OutOfDomain, ref

    entries, q, cond = case
    ws = make_ws(ctx)
    vals = dict(entries)
    if q in vals:
        v = vals[q].split("|")[0].strip()
        op = cond.replace("{}", "LHS").split()
        try:
            t = ref([v] + op[1:])
        except OutOfDomain:
            return
    else:
        t = False
    hid = "gHiddenTokenSpaceGuid.PcdHidden"
    lines = [h.format("X64") for h in HDR] + ["[PcdsFixedAtBuild]"] + [f"  {n}|{v}" for n, v in entries]
    lines += ["!if FALSE", f"  {q}|7", f"  {hid}|1", "!endif",
              "[Defines]", f"!if {cond.format(q)}", "DEFINE WHICH = T", "!else", "DEFINE WHICH = F", "!endif", "[Components.X64]", "TestPkg/$(WHICH).inf", f"!if {cond.format(q)}", "TestPkg/T.inf",
              f"!elseif {cond.format(q)} OR TRUE", "TestPkg/F.inf", "!endif"]
    f = write(os.path.join(ws, "TestPkg", "T.dsc"), "\n".join(lines) + "\n")
    d = parse(ctx, ws, f)
    ctx.eq(list(d.SixMods), ["TestPkg/T.inf" if t else "TestPkg/F.inf"] * 2, f"branch taken for {cond.format(q)} with {vals}")
    ctx.eq(dict(d.PcdValueDict), vals, "PCD values")
    ctx.eq(list(d.Pcds), [n for n, _ in entries], "PCD list")
    ctx.state((tuple(map(tuple, entries)), q, cond, t))


# -- unusual lines ----------------------------------------------------------------------------------

ODD = [  # lines that look a bit like something else, per kind of section
    ["pcd", ["gTestTokenSpaceGuid.PcdS.Arr[0]", "1"]],
    ["pcd", ["gTestTokenSpaceGuid.PcdS[1].F", "{0x01, 0x02}"]],
    ["pcd", ["gTestTokenSpaceGuid.PcdS", 'L"[Components.X64]"']],
    ["pcd", ["gTestTokenSpaceGuid.PcdP", '"A/B.inf"']],
    ["build", ["GCC:*_*_*_CC_FLAGS", "-DX=a[1]"]],
    ["build", ["MSFT:*_*_*_CC_FLAGS", "/D A={1} /D B=[x]"]],
    ["def", ["A_NAME", "[LibraryClasses]"]],
    ["build", ["GCC:*_*_*_CC_FLAGS", "-DX=gTestTokenSpaceGuid.PcdA|1"]],
    ["pcd", ["gTok.Pcd", "A/B.inf"]],
    ["build", ["GCC:*_*_*_CC_FLAGS", "-include A/B.inf"]],
]


def gen_odd(tier):
    plain = {"pcd": [PCD, "1"], "build": ["*_*_*_X", "y"], "def": ["B", "1"]}
    tail = [SECTIONS[0], SECTIONS[5], SECTIONS[10]]
    for kind, entry in ODD:
        for where in range(3):
            items = [entry if i == where else plain[kind] for i in range(3)]
            for style in (0, 1, 2):
                for scope in ("", "X64") if kind == "pcd" else ("",):
                    yield [[[kind, scope, items], *tail], ["X64"], style]
                for after in ([], [["lib", [["BaseLib", L2]]]]):
                    for scope in ("X64", "IA32", ""):
                        comp = ["TestPkg/G.inf", [[kind, items], *after]]
                        yield [[["comp", scope, [comp, ITEMS[0]]], *tail], ["X64"], style]


# -- absolute and missing paths ---------------------------------------------------------------------


def gen_paths(tier):
    for what in ("mod", "modover", "lib", "libover", "null", "all"):
        for scope in ("X64", "IA32", "", "AARCH64"):
            for ws in ("ws", "pp"):
                yield ["absolute", what, scope, ws]
    for form in ("absolute", "workspace", "package", "cwd"):
        yield ["main", form, "", ""]
    for what in ("dsc", "include", "nested", "inactive"):
        for fail in (False, True):
            yield ["missing", what, fail, ""]


def run_paths(case, ctx):
    """Absolute paths are turned into EDK2 relative ones; missing files are refused."""
    from edk2toollib.uefi.edk2.parsers.dsc_parser import DscParser

    what, x, scope, place = case
    ws = make_ws(ctx)
    pp = os.path.join(ws, "Sub")
    write(os.path.join(pp, "OtherPkg", "OtherPkg.dec"), "[Defines]\n")
    for f in (L1, L2, "Sub/" + L3, "TestPkg/A.inf", "Sub/OtherPkg/M.inf"):
        write(os.path.join(ws, f), "")
    paths = edk2path(ws, [pp])
    main = os.path.join(ws, "TestPkg", "T.dsc")
    hdr = [h.format("X64") for h in HDR]
    if what == "absolute":
        base, mod, lib = (ws, "TestPkg/A.inf", L1) if place == "ws" else (pp, "OtherPkg/M.inf", L3)
        absolute = lambda kind, p: os.path.join(base, p) if x in (kind, "all") else p  # noqa: E731
        over = [["lib", [["BaseLib", lib], ["NULL", lib]]]]
        aover = [["lib", [["BaseLib", absolute("libover", lib)], ["NULL", absolute("null", lib)]]]]
        prog = [["comp", scope, [[mod, None], [mod, over]]], ["lib", "", [["BaseLib", lib]]]]
        given = [["comp", scope, [[absolute("mod", mod), None], [absolute("modover", mod), aover]]], ["lib", "", [["BaseLib", absolute("lib", lib)]]]]
        write(main, "\n".join(hdr + render(given)) + "\n")
        d = DscParser().SetEdk2Path(paths)
        d.ParseFile(main)
        m = model(prog, ["X64"])
        ctx.eq([[p, a.lower(), dict(o)] for p, a, o in d.Components], m["components"], "components (path, arch, overrides)")
        ctx.eq(dict(d.ScopedLibraryDict), m["scoped"], "library instances per scope")
        ctx.eq(dict(d.LibraryClassToInstanceDict), {c: [os.path.join(base, i) for i in v] for c, v in m["classes"].items()}, "instance files")
        ctx.eq([os.path.join(base, i) for i in d.GetMods()], [os.path.join(base, mod)] * 2, "modules")
        ctx.step()
        return
    if what == "main":
        p = {"absolute": main, "workspace": "TestPkg/T.dsc", "package": "OtherPkg/T.dsc", "cwd": "../" + os.path.basename(ws) + "/TestPkg/T.dsc"}[x]
        f = os.path.join(pp, "OtherPkg", "T.dsc") if x == "package" else main
        write(f, "\n".join(hdr + render(BODY)) + "\n")
        d = DscParser().SetEdk2Path(paths)
        d.ParseFile(p)
        m = model(BODY, ["X64"])
        ctx.eq(list(d.SixMods), m["x64"], "modules")
        ctx.eq({os.path.normpath(q) for q in d.GetAllDscPaths()}, {f}, "files")
        ctx.step()
        return
    d = DscParser().SetEdk2Path(paths)
    if scope:
        d.SetNoFailMode()
    bad = "!include TestPkg/Missing.inc"
    write(os.path.join(ws, "TestPkg", "One.inc"), bad + "\n")
    line = {"include": [bad], "nested": ["!include TestPkg/One.inc"], "inactive": ["!if FALSE", bad, "!endif"], "dsc": []}[x]
    body = render(BODY)
    write(main, "\n".join(hdr + body[:5] + line + body[5:]) + "\n")
    try:
        d.ParseFile("TestPkg/Missing.dsc" if x == "dsc" else main)
        refused = False
    except FileNotFoundError:
        refused = True
    ctx.step()
    ctx.eq(refused, x == "dsc" or (x != "inactive" and not scope), "missing file refused")
    if not refused:
        compare(ctx, d, model(BODY, ["X64"]), ws, classes=False)


BAD = ["!include TestPkg/Missing.inc", "!include", "!endif", "!else", "!elseif TRUE", "!if (1", "!if 1 ==", "!if == 1", "!ifdef", "!ifdef A B", "!ifndef A B", "!if \"a\" < 1", "!if"]


def gen_nofail(tier):
    n = len(render(BODY))
    for i in range(n + 1):
        for a in range(len(BAD)):
            for inc in (0, 1):
                yield [[[i, a]], inc, 1]
    for i, j in itertools.combinations_with_replacement(range(n + 1), 2):
        for a, b in itertools.product(range(len(BAD)), repeat=2):
            if tier != "quick" or (i * 7 + j * 3 + a * 5 + b) % 16 == 0 or i == j == 1:
                yield [[[i, a], [j, b]], 0, 1]
    for i in range(n + 1):
        for a in range(len(BAD)):
            yield [[[i, a]], 0, 0]


def run_nofail(case, ctx):
    """Lines that cannot be understood are left out in no-fail mode, and refused without it."""
    from edk2toollib.uefi.edk2.parsers.dsc_parser import DscParser

    at, inc, nofail = case
    ws = make_ws(ctx)
    pp = os.path.join(ws, "Sub")
    for f in (L1, L2, "Sub/" + L3, "TestPkg/A.inf", "Sub/OtherPkg/M.inf"):
        write(os.path.join(ws, f), "")
    lines = [h.format("X64") for h in HDR]
    body = render(BODY)
    for i in range(len(body) + 1):
        for k, a in at:
            if k == i:
                if inc:
                    write(os.path.join(ws, "TestPkg", "Inc.dsc.inc"), "# x\n" + BAD[a] + "\n")
                    lines.append("!include TestPkg/Inc.dsc.inc")
                else:
                    lines.append(BAD[a])
        lines += body[i:i + 1]
    main = os.path.join(ws, "TestPkg", "T.dsc")
    write(main, "\n".join(lines) + "\n")
    d = DscParser().SetEdk2Path(edk2path(ws, [pp]))
    if nofail:
        d.SetNoFailMode()
        d.ParseFile(main)
        compare(ctx, d, model(BODY, ["X64"]), ws, classes=False)
    else:
        try:
            d.ParseFile(main)
        except Exception:
            ctx.step()
        else:
            ctx.fail(f"{BAD[at[0][1]]!r} was accepted")
    ctx.state(case)


# -- sizes ------------------------------------------------------------------------------------------


def sized(what, n):
    """A program with n entries of a kind."""
    mod = lambda i: f"TestPkg/M{i}/M{i}.inf"  # noqa: E731
    lib = lambda i: [f"Lib{i}", f"TestPkg/Lib/L{i}.inf"]  # noqa: E731
    one = [["comp", "X64", [["TestPkg/Last.inf", None]]]]
    if what == "modules":
        return [["comp", "X64", [[mod(i), None] for i in range(n)]], *one]
    if what == "modules with overrides":
        return [["comp", "IA32", [[mod(i), [["lib", [lib(i)]]]] for i in range(n)]], *one]
    if what == "sections":
        return [["comp", ("X64", "IA32", "", "AARCH64")[i % 4], [[mod(i), None]]] for i in range(n)] + one
    if what == "section pairs":
        return sum(([["comp", "X64", [[mod(i), None]]], ["lib", "X64", [lib(i)]], ["pcd", "", [[f"gTok.Pcd{i}", str(i)]]]] for i in range(n)), []) + one
    if what == "override libraries":
        return [["comp", "X64", [[mod(0), [["lib", [lib(i) for i in range(n)]]]]]], *one]
    if what == "override NULL":
        return [["comp", "X64", [[mod(0), [["lib", [["NULL", lib(i)[1]] for i in range(n)]]]]]], *one]
    if what == "override groups":
        return [["comp", "X64", [[mod(0), [[("lib", "pcd", "build", "def")[i % 4], [[lib(i) if i % 4 == 0 else [f"gTok.Pcd{i}", str(i)], ["GCC:*_*_*_CC_FLAGS", "-O"]][i % 4 == 2]]] for i in range(n)]]]], *one]
    if what == "libraries":
        return [["lib", "", [lib(i) for i in range(n)]], *one]
    if what == "instances":
        return [["lib", "X64", [["BaseLib", lib(i)[1]] for i in range(n)]], *one]
    if what == "NULL":
        return [["lib", "", [["NULL", lib(i)[1]] for i in range(n)]], *one]
    if what == "scopes":
        return [["lib", ["X64.PEIM"] + [f"X64.TYPE_{i}" for i in range(n)], [lib(0), lib(1)]], *one]
    if what == "pcds":
        return [["pcd", "", [[f"gTok.Pcd{i}", str(i)] for i in range(n)]], *one]
    if what == "values":
        return [["pcd", "", [["gTok.Pcd", str(i)] for i in range(n)]], *one]
    if what == "length":
        return [["comp", "X64", [["TestPkg/" + "d" * n + ".inf", None]]], ["lib", "", [["L" * (n + 1), "TestPkg/" + "l" * n + ".inf"]]], ["pcd", "", [["gTok.P" + "p" * n, "1" * (n + 1)]]], *one]
    assert what == "depth"
    return [["comp", "X64", [["TestPkg/" + "d/" * n + "M.inf", None]]], ["lib", "", [["BaseLib", "TestPkg/" + "d/" * n + "L.inf"]]], *one]


SIZED = ["modules", "modules with overrides", "sections", "section pairs", "override libraries", "override NULL", "override groups", "libraries", "instances", "NULL",
         "scopes", "pcds", "values", "length", "depth"]


def gen_sizes(tier):
    for what in SIZED:
        for n in counts(tier, {"scopes": 65, "depth": 100, "length": 129}.get(what, 257 if tier == "quick" else 1025)):
            yield [what, n]
    for n in counts(tier, 40 if tier == "quick" else 129, small=16):
        yield ["include chain", n]
        yield ["include sequence", n]


def run_sizes(case, ctx):
    what, n = case
    if not what.startswith("include"):
        run_prog([sized(what, n), ["X64"], n % 2], ctx)
        return
    ws = make_ws(ctx)
    last = "TestPkg/Last.inf"
    mods = [f"TestPkg/M{i}.inf" for i in range(n)]
    f = os.path.join(ws, "TestPkg", "T.dsc")
    inc = [os.path.join(ws, "TestPkg", f"i{i}.dsc.inc") for i in range(n)]
    head = [h.format("X64") for h in HDR] + ["[Components.X64]"]
    if what == "include sequence":
        write(f, "\n".join(head + [f"!include TestPkg/i{i}.dsc.inc" for i in range(n)] + [last]) + "\n")
        for p, m in zip(inc, mods):
            write(p, m + "\n")
        want = mods + [last]
    else:
        write(f, "\n".join(head + (["!include i0.dsc.inc"] if n else []) + [last]) + "\n")
        for i, (p, m) in enumerate(zip(inc, mods)):
            write(p, "\n".join([m] + ([f"!include i{i + 1}.dsc.inc"] if i + 1 < n else []) + [m.replace("/M", "/After")]) + "\n")
        want = mods + [m.replace("/M", "/After") for m in reversed(mods)] + [last]
    d = parse(ctx, ws, f)
    ctx.eq(list(d.SixMods), want, "X64 modules")
    ctx.eq({os.path.normpath(p) for p in d.GetAllDscPaths()}, {f, *inc}, "files that make up the DSC")
    ctx.state(repr(case))


SUITES = [
    Suite("sizes", gen_sizes, run_sizes, "numbers of modules, sections, overrides, libraries, PCDs and includes, lengths of names", {"quick": "15 kinds x every number up to 24 and 12 edges up to 257; 16 includes", "thorough": "every number up to 72 and 20 edges up to 1025; 129 includes"}),
    Suite("odd", gen_odd, run_prog, "lines with brackets, braces and paths in their values", "7 kinds of lines, every position, in sections and components"),
    Suite("paths", gen_paths, run_paths, "absolute paths of modules and libraries, missing files", "2 package paths; no-fail mode"),
    Suite("nofail", gen_nofail, run_nofail, "lines that cannot be understood, in no-fail mode and without", {"quick": "13 lines at every position, in includes too; a sixteenth of all pairs", "thorough": "all pairs"}),
    Suite("libs", gen_libs, run_prog, "histories of library definitions", "<=3 (4) definitions; 2 sections"),
    Suite("sections", gen_sections, run_prog, "sequences of sections", "<=3 sections from 14"),
    Suite("components", gen_components, run_prog, "component items with overrides", "<=3 (4) items"),
    Suite("pcds", gen_pcds, run_pcds, "conditions on PCD values", "2 PCD entries"),
    Suite("includes", gen_includes, run_includes, "every split of a file into includes", "nesting depth 2"),
]
