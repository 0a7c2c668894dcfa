"""P10: build reports: every module, library, PCD, DEPEX and firmware volume is read as written."""

import itertools
import os

from lib.mc import Suite
from lib.sizes import counts

RS = ">" + "=" * 118 + "<"
RE = "<" + "=" * 118 + ">"
SS = ">" + "-" * 118 + "<"
SE = "<" + "-" * 118 + ">"
SEP = "-" * 120

# each piece: (lines, function updating the expected module)
LIBS = {
    "lib1": ["@WS@/Pkg/LibA/LibA.inf", "{ClassA: C = Ctor}"],
    "lib2": ["@PP@/LibB/LibB.inf", "{ClassB}"],
    "libwrap": ["@WS@/Pkg/Long/", "Lib.inf", "{ClassL:  C = A", "B D = E}"],
    "libout": ["/somewhere/else/X.inf", "{ClassX}"],
    "null": ["@WS@/Pkg/N/N1.inf", "{NULL}"],
    "null2": ["@WS@/Pkg/N/N2.inf", "{Null: C = x}"],
}
LIBV = {"lib1": ("ClassA", "Pkg/LibA/LibA.inf"), "lib2": ("ClassB", "LibB/LibB.inf"), "libwrap": ("ClassL", "Pkg/Long/Lib.inf"),
        "libout": ("ClassX", "/somewhere/else/X.inf"), "null": ("NULL", "Pkg/N/N1.inf"), "null2": ("Null", "Pkg/N/N2.inf")}
PCDS = {
    "ts1": ["gOneTokenSpaceGuid"],
    "ts2": ["gTwoTokenSpaceGuid"],
    "int": ["*B PcdInt                        : FIXED     (UINT32) = 0x10", "    DSC DEFAULT = 0x20"],
    "bool": ["    PcdBool : FEATURE (BOOLEAN) = TRUE"],
    "str": ["*P PcdStr : FIXED  (VOID*) = L\"a b\"", "   DEC DEFAULT = \"\""],
    "colon": ["*P PcdCol : FIXED  (VOID*) = \"http://x/?a=b\"", "   DEC DEFAULT = \"c:\\d\""],
    "wrap": ["*P PcdWrap : FIXED  (VOID*) = \"first", "second\"", "   DEC DEFAULT = \"x"," y\""],
    "arr": ["*P PcdArr : FIXED  (VOID*) = {0x1,", "0x2,", "0x3}"],
}
PCDV = {"int": ("PcdInt", "0x10"), "bool": ("PcdBool", "TRUE"), "str": ("PcdStr", "L\"a b\""), "colon": ("PcdCol", "\"http://x/?a=b\""),
        "wrap": ("PcdWrap", "\"first second\""), "arr": ("PcdArr", "{0x1, 0x2, 0x3}")}
HEADERS = [
    ["Module Name:          @N@", "Module Arch:          X64", "Module INF Path:      @I@", "File GUID:            @G@",
     "Size:                 0x1000 (4.00K)", "Driver Type:          0x7 (DRIVER)"],
    ["Module Name:          @N@", "File GUID:            @G@", "Driver Type:          0x7 (DRIVER)", "Module INF Path:      @I1@", "@I2@",
     "Build Time Stamp:     2020-01-01 10:00:00"],
]
GUIDS = ["D6A2CB7F-6A18-4E2F-B43B-9920A733700A", "7FE50B97-3A5F-4D59-B9D5-0123456789AB", "00000000-0000-0000-0000-000000000003"]


def sub(title, lines, sep=True):
    return [SS, title] + ([SEP] if sep else []) + lines + [SE]


class Model:
    def __init__(self):
        self.mods = {}


def render_module(i, spec, model):
    """spec: [header kind, path kind, [section...]] with section = [kind, pieces]."""
    hk, pk, sections = spec
    name = f"Mod{i}"
    rel = f"Pkg/Mod{i}/Mod{i}.inf"
    inf = {"rel": rel, "abs": "@WS@/" + rel, "win": rel.replace("/", "\\"), "out": f"/other/{rel}"}[pk]
    lines = []
    for ln in HEADERS[hk]:
        ln = ln.replace("@N@", name).replace("@G@", GUIDS[i]).replace("@I1@", inf[:12]).replace("@I2@", inf[12:]).replace("@I@", inf)
        lines.append(ln)
    libs, pcds, depex, nulls = {}, {}, "", 0
    for kind, items in sections:
        if kind == "lib":
            lines += sub("Library", [x for it in items for x in LIBS[it]])
            for it in items:
                c, p = LIBV[it]
                if c.lower() == "null":
                    c += str(nulls)
                    nulls += 1
                libs[c] = p
        elif kind == "pcd":
            body, ts = [], ""
            for it in items:
                body += PCDS[it]
                if it.startswith("ts"):
                    ts = PCDS[it][0]
                else:
                    pcds[ts + "." + PCDV[it][0]] = PCDV[it][1]
            lines += sub("PCD", body)
        elif kind == "depex":
            body = ["  PUSH gEfiA", "  PUSH gEfiB", "  AND", "  END", SEP] if items else []
            head = ["Dependency Expression (DEPEX) from INF", "(gA AND", "gB) OR TRUE", SEP, "From Module INF:  gA", "From Library INF: gB"]
            if items:
                lines += [SS, "Final Dependency Expression (DEPEX) Instructions"] + body + head + [SE]
            else:
                lines += [SS] + head + [SE]
            depex = "(gA AND gB) OR TRUE"
        elif kind == "other":
            lines += sub("Build Flags", ["CC_FLAGS: -DX = 1", "x {y}", "Tools: none"])
    model.mods[GUIDS[i]] = dict(name=name, rel=rel if pk != "out" else inf, libs=libs, pcds=pcds, depex=depex, fv=None, type="DRIVER",
                                path=inf.replace("\\", "/"), inf=inf)
    return [RS, "Module Summary"] + lines + [RE]


def render_fd(spec, model):
    """spec: list of [fv name, [module index, wrapped]]"""
    lines = ["FD Name:            PLATFORM", "Base Address:       0xFF800000", "Size:               0x800000 (8192K)"]
    for fv, mods in spec:
        body = ["Type:               FV", "Base Address:       0x0", f"Fv Name:            {fv} (99.5% Full)", "Offset     Module", SEP]
        for i, wrap in mods:
            inf = f"@WS@/Pkg/Mod{i}/Mod{i}.inf"
            if wrap:
                body += [f"0x0000{i}000 Mod{i} ({inf[:9]}", inf[9:] + ")"]
            else:
                body.append(f"0x0000{i}000 Mod{i} ({inf})")
            if GUIDS[i] in model.mods and model.mods[GUIDS[i]]["rel"].startswith("Pkg"):
                model.mods[GUIDS[i]]["fv"] = fv
        body.append("0x00100000 Raw (not an inf)"[:0] or "0x00200000 PAD")
        lines += sub("FD Region", body)
    return [RS, "Firmware Device (FD)"] + lines + [RE]


HEAD = ["Platform Name:        Plat", "Platform DSC Path:    @WS@/Plat.dsc", "Architectures:        X64", "Output Path:          @WS@/Build/Out",
        "Build Environment:    Linux", ""]


def sections_menu(tier):
    n = 3
    out = []
    for k in range(n + 1):
        for t in itertools.permutations(LIBS, k) if tier != "quick" else itertools.combinations(LIBS, k):
            if t:
                out.append([["lib", list(t)]])
    pp = ["ts1", "int", "bool", "str", "colon", "wrap", "arr", "ts2"]
    for k in range(1, n + 1):
        for t in itertools.permutations(pp, k):
            out.append([["pcd", ["ts1"] + list(t)]])
    parts = [["lib", ["lib1", "null"]], ["pcd", ["ts1", "int", "wrap"]], ["depex", 1], ["depex", 0], ["other", 0], ["lib", ["null2"]]]
    for k in range(0, n + (1 if tier == "quick" else 2)):
        for t in itertools.permutations(parts, k):
            if sum(1 for x in t if x[0] == "depex") <= 1:
                out.append(list(t))
    return out


def gen(tier):
    for secs in sections_menu(tier):
        for hk in range(2):
            for pk in ("rel", "abs", "win", "out"):
                if len(secs) == 1 and secs[0][0] in ("lib", "pcd") and (hk or pk != "rel"):
                    continue
                if hk and pk == "win":
                    pass
                yield [[["mod", 0, [hk, pk, secs]]], True]
    # regions
    small = [["lib", ["lib1"]], ["pcd", ["ts1", "int"]]]
    fds = [[], [["FVONE", [[0, 0]]]], [["FVONE", [[0, 1], [1, 0]]]], [["FVONE", [[0, 0]]], ["FVTWO", [[1, 1], [2, 0]]]], [["FVA", [[1, 0]]], ["FVB", [[1, 0]]]]]
    regs = [["pcdregion"], ["mod", 0, [0, "rel", small]], ["mod", 1, [1, "abs", []]], ["mod", 2, [0, "out", small]]]
    for fd in fds:
        for k in range(0, 5):
            for t in itertools.permutations(regs, k):
                for pos in range(len(t) + 1):
                    r = list(t[:pos]) + [["fd", fd]] + list(t[pos:])
                    yield [r, bool(pos % 2)]


def run(case, ctx):
    from edk2toollib.uefi.edk2.parsers.buildreport_parser import BuildReport

    regions, words = case
    d = os.path.realpath(ctx.tmp())
    ws, pp = os.path.join(d, "ws"), os.path.join(d, "out")
    os.makedirs(ws)
    os.makedirs(pp)
    m = Model()
    text = list(HEAD)
    done = []
    for r in regions:
        if r[0] == "mod":
            done.append(render_module(r[1], r[2], m))
        elif r[0] == "pcdregion":
            done.append([RS, "Platform Configuration Database Report", "*P  - Platform scoped PCD override in DSC file"] +
                        sub("Conditional Directives used by the build system", ["A : B = C", "Module Name: Wrong"]) + [RE])
        else:
            done.append(None)
    for i, r in enumerate(regions):
        if r[0] == "fd":
            done[i] = render_fd(r[1], m)
    for x in done:
        text += x + [""]
    base = "@@/ws" if words else ws
    text = [x.replace("@WS@", base).replace("@PP@", pp) for x in text]
    f = os.path.join(d, "report.txt")
    with open(f, "w") as o:
        o.write("\n".join(text) + "\n")
    br = BuildReport(f, ws, pp, {"@@": d} if words else {})
    br.BasicParse()
    ctx.eq((br.PlatformName, br.DscPath, br.BuildOutputDir), ("Plat", ws + "/Plat.dsc", ws + "/Build/Out"), "header of the report")
    ctx.eq(sorted(br.Modules), sorted(m.mods), "modules (by GUID)")
    for g, w in m.mods.items():
        mod = br.Modules[g]
        ctx.eq((mod.Guid, mod.Name, mod.Type), (g, w["name"], w["type"]), "module header")
        ctx.eq(mod.Libraries, w["libs"], f"libraries of {w['name']}")
        ctx.eq({k: " ".join(v.split()) for k, v in mod.PCDs.items()}, w["pcds"], f"PCDs of {w['name']}")
        ctx.eq(" ".join(mod.Depex.split()), w["depex"], f"depex of {w['name']}")
        ctx.eq(mod.FvName, w["fv"], f"firmware volume of {w['name']}")
    for g, w in m.mods.items():
        found = br.FindComponentByInfPath(w["rel"].upper())
        ctx.true(found is br.Modules[g], f"component found by {w['rel']}")
        ctx.eq(br.Modules[g].InfPath in (w["rel"], w["inf"].replace("@WS@", ws)), True, f"INF path {br.Modules[g].InfPath}")
    ctx.eq(br.FindComponentByInfPath("no/such.inf"), None, "unknown component")
    ctx.state(repr(case))


# -- wrapped lines, other regions --------------------------------------------------------------------
INF = "Pkg/Mod0/Mod0.inf"


def gen_wrap(tier):
    n = len("@WS@/" + INF)
    for what in ("inf", "fd", "lib", "class"):
        for i in [0, *range(4, n + 2)]:
            for j in [None] if tier == "quick" and what == "class" else [None, *range(max(i + 1, 4), n + 2, 3 if tier == "quick" else 1)]:
                yield [what, i, j]
    for region in ("Platform Configuration Database Report", "Module Summar", "Firmware Device", "Prediction", "Build Rules", ""):
        for n in (1, 2):
            for at in (0, 1, 2):
                yield ["region", region, [n, at]]
    for how in ("missing", "folder", "fresh"):
        yield [how, "", None]


def pieces(text, i, j):
    out = [text[:i], text[i:]] if j is None else [text[:i], text[i:j], text[j:]]
    return [x for x in out if x]


def run_wrap(case, ctx):
    from edk2toollib.uefi.edk2.parsers.buildreport_parser import BuildReport

    what, i, j = case
    d = os.path.realpath(ctx.tmp())
    ws = os.path.join(d, "ws")
    os.makedirs(ws)
    f = os.path.join(d, "report.txt")
    if what in ("missing", "folder", "fresh"):
        br = BuildReport(ws if what == "folder" else f, ws, "", {})
        ctx.eq((br.PlatformName, br.DscPath, br.FdfPath, br.BuildOutputDir, br.Modules, br.PackagePathList), ("", "", "", "", {}, []), "before parsing")
        if what == "fresh":
            return
        try:
            br.BasicParse()
            ctx.fail("a report that does not exist was accepted")
        except Exception as e:
            ctx.true("invalid" in str(e).lower() or isinstance(e, OSError), f"refusal {e!r}")
        return
    inf = "@WS@/" + INF
    at = lambda k, text: pieces(text, i, j) if what == k else [text]  # noqa: E731
    mod = [RS, "Module Summary", "Module Name:          Mod0", "Module Arch:          X64"]
    path = at("inf", inf)
    mod += ["Module INF Path:      " + path[0], *path[1:], f"File GUID:            {GUIDS[0]}", "Driver Type:          0x7 (DRIVER)"]
    mod += sub("Library", at("lib", "@WS@/Pkg/LibA/LibA.inf") + at("class", "{ClassA: C = Ctor D = Dtor}")) + [RE]
    line = at("fd", inf + ")")
    fd = [RS, "Firmware Device (FD)"] + sub("FD Region", ["Fv Name:            FVONE (99.5% Full)", "0x00100000 Blob (Pkg/blob.bin)", "0x00000000 Mod0 (" + line[0], *line[1:], "0x00200000 PAD"]) + [RE]
    regions = [mod, fd]
    if what == "region":
        n, pos = j
        other = [RS] + ([i] if i else []) + ["Module Name:          Other", f"File GUID:            {GUIDS[0]}", "Fv Name:            FVTWO (1% Full)", f"0x00000000 Mod0 ({inf})"]
        other += sub("PCD", PCDS["ts1"] + PCDS["int"]) + [RE]
        regions[pos:pos] = [other] * n
    # the head of the report names a path only once
    text = [x.replace("@WS@", ws) for x in HEAD + [y for r in regions for y in r + [""]]] if what == "region" else [x.replace("@WS@", "/W") for x in HEAD + mod + fd]
    with open(f, "w") as o:
        o.write("\n".join(text) + "\n")
    br = BuildReport(f, ws, "", {} if what == "region" else {"/W": ws})
    br.BasicParse()
    ctx.eq(list(br.Modules), GUIDS[:1], "modules")
    m = br.Modules[GUIDS[0]]
    ctx.eq(br.FindComponentByInfPath(INF), m, "component found by its path")
    ctx.eq((m.Name, m.InfPath, m.Type, m.PCDs, m.Libraries, m.FvName), ("Mod0", INF, "DRIVER", {}, {"ClassA": "Pkg/LibA/LibA.inf"}, "FVONE"), "the module")
    ctx.eq([t.name for t, _, _ in br._Regions].count("MODULE"), 1, "module regions")
    ctx.state(repr(case))


# -- sizes --------------------------------------------------------------------------------------------


def gen_sizes(tier):
    for what in ("modules", "libraries", "null", "pcds", "token spaces", "wraps", "depex", "volumes", "files", "regions", "length"):
        for n in counts(tier, 257 if tier == "quick" else 1025, low=1):
            yield [what, n]


def run_sizes(case, ctx):
    from edk2toollib.uefi.edk2.parsers.buildreport_parser import BuildReport

    what, n = case
    d = os.path.realpath(ctx.tmp())
    ws = os.path.join(d, "ws")
    os.makedirs(ws)
    mods = n if what in ("modules", "files") else 1
    guid = lambda i: f"{i + 1:08X}-1111-2222-3333-444444444444"  # noqa: E731
    long = n if what == "length" else 0
    text, libs, pcds, depex = [], {}, {}, ""
    body = []
    if what in ("libraries", "null", "length"):
        for i in range(1 if long else n):
            c = "NULL" if what == "null" else f"Class{i}" + "c" * long
            libs[c + (str(i) if what == "null" else "")] = f"Pkg/{'d/' * (long // 2)}L{i}.inf"
            body += [f"@WS@/Pkg/{'d/' * (long // 2)}L{i}.inf", "{%s}" % c]
        text += sub("Library", body)
    if what in ("pcds", "token spaces", "wraps", "length"):
        body = []
        for i in range(1 if what in ("wraps", "length") else n):
            if i == 0 or what == "token spaces":
                ts = f"gTok{i}TokenSpaceGuid"
                body.append(ts)
            v = hex(i) if what != "wraps" else ["{0x0,"] + [f"0x{j:x}," for j in range(n)] + ["0xff}"]
            if long:
                v = '"' + "v" * long + '"'
            name = f"Pcd{i}" + "p" * long
            pcds[f"{ts}.{name}"] = " ".join(v) if isinstance(v, list) else v
            body += [f"    {name} : FIXED (VOID*) = {v[0]}", *v[1:]] if isinstance(v, list) else [f"    {name} : FIXED (UINT32) = {v}"]
        text += sub("PCD", body)
    if what == "depex":
        depex = " AND ".join(f"g{i}" for i in range(n + 1))
        text += [SS, "Dependency Expression (DEPEX) from INF"] + [f"g{i} AND" for i in range(n)] + [f"g{n}", SEP, "From Module INF:  gA", SE]
    lines = []
    for i in range(mods):
        lines += [RS, "Module Summary", f"Module Name:          Mod{i}" + "m" * long, f"Module INF Path:      Pkg/{'d/' * (long // 2)}Mod{i}.inf", f"File GUID:            {guid(i)}", "Driver Type:          0x7 (DRIVER)"] + text + [RE, ""]
    if what == "regions":
        lines += ([RS, "Platform Configuration Database Report"] + sub("PCD", PCDS["ts1"] + PCDS["int"]) + [RE, ""]) * n
    fvs = [[0]] if what not in ("files", "volumes") else [list(range(n))] if what == "files" else [[]] * (n - 1) + [[0]]
    fd = [RS, "Firmware Device (FD)"]
    for k, files in enumerate(fvs):
        fd += sub("FD Region", [f"Fv Name:            FV{k}{'v' * long} (99.5% Full)"] + [f"0x{i * 16:08X} Mod{i} (@WS@/Pkg/{'d/' * (long // 2)}Mod{i}.inf)" for i in files] + ["0x00200000 PAD"])
    f = os.path.join(d, "report.txt")
    with open(f, "w") as o:
        o.write("\n".join(x.replace("@WS@", ws) for x in HEAD + lines + fd + [RE]) + "\n")
    br = BuildReport(f, ws, "", {})
    br.BasicParse()
    ctx.eq(list(br.Modules), [guid(i) for i in range(mods)], "modules")
    for i in range(mods):
        m = br.Modules[guid(i)]
        fv = next((f"FV{k}" + "v" * long for k, x in enumerate(fvs) if i in x), None)
        ctx.eq((m.Name, m.InfPath, m.Libraries, {k: " ".join(v.split()) for k, v in m.PCDs.items()}, " ".join(m.Depex.split()), m.FvName), (f"Mod{i}" + "m" * long, f"Pkg/{'d/' * (long // 2)}Mod{i}.inf", libs, pcds, depex, fv), "module")
        ctx.true(br.FindComponentByInfPath(m.InfPath) is m, "found by its path")
    ctx.state(repr(case))


SUITES = [
    Suite("sizes", gen_sizes, run_sizes, "numbers of modules, libraries, PCDs, wrapped lines, volumes, files and regions, lengths of names", {"quick": "11 kinds x every number up to 24 and edges up to 257", "thorough": "every number up to 72 and edges up to 1025"}),
    Suite("wraps", gen_wrap, run_wrap, "lines wrapped at every position, regions of other kinds, missing reports", "<=2 breaks per line, 6 other regions"),
    Suite("reports", gen, run, "module sections and orders of regions", "<=3 pieces per section, <=3 sections, <=5 regions"),
]
ASSUMPTIONS = ["reports follow the layout of BaseTools' BuildReport.py; distinct module GUIDs"]
