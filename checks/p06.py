"""P06: FDF parsing — definitions, FDs, FVs with INF and FILE statements, includes, long files."""

import itertools
import os

from checks.common_parsers import edk2path, make_ws, write
from lib.mc import Suite, sequences
from lib.sizes import counts

G1, G2 = "7E175642-F3AD-490A-9F8A-2E9FC6933DDD", "aaaaaaaa-aaaa-aaaa-aaaa-aaaaaaaaaaaa"
# statements of an FV section: [kind, ...]
STM = [
    ["inf", "TestPkg/A/A.inf"],
    ["inf", "RuleOverride=ACPITABLE TestPkg/B.inf"],
    ["attr", "BlockSize = 0x1000"],
    ["file", "FREEFORM", G1, []],
    ["file", "PEIM", G2, [["RAW", "a.bin"], ["UI", '"Name"'], ["RAW", "b.bin"]]],
    ["file", "DRIVER", G1, [["GUIDED", "EE4E5898-3914-4259-9D6E-DC7BD79403CF"], ["PE32", "x/y.efi"]]],
    ["apriori", ["TestPkg/P.inf"]],
    ["attr", "SET gTokenSpaceGuid.PcdS = a[1]"],
]
SECTIONS = [
    ["def", [["A", "0x10"], ["B", "x y"]]],
    ["def", [["B", "2"]]],
    ["def", [["C", "-DX=[1]"], ["D", '"a=b=c"']]],
    ["fd", "MAIN", ["BaseAddress = 0x1", "0x0|0x1000", "FV = ONE"]],
    ["fd", "ONE", ["Size = 0x1"]],
    ["fv", "ONE", [STM[0], STM[4]]],
    ["fv", "TWO", [STM[5], STM[1], STM[2]]],
    ["fv", "ONE", [STM[3], STM[0]]],
    ["capsule", "CAP", ["CAPSULE_GUID = 1", "INF TestPkg/NotAnInf.inf"]],
    ["rule", "Common.PEIM", ["FILE PEIM = $(NAMED_GUID) {", "PE32 PE32 x.efi", "}"]],
    ["fmp", "Payload", ["IMAGE_HEADER_INIT_VERSION = 1"]],
]


def render(prog, style=0):
    out = []
    kw = (lambda s: s) if style % 2 == 0 else (lambda s: s.lower())
    for s in prog:
        pad = "  " if style == 2 else ""
        if s[0] == "def":
            out.append(pad + ("[Defines]" if style % 2 == 0 else "[defines]"))
            out += [("  DEFINE " if style < 2 else "DEFINE\t") + f"{k} = {v}" for k, v in s[1]]
        elif s[0] == "fv":
            out.append([f"[FV.{s[1]}]", f"[fv.{s[1]}]", f"  [FV.{s[1]}]  # comment", f"[Fv.{s[1]} ]"][style % 4])
            for st in s[2]:
                if st[0] == "inf":
                    out.append(f"  {kw('INF')} {st[1]}" if style < 2 else f"INF   {st[1]}")
                elif st[0] == "attr":
                    out.append("  " + st[1])
                elif st[0] == "apriori":
                    out.append("  APRIORI PEI {")
                    out += [f"    INF {x}" for x in st[1]]
                    out.append("  }")
                else:
                    out.append(f"  {kw('FILE')} {st[1]} = {st[2]} {{")
                    for a, b in st[3]:
                        out.append(f"    {kw('SECTION')} {a} {b}" if a == "GUIDED" else f"    {kw('SECTION')} {a} = {b}")
                    out.append("  }")
        else:
            n = {"fd": "FD", "capsule": "Capsule", "rule": "Rule", "fmp": "FmpPayload"}[s[0]]
            out.append(f"{pad}[{n if style % 2 == 0 else n.lower()}.{s[1]}]")
            out += ["  " + x for x in s[2]]
    return out


def model(prog):
    d, fvs, fds = {}, {}, set()
    for s in prog:
        if s[0] == "def":
            d.update({k: v for k, v in s[1]})
        elif s[0] == "fd" and s[2]:
            fds.add(s[1])
        elif s[0] == "fv" and s[2]:
            fv = fvs.setdefault(s[1], {"Infs": [], "Files": {}})
            for st in s[2]:
                if st[0] == "inf":
                    fv["Infs"].append(st[1])
                elif st[0] == "apriori":
                    fv["Infs"] += st[1]
                elif st[0] == "file":
                    f = {"type": st[1]}
                    for a, b in st[3]:
                        if a == "GUIDED":
                            f[b] = {}
                        else:
                            f.setdefault(a, []).append(b)
                    fv["Files"][st[2]] = f
    return d, fvs, fds


def parse(ctx, ws, path):
    from edk2toollib.uefi.edk2.parsers.fdf_parser import FdfParser

    p = FdfParser().SetEdk2Path(edk2path(ws))
    p.ParseFile(path)
    ctx.step()
    return p


def compare(ctx, p, m):
    d, fvs, fds = m
    ctx.eq({k: v for k, v in p.Dict.items()}, d, "[Defines] values")
    ctx.eq({k: {"Infs": list(v["Infs"]), "Files": v["Files"]} for k, v in p.FVs.items()}, fvs, "firmware volumes")
    ctx.eq(set(p.FDs), fds, "flash devices")
    ctx.eq(p.Parsed, True, "Parsed")
    ctx.state(repr(m))


def run(case, ctx):
    prog, style = case
    ws = make_ws(ctx)
    f = write(os.path.join(ws, "TestPkg", "T.fdf"), "\n".join(render(prog, style)) + "\n")
    compare(ctx, parse(ctx, ws, f), model(prog))


def gen_sections(tier):
    for n in (1, 2, 3) if tier == "quick" else (1, 2, 3, 4):
        for i, s in enumerate(itertools.product(SECTIONS, repeat=n)):
            if n < 3:
                for style in range(4):
                    yield [list(s), style]
            else:
                yield [list(s), i % 4]


def gen_fv(tier):
    n = 3 if tier == "quick" else 4
    for st in sequences(STM, n, 1):
        yield [[["fv", "ONE", st]], len(st) % 2]
        if len(st) <= 2:
            for st2 in sequences(STM, 1, 1):
                yield [[["fv", "ONE", st], ["fv", "TWO", st2]], 0]


BODY = [["def", [["A", "0x10"], ["B", "x"]]], ["fd", "MAIN", ["Size = 1"]], ["fv", "ONE", [STM[0], STM[2], STM[1]]],
        ["fv", "TWO", [STM[4], STM[0]]]]


def gen_inc(tier):
    lines = render(BODY)
    depth, ok = 0, []
    for i in range(len(lines) + 1):
        if depth == 0:
            ok.append(i)
        if i < len(lines):
            depth += lines[i].count("{") - lines[i].count("}")
    for a, b in itertools.combinations_with_replacement(ok, 2):
        for d in ("TestPkg", "TestPkg/Inc"):
            yield [[a, b], None, d]
            for c, e in itertools.combinations([x for x in ok if a <= x <= b], 2):
                if tier == "thorough" or (c + e) % 2 == 0:
                    yield [[a, b], [c, e], d]


def run_inc(case, ctx):
    (a, b), inner, d = case
    ws = make_ws(ctx)
    lines = render(BODY)
    sub = lines[a:b]
    if inner:
        c, e = inner
        write(os.path.join(ws, d, "two.inc"), "\n".join(lines[c:e]) + "\n")
        sub = lines[a:c] + [f"!include {d}/two.inc"] + lines[e:b]
    write(os.path.join(ws, d, "one.inc"), "\n".join(sub) + "\n")
    inc = f"!include {d}/one.inc" if inner else "!include " + os.path.relpath(os.path.join(ws, d, "one.inc"),
                                                                              os.path.join(ws, "TestPkg"))
    f = write(os.path.join(ws, "TestPkg", "T.fdf"), "\n".join(lines[:a] + [inc] + lines[b:]) + "\n")
    compare(ctx, parse(ctx, ws, f), model(BODY))


def gen_long(tier):
    for n in (0, 1, 10, 999, 3000):
        for kind in ("comment", "blank", "inactive", "directive", "equation"):
            for at in range(0, 8, 1):
                yield [n, kind, at]


def run_long(case, ctx):
    n, kind, at = case
    ws = make_ws(ctx)
    prog = [["def", [["A", "1"]]], ["fv", "ONE", [STM[0], STM[1], STM[4]]]]
    lines = render(prog)
    pad = {"comment": ["# c"] * n, "blank": [""] * n, "inactive": ["!if FALSE"] + ["INF X.inf"] * n + ["!endif"],
           "directive": ["!if TRUE", "!endif"] * n, "equation": ["!if 1 == 2", "X = {", "!elseif 1 == 1", "!else", "Y = {", "!endif"] * (n // 3)}[kind]
    f = write(os.path.join(ws, "TestPkg", "T.fdf"), "\n".join(lines[:at] + pad + lines[at:]) + "\n")
    compare(ctx, parse(ctx, ws, f), model(prog))


def gen_paths(tier):
    for form in ("absolute", "workspace", "package", "cwd", "missing"):
        yield ["main", form]
    for where in range(4):
        for n in ("TestPkg/Missing.inc", "Missing.inc"):
            yield ["include", where, n]
    for bad in ("FILE FREEFORM {", "FILE PEIM {", "FILE"):
        for where in range(3):
            yield ["file", bad, where]
    for pre in (["X = 1"], ["INF TestPkg/A.inf"], ["0x0|0x1000", "Y = 2", "DEFINE Z = 3"], ["FILE RAW = x {", "}"]):
        yield ["before", pre]


def run_paths(case, ctx):
    """Paths of the file; missing includes and malformed statements are refused; lines outside of sections mean nothing."""
    from edk2toollib.uefi.edk2.parsers.fdf_parser import FdfParser

    ws = make_ws(ctx)
    pp = os.path.join(ws, "Sub")
    write(os.path.join(pp, "OtherPkg", "OtherPkg.dec"), "[Defines]\n")
    main = os.path.join(ws, "TestPkg", "T.fdf")
    lines = render(BODY)
    p = FdfParser().SetEdk2Path(edk2path(ws, [pp]))
    path, refuse, f = main, False, main
    if case[0] == "main":
        path = {"absolute": main, "workspace": "TestPkg/T.fdf", "package": "OtherPkg/T.fdf", "cwd": f"../{os.path.basename(ws)}/TestPkg/T.fdf",
                "missing": os.path.join(ws, "TestPkg", "M.fdf")}[case[1]]
        f = os.path.join(pp, "OtherPkg", "T.fdf") if case[1] == "package" else main
        refuse = case[1] == "missing"
    elif case[0] == "include":
        lines.insert(case[1] * 2, "!include " + case[2])
        refuse = True
    elif case[0] == "file":
        at = [i for i, x in enumerate(lines) if x.startswith("[FV")][0] + 1 + case[2]
        lines[at:at] = [case[1], *["}"] * case[1].count("{")]
        refuse = True
    else:
        lines = case[1] + lines
    write(f, "\n".join(lines) + "\n")
    try:
        p.ParseFile(path)
        refused = False
    except (FileNotFoundError, RuntimeError):
        refused = True
    ctx.step()
    ctx.eq(refused, refuse, "refused")
    if not refused:
        compare(ctx, p, model(BODY))


# -- sizes ------------------------------------------------------------------------------------------


def sized(what, n):
    inf = lambda i: ["inf", f"TestPkg/M{i}.inf"]  # noqa: E731
    guid = lambda i: f"{i:08X}-0000-0000-0000-000000000000"  # noqa: E731
    last = [["fv", "LAST", [["inf", "TestPkg/Last.inf"]]]]
    if what == "infs":
        return [["fv", "ONE", [inf(i) for i in range(n)]], *last]
    if what == "files":
        return [["fv", "ONE", [["file", "FREEFORM", guid(i), [["RAW", f"r{i}.bin"]]] for i in range(n)] + [inf(0)]], *last]
    if what == "file sections":
        return [["fv", "ONE", [["file", "FREEFORM", guid(0), [["RAW", f"r{i}.bin"] for i in range(n)]], inf(0)]], *last]
    if what == "guided sections":
        return [["fv", "ONE", [["file", "FREEFORM", guid(0), [["GUIDED", guid(i + 1)] for i in range(n)]], inf(0)]], *last]
    if what == "fvs":
        return [["fv", f"FV{i}", [inf(i)]] for i in range(n)] + last
    if what == "fv again":
        return [["fv", f"FV{i % 2}", [inf(i)]] for i in range(n)] + last
    if what == "fds":
        return [["fd", f"FD{i}", ["Size = 1"]] for i in range(n)] + last
    if what == "definitions":
        return [["def", [[f"D{i}", str(i)] for i in range(n)]], *last]
    if what == "definition sections":
        return [["def", [[f"D{i}", str(i)]]] for i in range(n)] + last
    if what == "attributes":
        return [["fv", "ONE", [["attr", f"ATTRIBUTE_{i} = TRUE"] for i in range(n)] + [inf(0)]], *last]
    if what == "other sections":
        return [["rule" if i % 2 else "capsule", f"R{i}", ["A = 1"]] for i in range(n)] + last
    if what == "length":
        return [["def", [["D" + "d" * n, "v" * n + "v"]]], ["fv", "F" + "v" * n, [["inf", "TestPkg/" + "m" * n + ".inf"], ["file", "FREEFORM", guid(0), [["RAW", "r" * n + ".bin"]]]]], *last]
    assert what == "depth"
    return [["fv", "ONE", [["inf", "d/" * n + "M.inf"], ["file", "FREEFORM", guid(0), [["RAW", "d/" * n + "r.bin"]]]]], *last]


SIZED = ["infs", "files", "file sections", "guided sections", "fvs", "fv again", "fds", "definitions", "definition sections", "attributes", "other sections", "length", "depth"]


def gen_sizes(tier):
    for what in SIZED:
        for n in counts(tier, {"depth": 100}.get(what, 257 if tier == "quick" else 1025)):
            if n or what not in ("files", "infs", "attributes"):
                yield [what, n]
    for n in counts(tier, 40 if tier == "quick" else 129, small=16):
        yield ["include chain", n]
        yield ["include sequence", n]


def run_sizes(case, ctx):
    what, n = case
    if not what.startswith("include"):
        run([sized(what, n), n % 4], ctx)
        return
    ws = make_ws(ctx)
    mods = [f"TestPkg/M{i}.inf" for i in range(n)]
    if what == "include chain":
        for i, m in enumerate(mods):
            write(os.path.join(ws, "TestPkg", f"i{i}.inc"), "\n".join([f"INF {m}"] + ([f"!include TestPkg/i{i + 1}.inc"] if i + 1 < n else []) + [f"INF {m.replace('/M', '/After')}"]) + "\n")
        inc = ["!include TestPkg/i0.inc"] if n else []
        want = mods + [m.replace("/M", "/After") for m in reversed(mods)]
    else:
        for i, m in enumerate(mods):
            write(os.path.join(ws, "TestPkg", f"i{i}.inc"), f"INF {m}\n")
        inc = [f"!include TestPkg/i{i}.inc" for i in range(n)]
        want = mods
    f = write(os.path.join(ws, "TestPkg", "T.fdf"), "\n".join(["[FV.ONE]", "INF First.inf"] + inc + ["INF Last.inf"]) + "\n")
    ctx.eq(list(parse(ctx, ws, f).FVs["ONE"]["Infs"]), ["First.inf", *want, "Last.inf"], "INFs")
    ctx.state(repr(case))


SUITES = [
    Suite("sizes", gen_sizes, run_sizes, "numbers of INFs, files, sections, volumes, devices, definitions and includes, lengths of names", {"quick": "13 kinds x every number up to 24 and 12 edges up to 257; 16 includes", "thorough": "every number up to 72 and 20 edges up to 1025; 129 includes"}),
    Suite("paths", gen_paths, run_paths, "paths of the file, missing includes, malformed statements, lines before the first section", "5 forms of paths, every position"),
    Suite("fv", gen_fv, run, "statements of FV sections", "<=3 (4) statements"),
    Suite("sections", gen_sections, run, "sequences of sections", "<=3 (4) sections from 10"),
    Suite("include", gen_inc, run_inc, "every split of a file into includes", "nesting depth 2"),
    Suite("long", gen_long, run_long, "padding of 0..3000 lines at every position", "5 lengths, 5 kinds, 8 positions"),
]
