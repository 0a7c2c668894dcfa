"""P08: DEC parsing — every declaration of a package, in order, with its fields; file and stream agree."""

import io
import itertools
import os
import uuid

from checks.common_parsers import edk2path, make_ws, write
from lib.mc import Suite, sequences
from lib.sizes import counts

GU = ["D3B36F2C-D551-11D4-9A46-0090273FC14D", "00000001-0002-0003-0405-060708090A0B", "FFFFFFFF-FFFF-FFFF-FFFF-FFFFFFFFFFFF"]


def cfmt(g, style):
    u = uuid.UUID(g)
    f = u.fields
    b = list(u.bytes[8:])
    if style == 0:
        return ("{ 0x%08X, 0x%04X, 0x%04X, { " % f[:3]) + ", ".join("0x%02X" % x for x in b) + " } }"
    if style == 1:
        return ("{0x%x,0x%x,0x%x,{" % f[:3]) + ",".join("0x%x" % x for x in b) + "}}"
    return ("{ 0x%08x , 0x%04x , 0x%04x , {" % f[:3]) + " , ".join("0x%02x" % x for x in b) + "}}"


SECTIONS = [
    ["Defines", "", [["PACKAGE_NAME", "TestPkg"], ["PACKAGE_GUID", GU[0]]]],
    ["Defines", "", [["DEC_SPECIFICATION", "0x00010005"]]],
    ["Includes", "", ["Include", "Test/Mock/Include"]],
    ["Includes", ".X64", ["Include/X64"]],
    ["LibraryClasses", "", [["BaseLib", "Include/Library/BaseLib.h"], ["DebugLib", "Include/Library/DebugLib.h"]]],
    ["LibraryClasses", ".common.Private", [["PrivLib", "Private/PrivLib.h"]]],
    ["Guids", "", [["gGuidA", GU[0]], ["gGuidB", GU[1]]]],
    ["Guids", ".X64", [["gGuidC", GU[2]]]],
    ["Protocols", "", [["gProtA", GU[1]], ["gProtB", GU[2]]]],
    ["Ppis", "", [["gPpiA", GU[2]], ["gPpiB", GU[0]]]],
    ["PcdsFixedAtBuild", "", [["gTok", "PcdA", "0x5", "UINT32", "0x1"], ["gTok", "PcdB", '"a|b"', "VOID*", "0x2"]]],
    ["PcdsFeatureFlag", "", [["gTok", "PcdC", "TRUE", "BOOLEAN", "0x3"]]],
    ["PcdsDynamic, PcdsDynamicEx", "", [["gTok", "PcdD", "{0x1, 0x2}", "VOID*", "0x4"], ["gOth", "PcdE", "L'x|y'", "VOID*", "5"]]],
    ["PcdsPatchableInModule", ".X64", [["gTok", "PcdS", "{0}", "MY_STRUCT", "0x6", "|{"], ["gTok", "PcdF", "1", "UINT8", "0x7"]]],
    ["PcdsDynamic", "", [["gTok", "PcdT.Field", "9"], ["gTok", "PcdG", "0", "UINT16", "0x8"]]],
    ["UserExtensions.TianoCore.\"x\"", "", ["extra.uni"]],
]


def render(prog, style):
    out = []
    for kind, scope, items in prog:
        name = [kind, kind.lower(), kind.upper()][style % 3]
        pad = "  " if style % 2 == 0 else ""
        out.append(f"{pad if style == 2 else ''}[{name}{scope}]")
        for it in items:
            k = kind.split(",")[0]
            if k == "Defines":
                out.append(f"{pad}{it[0]} = {it[1]}")
            elif k == "LibraryClasses":
                out.append(pad + it[0] + ("|" if style % 2 else "  |  ") + it[1])
            elif k in ("Guids", "Protocols", "Ppis"):
                out.append(f"{pad}{it[0]}{' = ' if style != 1 else '='}{cfmt(it[1], style % 3)}")
            elif k.startswith("Pcds"):
                sep = "|" if style % 2 == 0 else " | "
                if len(it) == 6:
                    out.append(pad + it[0] + "." + sep.join(it[1:5]) + it[5])
                    out += [pad + "  <HeaderFiles>", pad + "    Guid/x.h", pad + "  <Packages>", pad + "    MdePkg/MdePkg.dec", pad + "}"]
                else:
                    out.append(pad + it[0] + "." + sep.join(it[1:]))
            else:
                out.append(pad + it)
    return out


def model(prog):
    m = {"Dict": {}, "inc": [], "lib": [], "Guids": [], "Protocols": [], "Ppis": [], "pcds": []}
    pkg = None
    for kind, scope, items in prog:
        k = kind.split(",")[0]
        for it in items:
            if k == "Defines":
                m["Dict"][it[0]] = it[1]
                if it[0] == "PACKAGE_NAME" and pkg is None:
                    pkg = it[1]
            elif k == "Includes":
                m["inc"].append(it)
            elif k == "LibraryClasses":
                m["lib"].append((it[0], it[1], pkg))
            elif k in ("Guids", "Protocols", "Ppis"):
                m[k].append((it[0], uuid.UUID(it[1]), pkg))
            elif k.startswith("Pcds"):
                if len(it) == 3:
                    m["pcds"].append((it[0], it[1], it[2], "STRUCTURED_PCD", "STRUCTURED_PCD", pkg))
                else:
                    m["pcds"].append((it[0], it[1], it[2], it[3], it[4], pkg))
    m["pkg"] = pkg
    return m


def compare(ctx, p, m):
    ctx.eq(dict(p.Dict), m["Dict"], "[Defines] values")
    ctx.eq(p.PackageName, m["pkg"], "package name")
    ctx.eq(p.Parsed, True, "Parsed")
    ctx.eq(list(p.IncludePaths), m["inc"], "include paths")
    ctx.eq([(x.name, x.path, x.package_name) for x in p.LibraryClasses], m["lib"], "library classes")
    for k, got in (("Guids", p.Guids), ("Protocols", p.Protocols), ("Ppis", p.PPIs)):
        ctx.eq([(x.name, x.guid, x.package_name) for x in got], m[k], k)
    ctx.eq([(x.token_space_name, x.name, x.default_value, x.type, x.id, x.package_name) for x in p.Pcds], m["pcds"], "PCDs")


def run(case, ctx):
    from edk2toollib.uefi.edk2.parsers.dec_parser import DecParser

    prog, style = case
    ws = make_ws(ctx)
    text = "\n".join(render(prog, style)) + "\n"
    f = write(os.path.join(ws, "TestPkg", "T.dec"), text)
    m = model(prog)
    p = DecParser().SetEdk2Path(edk2path(ws))
    p.ParseFile(f)
    compare(ctx, p, m)
    q = DecParser()
    q.ParseStream(io.StringIO(text))
    compare(ctx, q, m)
    ctx.state(repr(m))


def gen(tier):
    for k in (1, 2, 3) if tier == "quick" else (1, 2, 3, 4):
        for i, s in enumerate(itertools.product(SECTIONS if k < 4 else SECTIONS[::2], repeat=k)):
            if k < 3:
                for style in range(3):
                    yield [list(s), style]
            else:
                yield [list(s), i % 3]


PCDS = [["gTok", "PcdA", "0x5", "UINT32", "0x1"], ["gTok", "PcdB", '"a|b"', "VOID*", "0x2"], ["gTok", "PcdC", "{0}", "S", "0x6", "|{"],
        ["gTok", "PcdI", "{0x1}", "S", "0x16", " {"], ["gTok", "PcdC.F", "1"], ["gTok", "PcdD", '"x.y"', "VOID*", "0x9"], ["gTok", "PcdE", "'p|q'", "VOID*", "7"],
        ["gTok", "PcdF", '{"a|b", 0x1}', "VOID*", "8"]]


def gen_pcd(tier):
    for s in sequences(PCDS, 3 if tier == "quick" else 4, 1):
        for style in (0, 1):
            yield [[["PcdsFixedAtBuild", "", s], SECTIONS[6]], style]


def gen_paths(tier):
    for form in ("absolute", "workspace", "package", "cwd", "missing"):
        yield ["main", form, None]
    bad = [["Guids", "gX = "], ["Guids", "gX = { 0x1, 0x2 }"], ["Protocols", "gX"], ["Ppis", "gX = {"], ["PcdsDynamic", "gTok.PcdA|1|UINT8"],
           ["PcdsDynamic", "gTok.PcdA|1"], ["PcdsDynamic", "gTok.PcdA|1|UINT8|0x1|x"], ["PcdsDynamic", "gTok.PcdA|1|UINT8|0x1|x|{"]]
    for section, line in bad:
        for where in range(3):
            yield ["bad", section, [line, where]]
    for line in ("X = 1", "gTok.PcdA|1|UINT8|1", "gX = " + cfmt(GU[0], 0), "Include", "A|B.h"):
        yield ["before", line, None]


def run_paths(case, ctx):
    """Paths of the file; malformed declarations are refused; lines before the first section mean nothing."""
    from edk2toollib.uefi.edk2.parsers.dec_parser import DecParser

    what, x, y = case
    ws = make_ws(ctx)
    pp = os.path.join(ws, "Sub")
    write(os.path.join(pp, "OtherPkg", "OtherPkg.dec"), "[Defines]\n")
    f = path = os.path.join(ws, "TestPkg", "T.dec")
    prog, refuse = [SECTIONS[0], SECTIONS[4], SECTIONS[6], SECTIONS[10]], False
    lines = render(prog, 0)
    p = DecParser().SetEdk2Path(edk2path(ws, [pp]))
    if what == "main":
        path = {"absolute": f, "workspace": "TestPkg/T.dec", "package": "OtherPkg/T.dec", "cwd": f"../{os.path.basename(ws)}/TestPkg/T.dec",
                "missing": os.path.join(ws, "TestPkg", "M.dec")}[x]
        f = os.path.join(pp, "OtherPkg", "T.dec") if x == "package" else f
        refuse = x == "missing"
    elif what == "bad":
        good = {"Guids": "gY = " + cfmt(GU[0], 0), "Protocols": "gY = " + cfmt(GU[0], 0), "Ppis": "gY = " + cfmt(GU[0], 0), "PcdsDynamic": "gTok.PcdZ|1|UINT8|9"}[x]
        lines += [f"[{x}]", *[y[0] if i == y[1] else good for i in range(3)]]
        refuse = True
    else:
        lines.insert(0, x)
    write(f, "\n".join(lines) + "\n")
    ctx.step()
    for parse in (lambda: p.ParseFile(path), lambda: p.ParseStream(io.StringIO("\n".join(lines)))) if what == "bad" else (lambda: p.ParseFile(path),):
        try:
            parse()
            refused = False
        except Exception:  # noqa: BLE001
            refused = True
        ctx.eq(refused, refuse, "refused")
    if not refused:
        compare(ctx, p, model(prog))


def sized(what, n):
    head, last = [["Defines", "", [["PACKAGE_NAME", "TestPkg"]]]], [["Guids", "", [["gLast", GU[0]]]]]
    guid = lambda i: str(uuid.UUID(int=(i + 1) * 0x0001000100010001000100010001)).upper()  # noqa: E731
    if what == "Defines":
        return head + [["Defines", "", [[f"D{i}", str(i)] for i in range(n)]]] + last
    if what == "Includes":
        return head + [["Includes", "", [f"Inc{i}" for i in range(n)]]] + last
    if what == "LibraryClasses":
        return head + [["LibraryClasses", "", [[f"L{i}", f"Include/L{i}.h"] for i in range(n)]]] + last
    if what in ("Guids", "Protocols", "Ppis"):
        return head + [[what, "", [[f"g{i}", guid(i)] for i in range(n)]]] + last
    if what == "PcdsFixedAtBuild":
        return head + [[what, "", [["gTok", f"Pcd{i}", str(i), "UINT32", hex(i)] for i in range(n)]]] + last
    if what == "structured":
        return head + [["PcdsDynamic", "", [["gTok", f"Pcd{i}", "{0}", "S", hex(i + 1), "|{"] for i in range(n)] + [["gTok", "PcdLast", "1", "UINT8", "0x7"]]]] + last
    if what == "sections":
        return head + [[("Guids", "Ppis", "Protocols")[i % 3], ("", ".X64")[i % 2], [[f"g{i}", guid(i)]]] for i in range(n)] + last
    assert what == "length"
    return head + [["Defines", "", [["D" * (n + 1), "v" * (n + 1)]]], ["Includes", "", ["I" * (n + 1)]], ["LibraryClasses", "", [["L" * (n + 1), "h/" * (n // 2) + "h.h"]]],
                   ["Guids", "", [["g" * (n + 1), GU[1]]]], ["PcdsFixedAtBuild", "", [["gTok" + "k" * n, "P" * (n + 1), '"' + "|" * n + '"', "VOID*", "0x1"]]]] + last


def gen_sizes(tier):
    for what in ("Defines", "Includes", "LibraryClasses", "Guids", "Protocols", "Ppis", "PcdsFixedAtBuild", "structured", "sections", "length"):
        for n in counts(tier, 257 if tier == "quick" else 1025):
            yield [what, n]


def run_sizes(case, ctx):
    run([sized(*case), case[1] % 3], ctx)


SUITES = [
    Suite("sizes", gen_sizes, run_sizes, "numbers of declarations and sections, lengths of names and values", {"quick": "10 kinds x every number up to 24 and 12 edges up to 257", "thorough": "every number up to 72 and 20 edges up to 1025"}),
    Suite("paths", gen_paths, run_paths, "paths of the file, malformed declarations, lines before the first section", "5 forms of paths, 8 malformed lines at every position"),
    Suite("pcds", gen_pcd, run, "PCD declarations incl. structured ones and '|' in quotes", "<=3 (4) entries"),
    Suite("sections", gen, run, "sequences of sections", "<=3 (4) sections from 16"),
]
