"""P41: a translated DSC object is a DSC with exactly the object's content."""

import itertools
import os
import re

from lib.mc import Suite
from lib.sizes import counts

# A DSC is described by lists; see `build` and `want`.


def mod():
    from edk2toollib.uefi.edk2.build_objects import dsc

    return dsc


def item(x):
    m = mod()
    kind, *a = x
    if kind == "comp":
        inf, pcds, libs, defs, opts = a
        c = m.component(inf)
        for t, items in pcds:
            c.pcds[m.dsc_pcd_component_type(t)] = {item(i) for i in items}
        c.library_classes = {item(i) for i in libs}
        c.defines = {item(i) for i in defs}
        c.build_options = {item(i) for i in opts}
        return c
    return {"def": m.definition, "sku": m.sku_id, "lib": m.library_class, "inf": m.library, "store": m.default_store, "pcd": m.pcd, "typed": m.pcd_typed, "var": m.pcd_variable,
            "opt": m.build_option}[kind](*a)


KEY = {"libraries": "dsc_section_type", "library_classes": "dsc_section_type", "components": "dsc_section_type", "pcds": "dsc_pcd_section_type", "build_options": "dsc_buildoption_section_type"}


def build(desc):
    m = mod()
    d = m.dsc()
    for attr, content in desc.items():
        if attr in KEY:
            for key, items in content:
                s = getattr(d, attr)[getattr(m, KEY[attr])(*key)]
                for i in items:
                    s.add(item(i))
        else:
            for i in content:
                getattr(d, attr).add(item(i))
    return d


# -- expected content: {header: sorted entries} ---------------------------------------------------------------------


def entry(x):
    kind, *a = x
    if kind == "def":
        return ("DEFINE " if len(a) > 2 and a[2] else "") + a[0], "=", a[1]
    if kind == "sku":
        return (str(a[0]), a[1], a[2] if len(a) > 2 else "DEFAULT")
    if kind in ("lib", "inf"):
        return tuple(a)
    if kind == "store":
        return (str(a[0]), a[1])
    if kind == "pcd":
        return (f"{a[0]}.{a[1]}", a[2])
    if kind == "typed":
        return (f"{a[0]}.{a[1]}", a[2], a[3]) + ((str(a[4]),) if len(a) > 4 and a[4] else ())
    if kind == "var":
        out = (f"{a[0]}.{a[1]}", *a[2:5])
        if len(a) > 5 and a[5] is not None:
            out += (a[5],)
            if len(a) > 6 and a[6]:
                out += (",".join(t.strip().upper() for t in (a[6].split(",") if isinstance(a[6], str) else a[6])),)
        return out
    if kind == "opt":
        tool, attr, data, target, tag, arch, family, replace = a + ["*", "*", "*", None, False][len(a) - 3:]
        return ((f"{family}:" if family else "") + "_".join((target, tag, arch, tool, attr)), "==" if replace else "=", data)
    inf, pcds, libs, defs, opts = a
    sub = {}
    for t, items in pcds:
        sub[f"PCDS{t.upper()}"] = sorted(entry(i) for i in items)
    for name, items in (("LIBRARYCLASSES", libs), ("DEFINES", defs), ("BUILDOPTIONS", opts)):
        if items:
            sub[name] = sorted(entry(i) for i in items)
    return (inf, *sorted(sub.items()))


def want(desc):
    out = {"DEFINES": [entry(i) for i in desc.get("defines", ())], "SKUIDS": [entry(i) for i in desc.get("skus", ())]}
    if desc.get("default_stores"):
        out["DEFAULTSTORES"] = [entry(i) for i in desc["default_stores"]]
    for key, items in desc.get("libraries", ()):
        out[header("LIBRARIES", key)] = [entry(i) for i in items]
    for key, items in desc.get("library_classes", ()):
        out[header("LIBRARYCLASSES", key)] = [entry(i) for i in items]
    for key, items in desc.get("components", ()):
        out[header("COMPONENTS", key)] = [entry(i) for i in items]
    for key, items in desc.get("build_options", ()):
        arch, base, mt = [*key, "COMMON", "COMMON", "COMMON"][:1] + (list(key[1:]) + ["COMMON", "COMMON"])[:2] if key else ["COMMON"] * 3
        out[header("BUILDOPTIONS", (arch, base, mt))] = [entry(i) for i in items]
    for key, items in desc.get("pcds", ()):
        t, arch, sku, store = (list(key) + ["COMMON", "DEFAULT", ""][len(key) - 1:])[:4]
        out[f"PCDS{t}.{arch}.{sku}".upper() + (f".{store.upper()}" if store else "")] = [entry(i) for i in items]
    return {k: sorted(v) for k, v in out.items()}


def header(name, key):
    """Common parts at the end have no meaning."""
    h = [name, *(k.upper() for k in key)]
    while h[-1] == "COMMON":
        h.pop()
    return ".".join(h)


# -- an independent reader of the DSC text --------------------------------------------------------------------------


def read_line(sec, line):
    kind = sec.split(".")[0]
    if kind == "BUILDOPTIONS" and not line.startswith("DEFINE "):
        m = re.fullmatch(r"([^=\s]+)\s*(==?)(?!=)\s*(.*)", line)
        return m and m.groups()
    if kind == "DEFINES" or line.startswith("DEFINE "):
        m = re.fullmatch(r"((?:DEFINE\s+)?[^=\s]+)\s*(=)\s*(.*)", line)
        return m and (re.sub(r"\s+", " ", m.group(1)), *m.groups()[1:])
    parts = [p.strip() for p in line.split("|")]
    if kind.startswith("PCDS") and len(parts) == 6:
        parts[5] = ",".join(p.strip() for p in parts[5].split(","))
    return tuple(parts)


def read(lines):
    out, sec, comp, sub = {}, None, None, None
    for line in lines:
        line = line.strip()
        if not line:
            continue
        m = re.fullmatch(r"\[(.*)\]", line)
        if m:
            if comp is not None:
                return "a section within a component"
            sec = header("", m.group(1).split("."))[1:]
            if sec in out:
                return f"section {sec} twice"
            out[sec] = []
            continue
        if sec is None:
            return "a line outside of the sections"
        if comp is not None:
            if line == "}":
                out[sec].append((comp[0], *sorted((k, sorted(v)) for k, v in comp[1].items())))
                comp = None
            elif re.fullmatch(r"<.*>", line):
                sub = line[1:-1].upper()
                if sub in comp[1]:
                    return "a part of a component twice"
                comp[1][sub] = []
            elif sub is None:
                return "a line in a component outside of its parts"
            else:
                e = read_line(sub, line)
                if e is None:
                    return f"malformed line {line!r}"
                comp[1][sub].append(e)
        elif sec.split(".")[0] == "COMPONENTS" and line.endswith("{"):
            comp, sub = (line[:-1].strip(), {}), None
        else:
            e = read_line(sec, line)
            if e is None:
                return f"malformed line {line!r}"
            out[sec].append(e)
    if comp is not None:
        return "a component is not closed"
    return {k: sorted(v) for k, v in out.items()}


def judge(desc, ctx, path=None):
    from edk2toollib.uefi.edk2.build_objects.dsc_translator import DscTranslator

    path = path or os.path.join(ctx.tmp(), "out.dsc")
    DscTranslator.dsc_to_file(build(desc), path)
    with open(path) as f:
        text = f.read()
    ctx.true(text == "" or text.endswith("\n"), "the last line is not ended")
    got, w = read(text.split("\n")), want(desc)
    ctx.true(isinstance(got, dict), f"{got} in\n{text}")
    # sections without lines have no meaning
    ctx.eq({k: v for k, v in got.items() if v}, {k: v for k, v in w.items() if v}, f"content of\n{text}")
    ctx.state(repr(desc))


# -- suites --------------------------------------------------------------------------------------------------------

SEC = [[], ["X64"], ["common", "PEIM"], ["IA32", "DXE_DRIVER"]]
BSEC = [[], ["X64"], ["common", "EDKII"], ["X64", "EDKII", "PEIM"]]
PSEC = [["FeatureFlag"], ["FixedAtBuild", "X64"], ["DynamicHii", "common", "DEFAULT", "Std"], ["DynamicHii", "common", "SKU1"]]
LIBS = [["lib", "A", "P/A.inf"], ["lib", "NULL", "P/N.inf"], ["lib", "NULL", "P/M.inf"]]
DEFS = [["def", "X", "1", True], ["def", "Y", "a = b"], ["def", "Z", ""]]
OPTS = [["opt", "CC", "FLAGS", "/D A=1"], ["opt", "CC", "FLAGS", "/O", "DEBUG", "*", "X64", "MSFT"], ["opt", "CC", "FLAGS", "-a == b", "*", "*", "IA32", None, True]]
PCDS = [["pcd", "gT", "A", "TRUE"], ["typed", "gT", "B", "{0x1,0x2}", "VOID*", 4], ["var", "gT", "C", "L\"v\"", "gGuid", "0x0", "1", "NV,BS"]]
COMPS = [["comp", "P/A.inf", [], [], [], []], ["comp", "P/B.inf", [["FixedAtBuild", PCDS[:1]]], LIBS[:2], DEFS[:1], OPTS[:1]], ["comp", "P/C.inf", [], [], [], OPTS[2:]]]
BOXES = {"library_classes": (SEC, LIBS), "components": (SEC, COMPS), "build_options": (BSEC, OPTS), "pcds": (PSEC, PCDS), "libraries": (SEC, [["inf", "P/A.inf"], ["inf", "P/B.inf"], ["inf", "P/C.inf"]])}


def subsets(l):
    for k in range(len(l) + 1):
        yield from (list(c) for c in itertools.combinations(l, k))


def gen_sections(tier):
    for attr, (secs, items) in BOXES.items():
        for chosen in subsets(secs):
            for contents in itertools.product(subsets(items), repeat=len(chosen)):
                if tier == "quick" and len(chosen) > 3 and contents[0] and contents[0] != items:
                    continue
                for order in (1, -1):
                    yield {attr: [[k, c] for k, c in zip(chosen, contents)][::order]}


def run_sections(case, ctx):
    judge(case, ctx)


def gen_mixed(tier):
    one = {"defines": DEFS, "skus": [["sku", 0, "DEFAULT"], ["sku", 1, "A", "DEFAULT"], ["sku", 7, "B", "A"]], "default_stores": [["store", 0, "Standard"], ["store", 1, "Mfg"]],
           **{a: [[s, i] for s, i in zip(secs, itertools.cycle([items, items[1:]]))] for a, (secs, items) in BOXES.items()}}
    for c in itertools.product(range(3 if tier != "quick" else 2), repeat=len(one)):
        yield {a: v[:n] if n < 2 else v for (a, v), n in zip(one.items(), c)}
    for a in ("defines", "skus", "default_stores"):
        for s in subsets(one[a]):
            yield {a: s}


def gen_components(tier):
    pc = [[], [["FixedAtBuild", PCDS[:1]]], [["FeatureFlag", PCDS[:1]], ["DynamicHii", PCDS[2:]]], [["PatchableInModule", PCDS[:2]], ["FixedAtBuild", []]]]
    for p, l, d, o in itertools.product(pc, subsets(LIBS), subsets(DEFS), subsets(OPTS)):
        yield {"components": [[["X64"], [["comp", "P/A.inf", p, l, d, o], COMPS[1]]]]}


def gen_items(tier):
    words = ["A", "0", "TRUE", "0x10", "$(X)", "P/A b.inf", "L\"a,b\"", "{1, 2}", "a = b"]
    for a, b in itertools.product(words, repeat=2):
        n = re.sub(r"[^A-Za-z0-9]", "", a) or "N"
        yield {"defines": [["def", n, b], ["def", n + "L", b, True]]}
        yield {"library_classes": [[[], [["lib", n, b], ["lib", "NULL", a], ["def", n, b, True]]]]}
        yield {"components": [[[], [["comp", a, [], [["lib", n, b]], [], []], ["comp", b + "2", [], [], [["def", n, a]], []], ["def", n, b, True]]]]}
        yield {"libraries": [[[], [["inf", a], ["inf", b + "2"], ["def", n, b, True]]]]}
        yield {"pcds": [[["FixedAtBuild"], [["pcd", "g" + n, "P", a], ["typed", "g", n, b, "VOID*"], ["typed", "g2", n, b, "VOID*", 0], ["typed", "g3", n, b, "UINT8", "12"]]]]}
        for attrs in (None, [], "NV", "NV, BS", ["NV", "RT", "RO"], "nv,bs,rt"):
            yield {"pcds": [[["DynamicHii"], [["var", "g", n, a, "gG", "0x4", b, attrs], ["var", "h", n, a, "gG", "0x4", None, []]]]]}
        for fam, rep in itertools.product((None, "MSFT", "GCC"), (False, True)):
            yield {"build_options": [[[], [["opt", "CC", "FLAGS", a, "*", n, "*", fam, rep], ["opt", "ASL", "PATH", b, "DEBUG", "*", "X64", fam, not rep], ["def", n, b, True]]]]}
        yield {"skus": [["sku", 0, "DEFAULT"], ["sku", 255, n, n + "P"], ["def", n, b, True]], "default_stores": [["store", 3, n], ["def", n, b, True]]}


def gen_files(tier):
    for c in itertools.product(range(4), repeat=3):
        yield list(c)


def run_files(case, ctx):
    """The same file is written again and again."""
    d = [{}, {"defines": DEFS}, {"library_classes": [[s, LIBS] for s in SEC], "skus": [["sku", 0, "DEFAULT"]]}, {"components": [[[], COMPS]]}]
    path = os.path.join(ctx.tmp(), "a b.dsc")
    for i in case:
        judge(d[i], ctx, path)
    old = os.getcwd()
    os.chdir(ctx.tmp())
    try:
        judge(d[case[0]], ctx, "rel.dsc")
    finally:
        os.chdir(old)


# -- sizes: number of entries and sections, length of texts ------------------------------------------------------


def gen_sizes(tier):
    for n in counts(tier, 300, 1):
        for what in ("defines", "skus", "stores", "classes", "components", "overrides", "pcds", "options", "libraries", "sections", "text"):
            yield [what, n]


def run_sizes(case, ctx):
    what, n = case
    r = range(n)
    x = "x" * n
    run_sections({
        "defines": lambda: {"defines": [["def", f"N{i}", f"v{i}", i % 2 == 0] for i in r]},
        "skus": lambda: {"skus": [["sku", i, f"S{i}", "DEFAULT"] for i in r]},
        "stores": lambda: {"default_stores": [["store", i, f"S{i}"] for i in r]},
        "classes": lambda: {"library_classes": [[["X64"], [["lib", f"L{i}", f"P/L{i}.inf"] for i in r] + [["lib", "NULL", f"P/N{i}.inf"] for i in r]]]},
        "components": lambda: {"components": [[["X64"], [["comp", f"P/C{i}.inf", [], [["lib", "A", f"P/A{i}.inf"]] if i % 2 else [], [], []] for i in r]]]},
        "overrides": lambda: {"components": [[[], [["comp", "P/C.inf", [["FixedAtBuild", [["pcd", "gA", f"P{i}", str(i)] for i in r]]], [["lib", f"L{i}", "P/L.inf"] for i in r],
                                                    [["def", f"D{i}", "1", True] for i in r], [["opt", f"T{i}", "FLAGS", "/x"] for i in r]]]]]},
        "pcds": lambda: {"pcds": [[["FixedAtBuild"], [["pcd", "gA", f"P{i}", str(i)] for i in r]], [["DynamicHii"], [["var", "gA", f"H{i}", "L'v'", "gG", str(i), "1", "NV"] for i in r]]]},
        "options": lambda: {"build_options": [[["X64"], [["opt", f"T{i}", "FLAGS", f"/o{i}"] for i in r]]]},
        "libraries": lambda: {"libraries": [[["X64"], [["inf", f"P/L{i}.inf"] for i in r]]]},
        "sections": lambda: {"library_classes": [[[f"A{i}"], [["lib", f"L{i}", "P/L.inf"]]] for i in r], "pcds": [[["FixedAtBuild", "X64", f"S{i}"], [["pcd", "gA", "P", str(i)]]] for i in r]},
        "text": lambda: {"defines": [["def", "N" + x, x]], "library_classes": [[["X64"], [["lib", "L" + x, f"P/{x}.inf"]]]], "components": [[[], [["comp", f"P/{x}.inf", [], [], [], []]]]],
                         "build_options": [[[], [["opt", "CC", "FLAGS", f"/{x} /y /{x}"]]]], "pcds": [[["FixedAtBuild"], [["pcd", "g" + x, "P" + x, x]]]]},
    }[what](), ctx)


SUITES = [
    Suite("sizes", gen_sizes, run_sizes, "number of entries and sections, length of texts", "counts up to 24 and edges to 300"),
    Suite("sections", gen_sections, run_sections, "the file's sections and entries", "all sets of <=4 sections with all sets of <=3 entries, in both orders, for 5 collections (quick: not all with 4)"),
    Suite("mixed", gen_mixed, run_sections, "the file's sections and entries", {"quick": "all combinations of 8 collections, empty or with one member", "thorough": "empty, with one member or full"}),
    Suite("components", gen_components, run_sections, "components", "all combinations of 4 sets of PCDs and all subsets of 3 libraries, definitions and build options"),
    Suite("items", gen_items, run_sections, "entries", "all pairs of 9 texts in all kinds of entries"),
    Suite("files", gen_files, run_files, "a file that is overwritten", "all sequences of 3 of 4 DSCs"),
]
