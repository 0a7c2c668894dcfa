"""P11: the instanced-INF table has exactly the modules and library instances the platform build would use."""

import itertools
import os

from lib.mc import Suite
from lib.sizes import counts

ARCHES = ["IA32", "X64"]
# library instances: name -> (class, phases, library classes it uses)
LIBS = {
    "A1": ("A", "DXE_DRIVER PEIM", []), "A2": ("A", "PEIM", []), "A3": ("A", "", ["B"]), "A4": ("A", "DXE_DRIVER", ["A"]),
    "B1": ("B", "", []), "B2": ("B", "", ["A"]), "B3": ("B", "DXE_DRIVER", ["D"]), "N1": ("NULL", "", ["B"]), "N2": ("NULL", "", []),
    "D1": ("D", "", []),
    "AB": ("A", "", []),  # one INF that is listed for two classes
}
MODS = {"Dxe": ("DXE_DRIVER", ["A"]), "Pei": ("PEIM", ["A", "B"]), "Two": ("DXE_DRIVER", ["B", "A"]), "Lib": (None, [])}
ANY = None


def path_of(n):
    return f"Pkg/{n}/{n}.inf" if n in MODS else f"Pkg/L/{n}/{n}.inf"


def write_tree(ws):
    for n, (cls, ph, uses) in LIBS.items():
        d = os.path.join(ws, os.path.dirname(path_of(n)))
        os.makedirs(d)
        with open(os.path.join(ws, path_of(n)), "w") as f:
            f.write(f"[Defines]\n BASE_NAME = {n}\n FILE_GUID = {n}\n MODULE_TYPE = BASE\n LIBRARY_CLASS = {cls}"
                    + (f"|{ph}" if ph else "") + f"\n[Sources]\n {n}.c\n[Sources.X64]\n x64/{n}.nasm\n[LibraryClasses]\n"
                    + "".join(f" {u}\n" for u in uses))
    for n, (mt, uses) in MODS.items():
        d = os.path.join(ws, os.path.dirname(path_of(n)))
        os.makedirs(d)
        with open(os.path.join(ws, path_of(n)), "w") as f:
            f.write(f"[Defines]\n BASE_NAME = {n}\n FILE_GUID = {n}\n MODULE_TYPE = {mt or 'BASE'}\n"
                    + ("" if mt else " LIBRARY_CLASS = Z\n") + f"[Sources]\n {n}.c\n ../{n}.h\n[LibraryClasses]\n"
                    + "".join(f" {u}\n" for u in uses[:1]) + "[LibraryClasses.X64]\n" + "".join(f" {u}\n" for u in uses[1:]))
    with open(os.path.join(ws, "Pkg", "Pkg.dec"), "w") as f:
        f.write("[Defines]\n")


def uses_of(n, arch):
    if n in LIBS:
        return LIBS[n][2]
    u = MODS[n][1]
    return u[:1] + (u[1:] if arch == "X64" else [])


def supports(n, mt):
    ph = LIBS[n][1]
    return not ph or mt in ph.split()


def sources(n, arch):
    d = os.path.dirname(path_of(n))
    if n in LIBS:
        return sorted([f"{d}/{n}.c"] + ([f"{d}/x64/{n}.nasm"] if arch == "X64" else []))
    return sorted([f"{d}/{n}.c", f"{os.path.dirname(d)}/{n}.h"])


# -- reference -----------------------------------------------------------------------------------------------


def resolve(cls, arch, mt, listing, override):
    """listing: [(set of (arch or None, module type or None), class, instance)] in file order."""
    if cls in override:
        return override[cls]
    for want in ((arch, mt), (ANY, mt), (arch, ANY), (ANY, ANY)):
        for scopes, c, inst in reversed(listing):
            if c == cls and want in scopes and supports(inst, mt):
                return inst
    return None


def nulls(arch, mt, listing):
    out = set()
    for want in ((arch, mt), (ANY, mt), (arch, ANY), (ANY, ANY)):
        for scopes, c, inst in listing:
            if c == "NULL" and want in scopes:
                out.add(inst)
    return out


def expected(comp, arch, listing, override, onull):
    """-> {row path: (set of classes it may be recorded for, {(path)} libraries, sources)}"""
    mt = MODS[comp][0]
    rows = {}
    todo = [(comp, None)]
    while todo:
        n, cls = todo.pop()
        if n in rows:
            rows[n][0].add(cls)
            continue
        rows[n] = ({cls}, set(), sources(n, arch))
        used = [(c, resolve(c, arch, mt, listing, override)) for c in uses_of(n, arch)]
        if n == comp:
            used += [("NULL", x) for x in nulls(arch, mt, listing) | set(onull)]
        for c, i in used:
            if i is not None:
                rows[n][1].add(i)
                todo.append((i, c))
    return rows


# -- cases ---------------------------------------------------------------------------------------------------

SCOPES = {
    "": [(ANY, ANY)], ".common": [(ANY, ANY)], ".X64": [("X64", ANY)], ".IA32": [("IA32", ANY)], ".X64.DXE_DRIVER": [("X64", "DXE_DRIVER")],
    ".common.DXE_DRIVER": [(ANY, "DXE_DRIVER")], ".common.PEIM": [(ANY, "PEIM")],
    ".X64.PEIM, LibraryClasses.IA32.DXE_DRIVER": [("X64", "PEIM"), ("IA32", "DXE_DRIVER")],
}


def gen_scope(tier):
    insts = ["A1", "A2", "A3"]
    small = [""] + [s for s in SCOPES if s not in (".common",)][1:]
    for k in (1, 2):
        for t in itertools.product(itertools.product(SCOPES, insts), repeat=k):
            yield ["scope", [[s, "A", i] for s, i in t] + [["", "B", "B1"]], ["Dxe", "Pei"], None, []]
    if tier != "quick":
        for t in itertools.product(itertools.product(small, insts), repeat=3):
            yield ["scope", [[s, "A", i] for s, i in t] + [["", "B", "B1"]], ["Dxe", "Pei"], None, []]
    else:
        for t in itertools.permutations(small, 3):
            for ins in (insts, ["A2", "A1", "A1"], ["A2", "A2", "A3"]):
                yield ["scope", [[s, "A", i] for s, i in zip(t, ins)] + [["", "B", "B1"]], ["Dxe", "Pei"], None, []]


def gen_graph(tier):
    # libraries that use one another (also in circles), are missing, or are listed for several classes
    items = [["", "A", "A1"], ["", "A", "A3"], ["", "A", "A4"], ["", "B", "B1"], ["", "B", "B2"], ["", "B", "B3"], ["", "D", "D1"],
             ["", "A", "AB"], ["", "B", "AB"], ["", "NULL", "N1"], ["", "NULL", "N2"], [".X64", "NULL", "N2"], [".common.PEIM", "NULL", "N1"]]
    n = 3 if tier == "quick" else 4
    for k in range(n + 1):
        for t in itertools.combinations(items, k) if k > 2 else itertools.permutations(items, k):
            yield ["graph", list(t), ["Dxe", "Two", "Pei"], None, []]


def gen_over(tier):
    base = [["", "A", "A1"], ["", "B", "B1"], ["", "NULL", "N2"], [".X64", "A", "A3"]]
    ov = [["A", "A4"], ["B", "B2"], ["A", "A3"], ["NULL", "N1"], ["NULL", "N2"], ["D", "D1"], ["B", "B3"]]
    for k in range(0, 4):
        for t in itertools.permutations(ov, k):
            for who in (["Dxe"], ["Two", "Lib"], ["Pei", "Two"]):
                for where in ("first", "all"):
                    if k == 3 and tier == "quick" and (where != "first" or who == ["Dxe"]):
                        continue
                    yield ["over", base, who, where, list(t)]


def run(case, ctx):
    from edk2toollib.database import Edk2DB, InstancedInf
    from edk2toollib.database.tables import InstancedInfTable
    from edk2toollib.uefi.edk2.path_utilities import Edk2Path

    kind, listing, mods, where, ov = case
    ws = os.path.realpath(ctx.tmp())
    write_tree(ws)
    forms = [["", ARCHES], [".X64", ["X64"]]] if kind == "scope" else [[".IA32", ["IA32"]], ["", ARCHES]] if kind == "graph" else [[".X64", ["X64"]], [".Common", ARCHES]]
    text = "[Defines]\n SUPPORTED_ARCHITECTURES = IA32|X64|ARM\n"
    for s, c, i in listing:
        text += f"[LibraryClasses{s}]\n  {c}|{path_of(i)}\n"
    comps = []
    for fi, (form, arches) in enumerate(forms):
        text += f"[Components{form}]\n"
        for mi, m in enumerate(mods):
            text += "  " + path_of(m)
            over, onull = {}, []
            if kind == "over" and (where == "all" or (mi == 0 and fi == 0)):
                text += " {\n    <PcdsFixedAtBuild>\n    gT.A|1\n    <LibraryClasses>\n"
                for c, i in ov:
                    text += f"      {c}|{path_of(i)}\n"
                    if c == "NULL":
                        onull.append(i)
                    else:
                        over[c] = i
                text += "    <BuildOptions>\n    *_*_*_CC_FLAGS = -DA\n  }"
            text += "\n"
            if MODS[m][0]:
                comps += [(m, a, over, onull) for a in arches]
    with open(os.path.join(ws, "Pkg", "P.dsc"), "w") as f:
        f.write(text)
    db = Edk2DB(":memory:", Edk2Path(ws, []))
    db.register(InstancedInfTable())
    db.parse({"ACTIVE_PLATFORM": "Pkg/P.dsc", "TARGET_ARCH": "IA32 X64", "TARGET": "DEBUG"})
    scopes = [(SCOPES[s], c, i) for s, c, i in listing]
    with db.session() as session:
        rows = session.query(InstancedInf).order_by(InstancedInf.id).all()
        # one listing of a component after the other: its row comes last, after those of its libraries
        groups, cur = [], []
        for r in rows:
            cur.append(r)
            if r.cls is None:
                groups.append(cur)
                cur = []
        ctx.eq(cur, [], "rows after the last component")
        ctx.eq([(g[-1].path, g[-1].arch) for g in groups], [(path_of(m), a) for m, a, _, _ in comps], "components")
        for g, (m, a, over, onull) in zip(groups, comps):
            want = expected(m, a, scopes, over, onull)
            ctx.eq(sorted(r.path for r in g), sorted(path_of(n) for n in want), f"INFs of {m} for {a} in\n{text}")
            for r in g:
                n = next(x for x in want if path_of(x) == r.path)
                cl, libs, src = want[n]
                ctx.true(r.cls in cl, f"{n} recorded for class {r.cls}, expected one of {cl}")
                ctx.eq((r.arch, r.component, r.dsc, r.name), (a, path_of(m), "P.dsc", n), f"row of {n}")
                ctx.eq(sorted(s.path for s in r.sources), src, f"sources of {n} for {a}")
                ctx.eq(sorted(set(x.path for x in r.libraries)), sorted(path_of(x) for x in libs), f"libraries of {n} for {m} {a} in\n{text}")
                for x in r.libraries:
                    ctx.true(x in g, f"library {x.path} of {m} {a} is one of another listing")
    db.engine.dispose()
    ctx.state(repr(case))


# -- sizes -----------------------------------------------------------------------------------------------------


def gen_sizes(tier):
    for what in ("components", "chain", "classes", "nulls", "listings", "overrides", "sources", "again"):
        for n in counts(tier, 65 if tier == "quick" else 129, low=1, small=12 if tier == "quick" else 40):
            yield [what, n]


def run_sizes(case, ctx):
    """The numbers of everything: components, libraries of libraries, classes, listings."""
    from edk2toollib.database import Edk2DB, InstancedInf
    from edk2toollib.database.tables import InstancedInfTable
    from edk2toollib.uefi.edk2.path_utilities import Edk2Path

    what, n = case
    ws = os.path.realpath(ctx.tmp())
    os.makedirs(os.path.join(ws, "Pkg"))

    def inf(name, cls=None, uses=(), srcs=()):
        with open(os.path.join(ws, "Pkg", name + ".inf"), "w") as f:
            f.write(f"[Defines]\n BASE_NAME = {name}\n FILE_GUID = {name}\n MODULE_TYPE = DXE_DRIVER\n" + (f" LIBRARY_CLASS = {cls}\n" if cls else "") + "[Sources]\n" + "".join(f" {s}\n" for s in srcs)
                    + "[LibraryClasses]\n" + "".join(f" {u}\n" for u in uses))

    mods, libs, over, want, srcs = ["M0"], [], [], {}, [f"s{i}.c" for i in range(n)] if what == "sources" else []
    if what == "components":
        mods = [f"M{i}" for i in range(n)]
        libs = [("A", "LA")]
        inf("LA", "A")
        for m in mods:
            inf(m, uses=["A"])
        want = {"LA": []}
        uses = ["LA"]
    elif what == "again":
        mods = ["M0"] * n
        libs = [("A", "LA")]
        inf("LA", "A")
        inf("M0", uses=["A"])
        want, uses = {"LA": []}, ["LA"]
    elif what == "chain":
        inf("M0", uses=["C0"])
        for i in range(n):
            inf(f"L{i}", f"C{i}", uses=[f"C{i + 1}"] if i + 1 < n else [])
            libs.append((f"C{i}", f"L{i}"))
            want[f"L{i}"] = [f"L{i + 1}"] if i + 1 < n else []
        uses = ["L0"]
    elif what == "listings":
        inf("M0", uses=["A"])
        for i in range(n):
            inf(f"L{i}", "A")
            libs.append(("A", f"L{i}"))
        want, uses = {f"L{n - 1}": []}, [f"L{n - 1}"]
    else:
        cls = [("NULL" if what == "nulls" else f"C{i}") for i in range(n)] if what != "sources" else []
        inf("M0", uses=[] if what == "nulls" else cls, srcs=srcs)
        for i, c in enumerate(cls):
            inf(f"L{i}", c)
            (over if what == "overrides" else libs).append((c, f"L{i}"))
            want[f"L{i}"] = []
        uses = list(want)
    text = "[Defines]\n SUPPORTED_ARCHITECTURES = X64\n[LibraryClasses]\n" + "".join(f"  {c}|Pkg/{i}.inf\n" for c, i in libs) + "[Components]\n"
    for m in mods:
        text += f"  Pkg/{m}.inf" + (" {\n <LibraryClasses>\n" + "".join(f"  {c}|Pkg/{i}.inf\n" for c, i in over) + " }" if over else "") + "\n"
    with open(os.path.join(ws, "Pkg", "P.dsc"), "w") as f:
        f.write(text)
    db = Edk2DB(":memory:", Edk2Path(ws, []))
    db.register(InstancedInfTable())
    db.parse({"ACTIVE_PLATFORM": "Pkg/P.dsc", "TARGET_ARCH": "X64", "TARGET": "DEBUG"})
    with db.session() as session:
        rows = session.query(InstancedInf).order_by(InstancedInf.id).all()
        ctx.eq(len(rows), len(mods) * (1 + len(want)), "rows")
        at = 0
        for m in mods:
            group = rows[at: at + 1 + len(want)]
            at += len(group)
            full = {m: uses, **want}
            ctx.eq({r.name: sorted(x.name for x in r.libraries) for r in group}, {k: sorted(v) for k, v in full.items()}, f"libraries of the INFs of {m}")
            for r in group:
                ctx.eq((r.component, r.arch, r.path), (f"Pkg/{m}.inf", "X64", f"Pkg/{r.name}.inf"), "row")
                ctx.true(all(x in group for x in r.libraries), "libraries are those of the same component")
                ctx.eq(sorted(s.path for s in r.sources), sorted(f"Pkg/{s}" for s in (srcs if r.name == m else [])), "sources")
    db.engine.dispose()
    ctx.state(repr(case))


SUITES = [
    Suite("sizes", gen_sizes, run_sizes, "numbers of components, libraries in chains, classes, NULL libraries, listings, overrides and sources", {"quick": "8 kinds x every number up to 12, and 63..65", "thorough": "every number up to 40 and edges up to 129"}),
    Suite("scopes", gen_scope, run, "library instances in all section scopes and orders", {"quick": "<=2 listings (3 reduced)", "thorough": "<=3 listings"}),
    Suite("graphs", gen_graph, run, "libraries using libraries, NULL libraries, missing classes", {"quick": "<=3 of 13 listings", "thorough": "<=4"}),
    Suite("overrides", gen_over, run, "component overrides", "<=3 of 7 overrides"),
]
CHUNK = 16
