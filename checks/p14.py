"""P14: package and modules that contain a path."""

import itertools
import os

from lib.mc import Suite
from lib.sizes import counts

DIRS = ["ws", "ws/P", "ws/P/M", "ws/P/M/S", "ws/Q", "ws/Q/P2", "out", "out/P", "out/P/M"]
ROOTS = ["ws/P", "ws/P/M", "ws/Q", "out", "ws"]
PPS = [[]] + [list(p) for k in (1, 2, 3, 4) for p in itertools.permutations(ROOTS, k)]


def is_under(p, d):
    return p == d or p.startswith(d + "/")


def gen_pkg(tier):
    """Which directories hold a .dec file x packages paths outside the workspace."""
    for mask in range(1 << len(DIRS)):
        for pps in ([], ["out"], ["ws/P", "out"], ["out/P"]):
            yield [mask, pps, mask % 3]


def run_pkg(case, ctx):
    from edk2toollib.uefi.edk2.path_utilities import Edk2Path

    mask, pps, ext = case
    root = os.path.realpath(ctx.tmp())
    decs = {d for i, d in enumerate(DIRS) if mask >> i & 1}
    for d in DIRS:
        os.makedirs(os.path.join(root, d), exist_ok=True)
        open(os.path.join(root, d, "a.c"), "w").close()
    for d in decs:
        open(os.path.join(root, d, "Any" + [".dec", ".DEC", ".Dec"][ext]), "w").close()
    ws = os.path.join(root, "ws")
    ep = Edk2Path(ws, [os.path.join(root, p) for p in pps])
    for d in DIRS:
        for q in (d, d + "/a.c", d + "/gone.c", d + "/Gone/x.c"):
            top = "ws" if is_under(q, "ws") else next((p for p in pps if is_under(q, p)), None)
            want = None
            cur = q if q in DIRS else os.path.dirname(q)
            while top is not None and cur != top and is_under(cur, top):
                if cur in decs:
                    want = os.path.basename(cur)
                    break
                cur = os.path.dirname(cur)
            ctx.eq(ep.GetContainingPackage(os.path.join(root, q)), want, f"package of {q} with .dec files in {sorted(decs)}")
            ctx.eq(ep.GetContainingPackage(os.path.join(root, q).replace("/", "\\")), want,
                   f"package of {q} given with backslashes")
    ctx.eq(ep.GetContainingPackage(os.path.join(root, "other", "x.c")), None, "path outside of everything")
    ctx.state((mask, tuple(pps)))


def gen_mod(tier):
    inf_masks = [sum(1 << DIRS.index(d) for d in ds) for k in (0, 1, 2, 3) for ds in
                 itertools.combinations([d for d in DIRS if d not in ("ws/Q/P2",)], k)]
    for pps in PPS:
        for mask in inf_masks:
            if tier == "quick" and len(pps) > 2 and bin(mask).count("1") > 2:
                continue
            yield [mask, pps]


def run_mod(case, ctx):
    from edk2toollib.uefi.edk2.path_utilities import Edk2Path

    mask, pps = case
    root = os.path.realpath(ctx.tmp())
    infs = {d: (["M.inf"] if i % 2 else ["M.inf", "N.INF"]) for i, d in enumerate(DIRS) if mask >> i & 1}
    for d in DIRS:
        os.makedirs(os.path.join(root, d), exist_ok=True)
        open(os.path.join(root, d, "a.c"), "w").close()
        os.makedirs(os.path.join(root, d, "Folder.inf"))  # a directory is no module
        for n in infs.get(d, []):
            open(os.path.join(root, d, n), "w").close()
    ep = Edk2Path(os.path.join(root, "ws"), [os.path.join(root, p) for p in pps])
    roots = set(pps) | {"ws"}
    tops = {r for r in roots if not any(r != o and is_under(r, o) for o in roots)}
    for d in DIRS:
        for q in (d + "/a.c", d + "/Gone/x.c", d + "/X.inf"):
            top = next((t for t in tops if is_under(q, t)), None)
            want = []
            if top is not None and q.endswith(".inf"):
                want = [q]
            elif top is not None:
                cur = os.path.dirname(q)
                while cur != top:
                    if cur in infs:
                        want = [cur + "/" + n for n in infs[cur]]
                        break
                    cur = os.path.dirname(cur)
            got = ep.GetContainingModules(os.path.join(root, q))
            ctx.eq(sorted(got), sorted(os.path.join(root, w) for w in want),
                   f"modules of {q} with INF files in {sorted(infs)} and packages paths {pps}")
            got = ep.GetContainingModules(os.path.join(root, q).replace("/", "\\"))
            ctx.eq(sorted(got), sorted(os.path.join(root, w) for w in want), f"modules of {q} given with backslashes")
            ctx.eq(ep.PackagePathList, [os.path.join(root, p) for p in pps], "packages paths after the query")
    try:
        ep.GetContainingModules("ws/P/a.c")
        ctx.fail("a relative path was accepted")
    except Exception as e:
        if type(e).__name__ == "Violation":
            raise
    ctx.state((mask, tuple(pps)))


# -- sizes: depth below the package or module, number of modules, names around the extension -------------------


def gen_sizes(tier):
    for n in counts(tier, 200, 1):
        yield ["deep", n]
    for n in counts(tier, 257, 1):
        yield ["many", n]
        yield ["name", min(n, 250)]


def run_sizes(case, ctx):
    from edk2toollib.uefi.edk2.path_utilities import Edk2Path

    what, n = case
    root = os.path.realpath(ctx.tmp())
    ws = os.path.join(root, "ws")
    if what == "deep":
        chain = [f"d{i}" for i in range(n)]
        leaf = os.path.join(ws, *chain)
        os.makedirs(leaf)
        c = os.path.join(leaf, "x.c")
        open(c, "w").close()
        ep = Edk2Path(ws, [])
        for k in sorted({1, 2, n // 2, n - 1, n} & set(range(1, n + 1))):
            at = os.path.join(ws, *chain[:k])
            fs = [os.path.join(at, "Some.dec"), os.path.join(at, "Some.inf")]
            for f in fs:
                open(f, "w").close()
            ctx.eq(ep.GetContainingPackage(c), chain[k - 1], f"package {n - k} levels above")
            ctx.eq(ep.GetContainingModules(c), [fs[1]], f"modules {n - k} levels above")
            for f in fs:
                os.remove(f)
        ctx.eq(ep.GetContainingPackage(c), None, f"no package on {n} levels")
        ctx.eq(ep.GetContainingModules(c), [], f"no module on {n} levels")
    elif what == "many":
        d = os.path.join(ws, "P", "M")
        os.makedirs(d)
        infs = [os.path.join(d, f"M{i}.inf") for i in range(n)]
        for f in infs + [os.path.join(d, f"S{i}.c") for i in range(n)] + [os.path.join(ws, "P", "P.dec")]:
            open(f, "w").close()
        ep = Edk2Path(ws, [])
        ctx.eq(sorted(ep.GetContainingModules(os.path.join(d, "S0.c"))), sorted(infs), f"{n} modules in one directory")
        ctx.eq(ep.GetContainingPackage(os.path.join(d, "S0.c")), "P", f"package with {n} modules")
    else:
        name = ("ab-c" * n)[:n]
        d = os.path.join(ws, "P")
        os.makedirs(d)
        for bad in (name + ".in", name + "inf", name + ".info", name + ".decx", name + "dec"):
            open(os.path.join(d, bad), "w").close()
        ep = Edk2Path(ws, [])
        c = os.path.join(d, "x.c")
        ctx.eq(ep.GetContainingPackage(c), None, f"no .dec file among names of {n} characters")
        ctx.eq(ep.GetContainingModules(c), [], f"no .inf file among names of {n} characters")
        open(os.path.join(d, name + ".dec"), "w").close()
        open(os.path.join(d, name + ".inf"), "w").close()
        ctx.eq(ep.GetContainingPackage(c), "P", f"a .dec file with a name of {n} characters")
        ctx.eq(ep.GetContainingModules(c), [os.path.join(d, name + ".inf")], f"an .inf file with a name of {n} characters")
    ctx.state(tuple(case))


SUITES = [
    Suite("sizes", gen_sizes, run_sizes, "depth, number of modules in a directory, length of names", "counts up to 24 and edges to 257"),
    Suite("package", gen_pkg, run_pkg, "all placements of .dec files", "9 directories, 4 packages-path lists"),
    Suite("modules", gen_mod, run_mod, "placements of .inf files x ordered packages-path lists", "<=3 of 8 directories, <=4 roots"),
]
ASSUMPTIONS = ["packages paths outside the workspace are not nested in one another (containing package)"]
