"""P13: absolute <-> EDK2-relative paths over all layouts of workspace and packages paths."""

import itertools
import os

from lib.mc import Suite
from lib.sizes import counts

DIRS = ["ws", "ws/A", "ws/A/A", "ws/A/P", "ws/AB", "ws/AB/P", "out", "out/A", "out/A/P", "out/B"]
FILES = ["f", "P/g", "A/f", "ws/f"]
PPS = ["ws/A", "ws/AB", "ws/A/A", "out", "out/A", "ws", "rel:A", "rel:AB/P", "cwd:out", "bad:ws/none", "lnk"]


def tree(root, missing=()):
    files = []
    for d in DIRS:
        os.makedirs(os.path.join(root, d), exist_ok=True)
    for d in DIRS:
        for f in ("f", "P/g", "A/f"):
            p = os.path.join(root, d, f)
            if os.path.relpath(p, root) in missing:
                continue
            os.makedirs(os.path.dirname(p), exist_ok=True)
            if not os.path.exists(p):
                open(p, "w").close()
            files.append(p)
    os.symlink("out", os.path.join(root, "lnk"))
    return files


def spell(pp, root):
    kind, _, rest = pp.rpartition(":")
    if kind in ("rel", "cwd"):
        return rest
    return os.path.join(root, rest)


def absolute(pp, root):
    kind, _, rest = pp.rpartition(":")
    return os.path.join(root, "ws", rest) if kind == "rel" else os.path.join(root, rest)


MISSING = [(), ("ws/f", "ws/P/g"), ("ws/A/f", "out/f"), ("out/A/f", "ws/A/A/f", "ws/A/P/g")]


def gen(tier):
    n = 2 if tier == "quick" else 3
    for k in range(n + 1):
        for pps in itertools.permutations(PPS, k):
            for mi in range(len(MISSING)):
                if k == 3 and mi not in (0, 2):
                    continue
                yield [list(pps), mi]


def is_under(p, d):
    return p == d or p.startswith(d + "/")


def run(case, ctx):
    from edk2toollib.uefi.edk2.path_utilities import Edk2Path

    pps, mi = case
    root = os.path.realpath(ctx.tmp())
    ws = os.path.join(root, "ws")
    tree(root, MISSING[mi])
    old = os.getcwd()
    os.chdir(root)
    try:
        bad = [p for p in pps if p.startswith("bad:")]
        if bad:
            try:
                Edk2Path(ws, [spell(p, root) for p in pps])
                ctx.fail("an invalid packages path entry was accepted")
            except NotADirectoryError:
                ctx.step()
        ep = Edk2Path(ws, [spell(p, root) for p in pps], error_on_invalid_pp=False)
        good = [absolute(p, root) for p in pps if p not in bad]
        ctx.eq(ep.WorkspacePath, ws, "workspace path")
        ctx.eq(ep.PackagePathList, good, "packages paths")
        given = [spell(p, root) for p in pps]
        for how, other in (("backslashes", [g.replace("/", "\\") for g in given]),
                           ("a separator at the end", [g + "/" for g in given]),
                           ("an iterator", iter(given)), ("a tuple", tuple(given))):
            e2 = Edk2Path(ws, other, error_on_invalid_pp=False)
            ctx.eq(e2.PackagePathList, good, f"packages paths given with {how}")
            ctx.eq(e2.WorkspacePath, ws, f"workspace path with packages paths given with {how}")
        if not pps:
            for w in ("ws", ws + "/", ws.replace("/", "\\")):
                e2 = Edk2Path(w, [])
                ctx.eq(os.path.normpath(e2.WorkspacePath), ws, f"workspace given as {w}")
        paths = []
        for d, ds, fs in os.walk(root):
            paths += [os.path.join(d, x) for x in ds + fs]
            paths.append(os.path.join(d, "nothing"))
        paths += [os.path.join(root, "lnk", x) for x in ("f", "A", "A/f", "A/P/g")]
        for p in sorted(paths):
            roots = sorted([g for g in good if is_under(p, g)], key=len)
            base = roots[-1] if roots else (ws if is_under(p, ws) else None)
            want = None if base is None else os.path.relpath(p, base)
            ctx.eq(ep.GetEdk2RelativePathFromAbsolutePath(p), want, f"relative path of {os.path.relpath(p, root)}")
            head, tail = os.path.split(p)
            ctx.eq(ep.GetEdk2RelativePathFromAbsolutePath(head, tail), want, "same in two parts")
            ctx.eq(ep.GetEdk2RelativePathFromAbsolutePath(p.replace("/", "\\")), want, "same with backslashes")
            ctx.eq(ep.GetEdk2RelativePathFromAbsolutePath(root, os.path.relpath(p, root).replace("/", "\\")), want,
                   "same in two parts with backslashes")
        rels = {os.path.relpath(p, b) for p in paths for b in (ws, root, os.path.join(root, "out"), ws + "/A")}
        for r in sorted(rels):
            if r.startswith(".."):
                continue
            want = None
            for b in [ws] + good:
                if os.path.exists(os.path.join(b, r)):
                    want = os.path.normpath(os.path.join(b, r))
                    break
            got = ep.GetAbsolutePathOnThisSystemFromEdk2RelativePath(r)
            ctx.eq(got, want, f"absolute path of {r}")
            parts = r.split("/")
            ctx.eq(ep.GetAbsolutePathOnThisSystemFromEdk2RelativePath(*parts), want, f"absolute path of {parts}")
            ctx.eq(ep.GetAbsolutePathOnThisSystemFromEdk2RelativePath(r.replace("/", "\\"), log_errors=False), want,
                   "same with backslashes")
            for i in range(1, len(parts)):
                two = [x.replace("/", "\\") for x in ("/".join(parts[:i]), "/".join(parts[i:]))]
                ctx.eq(ep.GetAbsolutePathOnThisSystemFromEdk2RelativePath(*two), want, f"absolute path of {two}")
            if want is not None:  # a path that was found leads back to itself
                back = ep.GetEdk2RelativePathFromAbsolutePath(want)
                again = ep.GetAbsolutePathOnThisSystemFromEdk2RelativePath(back)
                first = next(os.path.normpath(os.path.join(b, back)) for b in [ws] + good if os.path.exists(os.path.join(b, back)))
                ctx.eq(again, first, f"{want} -> {back} -> absolute")
        ctx.eq(ep.GetEdk2RelativePathFromAbsolutePath(None), None, "None")
        ctx.eq(ep.GetAbsolutePathOnThisSystemFromEdk2RelativePath(None), None, "None")
    finally:
        os.chdir(old)
    ctx.state((tuple(pps), mi))


# -- sizes: number of packages paths, depth, length of names ---------------------------------------------


def gen_sizes(tier):
    for n in counts(tier, 300, 1):
        yield ["many", n]
    for n in counts(tier, 257, 1):
        yield ["deep", n]
        yield ["long", min(n, 255)]


def run_sizes(case, ctx):
    from edk2toollib.uefi.edk2.path_utilities import Edk2Path

    what, n = case
    root = os.path.realpath(ctx.tmp())
    ws = os.path.join(root, "ws")
    os.makedirs(ws)
    if what == "many":  # siblings whose names are prefixes of one another, each with its own and a common file
        pps = [os.path.join(root, f"p{i}") for i in range(n)]
        for i, p in enumerate(pps):
            os.makedirs(p)
            for f in (f"own{i}", "common"):
                open(os.path.join(p, f), "w").close()
        ep = Edk2Path(ws, pps)
        ctx.eq(ep.PackagePathList, pps, "packages paths")
        for i, p in enumerate(pps):
            ctx.eq(ep.GetAbsolutePathOnThisSystemFromEdk2RelativePath(f"own{i}"), os.path.join(p, f"own{i}"), f"file of path {i} of {n}")
            ctx.eq(ep.GetEdk2RelativePathFromAbsolutePath(os.path.join(p, f"own{i}")), f"own{i}", f"file of path {i} of {n}")
        ctx.eq(ep.GetAbsolutePathOnThisSystemFromEdk2RelativePath("common"), os.path.join(pps[0], "common"), "first path wins")
        ctx.eq(ep.GetAbsolutePathOnThisSystemFromEdk2RelativePath("none", log_errors=False), None, "missing")
    elif what == "deep":
        rel = "/".join(["d"] * n)
        os.makedirs(os.path.join(ws, rel))
        open(os.path.join(ws, rel, "f"), "w").close()
        for k in sorted({1, n // 2, n} - {0}):
            pp = os.path.join(ws, *["d"] * k)
            ep = Edk2Path(ws, [pp])
            want = "/".join(["d"] * (n - k) + ["f"])
            got = ep.GetEdk2RelativePathFromAbsolutePath(os.path.join(ws, rel, "f"))
            ctx.eq(got, want, f"relative path {n} deep with a packages path {k} deep")
            ctx.eq(ep.GetAbsolutePathOnThisSystemFromEdk2RelativePath(want), os.path.join(pp, want), f"absolute path {n} deep")
        ep = Edk2Path(ws, [])
        ctx.eq(ep.GetEdk2RelativePathFromAbsolutePath(os.path.join(ws, rel, "f")), rel + "/f", f"relative path {n} deep")
        ctx.eq(ep.GetAbsolutePathOnThisSystemFromEdk2RelativePath(rel + "/f"), os.path.join(ws, rel, "f"), f"absolute path {n} deep")
    else:
        for c in "xX.- ":
            name = "a" * (n - 1) + c if c != " " else ("a" * (n // 2) + " " + "b" * n)[:n - 1] + "c"
            pp = os.path.join(root, "out", name)
            os.makedirs(os.path.join(pp, name), exist_ok=True)
            if n == 1 and c == ".":
                continue
            ep = Edk2Path(ws, [pp])
            ctx.eq(ep.GetEdk2RelativePathFromAbsolutePath(os.path.join(pp, name)), name, f"name of {n} characters")
            ctx.eq(ep.GetAbsolutePathOnThisSystemFromEdk2RelativePath(name), os.path.join(pp, name), f"name of {n} characters")
    ctx.state(tuple(case))


SUITES = [
    Suite("sizes", gen_sizes, run_sizes, "number of packages paths, depth and length of paths", "counts up to 24 and edges to 300, depth to 257, names to 255"),
    Suite("layouts", gen, run, "all ordered packages-path lists, all paths of the tree",
          {"quick": "<=2 of 10 entries, 4 trees", "thorough": "<=3 of 10 entries"}),
]
ASSUMPTIONS = ["packages path entries are lexically normalised (no '..'), POSIX file system"]
