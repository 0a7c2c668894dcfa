"""P17: removing a directory tree under every plan of removal faults; nothing outside of the tree is touched."""

import itertools
import os
import stat

from lib.mc import Suite, deviations
from lib.sizes import counts

SHAPES = {
    "empty": [],
    "flat": ["f1", "f2"],
    "deep": ["d1/", "d1/d2/", "d1/d2/f1", "d1/f2"],
    "mixed": ["d1/", "d1/f1", "f2", "l1@out", "l2@gone", "d3/"],
}


def entries(shape):
    return [s.split("@")[0].rstrip("/") for s in SHAPES[shape]] + [""]


# environment answers for the removal of one entry: it fails n times, for ever, or until its mode is changed; or (for
# directories) it cannot be opened n times / for ever
MENU = ["1", "2", "3", "5", "ever", "mode"]
DMENU = ["open1", "openever"]


def gen(tier):
    for shape in SHAPES:
        ent = entries(shape)
        dirs = {s.rstrip("/") for s in SHAPES[shape] if s.endswith("/")} | {""}
        for plan in deviations(len(ent), lambda p: MENU + (DMENU if ent[p] in dirs else []), 2 if tier == "quick" else 3):
            for ign in (False, True):
                yield [shape, [[ent[p], a] for p, a in plan], ign]


def build(root, shape):
    os.makedirs(root)
    for s in SHAPES[shape]:
        if s.endswith("/"):
            os.makedirs(os.path.join(root, s))
        elif "@" in s:
            n, t = s.split("@")
            os.symlink(os.path.join("..", t), os.path.join(root, n))
        else:
            with open(os.path.join(root, s), "w") as f:
                f.write(s)


def run(case, ctx):
    from edk2toollib.utility_functions import RemoveTree

    shape, plan, ign = case
    top = os.path.realpath(ctx.tmp())
    root = os.path.join(top, "victim")
    build(root, shape)
    os.makedirs(os.path.join(top, "out"))
    with open(os.path.join(top, "out", "keep"), "w") as f:
        f.write("keep")
    outside = {p: (os.stat(os.path.join(top, p)).st_mode) for p in ("out", "out/keep")}
    left = {e: a for e, a in plan}
    count = {e: 0 for e in left}
    real = {n: getattr(os, n) for n in ("unlink", "rmdir", "remove", "open", "scandir", "listdir")}

    def rel(path, dir_fd):
        p = path if isinstance(path, int) else os.fspath(path)
        if isinstance(p, int):
            p = os.readlink(f"/proc/self/fd/{p}")
        elif dir_fd is not None:
            p = os.path.join(os.readlink(f"/proc/self/fd/{dir_fd}"), p)
        p = os.path.join(os.path.realpath(os.path.dirname(p)), os.path.basename(p))
        r = os.path.relpath(p, root)
        return ("" if r == "." else r), p

    def guarded(name):
        def call(path, *a, **kw):
            r, p = rel(path, kw.get("dir_fd"))
            if r.startswith(".."):
                if name in ("open", "scandir", "listdir"):
                    return real[name](path, *a, **kw)
                raise AssertionError(f"removal of {p}, which is outside of the tree")
            a_ = left.get(r)
            opening = name in ("open", "scandir", "listdir")
            if a_ is not None and opening == a_.startswith("open"):
                w = a_[4:] if opening else a_
                if w == "mode":
                    if not os.lstat(p).st_mode & stat.S_IWOTH and os.lstat(p).st_mode & 0o777 == mode[r]:
                        count[r] += 1
                        raise PermissionError(13, "planned", p)
                elif w == "ever" or count[r] < int(w):
                    count[r] += 1
                    raise PermissionError(13, "planned", p)
            return real[name](path, *a, **kw)
        return call

    mode = {}
    for e in left:
        p = os.path.join(root, e)
        if left[e] == "mode":
            if os.path.islink(p):
                left[e] = "1"
            else:
                os.chmod(p, 0o555)
                mode[e] = 0o555
    err = None
    for n in real:
        setattr(os, n, guarded(n))
    try:
        try:
            RemoveTree(root, ignore_errors=ign)
        except RuntimeError as e:
            err = e
    finally:
        for n, f in real.items():
            setattr(os, n, f)
    gone = not os.path.lexists(root)
    for p, m in outside.items():
        ctx.eq(os.path.exists(os.path.join(top, p)), True, f"{p} outside of the tree exists")
        ctx.eq(oct(os.stat(os.path.join(top, p)).st_mode), oct(m), f"mode of {p} outside of the tree")
    with open(os.path.join(top, "out", "keep")) as f:
        ctx.eq(f.read(), "keep", "content outside of the tree")
    for e in left:  # allow the scratch folder to be removed again
        if os.path.isdir(os.path.join(root, e)) and not os.path.islink(os.path.join(root, e)):
            os.chmod(os.path.join(root, e), 0o755)
    ever = [e for e, a in left.items() if a.endswith("ever")]
    total = sum(int(a.removeprefix("open")) for a in left.values() if not a.endswith("ever") and a != "mode")
    opens = any(a.startswith("open") for a in left.values())
    if ign:
        ctx.eq(err, None, "no exception with ignore_errors")
        if not left:
            ctx.eq(gone, True, "removed")
    else:
        ctx.eq(gone, err is None, f"the tree is gone exactly when no error is reported ({plan})")
        if ever:
            ctx.eq(gone, False, "an entry that can never be removed is reported")
        elif total <= (2 if opens else 5):
            ctx.eq(gone, True, f"removed in spite of {plan}")
    ctx.state((shape, repr(plan), ign, gone, tuple(sorted(count.items()))))


def gen_missing(tier):
    yield ["none", False]
    yield ["none", True]


def run_missing(case, ctx):
    from edk2toollib.utility_functions import RemoveTree

    try:
        RemoveTree(os.path.join(ctx.tmp(), "none"), ignore_errors=case[1])
        ctx.true(case[1], "a folder that does not exist cannot be removed, but no error was raised")
    except RuntimeError:
        ctx.true(not case[1], "error although errors are to be ignored")
    ctx.state(tuple(case))


# -- sizes: breadth and depth of the tree, with no faults and with one entry that is read-only for a while ---------


def gen_sizes(tier):
    for n in counts(tier, 400, 1):
        for what in ("files", "dirs", "deep"):
            for bad in (False, True):
                yield [what, n, bad]


def run_sizes(case, ctx):
    from edk2toollib.utility_functions import RemoveTree

    what, n, bad = case
    top = os.path.realpath(ctx.tmp())
    root, out = os.path.join(top, "victim"), os.path.join(top, "out")
    for d in (root, out):
        os.makedirs(d)
    with open(os.path.join(out, "keep"), "w") as f:
        f.write("keep")
    if what == "deep":
        os.makedirs(os.path.join(root, *["d"] * n))
        fault = os.path.join(root, *["d"] * n)
    else:
        for i in range(n):
            p = os.path.join(root, f"e{i}")
            if what == "dirs":
                os.makedirs(p)
                p = os.path.join(p, "f")
            open(p, "w").close()
        fault = p
    os.symlink("../out", os.path.join(fault if what == "deep" else root, "link"))
    real = {x: getattr(os, x) for x in ("unlink", "rmdir")}
    left = [1 if bad else 0]

    def guarded(name):
        def call(path, *a, **kw):
            p = os.fspath(path)
            if kw.get("dir_fd") is not None:
                p = os.path.join(os.readlink(f"/proc/self/fd/{kw['dir_fd']}"), p)
            p = os.path.join(os.path.realpath(os.path.dirname(p)), os.path.basename(p))
            if p != root and not p.startswith(root + "/"):
                raise AssertionError(f"removal of {p}, which is outside of the tree")
            if p == fault and left[0]:
                left[0] -= 1
                raise PermissionError(13, "planned", p)
            return real[name](path, *a, **kw)
        return call

    for x in real:
        setattr(os, x, guarded(x))
    try:
        RemoveTree(root)
    finally:
        for x, f in real.items():
            setattr(os, x, f)
    ctx.eq(os.path.lexists(root), False, f"tree of {n} {what} is left")
    with open(os.path.join(out, "keep")) as f:
        ctx.eq(f.read(), "keep", "content outside of the tree")
    ctx.state(tuple(case))


SUITES = [
    Suite("sizes", gen_sizes, run_sizes, "breadth and depth of the tree, without and with one fault", "counts up to 24 and edges to 257"),
    Suite("faults", gen, run, "removal faults (n times, for ever, until the mode changes) at every entry of 4 trees",
          {"quick": "<=2 faulty entries", "thorough": "<=3 faulty entries"}),
    Suite("missing", gen_missing, run_missing, "folder that does not exist", "both modes"),
]
ASSUMPTIONS = ["the folder is not itself a symbolic link"]
