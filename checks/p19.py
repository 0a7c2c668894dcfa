"""P19: version comparison is a total order; class lookup finds the most specific class; host info."""

import itertools
import types

from lib.mc import Suite
from lib.sizes import counts

NUM = ["0", "00", "1", "01", "2", "9", "10", "100"]


def norm(v):
    n = [int(x) for x in v.split(".")]
    while len(n) > 1 and n[-1] == 0:
        n.pop()
    return n


def gen_ver(tier):
    vs = [".".join(t) for k in (1, 2) for t in itertools.product(NUM, repeat=k)]
    vs += [".".join(t) for t in itertools.product(["0", "1", "10", "2"] if tier == "quick" else ["0", "00", "1", "10", "2", "9"], repeat=3)]
    vs += ["1.0.0.0", "1.0.0.1", "0.0.0.0", "10.0.22621.0", "10.0.9600.1", "1.20.0", "1.2.0.0.0"]
    for v in vs:
        yield [v, vs]


def run_ver(case, ctx):
    from edk2toollib.utility_functions import version_compare

    a, vs = case
    for b in vs:
        na, nb = norm(a), norm(b)
        want = (na > nb) - (na < nb)
        ctx.eq(version_compare(a, b), want, f"{a} against {b}")
    ctx.state(a)


# -- class lookup: all class forests on <=4 names, all assignments of names (dir() is alphabetical) ----------------


def gen_cls(tier):
    n = 4 if tier == "quick" else 5
    for k in range(n + 1):
        # parent of class i: -2 unrelated, -1 the desired class, or an earlier class
        for par in itertools.product(*[range(-2, i) for i in range(k)]):
            for names in itertools.permutations("ABCDE"[:k]):
                # which classes the module exposes: all, or without one
                for hide in [None] + list(range(k)):
                    yield [list(par), list(names), hide]


def run_cls(case, ctx):
    from edk2toollib.utility_functions import locate_class_in_module

    par, names, hide = case
    Desired = type("Desired", (), {})
    cs = []
    for i, p in enumerate(par):
        base = (Desired,) if p == -1 else (cs[p],) if p >= 0 else ()
        cs.append(type(names[i], base, {}))
    mod = types.ModuleType("m")
    mod.Desired = Desired
    mod.number = 5
    mod.fun = len
    vis = [c for i, c in enumerate(cs) if i != hide]
    for c in vis:
        setattr(mod, c.__name__, c)
    found = [c for c in vis if issubclass(c, Desired)]
    leaves = [c for c in found if not any(d is not c and issubclass(d, c) for d in found)]
    try:
        got = locate_class_in_module(mod, Desired)
    except RuntimeError:
        got = "error"
    want = None if not leaves else leaves[0] if len(leaves) == 1 else "error"
    ctx.eq(got, want, f"class found for parents {par} named {names}")
    ctx.state(repr(case))


def gen_imp(tier):
    for name in ("a.py", "with space.py", "dots.in.name.py", "UPPER.PY"[:5] + ".py"):
        for val in (0, "x", [1, 2]):
            yield [name, val]


def run_imp(case, ctx):
    import os
    import sys

    from edk2toollib.utility_functions import import_module_by_file_name

    name, val = case
    d = ctx.tmp()
    sys.dont_write_bytecode = True
    for sub, v in (("one", val), ("two", [val])):
        os.makedirs(os.path.join(d, sub))
        p = os.path.join(d, sub, name)
        with open(p, "w") as f:
            f.write(f"VALUE = {v!r}\nclass K: pass\n")
    m1 = import_module_by_file_name(os.path.join(d, "one", name))
    m2 = import_module_by_file_name(os.path.join(d, "two", name))
    ctx.eq(m1.VALUE, val, "module imported by file name")
    ctx.eq(m2.VALUE, [val], "module of the same name in another folder")
    ctx.eq(m1.K is m2.K, False, "separate modules")
    ctx.state(repr(case))


MACH = {"x86_64": ("x86", "64"), "AMD64": ("x86", "64"), "amd64": ("x86", "64"), "x86_32": ("x86", "32"), "aarch64": ("ARM", "64"),
        "arm64": ("ARM", "64"), "ARM64": ("ARM", "64"), "AARCH64": ("ARM", "64"), "ARM32": ("ARM", "32"),
        "loongarch64": ("LOONGARCH", "64"), "riscv": None, "": None}


def gen_host(tier):
    for s in ("Linux", "Windows", "Darwin", "FreeBSD"):
        for m in MACH:
            yield [s, m]


def run_host(case, ctx):
    import platform
    from unittest import mock

    from edk2toollib.utility_functions import GetHostInfo

    s, m = case
    u = types.SimpleNamespace(system=s, machine=m, node="n", release="5.32", version="64", processor="x")
    with mock.patch.object(platform, "uname", lambda: u), mock.patch.object(platform, "system", lambda: s), \
            mock.patch.object(platform, "machine", lambda: m):
        try:
            got = tuple(GetHostInfo())
        except EnvironmentError:
            got = None
    want = MACH[m] and ("MacOs" if s == "Darwin" else s,) + MACH[m]
    ctx.eq(got, want, f"host info on {case}")
    ctx.state(repr(case))


# -- sizes: number of parts, number of digits, number of classes ---------------------------------------------


def gen_sizes(tier):
    for n in counts(tier, 300, 1):
        yield ["parts", n]
        yield ["digits", n]
        yield ["classes", n]


def run_sizes(case, ctx):
    from edk2toollib.utility_functions import locate_class_in_module, version_compare

    what, n = case
    if what == "classes":
        Desired = type("Desired", (), {})
        for at in sorted({0, n // 2, n - 1}):
            mod = types.ModuleType("m")
            mod.Desired = Desired
            for i in range(n):
                setattr(mod, f"C{i:03}", type(f"C{i:03}", (Desired,) if i == at else (), {}))
            ctx.eq(locate_class_in_module(mod, Desired), getattr(mod, f"C{at:03}"), f"class {at} of {n}")
        mod = types.ModuleType("m")  # a chain: the last one is the most specific
        c = mod.Desired = Desired
        for i in range(n):
            c = type(f"C{(i * 7) % n if n % 7 else i:03}", (c,), {})
            setattr(mod, c.__name__, c)
        ctx.eq(locate_class_in_module(mod, Desired), c, f"chain of {n} classes")
    else:
        if what == "parts":
            vs = [".".join(["1"] * n), ".".join(["1"] * (n - 1) + ["2"]), ".".join(["1"] * n + ["0"]), ".".join(["1"] * n + ["1"]),
                  ".".join(["0"] * n), ".".join(["0"] * n + ["1"]), ".".join(["1"] + ["0"] * n), "1", "2", "0"]
        else:
            vs = ["1" + "0" * (n - 1), "9" * n, "0" * n + "1", "1" + "0" * n, "8" + "9" * (n - 1), "9" * (n - 1) + "8", "1." + "9" * n,
                  "1." + "0" * n + "9", "1"]
        for a in vs:
            for b in vs:
                na, nb = norm(a), norm(b)
                ctx.eq(version_compare(a, b), (na > nb) - (na < nb), f"{a[:60]} against {b[:60]} ({what} {n})")
    ctx.state(tuple(case))


SUITES = [
    Suite("sizes", gen_sizes, run_sizes, "number of parts and digits of versions, number of classes", "counts up to 24 and edges to 300"),
    Suite("versions", gen_ver, run_ver, "all pairs of versions", "136 versions, all pairs"),
    Suite("classes", gen_cls, run_cls, "all class forests, names and visible subsets", {"quick": "<=4 classes", "thorough": "<=5 classes"}),
    Suite("import", gen_imp, run_imp, "importing by file name", "12 cases"),
    Suite("host", gen_host, run_host, "host information", "4 systems, 12 machines"),
]
ASSUMPTIONS = ["single inheritance; machine names that state a known architecture and a width of 32 or 64"]
