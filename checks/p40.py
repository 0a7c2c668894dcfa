"""P40: the objects of a DSC keep their identity: equality, hashes, replacing sets and sections agree."""

import itertools

from lib.mc import Suite
from lib.sizes import counts

# -- universes: (description, key); objects with the same key are the same thing ------------------------------------


def star(a):
    return "*" if a.upper().strip() in ("COMMON", "DEFAULT", "*") else a.upper().strip()


def universe(kind):
    """[(constructor arguments, identity)]"""
    out = []
    if kind == "dsc_section_type":
        for a in ("common", "COMMON", " X64", "x64", "IA32", "default"):
            for m in ("common", "COMMON", "DXE_DRIVER", "dxe_driver ", "PEIM"):
                out.append(((a, m), (star(a), m.upper().strip())))
    elif kind == "dsc_buildoption_section_type":
        for a in ("common", "DEFAULT", "X64", "x64 ", "IA32"):
            for c in ("common", "EDK", "edkii"):
                for m in ("common", "DXE_DRIVER", "peim"):
                    out.append(((a, c, m), (star(a), c.upper(), m.upper())))
    elif kind == "dsc_pcd_section_type":
        for t in ("FeatureFlag", "FEATUREFLAG", "DynamicHii", "DYNAMICEXHII"):
            for a in ("common", "X64", "x64"):
                for s in ("DEFAULT", "default", "Sku1"):
                    for d in (None, "Std", " Std") if t.upper().endswith("HII") else (None,):
                        out.append(((t, a, s, d), (t.upper(), a.upper(), s.upper(), d and d.strip())))
    elif kind == "dsc_pcd_component_type":
        out = [((t,), t.upper()) for t in ("FeatureFlag", "FEATUREFLAG", "FixedAtBuild", "DynamicHii", "dynamicex", "DynamicEx")]
    elif kind == "component" or kind == "library":
        out = [((x,), x) for x in ("A.inf", "B.inf", "P/A.inf", "P/A.inf ", "A.inf")]
    elif kind == "definition":
        out = [((n, v, loc), n) for n in ("A", "B", "AB") for v in ("1", "2") for loc in (False, True)]
    elif kind == "library_class":
        for c in ("A", "a", "B", "NULL", "null", "Null", "NULLA"):
            for i in ("A.inf", "B.inf", "NULL"):
                out.append(((c, i), ("null", i) if c.lower() == "null" else c.lower()))
    elif kind in ("pcd", "pcd_typed", "pcd_variable"):
        more = {"pcd": [("1",), ("2",)], "pcd_typed": [("1", "UINT8"), ("1", "UINT16", 2)], "pcd_variable": [("L'v'", "g", "0"), ("L'v'", "g", "4", "1", "NV, BS")]}[kind]
        for ns, n in (("gA", "B"), ("gA", "C"), ("gB", "B"), ("gA", "B.C"), ("gA.B", "C")):
            out += [((ns, n, *m), (ns, n)) for m in more]
    elif kind == "build_option":
        for fam in (None, "MSFT", "GCC"):
            for tgt, tag, arch in (("*", "*", "*"), ("DEBUG", "*", "*"), ("*", "DEBUG", "*"), ("*", "*", "X64"), ("DEBUG", "VS", "X64")):
                for tool, attr in (("CC", "FLAGS"), ("CC", "PATH"), ("ASM", "FLAGS")):
                    for data, rep in (("/a", False), ("/b", True)):
                        out.append(((tool, attr, data, tgt, tag, arch, fam, rep), (fam, tgt, tag, arch, tool, attr)))
    elif kind == "default_store":
        out = [((i, v), int(i)) for i in (0, 1, "1", 2) for v in ("Standard", "Mfg")]
    elif kind == "sku_id":
        out = [((i, n, p), (i, n)) for i in (0, 1, 2) for n in ("DEFAULT", "A", "B") for p in ("DEFAULT", "A")]
    return out


KINDS = ["dsc_section_type", "dsc_buildoption_section_type", "dsc_pcd_section_type", "dsc_pcd_component_type", "component", "library", "definition", "library_class", "pcd", "pcd_typed",
         "pcd_variable", "build_option", "default_store", "sku_id"]
PCDS = ("pcd", "pcd_typed", "pcd_variable")


def mod():
    from edk2toollib.uefi.edk2.build_objects import dsc

    return dsc


def make(kind, args):
    return getattr(mod(), kind)(*args)


def same(k1, i1, k2, i2):
    if k1 in PCDS and k2 in PCDS:
        return i1 == i2
    if k1 != k2:
        return False
    if k1 == "sku_id":
        return i1[0] == i2[0] or i1[1] == i2[1]
    return i1 == i2


def gen_equal(tier):
    for a, b in itertools.product(KINDS, repeat=2):
        yield [a, b]


def run_equal(case, ctx):
    k1, k2 = case
    u1 = [(make(k1, a), a, i) for a, i in universe(k1)]
    u2 = [(make(k2, a), a, i) for a, i in universe(k2)]
    for (x, a, i), (y, b, j) in itertools.product(u1, u2):
        want = same(k1, i, k2, j)
        ctx.eq(x == y, want, f"{k1}{a} == {k2}{b}")
        ctx.eq(x != y, not want, f"{k1}{a} != {k2}{b}")
        if want:
            ctx.eq(hash(x), hash(y), f"hashes of {k1}{a} and {k2}{b}")
        ctx.state((k1, a, k2, b))
    for x, a, i in u1:
        for y in (None, "A", 0, a, i, object()):
            ctx.true(not x == y and x != y, f"{k1}{a} equals {y!r}")
        ctx.true(isinstance(repr(x), str), "repr")


# -- sets ----------------------------------------------------------------------------------------------------------

PICK = {
    "sku_id": [(0, "DEFAULT"), (1, "A"), (0, "A"), (2, "B"), (1, "B")],
    "definition": [("A", "1"), ("A", "2"), ("B", "1"), ("B", "1", True), ("C", "")],
    "library_class": [("A", "A.inf"), ("a", "B.inf"), ("NULL", "A.inf"), ("null", "A.inf"), ("NULL", "B.inf")],
    "component": [("A.inf",), ("B.inf",), ("A.inf",), ("a.inf",), ("B.inf",)],
    "library": [("A.inf",), ("B.inf",), ("A.inf",), ("a.inf",), ("B.inf",)],
    "default_store": [(0, "Standard"), (1, "A"), (0, "B"), ("1", "C"), (2, "A")],
    "build_option": [("CC", "FLAGS", "a"), ("CC", "FLAGS", "b"), ("CC", "FLAGS", "a", "DEBUG"), ("CC", "FLAGS", "c", "*", "*", "*", None, True), ("CC", "FLAGS", "a", "*", "*", "*", "MSFT")],
    "pcd": [("g", "A", "1"), ("g", "A", "2"), ("g", "B", "1"), ("h", "A", "1"), ("h", "A", "3")],
}


def gen_sets(tier):
    ops = [[o, i] for o in ("add", "discard") for i in range(5)]
    for kind in PICK:
        for k in (4,) if tier == "quick" else (5,):
            for c in itertools.product(range(len(ops)), repeat=k):
                if ops[c[0]][0] == "add":
                    yield [kind, [ops[i] for i in c]]


def run_sets(case, ctx):
    kind, ops = case
    ident = {}
    objs = []
    for a in PICK[kind]:
        o = make(kind, a)
        objs.append(o)
    if kind == "sku_id":
        keys = list(PICK[kind])
    elif kind == "definition":
        keys = [a[0] for a in PICK[kind]]
    elif kind == "library_class":
        keys = [("null", a[1]) if a[0].lower() == "null" else a[0].lower() for a in PICK[kind]]
    elif kind == "default_store":
        keys = [int(a[0]) for a in PICK[kind]]
    elif kind == "build_option":
        keys = [(a[0], a[1], *(list(a[3:]) + ["*", "*", "*", None][len(a[3:]):])[:4]) for a in PICK[kind]]
    elif kind == "pcd":
        keys = [a[:2] for a in PICK[kind]]
    else:
        keys = [a[0] for a in PICK[kind]]
    d = mod()
    s = d.dsc_set(allowed_classes=[type(objs[0])])
    model = []
    for op, i in ops:
        if op == "add":
            s.add(objs[i])
            model = [j for j in model if not same(kind, keys[j], kind, keys[i])] + [i]
        elif kind == "sku_id" and sum(same(kind, keys[j], kind, keys[i]) for j in model) > 1:
            continue  # which of two is discarded is open
        else:
            s.discard(objs[i])
            model = [j for j in model if not same(kind, keys[j], kind, keys[i])]
        ctx.eq(sorted(id(o) for o in s), sorted(id(objs[j]) for j in model), f"{kind} in the set after {ops}")
        ctx.eq(len(s), len(model), "size")
        for j in range(5):
            ctx.eq(objs[j] in s, any(same(kind, keys[j], kind, keys[m]) for m in model), "contains")
        ctx.state((kind, tuple(sorted(model))))


ATTRS = {
    "skus": ["definition", "sku_id"], "defines": ["definition"], "default_stores": ["definition", "default_store"],
    "components": ["component", "definition"], "libraries": ["library", "definition"], "library_classes": ["library_class", "definition"],
    "build_options": ["build_option", "definition"], "pcds": ["pcd", "pcd_typed", "pcd_variable"],
}
SECTIONS = {"components": "dsc_section_type", "libraries": "dsc_section_type", "library_classes": "dsc_section_type", "build_options": "dsc_buildoption_section_type", "pcds": "dsc_pcd_section_type"}
KEYS = {
    "dsc_section_type": [(), ("X64",), ("x64", "common"), ("common", "PEIM")], "dsc_buildoption_section_type": [(), ("X64", "EDKII"), ("x64", "edkii", "common"), ("IA32", "EDKII")],
    "dsc_pcd_section_type": [("DynamicHii",), ("DynamicHii", "X64", "S"), ("dynamichii", "X64", "s"), ("DynamicHii", "X64", "S", "Std")],
}
KEY_SAME = [0, 1, 1, 3]  # keys 1 and 2 are the same section


def gen_types(tier):
    for a in ATTRS:
        for k in KINDS:
            yield [a, k]


def run_types(case, ctx):
    attr, kind = case
    d = mod().dsc()
    box = getattr(d, attr)
    obj = make(kind, universe(kind)[0][0])
    if attr in SECTIONS:
        key = make(SECTIONS[attr], KEYS[SECTIONS[attr]][0])
        target = box[key]
    else:
        target = box
    ok = kind in ATTRS[attr]
    for _ in range(2):
        try:
            target.add(obj)
            added = True
        except ValueError:
            added = False
        ctx.eq(added, ok, f"adding a {kind} to {attr}")
        ctx.eq([id(o) for o in target], [id(obj)] if ok else [], f"{attr} after adding a {kind}")
    if attr in SECTIONS and kind.endswith("_type"):
        o = make(kind, universe(kind)[-1][0])
        for how in ("set", "get"):
            before = list(box)
            try:
                if how == "set":
                    box[o] = set()
                else:
                    box[o]
                added = True
            except ValueError:
                added = False
            if kind == SECTIONS[attr]:
                ctx.true(added, "a section was refused") if how == "set" else ctx.true(o in box, "no section")
            else:
                ctx.true(not added, f"{kind} as a section of {attr}")
                ctx.eq(list(box), before, "sections after a refused one")
    ctx.state(case)


def gen_dicts(tier):
    ops = [[o, i] for o in ("get", "new", "own", "wrong", "full", "del") for i in range(4)]
    for attr in SECTIONS:
        for c in itertools.product(range(len(ops)), repeat=3 if tier == "quick" else 4):
            if ops[c[0]][0] in ("get", "new", "own"):
                yield [attr, [ops[i] for i in c]]


def run_dicts(case, ctx):
    attr, ops = case
    m = mod()
    d = m.dsc()
    box = getattr(d, attr)
    classes = [getattr(m, x) for x in ATTRS[attr]]
    item = make(ATTRS[attr][0], universe(ATTRS[attr][0])[0][0])
    keys = [make(SECTIONS[attr], k) for k in KEYS[SECTIONS[attr]]]
    model = []  # [key, number of items]
    for op, i in ops:
        here = next((e for e in model if e[0] == KEY_SAME[i]), None)
        if op == "get":
            box[keys[i]].add(item)
            if here is None:
                model.append([KEY_SAME[i], 1])
            else:
                here[1] = 1
        elif op == "del":
            if here is not None:
                del box[keys[i]]
                model.remove(here)
        else:
            if op == "new":
                v = set()
            elif op == "own":
                v = m.dsc_set(allowed_classes=classes)
                v.add(item)
            elif op == "wrong":
                v = m.dsc_set(allowed_classes=[classes[0]])
                v.add(item)
            else:
                v = {item}
            try:
                box[keys[i]] = v
                done = True
            except ValueError:
                done = False
            ctx.eq(done, here is None and op in ("new", "own"), f"setting a section ({op}) of {attr} after {ops}")
            if done:
                model.append([KEY_SAME[i], 0 if op == "new" else 1])
        want = [(e[0], e[1]) for e in model]
        ctx.eq([(next(KEY_SAME[j] for j in range(4) if keys[j] == k), len(v)) for k, v in box.items()], want, f"sections of {attr} after {ops}")
        ctx.eq((len(box), len(list(box)), len(list(box.keys())), len(list(box.values()))), (len(want),) * 4, "number of sections")
        for j in range(4):
            ctx.eq(keys[j] in box, any(e[0] == KEY_SAME[j] for e in model), "is it a section")
        for v in box.values():
            ctx.true(isinstance(v, m.dsc_set), "a section is not a dsc_set")
            try:
                v.add(make("dsc_pcd_component_type", ("DYNAMIC",)))
                ctx.fail("a section accepts anything")
            except ValueError:
                pass
        ctx.state((attr, tuple(want)))


def gen_dsc(tier):
    attrs = ["skus", "defines", *[a for a in SECTIONS if a != "libraries"]]
    for p in itertools.product(range(3), repeat=len(attrs)):
        yield list(p)


def build(case, order, ctx):
    m = mod()
    d = m.dsc()
    attrs = ["skus", "defines", *[a for a in SECTIONS if a != "libraries"]]
    steps = [(a, j) for a, n in zip(attrs, case) for j in range(n)]
    for a, j in steps[::-1] if order else steps:
        kind = "sku_id" if a == "skus" else ATTRS[a][0]
        o = make(kind, {"sku_id": [(0, "DEFAULT"), (1, "A")], "pcd": [("g", "A", "1"), ("g", "B", "1")]}.get(kind, [PICK[kind][0], PICK[kind][2]] if kind != "component" else [("A.inf",), ("B.inf",)])[j])
        if a in SECTIONS:
            getattr(d, a)[make(SECTIONS[a], KEYS[SECTIONS[a]][j])].add(o)
        else:
            getattr(d, a).add(o)
    return d


def run_dsc(case, ctx):
    a, b = build(case, False, ctx), build(case, True, ctx)
    ctx.true(a == b and b == a and not a != b, "two DSCs with the same content differ")
    ctx.true(a != None and a != "x", "a DSC equals something else")  # noqa: E711
    for i in range(len(case)):
        for n in range(3):
            if n != case[i]:
                c = list(case)
                c[i] = n
                o = build(c, False, ctx)
                ctx.true(a != o and o != a and not a == o, f"two DSCs with different content are equal: {case} and {c}")
    ctx.state(case)


def gen_bad(tier):
    yield "all"


def run_bad(case, ctx):
    m = mod()

    def refused(f, *a):
        try:
            f(*a)
        except ValueError:
            ctx.state((f.__name__, a))
            return
        ctx.fail(f"{f.__name__}{a} was accepted")

    for t in ("", "DXE", "X64", "COMMON.PEIM"):
        refused(m.dsc_section_type, "X64", t)
        refused(m.dsc_buildoption_section_type, "X64", "EDKII", t)
        refused(m.dsc_buildoption_section_type, "X64", t or "EDK2", "PEIM")
        refused(m.dsc_pcd_section_type, t)
        refused(m.dsc_pcd_component_type, t)
    for t in m.dsc_pcd_types:
        if not t.endswith("HII"):
            refused(m.dsc_pcd_section_type, t, "X64", "DEFAULT", "Std")
        else:
            m.dsc_pcd_section_type(t, "X64", "DEFAULT", "Std")
    for k in range(0, 4):
        for c in itertools.product(("NV", "BS", "rt", " ro ", "XX", ""), repeat=k):
            for a in (list(c), ",".join(c)):
                if isinstance(a, str) and k == 0:
                    continue
                bad = "XX" in c or "" in c
                if bad:
                    refused(m.pcd_variable, "g", "A", "v", "u", "0", "1", a if isinstance(a, str) else tuple(a))
                else:
                    ctx.eq(m.pcd_variable("g", "A", "v", "u", "0", "1", a).attributes, [x.strip().upper() for x in c], "attributes")


# -- sizes: number of members of a set and of sections ----------------------------------------------------------


def gen_sizes(tier):
    for n in counts(tier, 300, 1):
        for kind in ("component", "library", "definition", "library_class", "pcd", "build_option", "default_store", "NULL"):
            yield [kind, n]
        for attr in SECTIONS:
            yield ["in " + attr, n]


def run_sizes(case, ctx):
    d = mod()
    kind, n = case

    def mk(i, other=False):
        args = {
            "component": lambda: (f"C{i}.inf",), "library": lambda: (f"C{i}.inf",), "definition": lambda: (f"N{i}", "2" if other else "1"),
            "library_class": lambda: (f"cLASS{i}" if other else f"Class{i}", "b.inf" if other else "a.inf"), "NULL": lambda: ("null" if other else "NULL", f"{i}.inf"),
            "pcd": lambda: ("gA", f"P{i}", "2" if other else "1"), "build_option": lambda: (f"T{i}", "FLAGS", "/b" if other else "/a"),
            "default_store": lambda: (i, "B" if other else "A"),
        }[kind]()
        return make("library_class" if kind == "NULL" else kind, args)

    if kind.startswith("in "):
        box = getattr(d.dsc(), kind[3:])
        t = SECTIONS[kind[3:]]
        key = {"dsc_pcd_section_type": lambda i, c: ("FixedAtBuild", "X64", (f"sKU{i}" if c else f"Sku{i}")), "dsc_section_type": lambda i, c: (f"aRCH{i}" if c else f"Arch{i}", "common"),
               "dsc_buildoption_section_type": lambda i, c: (f"aRCH{i}" if c else f"Arch{i}", "EDKII")}[t]
        what = ATTRS[kind[3:]][0]
        for i in range(n):
            box[make(t, key(i, False))].add(make(what, universe(what)[0][0]))
        ctx.eq(len(box), n, f"{n} sections")
        for i in range(n):
            ctx.eq(len(box[make(t, key(i, True))]), 1, f"section {i} of {n}")
        ctx.eq(len(box), n, f"{n} sections after looking at all")
    else:
        s = d.dsc_set(allowed_classes=[type(mk(0))])
        first = [mk(i) for i in range(n)]
        for o in first:
            s.add(o)
        ctx.eq(len(s), n, f"{n} members")
        later = [mk(i, True) for i in range(n)]
        for o in later:
            ctx.true(o in s, f"contains ({n} members)")
        for at in sorted({0, n // 2, n - 1}):
            s.add(later[at])
            ctx.eq(sorted(map(id, s)), sorted(id(later[i] if later[i] in [later[j] for j in range(n) if j <= at and j in (0, n // 2, n - 1)] else first[i]) for i in range(n)), f"member {at} of {n} replaced")
        s.discard(first[n // 2])
        ctx.eq((len(s), later[n // 2] in s, mk(n) in s), (n - 1, False, False), f"member {n // 2} of {n} removed")
    ctx.state(tuple(case))


SUITES = [
    Suite("sizes", gen_sizes, run_sizes, "number of members of a set, number of sections", "counts up to 24 and edges to 300, 8 kinds of members and 5 collections"),
    Suite("equal", gen_equal, run_equal, "== and != of all pairs, hashes of equal ones", "all pairs of 342 objects of 14 kinds"),
    Suite("sets", gen_sets, run_sets, "members after each operation", {"quick": "all histories of 4 additions and removals of 5 objects of 8 kinds", "thorough": "5 operations"}),
    Suite("types", gen_types, run_types, "which objects and sections are accepted", "all kinds of objects for all collections"),
    Suite("dicts", gen_dicts, run_dicts, "sections after each operation", {"quick": "all histories of 3 operations of 6 kinds on 4 sections of 5 collections", "thorough": "4 operations"}),
    Suite("dsc", gen_dsc, run_dsc, "equality of DSCs", "all DSCs with 0 to 2 members in 6 collections, against those that differ in one of them"),
    Suite("bad", gen_bad, run_bad, "refused arguments", "bad types, stores and attribute lists of <=3"),
]
