"""P03: macro references are replaced in place by the value in force; undefined ones are left alone (0 in !if)."""

import itertools
import os

from checks.common_parsers import edk2path, make_ws, write
from lib.mc import Suite, sequences
from lib.sizes import counts

PIECES = ["$(A)", "$(B)", "$(U)", "x", " ", "$", "(", ")", "A", "$(", "$( A)"]
# environments: name -> (input value, local value); None = not set
ENVS = [
    {"A": ["in", None], "B": ["q", None]},
    {"A": [None, "loc"], "B": [None, "r"]},
    {"A": ["in", "loc"], "B": [None, "r"]},
    {"A": ["", None], "B": ["true", None]},
    {"A": [None, "False"], "B": [None, None]},
    {"A": ["$(B)z", None], "B": ["q", None]},
    {"A": ["$(A)", None], "B": ["a $(B)", "r"]},
    {"A": [True, "x"], "B": [False, None]},
    {"A": [5, None], "B": [0, None]},
    {"A": ["$", None], "B": ["(B)", None]},
]


def value(env, name):
    """Value text of a macro or None: command line first, then the file's own definitions."""
    i, l = env.get(name, [None, None])
    v = i if i is not None else l
    if v is None:
        return None
    if isinstance(v, bool):
        return "TRUE" if v else "FALSE"
    v = str(v)
    return v.upper() if v.upper() in ("TRUE", "FALSE") else v


def expand(line, env, undefined=None):
    out, i = "", 0
    while i < len(line):
        if line.startswith("$(", i) and ")" in line[i:]:
            j = line.index(")", i)
            name = line[i + 2:j]
            v = value(env, name)
            if v is None:
                v = undefined if undefined is not None else line[i:j + 1]
            elif f"$({name})" in v:
                v = ""
            out += v
            i = j + 1
        else:
            out += line[i]
            i += 1
    return out


def gen_line(tier):
    n = 4 if tier == "quick" else 5
    for e in range(len(ENVS)):
        for head in ("", "!if ", "!elseif ", "DEFINE X = "):
            for a in PIECES:
                yield [e, head, a, n]


def run_line(case, ctx):
    """All lines of <= n pieces starting with the given piece."""
    from edk2toollib.uefi.edk2.parsers.base_parser import BaseParser

    e, head, first, n = case
    env = ENVS[e]
    p = BaseParser("")
    p.SetInputVars({k: v[0] for k, v in env.items() if v[0] is not None})
    p.LocalVars = {k: v[1] for k, v in env.items() if v[1] is not None}
    cnt = 0
    for rest in sequences(PIECES, n - 1):
        body = first + "".join(rest)
        line = head + body
        if head.startswith("!") and not body.strip():
            continue
        want = expand(line, env, "0" if head.startswith("!") else None)
        got = p.ReplaceVariables(line)
        cnt += 1
        if got != want:
            ctx.fail(f"{line!r} with {env}: got {got!r}, expected {want!r}")
        if "$(" in line:
            ctx.state((e, head, line))
    ctx.step(cnt)


def gen_def(tier):
    for e in range(len(ENVS)):
        for kw in ("!ifdef", "!ifndef", "!IFDEF", "!IfnDef"):
            for name in ("A", "B", "U", "X"):
                for form in ("{} {}", "{} $({})", "  {}   {}  ", "{}\t{}"):
                    yield [e, kw, name, form]


def run_def(case, ctx):
    from edk2toollib.uefi.edk2.parsers.base_parser import BaseParser

    e, kw, name, form = case
    env = ENVS[e]
    p = BaseParser("")
    p.SetInputVars({k: v[0] for k, v in env.items() if v[0] is not None})
    p.LocalVars = {k: v[1] for k, v in env.items() if v[1] is not None}
    defined = value(env, name) is not None
    p.ProcessConditional(p.ReplaceVariables(form.format(kw, name)))
    ctx.eq(p.InActiveCode(), defined == (kw.lower() == "!ifdef"), f"{kw} {name} with {env}")
    ctx.state((e, kw.lower(), name))


# -- chains of definitions in files --------------------------------------------------------------

VALUES = ["v", "$(A)a", "$(B)/b", "$(C)$(A)", "$(IN)i", "$(UNDEF)u", "x_DEFINE", "true"]


def assignments(names, vals, max_len):
    for n in range(1, max_len + 1):
        for ns in itertools.product(names, repeat=n):
            for vs in itertools.product(vals, repeat=n):
                yield [list(x) for x in zip(ns, vs)]


def gen_dsc(tier):
    yield from assignments("ABC", VALUES[:6] if tier == "quick" else VALUES, 2)
    yield from assignments("AB" if tier == "quick" else "ABC", VALUES[:5], 3)


def defined_before_use(prog, extra=()):
    seen = set(extra)
    for k, v in prog:
        for m in "ABC":
            if f"$({m})" in v and m not in seen:
                return False
        seen.add(k)
    return True


def run_dsc(case, ctx):
    from edk2toollib.uefi.edk2.parsers.dsc_parser import DscParser

    if not defined_before_use(case):
        return
    ws = make_ws(ctx)
    for inp in ({"IN": "in"}, {"IN": "in", "A": "inA"}):
        env = {k: [v, None] for k, v in inp.items()}
        for k, v in case:
            x = expand(v, env)
            env.setdefault(k, [None, None])[1] = x
        lines = ["[Defines]", "SUPPORTED_ARCHITECTURES = X64"]
        lines += [f"  DEFINE {k} = {v}" if i % 2 == 0 else f"  {k} = {v}" for i, (k, v) in enumerate(case)]
        lines += ["[Components.X64]", "  P/$(A)/$(B)/$(C)/m.inf"]
        f = write(os.path.join(ws, "TestPkg", "T.dsc"), "\n".join(lines) + "\n")
        d = DscParser().SetEdk2Path(edk2path(ws)).SetInputVars(dict(inp))
        d.ParseFile(f)
        want = expand("P/$(A)/$(B)/$(C)/m.inf", env)
        ctx.eq(d.SixMods, [want], f"expansion after {case} with {inp}")
        ctx.state(want)
        for k, _ in case:
            ctx.eq(d.LocalVars[k], env[k][1], f"value of {k}")


def gen_fdf(tier):
    base = list(assignments("AB", VALUES[:3] + VALUES[6:], 2))
    for glob in base:
        for loc in ([], [["A", "local"]], [["C", "$(A)c"]], [["B", "$(A)$(B)"]]):
            yield [glob, loc]


def run_fdf(case, ctx):
    from edk2toollib.uefi.edk2.parsers.fdf_parser import FdfParser

    glob, loc = case
    if not defined_before_use(glob):
        return
    ws = make_ws(ctx)
    use = "P/$(A)/$(B)/$(C)/m.inf"
    inp = {"IN": "in"}
    env = {"IN": ["in", None]}
    for k, v in glob:
        env.setdefault(k, [None, None])[1] = expand(v, env)
    lines = ["[Defines]"] + [f"  DEFINE {k} = {v}" for k, v in glob]
    lines += ["[FV.ONE]", "INF " + use] + [f"  DEFINE {k} = {v}" for k, v in loc] + ["INF " + use]
    lines += ["[FV.TWO]", "INF " + use]
    want1 = [expand(use, env)]
    genv = {k: list(v) for k, v in env.items()}
    for k, v in loc:
        if f"$({k})" in v and value(env, k) is None:
            return
        env.setdefault(k, [None, None])[1] = expand(v, env)
    want1.append(expand(use, env))
    f = write(os.path.join(ws, "TestPkg", "T.fdf"), "\n".join(lines) + "\n")
    d = FdfParser().SetEdk2Path(edk2path(ws)).SetInputVars(inp)
    d.ParseFile(f)
    ctx.eq(d.FVs["ONE"]["Infs"], want1, "FV with section-local definitions")
    ctx.eq(d.FVs["TWO"]["Infs"], [expand(use, genv)], "section-local definitions end with the section")
    for k, v in glob:
        ctx.eq(d.Dict[k], genv[k][1] if k in genv else None, f"[Defines] value of {k}")
    ctx.state((tuple(want1), tuple(sorted(d.Dict.items()))))


def gen_inf(tier):
    yield from assignments("AB", VALUES[:3] + VALUES[6:], 2 if tier == "quick" else 3)


def run_inf(case, ctx):
    from edk2toollib.uefi.edk2.parsers.inf_parser import InfParser

    if not defined_before_use(case) or len({k for k, _ in case}) != len(case):
        return
    ws = make_ws(ctx)
    env = {}
    for k, v in case:
        env.setdefault(k, [None, None])[1] = expand(v, env)
    use = "$(A)/$(B)/f.c"
    lines = ["[Defines]", "INF_VERSION = 1"] + [f"  DEFINE {k} = {v}" for k, v in case]
    lines += ["[Sources]", use, "[Sources.X64]", "x" + use, "[LibraryClasses]", "BaseLib"]
    f = write(os.path.join(ws, "TestPkg", "T.inf"), "\n".join(lines) + "\n")
    d = InfParser().SetEdk2Path(edk2path(ws))
    d.ParseFile(f)
    w = expand(use, env)
    ctx.eq(d.Sources, [w, "x" + w], "sources")
    ctx.eq(d.get_sources([]), [w], "common sources")
    ctx.eq(sorted(d.get_sources(["X64"])), sorted([w, "x" + w]), "X64 sources")
    ctx.state(w)


# -- names and sizes ---------------------------------------------------------------------------------

MACROS = ["A", "AA", "AB", "BA", "A_B", "A1", "1A", "a", "IF", "DEFINE", "TRUE", "B", "_A"]


def gen_names(tier):
    for a, b in itertools.permutations(MACROS, 2):
        yield [a, b]


def run_names(case, ctx):
    """Two macros never get into each other's way, whatever their names have in common."""
    from edk2toollib.uefi.edk2.parsers.base_parser import BaseParser
    from edk2toollib.uefi.edk2.parsers.dsc_parser import DscParser
    from edk2toollib.uefi.edk2.parsers.fdf_parser import FdfParser

    a, b = case
    for where in range(4):
        p = BaseParser("")
        (p.InputVars if where & 1 else p.LocalVars)[a] = "one"
        (p.InputVars if where & 2 else p.LocalVars)[b] = "two"
        for line, want in ((f"$({a})$({b})", "onetwo"), (f"x$({b})/$({a})y{a}", f"xtwo/oney{a}"), (f"$({a}{b}X) $({a})", f"$({a}{b}X) one"), (f"${a} ({b}) $({b})", f"${a} ({b}) two")):
            ctx.eq(p.ReplaceVariables(line), want, f"{line!r}")
            ctx.step()
        for name, v in ((a, True), (b, True), (a + b + "X", False)):
            q = BaseParser("")
            q.InputVars, q.LocalVars = dict(p.InputVars), dict(p.LocalVars)
            q.ProcessConditional(q.ReplaceVariables(f"!ifdef {name}"))
            ctx.eq(q.InActiveCode(), v, f"!ifdef {name}")
    if "DEFINE" in case:
        return
    ws = make_ws(ctx)
    f = write(os.path.join(ws, "TestPkg", "T.dsc"), f"[Defines]\nSUPPORTED_ARCHITECTURES = X64\nDEFINE {a} = one\nDEFINE {b} = two\n[Components.X64]\nP/$({a})/$({b}).inf\n")
    d = DscParser().SetEdk2Path(edk2path(ws))
    d.ParseFile(f)
    ctx.eq(d.SixMods, ["P/one/two.inf"], "DSC")
    f = write(os.path.join(ws, "TestPkg", "T.fdf"), f"[Defines]\nDEFINE {a} = one\nDEFINE {b} = two\n[FV.X]\nINF P/$({a})/$({b}).inf\n")
    d = FdfParser().SetEdk2Path(edk2path(ws))
    d.ParseFile(f)
    ctx.eq(d.FVs["X"]["Infs"], ["P/one/two.inf"], "FDF")
    ctx.state(repr(case))


def gen_sizes(tier):
    for what in ("macros", "chain", "references", "name length", "value length", "redefinitions", "input"):
        for n in counts(tier, 257 if tier == "quick" else 1025, low=1):
            if what not in ("chain", "value length") or n <= 257:
                yield [what, n]


def run_sizes(case, ctx):
    from edk2toollib.uefi.edk2.parsers.dsc_parser import DscParser
    from edk2toollib.uefi.edk2.parsers.fdf_parser import FdfParser

    what, n = case
    inp = {}
    if what == "macros":
        defs, use, want = [(f"M{i}", f"v{i}") for i in range(n)], "/".join(f"$(M{i})" for i in range(n)), "/".join(f"v{i}" for i in range(n))
    elif what == "chain":
        defs, use, want = [("M0", "v")] + [(f"M{i}", f"$(M{i - 1}){i % 10}") for i in range(1, n)], f"$(M{n - 1})", "v" + "".join(str(i % 10) for i in range(1, n))
    elif what == "references":
        defs, use, want = [("M", "v")], "$(M)/" * n, "v/" * n
    elif what == "name length":
        defs, use, want = [("M" * n, "v"), ("M" * (n + 1), "w")], f"$({'M' * n})$({'M' * (n + 1)})$({'M' * (n + 2)})", f"vw$({'M' * (n + 2)})"
    elif what == "value length":
        defs, use, want = [("M", "v" * n)], "$(M)/$(M)", "v" * n + "/" + "v" * n
    elif what == "redefinitions":
        defs, use, want = [("M", f"v{i}") for i in range(n)], "$(M)", f"v{n - 1}"
    else:
        inp = {f"M{i}": f"in{i}" for i in range(n)}
        defs, use, want = [(f"M{i}", f"v{i}") for i in range(n + 1)], "/".join(f"$(M{i})" for i in range(n + 1)), "/".join([f"in{i}" for i in range(n)] + [f"v{n}"])
    ws = make_ws(ctx)
    head = ["[Defines]"] + [f"DEFINE {k} = {v}" for k, v in defs]
    f = write(os.path.join(ws, "TestPkg", "T.dsc"), "\n".join(head + ["SUPPORTED_ARCHITECTURES = X64", "[Components.X64]", f"P/{use}.inf"]) + "\n")
    d = DscParser().SetEdk2Path(edk2path(ws)).SetInputVars(dict(inp))
    d.ParseFile(f)
    ctx.eq(d.SixMods, [f"P/{want}.inf"], "DSC")
    f = write(os.path.join(ws, "TestPkg", "T.fdf"), "\n".join(head + ["[FV.X]", f"INF P/{use}.inf"]) + "\n")
    d = FdfParser().SetEdk2Path(edk2path(ws)).SetInputVars(dict(inp))
    d.ParseFile(f)
    ctx.eq(d.FVs["X"]["Infs"], [f"P/{want}.inf"], "FDF")
    ctx.state(repr(case))


SUITES = [
    Suite("names", gen_names, run_names, "pairs of macros with similar names", "13 x 12 names"),
    Suite("sizes", gen_sizes, run_sizes, "numbers of macros, references and redefinitions, lengths of names, values and chains", {"quick": "every number up to 24 and 12 edges up to 257", "thorough": "every number up to 72 and edges up to 1025"}),
    Suite("ifdef", gen_def, run_def, "!ifdef / !ifndef", "all environments"),
    Suite("line", gen_line, run_line, "reference replacement in one line", {"quick": "<=4 pieces", "thorough": "<=5 pieces"}),
    Suite("dsc", gen_dsc, run_dsc, "chains of DSC definitions", "<=3 definitions"),
    Suite("fdf", gen_fdf, run_fdf, "FDF global and section-local definitions", "<=2+1 definitions"),
    Suite("inf", gen_inf, run_inf, "INF definitions", "<=2 (3) definitions"),
]
ASSUMPTIONS = ["a macro is defined before it is used in a definition"]
