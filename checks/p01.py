"""P01: conditional directives select exactly one branch, in nested blocks, histories of blocks and macros."""

import itertools
import os

from checks.common_parsers import edk2path, make_ws, write
from lib.mc import Suite
from lib.sizes import counts

HEADS = ["ifT", "ifF", "ifU", "ifdefD", "ifdefU", "ifndefD", "ifndefU"]
ELIFS = [[], ["T"], ["F"], ["F", "T"], ["T", "F"], ["F", "F"], ["T", "T"]]
COND = {"T": '$(YES) == "YES"', "F": '$(YES) == "NO"', "U": "$(UNDEFINED_MACRO)"}


def blocks(heads=HEADS, elifs=ELIFS, elses=(False, True)):
    for h in heads:
        for e in elifs:
            for el in elses:
                yield {"h": h, "e": e, "else": el, "n": None}


def nbranches(b):
    return 1 + len(b["e"]) + (1 if b["else"] else 0)


def nested(depth, inner_heads, inner_elifs, **kw):
    """All blocks with nesting depth exactly `depth` (one nested block in one branch)."""
    if depth == 1:
        yield from blocks(**kw)
        return
    for b in blocks(**kw):
        for i in range(nbranches(b)):
            for inner in nested(depth - 1, inner_heads, inner_elifs, heads=inner_heads, elifs=inner_elifs):
                yield {**b, "n": [i, inner]}


# -- reference model -----------------------------------------------------------------------------


class Prog:
    """Renders a block tree into lines and evaluates it (a plain recursive interpreter)."""

    def __init__(self, case_fold=False):
        self.lines = []
        self.live = []
        self.marks = []
        self.n = 0
        self.macros = {}

    def mark(self, active):
        self.n += 1
        self.marks.append(self.n)
        self.lines.append(("mark", self.n))
        if active:
            self.live.append(self.n)

    def block(self, b, active):
        h = b["h"]
        text, val = {
            "ifT": (f"!if {COND['T']}", True),
            "ifF": (f"!if {COND['F']}", False),
            "ifU": (f"!if {COND['U']}", False),
            "ifdefD": ("!ifdef YES", True),
            "ifdefU": ("!ifdef UNDEFINED_MACRO", False),
            "ifndefD": ("!ifndef $(YES)", False),
            "ifndefU": ("!ifndef UNDEFINED_MACRO", True),
            "ifdefM": ("!ifdef MAC", "MAC" in self.macros),
            "ifndefM": ("!ifndef MAC", "MAC" not in self.macros),
            "ifM1": ('!if $(MAC) == "one"', self.macros.get("MAC") == "one"),
            "ifM2": ('!if $(MAC) == "two"', self.macros.get("MAC") == "two"),
        }[h]
        branches = [(text, val)]
        for e in b["e"]:
            branches.append((f"!elseif {COND[e]}", e == "T"))
        if b["else"]:
            branches.append(("!else", True))
        taken = False
        for i, (t, v) in enumerate(branches):
            self.lines.append(("dir", t))
            mine = active and v and not taken
            taken = taken or v
            d = b.get("d")
            if d and d[0] == i:
                self.lines.append(("define", d[1]))
                if mine:
                    self.macros["MAC"] = d[1]
            if b["n"] and b["n"][0] == i:
                self.mark(mine)
                self.block(b["n"][1], mine)
            self.mark(mine)
        self.lines.append(("dir", "!endif"))


def model(case):
    p = Prog()
    p.mark(True)
    for b in case:
        p.block(b, True)
        p.mark(True)
    return p


def run_dsc(case, ctx):
    from edk2toollib.uefi.edk2.parsers.dsc_parser import DscParser

    ws = make_ws(ctx)
    p = model(case)
    ctx.state((tuple(p.live), tuple(sorted(p.macros.items()))))
    out = ["[Defines]", "SUPPORTED_ARCHITECTURES = X64", "DEFINE YES = YES", "[BuildOptions]"]
    body = []
    for k, v in p.lines:
        if k == "mark":
            body.append(f"  TestPkg/M{v}.inf")
        elif k == "define":
            body.append(None)
        else:
            body.append(v)
    out = ["[Defines]", "SUPPORTED_ARCHITECTURES = X64", "DEFINE YES = YES", "[Components.X64]"] + body
    f = write(os.path.join(ws, "TestPkg", "T.dsc"), "\n".join(out) + "\n")
    d = DscParser().SetEdk2Path(edk2path(ws))
    d.ParseFile(f)
    ctx.eq(d.SixMods, [f"TestPkg/M{i}.inf" for i in p.live], "components in active code")
    ctx.eq([c[0] for c in d.Components], [f"TestPkg/M{i}.inf" for i in p.live], "component list")
    ctx.step(len(p.lines))


def run_dsc_defines(case, ctx):
    """Markers and macros are [Defines] entries."""
    from edk2toollib.uefi.edk2.parsers.dsc_parser import DscParser

    ws = make_ws(ctx)
    p = model(case)
    ctx.state((tuple(p.live), tuple(sorted(p.macros.items()))))
    out = ["[Defines]", "SUPPORTED_ARCHITECTURES = X64", "DEFINE YES = YES"]
    for k, v in p.lines:
        out.append({"mark": f"  MARK{v} = seen", "define": f"  DEFINE MAC = {v}", "dir": v}[k])
    f = write(os.path.join(ws, "TestPkg", "T.dsc"), "\n".join(out) + "\n")
    d = DscParser().SetEdk2Path(edk2path(ws))
    d.ParseFile(f)
    got = sorted(int(k[4:]) for k in d.LocalVars if k.startswith("MARK"))
    ctx.eq(got, p.live, "definitions made in active code")
    ctx.eq(d.LocalVars.get("MAC"), p.macros.get("MAC"), "value of the macro")
    ctx.step(len(p.lines))


def run_fdf(case, ctx):
    from edk2toollib.uefi.edk2.parsers.fdf_parser import FdfParser

    ws = make_ws(ctx)
    p = model(case)
    ctx.state((tuple(p.live), tuple(sorted(p.macros.items()))))
    out = ["[FV.TEST]"]
    for k, v in p.lines:
        out.append({"mark": f"  INF TestPkg/M{v}.inf", "define": f"  DEFINE MAC = {v}", "dir": v}[k])
    f = write(os.path.join(ws, "TestPkg", "T.fdf"), "\n".join(out) + "\n")
    d = FdfParser().SetEdk2Path(edk2path(ws)).SetInputVars({"YES": "YES"})
    d.ParseFile(f)
    ctx.eq(d.FVs["TEST"]["Infs"], [f"TestPkg/M{i}.inf" for i in p.live], "INFs in active code")
    ctx.step(len(p.lines))


def run_api(case, ctx):
    """Line-by-line: the parser reports a line active exactly when the model does."""
    from edk2toollib.uefi.edk2.parsers.base_parser import BaseParser

    p = model(case)
    b = BaseParser("")
    b.SetInputVars({"YES": "YES"})
    live = []
    for k, v in p.lines:
        if k == "dir":
            ctx.eq(b.ProcessConditional(b.ReplaceVariables(v)), True, f"{v} is a directive")
        elif k == "mark":
            ctx.eq(b.ProcessConditional(b.ReplaceVariables(f"Pkg/M{v}.inf")), False, "content is no directive")
            active = b.InActiveCode()
            ctx.state((tuple(live), active))
            ctx.eq(active, v in p.live, f"marker {v} active")
            live.append(active)
    ctx.eq(b.InActiveCode(), True, "after the last !endif")


def gen_nest(tier):
    for b in blocks():
        yield [b]
    yield from ([b] for b in nested(2, ["ifT", "ifF", "ifdefD", "ifndefU"], ELIFS[:5] if tier == "quick" else ELIFS))


def gen_deep(tier):
    h = ["ifT", "ifF"] if tier == "quick" else ["ifT", "ifF", "ifdefD", "ifndefD"]
    e = [[], ["T"]] if tier == "quick" else [[], ["T"], ["F", "T"]]
    yield from ([b] for b in nested(3, h, e, heads=h, elifs=e))


def gen_seq(tier):
    bs = list(blocks(heads=["ifT", "ifF", "ifdefD", "ifndefD"], elifs=ELIFS[:4]))
    for a, b in itertools.product(bs, repeat=2):
        yield [a, b]


def gen_macro(tier):
    """A macro defined in one branch decides a later block (definition before use only)."""
    second = list(blocks(heads=["ifdefM", "ifndefM", "ifM1", "ifM2"], elifs=[[], ["T"], ["F"]]))
    for a in blocks(heads=["ifT", "ifF", "ifdefD", "ifdefU"], elifs=ELIFS[:5]):
        for i in range(nbranches(a)):
            for val in ("one", "two"):
                for b in second:
                    yield [{**a, "d": [i, val]}, b]


# -- every sequence of directives ------------------------------------------------------------------
DIRS = ["!if 1", "!if 0", "!ifdef YES", "!ifndef YES", "!elseif 1", "!elseif 0", "!else", "!endif"]
BADDIRS = ["!else 1", "!endif 1", "!ifdef", "!ifndef", "!ifdef YES NO", "!ifndef YES NO", "!if", "!elseif 1 1", "!if 1 1"]
KEYWORDS = [str, str.upper, lambda s: s.replace("if", "If").replace("e", "E", 1), lambda s: "  " + s.replace(" ", " \t") + "  "]


def gen_dirs(tier):
    n = 5 if tier == "quick" else 6
    for k in (1, 2):
        for pre in itertools.product(DIRS, repeat=k):
            yield ["api", list(pre), 0 if k == 1 else n - 2]
    for k in (1, 2, 3) if tier == "quick" else (1, 2, 3, 4):
        for pre in itertools.product(DIRS, repeat=k):
            for kind in ("dsc", "fdf", "defines"):
                yield [kind, list(pre), 0]


def activity(dirs):
    """Activity after each directive; "refused" ends it, None when it is not defined (a branch after !else)."""
    stack = []  # [active around, taken, active, seen else]
    out = []
    for d in dirs:
        active = all(b[2] for b in stack)
        word, *rest = d.split()
        if d in BADDIRS:
            # a condition is only looked at when it decides something
            out.append("refused" if word != "!elseif" or (stack and not stack[-1][1] and not stack[-1][3]) else None)
            return out
        if word.startswith("!if"):
            v = {"!if 1": True, "!if 0": False, "!ifdef YES": True, "!ifndef YES": False}[d]
            stack.append([active, v, v, False])
        elif not stack:
            out.append("refused")
            return out
        elif word == "!endif":
            stack.pop()
        elif stack[-1][3]:
            out.append(None)
            return out
        else:
            b = stack[-1]
            b[3] = word == "!else"
            v = b[3] or rest == ["1"]
            b[1], b[2] = b[1] or v, v and not b[1]
        out.append(all(b[2] for b in stack))
    return out


def run_dirs(case, ctx):
    from edk2toollib.uefi.edk2.parsers.base_parser import BaseParser
    from edk2toollib.uefi.edk2.parsers.dsc_parser import DscParser
    from edk2toollib.uefi.edk2.parsers.fdf_parser import FdfParser

    kind, pre, more = case
    if kind == "api":
        n = 0
        b = BaseParser("")
        b.SetInputVars({"YES": "1"})
        for k in range(more + 1):
            for t in itertools.product(DIRS, repeat=k):
                dirs = pre + list(t)
                for bad in [None] + (BADDIRS if k < more else []):
                    seq = dirs + ([bad] if bad else [])
                    want = activity(seq)
                    got = []
                    b.ResetParserState()
                    for i, (d, w) in enumerate(zip(seq, want)):
                        if w is None:
                            break
                        try:
                            ok = b.ProcessConditional(b.ReplaceVariables(KEYWORDS[(i + k) % 4](d) if d not in BADDIRS else d))
                            got.append(b.InActiveCode() if ok else "no directive")
                        except Exception:
                            got.append("refused")
                    n += len(got)
                    if got != want[: len(got)]:
                        ctx.fail(f"{seq}: {got}, expected {want}")
                    ctx.state((tuple(want[-3:]), len(want)))
        ctx.step(n)
        return
    ws = make_ws(ctx)
    for bad in [None, *BADDIRS]:
        dirs = pre + ([bad] if bad else [])
        want = activity(dirs)
        if None in want:
            continue
        lines = ["M0"] + [x for i, d in enumerate(dirs) for x in (KEYWORDS[i % 4](d), f"M{i + 1}")]
        live = [0] + [i + 1 for i, w in enumerate(want) if w is True]
        text = {"dsc": ["[Defines]", "SUPPORTED_ARCHITECTURES = X64", "[Components.X64]"], "defines": ["[Defines]"], "fdf": ["[FV.TEST]"]}[kind]
        form = {"dsc": "TestPkg/{}.inf", "fdf": "INF TestPkg/{}.inf", "defines": "DEFINE {} = 1"}[kind]
        text = text + [form.format(x) if x.startswith("M") else x for x in lines]
        f = write(os.path.join(ws, "TestPkg", "T." + kind), "\n".join(text) + "\n")
        d = (FdfParser if kind == "fdf" else DscParser)().SetEdk2Path(edk2path(ws)).SetInputVars({"YES": "1"})
        try:
            d.ParseFile(f)
            refused = False
        except Exception:
            refused = True
        ctx.eq(refused, "refused" in want, f"{dirs} refused")
        ctx.step(len(want))
        if refused:
            continue
        got = {"dsc": lambda: list(d.SixMods), "fdf": lambda: list(d.FVs["TEST"]["Infs"]), "defines": lambda: [k for k in d.LocalVars if k.startswith("M")]}[kind]()
        ctx.eq(got, [("M{}" if kind == "defines" else "TestPkg/M{}.inf").format(i) for i in live], f"content of {dirs} that takes effect")


# -- sizes ------------------------------------------------------------------------------------------


def sized(what, n):
    leaf = {"h": "ifT", "e": [], "else": True, "n": None}
    if what == "sequence":
        return [{"h": ("ifT", "ifF", "ifdefD", "ifdefU")[i % 4], "e": [], "else": i % 2 == 1, "n": None} for i in range(n)]
    if what == "elseif, none":
        return [{"h": "ifF", "e": ["F"] * n, "else": True, "n": None}, leaf]
    if what == "elseif, last":
        return [{"h": "ifF", "e": ["F"] * n + ["T"], "else": True, "n": None}, leaf]
    if what == "elseif, first":
        return [{"h": "ifF", "e": ["T"] + ["F"] * n, "else": True, "n": None}, leaf]
    if what == "elseif, all":
        return [{"h": "ifT", "e": ["T"] * n, "else": True, "n": None}, leaf]
    b = leaf
    for i in range(n):
        kind, branch = {"nested in then": ("ifT", 0), "nested in else": ("ifF", 1), "nested, inactive": ("ifT" if i else "ifF", 0), "nested, dead else": ("ifT", 1),
                        "nested, outermost dead": ("ifF" if i == n - 1 else "ifT", 0)}[what]
        b = {"h": kind, "e": [], "else": True, "n": [branch, b]}
    return [b, leaf]


def gen_sizes(tier):
    for what in ("sequence", "elseif, none", "elseif, last", "elseif, first", "elseif, all"):
        for n in counts(tier, 129 if tier == "quick" else 1025):
            yield [what, n]
    for what in ("nested in then", "nested in else", "nested, inactive", "nested, dead else", "nested, outermost dead"):
        for n in counts(tier, 101 if tier == "quick" else 129):
            yield [what, n]


def run_sizes(case, ctx):
    prog = sized(*case)
    for f in (run_dsc, run_dsc_defines, run_fdf, run_api):
        f(prog, ctx)


SUITES = [
    Suite("sizes", gen_sizes, run_sizes, "numbers of blocks and branches, depth of nesting", {"quick": "10 kinds x every number up to 24 and 6 edges up to 129", "thorough": "every number up to 72 and edges up to 1025 blocks, 129 levels"}),
    Suite("directives", gen_dirs, run_dirs, "every sequence of directives, in any case and spacing, with a malformed one at the end", {"quick": "<=5 of 8 line by line, <=3 in DSC and FDF files, 9 malformed", "thorough": "<=6 of 8 line by line, <=4 in DSC and FDF files, 9 malformed"}),
    Suite("api", gen_nest, run_api, "nested blocks, line by line", "nesting depth 2, <=2 !elseif, optional !else"),
    Suite("api-deep", gen_deep, run_api, "nested blocks, line by line", "nesting depth 3"),
    Suite("dsc", gen_nest, run_dsc, "DSC components inside nested blocks", "nesting depth 2"),
    Suite("dsc-defines", gen_macro, run_dsc_defines, "macro defined inside a branch decides a later block", "2 blocks"),
    Suite("fdf", gen_nest, run_fdf, "FDF INF statements inside nested blocks", "nesting depth 2"),
    Suite("fdf-macro", gen_macro, run_fdf, "macro defined inside a branch decides a later block", "2 blocks"),
    Suite("dsc-seq", gen_seq, run_dsc, "two consecutive blocks", "2 blocks"),
]
ASSUMPTIONS = ["conditions are well formed; a macro is defined before the block that tests it"]
