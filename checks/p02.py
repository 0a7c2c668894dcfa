"""P02: value of !if expressions against a recursive-descent reference evaluator."""

import itertools

from lib.mc import Suite
from lib.sizes import counts

# -- reference -----------------------------------------------------------------------------------


class OutOfDomain(Exception):
    pass


def lit(tok):
    """Value of an operand token."""
    s = tok[1:-1] if tok.startswith('"') else tok
    if s.upper() == "TRUE":
        return 1
    if s.upper() == "FALSE":
        return 0
    try:
        return int(s, 16) if s.lower().startswith("0x") else int(s)
    except ValueError:
        return s


def rawstr(tok):
    return tok[1:-1] if tok.startswith('"') else tok


CMP = {"==", "!=", "<", "<=", ">", ">=", "IN"}


class Ref:
    """expr := item {(AND|OR) item};  item := NOT expr-to-end-of-group | cmp;  cmp := prim {op prim}, left to right.

    'x NOT op y' is the negation of 'x op y'.
    """

    def __init__(self, toks):
        self.t = toks
        self.i = 0

    def peek(self):
        return self.t[self.i] if self.i < len(self.t) else None

    def expr(self):
        v = self.item()
        while True:
            neg = False
            p = self.peek()
            if p == "NOT" and self.i + 1 < len(self.t) and self.t[self.i + 1] in ("AND", "OR"):
                neg = True
                self.i += 1
                p = self.peek()
            if p not in ("AND", "OR"):
                return v
            self.i += 1
            w = self.item()
            for x in (v, w):
                if x[1] not in (0, 1, True, False):
                    if not isinstance(x[1], int):
                        raise OutOfDomain
                    nonbool = True
            a, b = bool(v[1]), bool(w[1])
            r = (a and b) if p == "AND" else (a or b)
            # the value of AND/OR over integers other than 0/1 is only defined as a truth value
            pure = all(x[1] in (0, 1) and x[2] for x in (v, w))
            v = (None, int(r != neg), pure or neg)

    def item(self):
        if self.peek() == "NOT":
            self.i += 1
            v = self.expr()
            if not isinstance(v[1], int):
                raise OutOfDomain
            return (None, int(not v[1]), True)
        return self.cmp()

    def cmp(self):
        v = self.prim()
        while True:
            neg = False
            p = self.peek()
            if p == "NOT" and self.i + 1 < len(self.t) and self.t[self.i + 1] in CMP:
                neg = True
                self.i += 1
                p = self.peek()
            if p not in CMP:
                return v
            self.i += 1
            if self.peek() == "NOT":
                w = self.item()
            else:
                w = self.prim()
            v = (None, int(self.compare(v, p, w) != neg), True)

    @staticmethod
    def compare(v, op, w):
        if not v[2] or not w[2]:
            raise OutOfDomain
        if op == "IN":
            if v[0] is None or w[0] is None:
                raise OutOfDomain
            return rawstr(v[0]) in rawstr(w[0])
        if op == "==":
            return v[1] == w[1]
        if op == "!=":
            return v[1] != w[1]
        for x in (v, w):
            if not isinstance(x[1], int) or (x[0] and rawstr(x[0]).upper() in ("TRUE", "FALSE")):
                raise OutOfDomain
        return {"<": v[1] < w[1], "<=": v[1] <= w[1], ">": v[1] > w[1], ">=": v[1] >= w[1]}[op]

    def prim(self):
        p = self.t[self.i]
        self.i += 1
        if p == "(":
            v = self.expr()
            assert self.t[self.i] == ")"
            self.i += 1
            return (None, v[1], v[2]) if v[0] is None else v
        return (p, lit(p), True)


def ref(toks):
    r = Ref(toks)
    v = r.expr()
    assert r.i == len(toks), toks
    if not isinstance(v[1], int):
        raise OutOfDomain
    return bool(v[1])


# -- the space of expressions ----------------------------------------------------------------------

# groupings of n operands, as operand-index spans put in parentheses
GROUPS = {
    1: [[], [(0, 0)]],
    2: [[], [(0, 1)], [(0, 0), (1, 1)]],
    3: [[], [(0, 1)], [(1, 2)], [(0, 2)], [(0, 2), (1, 2)]],
    4: [[], [(0, 1)], [(1, 2)], [(2, 3)], [(0, 1), (2, 3)], [(0, 2)], [(1, 3)], [(1, 3), (2, 3)], [(0, 2), (1, 2)]],
}


def build(operands, ops, nots, group, inv=()):
    """Token list: nots[i] prefix NOT before operand i (before its opening parentheses)."""
    out = []
    for i, o in enumerate(operands):
        out += ["NOT"] * nots[i]
        out += ["("] * sum(1 for a, b in group if a == i)
        out.append(o)
        out += [")"] * sum(1 for a, b in group if b == i)
        if i < len(ops):
            if i in inv:
                out.append("NOT")
            out.append(ops[i])
    return out


def run_tokens(case, ctx):
    """case: [operand alphabet, ops, nots, group, inv]; all operand assignments are evaluated."""
    from edk2toollib.uefi.edk2.parsers.base_parser import BaseParser

    alpha, ops, nots, group, inv = case
    p = BaseParser("")
    ok = 0
    for operands in itertools.product(alpha, repeat=len(ops) + 1):
        toks = build(operands, ops, nots, group, inv)
        try:
            want = ref(toks)
        except OutOfDomain:
            continue
        text = "!if " + " ".join(toks)
        p.ProcessConditional(text)
        got = p.InActiveCode()
        p.ResetParserState()
        ok += 1
        if got != want:
            ctx.fail(f"{text}: parser says {got}, reference {want}")
        ctx.state((tuple(ops), tuple(operands), want))
    ctx.step(ok)


def nots_of(n, maxnots):
    for t in itertools.product((0, 1, 2), repeat=n):
        if sum(t) <= maxnots:
            yield list(t)


def gen_num(tier):
    OPS = ["==", "!=", "<", ">=", "AND", "OR"]
    for n in (1, 2, 3):
        for g in GROUPS[n]:
            for ops in itertools.product(OPS + (["<=", ">"] if n < 3 or tier == "thorough" else []), repeat=n - 1):
                for nots in nots_of(n, 2):
                    yield [["0", "1", "2"], list(ops), nots, g, []]
    ops4 = ["==", "<", "AND", "OR"] if tier == "quick" else ["==", "!=", "<", ">=", "AND", "OR"]
    for g in GROUPS[4] if tier == "thorough" else GROUPS[4][:6]:
        for ops in itertools.product(ops4, repeat=3):
            for nots in nots_of(4, 1 if tier == "quick" else 2):
                yield [["0", "1", "2"] if tier == "thorough" else ["0", "2"], list(ops), nots, g, []]


def gen_bool(tier):
    for n in (1, 2, 3, 4):
        for g in GROUPS[n]:
            for ops in itertools.product(["AND", "OR", "==", "!="], repeat=n - 1):
                for nots in nots_of(n, 2 if n < 4 or tier == "thorough" else 1):
                    yield [["TRUE", "FALSE"], list(ops), nots, g, []]


def gen_str(tier):
    A = ['"A"', "A", '"a"', '"A B"', '""', "AB", '"1"', "0x1", "1", "TRUE", "true"]
    for ops in (["=="], ["!="], ["IN"]):
        for g in GROUPS[2]:
            for inv in ([], [0]):
                yield [A, ops, [0, 0], g, inv]
                yield [A, ops, [1, 0], [], inv]
    # strings compared in several terms joined by logical operators
    B = ['"A"', "B", '"AB"']
    for c1, lo, c2 in itertools.product(["==", "!=", "IN"], ["AND", "OR"], ["==", "!=", "IN"]):
        for g in ([], [(0, 1)], [(2, 3)], [(0, 1), (2, 3)]):
            for inv in ([], [0], [2], [0, 2], [1]):
                for nots in ([0, 0, 0, 0], [1, 0, 0, 0], [0, 0, 1, 0]):
                    yield [B, [c1, lo, c2], nots, g, inv]


NUMS = ["0", "1", "00", "0x0", "0X1", "0x10", "16", "0x0F", "15", "100", "0xFFFFFFFF", "4294967295", "99", "9"]


def gen_spell(tier):
    """Every spelling and spacing of every operator."""
    sp = {"==": ["==", "EQ", "eq"], "!=": ["!=", "NE", "ne"], "<": ["<"], "<=": ["<="], ">": [">"], ">=": [">="],
          "AND": ["AND", "and", "&&", "And"], "OR": ["OR", "or", "||"], "IN": ["IN", "in", "In"]}
    spaces = [" ", "  ", "\t", ""]
    for op, forms in sp.items():
        operands = [("1", "1"), ("1", "0"), ("0", "1"), ("0", "0")]
        if op == "IN":
            operands = [('"A"', '"AB"'), ('"C"', "AB")]
        if op in ("==", "!="):
            operands += [('"A B"', '"A B"'), ('"A(B"', '"A)B"'), ('""', '""'), ("A", "A")]
        for form in forms:
            for l, r in itertools.product(spaces, repeat=2):
                if form[0].isalpha() and not (l and r):
                    continue
                if form in ("&&", "||") and not (l and r):
                    continue
                for a, b in operands:
                    for pre, post in (("", ""), ("(", ")"), ("( ", " )"), ("NOT (", ")"), ("!(", ")"), ("not(", ")"), ("Not ", "")):
                        for kw in ("!if ", "!IF ", "!If\t", "  !if  ") if pre == "" else ("!if ",):
                            yield [kw + pre + a + l + form + r + b + post,
                                   (["NOT"] if pre.strip(" (") else []) + (["("] if "(" in pre else []) + [a, op, b]
                                   + ([")"] if post else [])]
    for a, b in itertools.product(NUMS, repeat=2):
        for op in ("==", "!=", "<", "<=", ">", ">="):
            yield [f"!if {a} {op} {b}", [a, op, b]]


def run_spell(case, ctx):
    from edk2toollib.uefi.edk2.parsers.base_parser import BaseParser

    text, toks = case
    want = ref(toks)
    p = BaseParser("")
    ctx.eq(p.ProcessConditional(p.ReplaceVariables(text)), True, "is a directive")
    ctx.eq(p.InActiveCode(), want, f"value of {text!r}")
    ctx.state((tuple(toks), want))


def gen_bad(tier):
    good = [["1"], ["1", "==", "1"], ["1", "AND", "0"], ["NOT", "1"], ["(", "1", "OR", "0", ")"], ["1", "<", "2", "OR", "0"]]
    for g in good:
        for op in ["==", "!=", "<", ">=", "AND", "OR", "IN"]:
            yield " ".join(g + [op])
            yield " ".join([op] + g)
        yield " ".join(g + [")"])
        yield " ".join(["("] + g)
        yield " ".join(g + ["7"])
    for a in ['"A"', "A", "TRUE", "FALSE", "A1"]:
        for op in ("<", "<=", ">", ">="):
            yield f"{a} {op} 1"
            yield f"1 {op} {a}"
    for op in ("<>", "=>", "=<", "=", "!==", "===", "=!"):
        yield f"1 {op} 1"
    yield ""
    yield "ABC"
    yield '"ABC"'
    yield "()"


def run_bad(case, ctx):
    from edk2toollib.uefi.edk2.parsers.base_parser import BaseParser

    p = BaseParser("")
    ctx.state(case)
    ctx.step()
    try:
        p.ProcessConditional("!if " + case)
    except Exception:
        return
    ctx.fail(f"malformed condition {case!r} was accepted as {p.InActiveCode()}")


def gen_macro(tier):
    vals = ["TRUE", "FALSE", "true", True, False, "0", "1", "2", "0x2", "DEBUG", None, '"DEBUG"', 2]
    for form in ("$(M) == {}", "{} == $(M)", "$(M)=={}", "$(M) != {}", "NOT $(M) == {}", "($(M) == {})",
                 "$(N) == 5 AND $(M) == {}", "$(M) == {} OR $(UNDEF)"):
        for v in vals:
            for c in ("TRUE", "FALSE", "1", "0", "2", '"DEBUG"', "DEBUG", '"debug"'):
                yield [form, v, c]


def run_macro(case, ctx):
    from edk2toollib.uefi.edk2.parsers.base_parser import BaseParser

    form, v, c = case
    p = BaseParser("")
    iv = {"N": "5"}
    if v is not None:
        iv["M"] = v
    p.SetInputVars(iv)
    m = "0" if v is None else str(v)
    toks = form.replace("==", " == ").replace("(M)", "M").replace("(N)", "N").replace("(UNDEF)", "UNDEF")
    toks = toks.replace("(", " ( ").replace(")", " ) ").split()
    toks = [{"$M": m, "$N": "5", "$UNDEF": "0", "{}": c}.get(t, t) for t in toks]
    want = ref(toks)
    p.ProcessConditional(p.ReplaceVariables("!if " + form.format(c)))
    ctx.eq(p.InActiveCode(), want, f"{form.format(c)} with M={v!r}")
    ctx.state((form, m, c, want))


# -- every sequence of tokens ----------------------------------------------------------------------
# Each is either well-formed, and has the value the rules give it however it is spaced, or is refused.


class Malformed(Exception):
    pass


class Strict(Ref):
    def prim(self):
        p = self.peek()
        if p is None or p in CMP or p in ("AND", "OR", "NOT", ")"):
            raise Malformed
        self.i += 1
        if p == "(":
            v = self.expr()
            if self.peek() != ")":
                raise Malformed
            self.i += 1
            return (None, v[1], v[2]) if v[0] is None else v
        return (p, lit(p), True)


def strict(toks):
    """Value, or None for one that is not defined; Malformed is raised whatever the values."""
    shape = Strict([t if t in CMP or t in ("AND", "OR", "NOT", "(", ")") else "1" for t in toks])
    try:
        shape.expr()
    except OutOfDomain:
        # a comparison of AND/OR results; still has to have the right shape
        shape = Strict([{"AND": "=="}.get(t, "==" if t in ("OR", "IN", "<") else t) for t in shape.t])
        shape.expr()
    if shape.i != len(toks):
        raise Malformed
    try:
        return ref(toks)
    except OutOfDomain:
        return None


GRAM = ["1", "0", "==", "AND", "NOT", "(", ")"]
MORE = ["2", '"A b"', "<", "OR", "IN", "!="]


def spacings(toks):
    glue = set("=<>!")
    tight = ""
    for t in toks:
        t = "!" if t == "NOT" else t
        if tight and ((tight[-1].isalnum() and t[0].isalnum()) or (tight[-1] in glue and t[0] in glue) or (tight[-1] == ")" and t[0].isalnum()) or t == '"A b"'):
            tight += " "
        elif tight and tight[-1] == '"' and t not in "()":
            tight += " "
        tight += t
    return [" ".join(toks), tight, "\t".join(toks) + "  ", "  ".join(t.lower() if t in ("AND", "OR", "NOT", "IN") else t for t in toks)]


def gen_gram(tier):
    n = 6 if tier == "quick" else 7
    yield [[], GRAM, 0, 3]
    for pre in itertools.product(GRAM, repeat=3):
        yield [list(pre), GRAM, 0, n - 3]
    alpha = GRAM + MORE
    n = 5 if tier == "quick" else 6
    for pre in itertools.product(alpha, repeat=2):
        yield [list(pre), alpha, 1, n - 2]


def run_gram(case, ctx):
    from edk2toollib.uefi.edk2.parsers.base_parser import BaseParser

    pre, alpha, lo, hi = case
    p = BaseParser("")
    n = 0
    for k in range(lo, hi + 1):
        for t in itertools.product(alpha, repeat=k):
            toks = pre + list(t)
            try:
                want = strict(toks)
            except (Malformed, IndexError):
                want = "refused"
            n += 1
            for text in spacings(toks) if want != "refused" else [" ".join(toks)]:
                try:
                    p.ProcessConditional("!if " + text)
                    got = p.InActiveCode()
                except RuntimeError:
                    got = "refused"
                except Exception as e:
                    got = "refused" if want == "refused" else repr(e)
                p.ResetParserState()
                if want is None:
                    continue
                if got != want:
                    ctx.fail(f"!if {text}: {got}, expected {want}")
            ctx.state((len(toks), want))
    ctx.step(n)


# -- sizes -------------------------------------------------------------------------------------------


def gen_sizes(tier):
    for what in ("and", "or", "alternating", "parentheses", "not", "in", "string", "strings", "comparisons", "unbalanced", "group"):
        for n in counts(tier, 129 if tier == "quick" else 300, low=1):
            yield [what, n]
    for k in range(0, 72 if tier == "quick" else 300):
        yield ["number", k]


def truth(text):
    from edk2toollib.uefi.edk2.parsers.base_parser import BaseParser

    p = BaseParser("")
    p.ProcessConditional(p.ReplaceVariables("!if " + text))
    return p.InActiveCode()


def run_sizes(case, ctx):
    what, n = case
    texts = []
    if what in ("and", "or"):
        one, other = ("1 == 1", "1 == 2") if what == "and" else ("1 == 2", "1 == 1")
        op = f" {what.upper()} "
        texts.append((op.join([one] * n), what == "and"))
        for i in {0, n // 2, n - 1}:
            texts.append((op.join([other if j == i else one for j in range(n)]), what == "or"))
    elif what == "alternating":
        for bits in (0b10110, 0b01101, 0b111000):
            v = [(bits >> (i % 6)) & 1 == 1 for i in range(n)]
            t, r = str(v[0]).upper(), v[0]
            for i in range(1, n):
                t += (" AND ", " OR ")[i % 2] + str(v[i]).upper()
                r = (r or v[i]) if i % 2 else (r and v[i])
            texts.append((t, r))
    elif what == "parentheses":
        texts += [("(" * n + "1 == 1" + ")" * n, True), ("( " * n + "1 == 2" + " )" * n, False), ("(" * n + "1 == 2" + ")" * n + " OR TRUE", True)]
    elif what == "not":
        texts += [("NOT " * n + "(1 == 1)", n % 2 == 0), ("NOT (" * n + "1 == 1" + ")" * n, n % 2 == 0)]
    elif what == "in":
        texts += [(f'"{"a" * n}" IN "{"a" * n}"', True), (f'"{"a" * n}b" IN "{"a" * (n + 1)}"', False), (f'"b" IN "{"a" * n}b"', True), (f'"b" IN "{"a" * n}"', False)]
    elif what == "string":
        texts += [(f'"{"a" * n}" == "{"a" * n}"', True), (f'"{"a" * n}" == "{"a" * (n - 1)}b"', False), (f'"{"a" * n}" != "{"a" * (n + 1)}"', True)]
    elif what == "strings":
        texts += [(" OR ".join(f'"x{i}" == "x{n}"' for i in range(n + 1)), True), (" OR ".join(f'"x{i}" == "x{n}"' for i in range(n)), False)]
    elif what == "comparisons":
        texts += [(" AND ".join(f"{i} < {i + 1}" for i in range(n)), True), (" AND ".join(f"{i} < {i + 1}" for i in range(n)) + f" AND {n} >= {n + 1}", False)]
    elif what == "group":
        t, r = "1 == 1", True
        for i in range(n):
            t, r = f"({t}) {('AND', 'OR')[i % 2]} {('1 == 2', '1 == 1')[i // 2 % 2]}", (r or bool(i // 2 % 2)) if i % 2 else (r and bool(i // 2 % 2))
        texts.append((t, r))
    elif what == "number":
        for v in {2**n - 1, 2**n, 2**n + 1}:
            texts += [(f"{v} == {hex(v)}", True), (f"{v} < {hex(v + 1)}", True), (f"{v} > {hex(v + 1)}", False), (f"{hex(v)} >= {v}", True), (f"{hex(v).upper().replace('X', 'x')} != {v}", False),
                      (f"{v} <= {v}", True), (f'{v} == {v + 1}', False), (f"0x{v:032x} == {v}", True)]
    elif what == "unbalanced":
        for t in ("(" * n + "1 == 1" + ")" * (n - 1), "(" * (n - 1) + "1 == 1" + ")" * n, "1 == 1" + " AND" * n, "1 " * (n + 1), "== " * n + "1"):
            try:
                truth(t)
                ctx.fail(f"{t!r} was accepted")
            except Exception as e:  # noqa: BLE001
                if type(e).__name__ == "Violation":
                    raise
                ctx.step()
    for t, want in texts:
        ctx.eq(truth(t), want, t if len(t) < 300 else t[:140] + " ... " + t[-140:])
        ctx.step()
    ctx.state(repr(case))


SUITES = [
    Suite("sizes", gen_sizes, run_sizes, "numbers of terms, parentheses and NOTs, lengths of strings, widths of numbers", {"quick": "every number up to 24 and edges up to 129; 72 bits", "thorough": "every number up to 72 and edges up to 300; 300 bits"}),
    Suite("grammar", gen_gram, run_gram, "every sequence of tokens is evaluated or refused", {"quick": "<=6 of 7 tokens, <=5 of 13 tokens, 4 spacings", "thorough": "<=7 of 7 tokens, <=6 of 13 tokens, 4 spacings"}),
    Suite("bool", gen_bool, run_tokens, "TRUE/FALSE, AND/OR/==/!=, NOT, parentheses", "<=4 operands, <=2 NOT"),
    Suite("spelling", gen_spell, run_spell, "operator spellings, spacing, number bases", "all"),
    Suite("macro", gen_macro, run_macro, "macro operands", "all"),
    Suite("malformed", gen_bad, run_bad, "malformed conditions raise", "grammar edits of 6 conditions"),
    Suite("strings", gen_str, run_tokens, "string operands, IN and 'not op'", "<=4 operands"),
    Suite("numbers", gen_num, run_tokens, "integers, relational/equality/logical operators, NOT, parentheses", "<=4 operands"),
]
ASSUMPTIONS = ["NOT applies to the rest of its parenthesised group and AND/OR associate left to right with equal "
               "precedence, as the repository's tests pin"]
