"""P43: a JUnit report is well-formed XML that says exactly what was reported."""

import io
import itertools
import os
import re
import time
import xml.etree.ElementTree as ET

from lib.mc import Suite
from lib.sizes import counts


def mod():
    from edk2toollib.log import junit_report_format

    return junit_report_format


def legal(c):
    o = ord(c)
    return o in (9, 10, 13) or 0x20 <= o <= 0xD7FF or 0xE000 <= o <= 0xFFFD or o >= 0x10000


def same(got, want):
    """Characters that XML does not have may be left out or replaced by anything; ends of lines are '\\n' after parsing."""
    got = (got or "").replace("\r\n", "\n").replace("\r", "\n")
    want = want.replace("\r\n", "\n").replace("\r", "\n")
    if all(map(legal, want)):
        return got == want
    return re.fullmatch("".join(re.escape(c) if legal(c) else r"[^\n]{0,10}?" for c in want), got) is not None


class Clock:
    def __init__(self):
        self.now = 1000.0

    def __call__(self):
        return self.now

    def __enter__(self):
        self.saved = time.time, time.monotonic, time.perf_counter
        time.time = time.monotonic = time.perf_counter = self
        return self

    def __exit__(self, *a):
        time.time, time.monotonic, time.perf_counter = self.saved


NEW, SKIP, FAIL, ERR, OK = "new", "skip", "fail", "err", "ok"


class Case:
    """The model of a test case."""

    def __init__(self, tc, name, cls, clock):
        self.tc, self.name, self.cls, self.clock = tc, name, cls, clock
        self.start, self.time, self.status, self.msg, self.type = clock.now, 0, NEW, None, None
        self.out, self.err = "", ""

    def do(self, op, ctx, msg="m", type="t"):
        if op == "out":
            self.tc.LogStdOut(msg)
            self.out += msg.strip() + "\n "
            return
        if op == "error":
            self.tc.LogStdError(msg)
            self.err += msg.strip() + "\n "
            return
        call = {FAIL: lambda: self.tc.SetFailed(msg, type), ERR: lambda: self.tc.SetError(msg, type), OK: self.tc.SetSuccess, SKIP: self.tc.SetSkipped}[op]
        try:
            call()
            refused = False
        except Exception:
            refused = True
        ctx.eq(refused, self.status != NEW, f"{op} of a case that is {self.status} was refused")
        if not refused:
            self.status, self.time = op, self.clock.now - self.start
            if op in (FAIL, ERR):
                self.msg, self.type = msg, type


def check_case(e, c, ctx):
    ctx.eq(e.tag, "testcase", "element")
    ctx.eq(sorted(e.attrib), ["classname", "name", "time"], "attributes")
    for k, w in (("classname", c.cls), ("name", c.name)):
        ctx.true(same(e.get(k), w.strip()), f"{k}: {e.get(k)!r} for {w!r}")
    ctx.eq(float(e.get("time")), float(c.time), "time")
    tags = {SKIP: ["skipped"], FAIL: ["failure"], ERR: ["error"], OK: []}[c.status] + ["system-out", "system-err"]
    ctx.eq([x.tag for x in e], tags, "parts of the case")
    if c.status in (FAIL, ERR):
        ctx.eq(sorted(e[0].attrib), ["message", "type"], "attributes of the failure")
        for k, w in (("message", c.msg), ("type", c.type)):
            ctx.true(same(e[0].get(k), w.strip()), f"{k}: {e[0].get(k)!r} for {w!r}")
    if c.status == SKIP:
        ctx.true(same(e[0].text, c.out), f"text of the skipped case: {e[0].text!r} for {c.out!r}")
    for x, w in ((e[-2], c.out), (e[-1], c.err)):
        ctx.true(same(x.text, w), f"{x.tag}: {x.text!r} for {w!r}")
        ctx.eq(len(x), 0, "elements in the output")


def check(report, suites, ctx, path):
    """suites: [(name, package, [Case])]"""
    new = any(c.status == NEW for _, _, cs in suites for c in cs)
    for _ in range(2):
        try:
            report.Output(path)
            refused = False
        except Exception as e:
            if not new:
                raise
            refused = True
        ctx.eq(refused, new, "reports with unfinished cases are refused")
        if new:
            return
        with open(path, "rb") as f:
            data = f.read()
        root = ET.fromstring(data)
        ctx.eq(root.tag, "testsuites", "root")
        ctx.eq(len(root), len(suites), "number of suites")
        for n, (e, (name, package, cases)) in enumerate(zip(root, suites)):
            ctx.eq(e.tag, "testsuite", "element")
            st = [c.status for c in cases]
            got = {k: e.get(k) for k in e.attrib if k not in ("name", "package")}
            ctx.eq(got, {"id": str(n), "errors": str(st.count(ERR)), "failures": str(st.count(FAIL)), "skipped": str(st.count(SKIP)), "tests": str(len(st))}, "attributes of the suite")
            ctx.true(same(e.get("name"), name.strip()) and same(e.get("package"), package.strip()), f"suite {e.get('name')!r} {e.get('package')!r} for {name!r} {package!r}")
            ctx.eq(len(e), len(cases), "number of cases")
            for x, c in zip(e, cases):
                check_case(x, c, ctx)


# -- texts ----------------------------------------------------------------------------------------------------------

TOKENS = ["a", " ", "\n", "\t", "\r", "<", ">", "&", '"', "'", "]]>", "&amp;", "\x1b", "\0", "\u00e9", "\U0001f600", "\ud800", "\ufffe", "{0}", "%s", "<!--", "</system-out>"]


def one_text(text, ctx, path):
    m = mod()
    with Clock() as clock:
        r = m.JunitTestReport()
        suites = []
        for name, package in ((text, "p"), ("n", text)):
            s = r.create_new_testsuite(name, package)
            cases = []
            for n, (cn, cc) in enumerate(((text, "c"), ("n", text))):
                c = Case(s.create_new_testcase(cn, cc), cn, cc, clock)
                c.do("out", ctx, text)
                if n:
                    c.do("out", ctx, "x")
                    c.do("error", ctx, text)
                c.do([FAIL, ERR, SKIP, OK][2 * (name == "n") + n], ctx, text, text if n else "t")
                cases.append(c)
            suites.append((name, package, cases))
        check(r, suites, ctx, path)


def gen_texts(tier):
    for n in range(3 if tier == "quick" else 4):
        for c in itertools.product(TOKENS, repeat=n):
            yield list(c)


def run_texts(case, ctx):
    path = os.path.join(ctx.tmp(), "r.xml")
    text = "".join(case)
    for t in (text, f"x{text}y"):
        one_text(t, ctx, path)
    ctx.state(text)


def gen_chars(tier):
    for base in range(0, 0x110000, 2048):
        yield base


def run_chars(base, ctx):
    path = os.path.join(ctx.tmp(), "r.xml")
    chars = [chr(base + n) for n in range(2048)]
    good = [c for c in chars if legal(c)]
    one_text("x" + ";".join(good) + "y", ctx, path)
    for bad in [c for c in chars if not legal(c)] if base else [c for c in chars if ord(c) < 32]:
        if not 0xD810 < ord(bad) < 0xDFF0:
            one_text(f"x{bad}y", ctx, path)
    ctx.state(base)


# -- histories ------------------------------------------------------------------------------------------------------


def gen_histories(tier):
    ops = ["out", "error", FAIL, ERR, OK, SKIP]
    for n in range(6 if tier == "quick" else 7):
        for c in itertools.product(ops, repeat=n):
            yield list(c)


def run_histories(case, ctx):
    with Clock() as clock:
        r = mod().JunitTestReport()
        s = r.create_new_testsuite("s", "p")
        c = Case(s.create_new_testcase("n", "c"), "n", "c", clock)
        for n, op in enumerate(case):
            clock.now += 2.5
            c.do(op, ctx, f"m{n} ", f" t{n}")
            ctx.state((c.status, c.out, c.err, c.msg, c.time))
        check(r, [("s", "p", [c])], ctx, os.path.join(ctx.tmp(), "r.xml"))


def gen_reports(tier):
    st = [NEW, OK, FAIL, ERR, SKIP]
    per = [c for n in range(4 if tier != "quick" else 3) for c in itertools.product(st, repeat=n)]
    for n in range(3):
        for c in itertools.product(per, repeat=n):
            yield [list(x) for x in c]


def run_reports(case, ctx):
    """Suites and cases made in both orders: suite by suite, and all suites first."""
    path = os.path.join(ctx.tmp(), "r.xml")
    with open(path, "w") as f:
        f.write("an old file " * 200)
    for late in (False, True):
        with Clock() as clock:
            r = mod().JunitTestReport()
            suites, todo = [], []
            for n, sts in enumerate(case):
                s = r.create_new_testsuite(f"s{n}", f"p{n}")
                cases = []
                suites.append((f"s{n}", f"p{n}", cases))

                def fill(s=s, sts=sts, cases=cases):
                    for k, status in enumerate(sts):
                        clock.now += 0.25
                        cases.append(Case(s.create_new_testcase("same", f"c{k}"), "same", f"c{k}", clock))
                    for k, status in enumerate(sts):
                        clock.now += 1
                        cases[k].do("out", ctx, f"o{k}")
                        if status != NEW:
                            cases[k].do(status, ctx, f"m{k}", f"t{k}")

                todo.append(fill)
                if not late:
                    todo.pop()()
            for f in todo:
                f()
            check(r, suites, ctx, path)
            if not any(NEW in s for s in case):
                outs = []
                for s in r.TestSuites:
                    o = io.StringIO()
                    s.Output(o)
                    outs.append(o.getvalue())
                with open(path, encoding="utf-8") as f:
                    text = f.read()
                ctx.true("".join(outs) in text, "the suites' own output")
    ctx.state(repr(case))


# -- sizes: number of suites and cases, length of texts and number of outputs -------------------------------------


def gen_sizes(tier):
    for n in counts(tier, 300, 1):
        for what in ("suites", "cases", "outputs"):
            yield [what, n]
    for n in [*counts(tier, 4097, 0), 65535, 65536, 65537]:
        yield ["text", n]


def run_sizes(case, ctx):
    what, n = case
    path = os.path.join(ctx.tmp(), "r.xml")
    if what == "text":
        for t in ("x" * n, "<&" * n, "a\n" * n):
            one_text(t, ctx, path)
        ctx.state(tuple(case))
        return
    with Clock() as clock:
        r = mod().JunitTestReport()
        suites = []
        for a in range(n if what == "suites" else 1):
            s = r.create_new_testsuite(f"s{a}", f"p{a}")
            cases = []
            for b in range(n if what == "cases" else 2):
                c = Case(s.create_new_testcase(f"n{b}", f"c{b}"), f"n{b}", f"c{b}", clock)
                for i in range(n if what == "outputs" else 1):
                    c.do(("out", "error")[i % 2], ctx, f"line {i}")
                clock.now += b
                c.do([OK, FAIL, SKIP, ERR][(a + b) % 4], ctx, f"m{b}", f"t{b}")
                cases.append(c)
            suites.append((f"s{a}", f"p{a}", cases))
        check(r, suites, ctx, path)
    ctx.state(tuple(case))


SUITES = [
    Suite("sizes", gen_sizes, run_sizes, "number of suites, cases and outputs, length of texts", "counts up to 24 and edges to 300, texts to 65537 characters"),
    Suite("texts", gen_texts, run_texts, "the parsed report", {"quick": "all texts of <=2 of 22 tokens as every name, message and output", "thorough": "<=3 tokens"}),
    Suite("chars", gen_chars, run_chars, "the parsed report", "all code points as every name, message and output (surrogates: 32)"),
    Suite("histories", gen_histories, run_histories, "accepted and refused operations and the report", {"quick": "all histories of <=5 of 6 operations of a case", "thorough": "<=6"}),
    Suite("reports", gen_reports, run_reports, "the parsed report", {"quick": "all reports of <=2 suites of <=2 cases of 5 states", "thorough": "<=3 cases"}),
]
