"""P09: Conf/target.txt key/value lines and #OVERRIDE lines of INF files are read exactly."""

import datetime
import itertools
import os

from lib.mc import Suite
from lib.sizes import counts

# -- target.txt ------------------------------------------------------------------------------------------

LINES = [
    "# comment", "#KEY = no", "", "   ", "ACTIVE_PLATFORM       = A/B.dsc", "TARGET=DEBUG RELEASE", "  TARGET_ARCH = X64 # why", "EMPTY =",
    "BUILD_RULE_CONF = a=b", "QUOTED = \"a # b\"", "WORD", "TARGET = NOOPT", "\tTAB\t=\tv w\t", "KEY == v",
]
KV = {4: ("ACTIVE_PLATFORM", "A/B.dsc"), 5: ("TARGET", "DEBUG RELEASE"), 6: ("TARGET_ARCH", "X64"), 7: ("EMPTY", ""),
      8: ("BUILD_RULE_CONF", "a=b"), 9: ("QUOTED", "\"a # b\""), 11: ("TARGET", "NOOPT"), 12: ("TAB", "v w"), 13: ("KEY", "= v")}


def gen_tgt(tier):
    n = 3 if tier == "quick" else 4
    for k in range(n + 1):
        for t in itertools.product(range(len(LINES)), repeat=k):
            yield [list(t), ["\n", "\r\n"][sum(t) % 2], bool(sum(t) % 3)]


def run_tgt(case, ctx):
    from edk2toollib.uefi.edk2.parsers.targettxt_parser import TargetTxtParser

    t, nl, last = case
    d = ctx.tmp()
    f = os.path.join(d, "target.txt")
    with open(f, "w", newline="") as o:
        o.write(nl.join(LINES[i] for i in t) + (nl if last else ""))
    p = TargetTxtParser()
    ctx.eq((p.Parsed, p.Dict, p.Lines), (False, {}, []), "fresh parser")
    p.ParseFile(f)
    want = {}
    for i in t:
        if i in KV:
            want[KV[i][0]] = KV[i][1]
    ctx.eq(p.Dict, want, f"keys of {[LINES[i] for i in t]}")
    ctx.eq(list(p.Dict), list(want), "order of keys")
    ctx.eq(p.Parsed, True, "parsed")
    ctx.eq(p.Path, f, "path")
    with open(f) as o:
        ctx.eq(p.Lines, o.readlines(), "lines")
    ctx.state(tuple(t))


# -- overrides ---------------------------------------------------------------------------------------------

HEAD = ["#Override : ", "#OVERRIDE:", "  #override :", "# Override : ", "#Overrid : "]
VERS = ["00000001", "1", " 1 ", "2", "0", "x", "", "-1"]
PATHS = ["A/B/C.inf", "A\\B.inf".replace("\\", "/"), "A//B/./C.inf", "A/X/../B.inf", "C:/A/B.inf"]
HASH = ["cc255d9de141fccbdfca9ad02e0daa47", "h"]
DATES = ["2018-05-09T17-54-17", "2020-02-29T00-00-00", "2019-02-29T00-00-00", "2018-05-09", "", "2018-05-09T17-54-17 x", "2018-05-09T17:54:17"]


def parse_date(s):
    try:
        return datetime.datetime.strptime(s.strip(), "%Y-%m-%dT%H-%M-%S")
    except ValueError:
        return None


def gen_ovr(tier):
    full = list(itertools.product(range(len(VERS)), range(len(PATHS)), range(len(HASH)), range(len(DATES))))
    for h in range(len(HEAD)):
        for t in full:
            if h and sum(1 for x in t if x) > (1 if tier == "quick" else 4):
                continue
            for extra in (0, 1, -1):
                yield ["one", h, list(t), extra]
    for shape in ("#Override", "#Override nothing", "#Override : ", "#OVERRIDES are listed below", "#Override : 1", "#Override : |||"):
        yield ["raw", shape]
    n = 3 if tier == "quick" else 4
    for k in range(n + 1):
        for t in itertools.product(("ok1", "ok2", "code", "blank", "cmt", "bad"), repeat=k):
            yield ["file", list(t)]


GOOD = {"ok1": "#Override : 00000001 | A/B.inf | abcd | 2018-05-09T17-54-17", "ok2": "  #OVERRIDE:1|C.inf|00|2020-02-29T00-00-00  ",
        "code": "INF_VERSION = 1", "blank": "", "cmt": "# nothing #Override : 1", "bad": "#Override : 3 | A | b | 2018-05-09T17-54-17"}


def run_ovr(case, ctx):
    from edk2toollib.uefi.edk2.parsers.override_parser import OverrideParser

    if case[0] == "file":
        lines = [GOOD[x] for x in case[1]]
        text = "\n".join(lines)
        want = []
        for i, x in enumerate(case[1]):
            if x in ("ok1", "ok2"):
                want.append((i + 1, {"ok1": "A/B.inf", "ok2": "C.inf"}[x], {"ok1": "abcd", "ok2": "00"}[x]))
        if "bad" in case[1] or not want:
            want = None
        f = os.path.join(ctx.tmp(), "m.inf")
        with open(f, "w") as o:
            o.write(text)
        for how, kw in (("text", {"inf_contents": text}), ("file", {"file_path": f})):
            try:
                p = OverrideParser(**kw)
                got = [(ln["lineno"], o["original_path"], o["current_hash"]) for ln, o in zip(p.override_lines, p.overrides)]
                ctx.eq(len(p.override_lines), len(p.overrides), "lines and overrides")
                ctx.eq([ln["line"] for ln in p.override_lines], [lines[n - 1].strip() for n, _, _ in got], "override lines")
                ctx.eq(p.file_path, f if how == "file" else "String Buffer", "source")
            except ValueError:
                got = None
            ctx.eq(got, want, f"overrides of {lines} given as {how}")
        for kw in ({}, {"file_path": f, "inf_contents": text}, {"file_path": f + ".none"}):
            try:
                OverrideParser(**kw)
                ctx.fail(f"accepted {kw}")
            except ValueError:
                ctx.step()
        ctx.state(tuple(case[1]))
        return
    if case[0] == "raw":
        try:
            OverrideParser(inf_contents=case[1])
            ctx.fail(f"accepted {case[1]!r}")
        except ValueError:
            ctx.step()
        ctx.state(case[1])
        return
    _, h, (v, p, hs, dt), extra = case
    fields = [VERS[v], PATHS[p], HASH[hs], DATES[dt]]
    if extra == 1:
        fields.append("more")
    elif extra == -1:
        fields.pop()
    line = HEAD[h] + " | ".join(fields)
    want = None
    date = parse_date(DATES[dt])
    if h < 3 and extra == 0 and VERS[v].strip().lstrip("0") == "1" and date is not None:
        want = [{"version": 1, "original_path": os.path.normpath(PATHS[p]), "current_hash": HASH[hs], "datetime": date}]
    try:
        got = OverrideParser(inf_contents="[Defines]\n" + line + "\n").overrides
    except ValueError:
        got = None
    ctx.eq(got, want, f"override line {line!r}")
    ctx.state(repr(case))


# -- where the file is ---------------------------------------------------------------------------------------


def gen_paths(tier):
    for form in ("absolute", "workspace", "package", "missing", "missing absolute"):
        for name in ("target.txt", "Conf/target.txt", "a b/t"):
            for again in (False, True):
                yield [form, name, again]


def run_paths(case, ctx):
    from edk2toollib.uefi.edk2.parsers.targettxt_parser import TargetTxtParser

    from checks.common_parsers import edk2path, write

    form, name, again = case
    d = os.path.realpath(ctx.tmp())
    ws, pp = os.path.join(d, "ws"), os.path.join(d, "pp")
    os.makedirs(ws)
    os.makedirs(pp)
    base = pp if form == "package" else ws
    if "missing" not in form:
        write(os.path.join(base, name), "A = 1\nB = x=y # c\n")
    p = TargetTxtParser().SetEdk2Path(edk2path(ws, [pp]))
    if again:
        write(os.path.join(ws, "first"), "Z = 0\nA = 0\n")
        p.ParseFile("first")
    try:
        p.ParseFile(os.path.join(base, name) if "absolute" in form else name)
    except Exception:
        ctx.true("missing" in form, "file that exists accepted")
        ctx.step()
        return
    ctx.true("missing" not in form, "missing file refused")
    ctx.eq(p.Dict, {**({"Z": "0"} if again else {}), "A": "1", "B": "x=y"}, "keys and values")
    ctx.eq((p.Path, p.Parsed), (os.path.join(base, name), True), "path and state")
    ctx.eq(p.Lines, ["A = 1\n", "B = x=y # c\n"], "lines")
    ctx.state(repr(case))


# -- sizes ---------------------------------------------------------------------------------------------------


def gen_sizes(tier):
    for what in ("keys", "one key", "length", "override lines", "lines before", "override length"):
        for n in counts(tier, 1025):
            yield [what, n]


def run_sizes(case, ctx):
    from edk2toollib.uefi.edk2.parsers.override_parser import OverrideParser
    from edk2toollib.uefi.edk2.parsers.targettxt_parser import TargetTxtParser

    what, n = case
    if what in ("keys", "one key", "length"):
        kv = {"keys": [(f"KEY{i}", f"v{i}") for i in range(n)], "one key": [("KEY", f"v{i}") for i in range(n)], "length": [("K" * (n + 1), "v" * n)]}[what]
        f = os.path.join(ctx.tmp(), "target.txt")
        with open(f, "w") as o:
            o.write("".join(f"{k} = {v}\n" for k, v in kv) + "LAST = 1")
        p = TargetTxtParser()
        p.ParseFile(f)
        ctx.eq(list(p.Dict.items()), list({**dict(kv), "LAST": "1"}.items()), "keys and values")
    else:
        path, h = ("d/" * n + "A.inf", "a" * (n + 1)) if what == "override length" else ("A.inf", "abcd")
        line = f"#Override : 00000001 | {path} | {h} | 2018-05-09T17-54-17"
        k = n + 1 if what == "override lines" else 1
        before = n if what == "lines before" else 0
        p = OverrideParser(inf_contents="\n".join(["[Defines]"] * before + [line] * k + ["[Sources]"]))
        one = {"version": 1, "original_path": os.path.normpath(path), "current_hash": h, "datetime": datetime.datetime(2018, 5, 9, 17, 54, 17)}
        ctx.eq(p.overrides, [one] * k, "overrides")
        ctx.eq([(x["lineno"], x["line"]) for x in p.override_lines], [(before + 1 + i, line) for i in range(k)], "lines")
    ctx.state(repr(case))


SUITES = [
    Suite("sizes", gen_sizes, run_sizes, "numbers of keys and overrides, lengths of keys, values and paths", {"quick": "every number up to 24 and 20 edges up to 1025", "thorough": "every number up to 72 and edges up to 1025"}),
    Suite("paths", gen_paths, run_paths, "paths of target.txt", "5 forms of paths"),
    Suite("target", gen_tgt, run_tgt, "all sequences of 14 lines", {"quick": "<=3 lines", "thorough": "<=4 lines"}),
    Suite("override", gen_ovr, run_ovr, "all field combinations, malformed lines, files of lines", {"quick": "<=3 lines", "thorough": "<=4 lines"}),
]
