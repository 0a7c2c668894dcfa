"""P16: running commands and scripts: output, return code, environment, quoting - and it always comes back."""

import io
import itertools
import logging
import os
import sys

from lib.mc import Suite
from lib.sizes import counts

# what a child does: list of steps
STEPS = [["o", "a\\n"], ["e", "e1\\n"], ["o", "no newline"], ["e", "x  \\n"], ["o", "\\303\\251\\n"], ["o", "\\n"], ["big", 70000], ["lines", 3000],
         ["o", "cr\\r\\n"]]
RC = [0, 1, 3, 255]


def sh(steps, rc):
    out = []
    for k, v in steps:
        if k == "o":
            out.append(f"printf '{v}'")
        elif k == "e":
            out.append(f"printf '{v}' 1>&2")
        elif k == "big":
            out.append(f"head -c {v} /dev/zero | tr '\\0' x")
        elif k == "lines":
            out.append(f"yes line | head -n {v}")
        elif k == "bad":
            out.append("printf '\\377\\n'")
    return "; ".join(out + [f"exit {rc}"])


def text(steps):
    out = ""
    for k, v in steps:
        if k in "oe":
            out += v.encode().decode("unicode_escape").encode("latin-1").decode("utf-8") if "\\3" in v else v.replace("\\n", "\n").replace("\\r", "\r")
        elif k == "big":
            out += "x" * v
        elif k == "lines":
            out += "line\n" * v
        elif k == "bad":
            out += "\\xff\n"
    return out


class Log(logging.Handler):
    def __init__(self):
        super().__init__(0)
        self.lines = []

    def emit(self, rec):
        self.lines.append((rec.levelno, rec.getMessage()))


class logged:
    def __enter__(self):
        logging.disable(0)
        self.h = Log()
        self.root = logging.getLogger()
        self.level = self.root.level
        self.root.addHandler(self.h)
        self.root.setLevel(1)
        return self.h

    def __exit__(self, *a):
        self.root.removeHandler(self.h)
        self.root.setLevel(self.level)
        logging.disable(logging.CRITICAL)


def gen_cmd(tier):
    n = 2 if tier == "quick" else 3
    i = 0
    for k in range(n + 1):
        for st in itertools.product(STEPS, repeat=k):
            for sinks in range(4):
                i += 1
                if k == 3 and sinks not in (3,):
                    continue
                yield [list(st), RC[i % 4], sinks, bool(i // 4 % 2), True]
            yield [list(st), RC[i % 4], 0, bool(i % 2), False]


def run_cmd(case, ctx):
    from edk2toollib.utility_functions import RunCmd

    steps, rc, sinks, strict, capture = case
    d = ctx.tmp()
    of = os.path.join(d, "out.txt") if sinks & 1 else None
    os_ = io.StringIO() if sinks & 2 else None
    level = [logging.INFO, logging.DEBUG, logging.ERROR][len(steps) % 3]
    script = sh(steps, rc)
    with logged() as h:
        try:
            got = RunCmd("echo", "-n ; " + script, capture=capture, outfile=of, outstream=os_, logging_level=level,
                         raise_exception_on_nonzero=strict, workingdir=d)
            raised = False
        except Exception as e:
            if type(e).__name__ == "Violation":
                raise
            raised = True
            got = None
    ctx.eq(raised, strict and rc != 0, f"exception for return code {rc}, strict={strict}")
    if not raised:
        ctx.eq(got, rc, "return code")
    if capture:
        want = text(steps)
        if of:
            with open(of, newline="", encoding="utf-8") as f:
                ctx.eq(f.read(), want, "output file")
        if os_:
            ctx.eq(os_.getvalue(), want, "output stream")
        want_lines = [x.rstrip() for x in want.split("\n")]
        if want.endswith("\n") or not want:
            want_lines.pop()
        begin = next((i for i, m in enumerate(h.lines) if "Cmd Output Starting" in m[1]), None)
        end = next((i for i, m in enumerate(h.lines) if "Cmd Output Finished" in m[1]), None)
        if begin is not None and end is not None:
            body = h.lines[begin + 2:end - 1]
        else:
            body = h.lines
        got_lines = [m for lv, m in body if lv == level]
        if begin is not None and end is not None:
            ctx.eq(got_lines, want_lines, "logged lines, in order")
        else:
            for w in want_lines:
                ctx.true(w in got_lines, f"{w!r} is not logged")
    ctx.state((repr(steps), rc, sinks, strict, capture))


def gen_bad(tier):
    """Undecodable output at every position among other output, strict and tolerant."""
    others = [["o", "a\\n"], ["lines", 3000], ["big", 70000], ["lines", 60000]]
    for k in (0, 1, 2):
        for st in itertools.product(others, repeat=k):
            for pos in range(k + 1):
                s = list(st)
                s.insert(pos, ["bad", 0])
                for mode in ("strict", "replace", "ignore", "backslashreplace"):
                    for sinks in (0, 3):
                        yield [s, mode, sinks]


def run_bad(case, ctx):
    from edk2toollib.utility_functions import RunCmd

    steps, mode, sinks = case
    of = os.path.join(ctx.tmp(), "out.txt") if sinks & 1 else None
    st = io.StringIO() if sinks & 2 else None
    try:
        rc = RunCmd("echo", "-n ; " + sh(steps, 0), outfile=of, outstream=st, encodingErrors=mode)
        err = False
    except UnicodeDecodeError:
        err = True
    ctx.eq(err, mode == "strict", f"decoding error with {mode}")
    if not err:
        ctx.eq(rc, 0, "return code")
        rep = {"replace": "\ufffd", "ignore": "", "backslashreplace": "\\xff"}[mode]
        want = text(steps).replace("\\xff", rep)
        if st:
            ctx.eq(st.getvalue(), want, "output stream")
            with open(of, encoding="utf-8", newline="") as f:
                ctx.eq(f.read(), want, "output file")
    ctx.state(repr(case))


# -- commands, scripts, directories ------------------------------------------------------------------

NAMES = ["tool", "my tool", "tool.sh"]
QUOTE = ["", '"', "'"]
PARAMS = [None, "", "  ", "a b", ' "x y" z ', "$V", "'$V'"]


def argv_of(p):
    import shlex

    if p is None:
        return []
    p = p.strip()
    out = shlex.split(p)
    if p == "$V":
        out = ["va", "lue"]
    return out


def gen_args(tier):
    for n in NAMES:
        for q in QUOTE:
            for p in PARAMS:
                for env in (None, {"V": "va lue", "PATH": "/usr/bin:/bin"}):
                    for wd in (None, "w d"):
                        for dirn in ("bin", "b in"):
                            yield [n, q, p, env, wd, dirn]


def run_args(case, ctx):
    from edk2toollib.utility_functions import RunCmd

    name, q, params, env, wd, dirn = case
    d = os.path.realpath(ctx.tmp())
    os.makedirs(os.path.join(d, dirn))
    os.makedirs(os.path.join(d, "w d"))
    tool = os.path.join(d, dirn, name)
    with open(tool, "w") as f:
        f.write('#!/bin/sh\nprintf "[%s]" "$PWD" "$V" "${VERIF_LEAK-unset}" "$@"\nexit 7\n')
    os.chmod(tool, 0o755)
    out = io.StringIO()
    if env is None and params in ("$V", "'$V'"):
        os.environ["V"] = "va lue"
    os.environ["VERIF_LEAK"] = "inherited"
    old = os.getcwd()
    os.chdir(d)
    before, given = dict(os.environ), dict(env) if env else None
    try:
        rc = RunCmd(q + tool + q, params, outstream=out, environ=env, workingdir=os.path.join(d, wd) if wd else None)
    finally:
        after, cwd = dict(os.environ), os.getcwd()
        v = os.environ.pop("V", None)
        del os.environ["VERIF_LEAK"]
        os.chdir(old)
    ctx.eq(rc, 7, "return code")
    val = env["V"] if env else (v or "")
    want = [os.path.join(d, wd) if wd else d, val, "unset" if env else "inherited"] + argv_of(params)
    ctx.eq(out.getvalue(), "".join(f"[{x}]" for x in want), "directory, environment and arguments of the command")
    ctx.eq((after, cwd, env), (before, d, given), "environment and directory of the caller")
    ctx.state(repr(case))


def gen_py(tier):
    for n in ("s.py", "s p.py"):
        for q in QUOTE[:2]:
            for p in ("", "a 'b c'", "  a "):
                for how in ("abs", "cwd", "path", "both"):
                    for dirn in ("sd", "s d"):
                        for wd in (None, "wd"):
                            yield [n, q, p, how, dirn, wd]


def run_py(case, ctx):
    from edk2toollib.utility_functions import RunPythonScript

    name, q, params, how, dirn, wd = case
    d = os.path.realpath(ctx.tmp())
    a, b, w = os.path.join(d, dirn), os.path.join(d, "p ath"), os.path.join(d, "wd")
    for x in (a, b, w):
        os.makedirs(x)
    code = "import sys, os\nprint([{!r}, os.getcwd()] + sys.argv[1:])\nsys.exit(5)\n"
    if how in ("abs", "cwd", "both"):
        with open(os.path.join(a, name), "w") as f:
            f.write(code.format("A"))
    if how in ("path", "both"):
        with open(os.path.join(b, name), "w") as f:
            f.write(code.format("P"))
    arg = os.path.join(a, name) if how == "abs" else name
    out = io.StringIO()
    old, oldp = os.getcwd(), os.environ["PATH"]
    cwd = d if how == "path" else a
    os.chdir(cwd)
    os.environ["PATH"] = w + os.pathsep + b + os.pathsep + oldp
    try:
        rc = RunPythonScript(q + arg + q, params, outstream=out, workingdir=w if wd else None)
    finally:
        os.chdir(old)
        os.environ["PATH"] = oldp
    ctx.eq(rc, 5, "return code")
    import shlex

    ctx.eq(out.getvalue(), repr(["P" if how == "path" else "A", w if wd else cwd] + shlex.split(params)) + "\n",
           f"script run ({how})")
    ctx.state(repr(case))


# -- sizes: number of arguments and variables, number and length of lines ------------------------------------


def gen_sizes(tier):
    for n in counts(tier, 1025, 0, 12 if tier == "quick" else 72):
        yield ["args", n]
        yield ["env", n]
        yield ["lines", n]
        yield ["line", n]
        yield ["arg", n]
    for n in (4096, 8191, 8192, 8193, 65535, 65536, 65537, 131072, 1000003):
        yield ["lines", n // 16]
        yield ["line", n]
        yield ["tail", n]


def run_sizes(case, ctx):
    from edk2toollib.utility_functions import RunCmd

    what, n = case
    d = os.path.realpath(ctx.tmp())
    tool = os.path.join(d, "tool.sh")
    body = {"args": 'printf "[%s]" "$#" "$@"', "arg": 'printf "[%s]" "$#" "$@"', "env": "env | grep ^VF_ | sort -V",
            "lines": f"seq 1 {n}", "line": f"head -c {n} /dev/zero | tr '\\0' x; echo; echo end",
            "tail": f"echo start; head -c {n} /dev/zero | tr '\\0' x"}[what]
    with open(tool, "w") as f:
        f.write("#!/bin/sh\n" + body + "\nexit 9\n")
    os.chmod(tool, 0o755)
    env = {f"VF_{i}": f"v{i}" for i in range(n)} | {"PATH": os.environ["PATH"]} if what == "env" else None
    args = {"args": " ".join(f"a{i}" for i in range(n)), "arg": "'" + "q" * n + "'"}.get(what, "")
    want = {"args": f"[{n}]" + "".join(f"[a{i}]" for i in range(n)), "arg": "[1][" + "q" * n + "]",
            "env": "".join(f"VF_{i}=v{i}\n" for i in range(n)), "lines": "".join(f"{i}\n" for i in range(1, n + 1)),
            "line": "x" * n + "\nend\n", "tail": "start\n" + "x" * n}[what]
    out = io.StringIO()
    of = os.path.join(d, "out.txt")
    with logged() as h:
        rc = RunCmd(tool, args, outstream=out, outfile=of, environ=env, logging_level=logging.WARNING)
    ctx.eq(rc, 9, "return code")
    got = out.getvalue()
    ctx.true(got == want, f"output stream for {what} {n}: {len(got)} characters, expected {len(want)}, ends with {got[-30:]!r}")
    with open(of, newline="", encoding="utf-8") as f:
        ctx.true(f.read() == want, f"output file for {what} {n}")
    wl = want.split("\n")
    if want.endswith("\n") or not want:
        wl.pop()
    body = [m for lv, m in h.lines if lv == logging.WARNING]
    begin = next((i + 2 for i, m in enumerate(body) if "Cmd Output Starting" in m), 0)
    end = next((i - 1 for i, m in enumerate(body) if "Cmd Output Finished" in m), len(body))
    ctx.true(body[begin:end] == wl or begin == 0 and all(x in body for x in wl), f"logged lines for {what} {n}")
    ctx.state(tuple(case))


SUITES = [
    Suite("sizes", gen_sizes, run_sizes, "number and length of arguments, variables and lines", "counts up to 12 and edges to 1000003"),
    Suite("cmd", gen_cmd, run_cmd, "children writing to both streams, sinks, return codes", "<=2 (3) steps of 9"),
    Suite("undecodable", gen_bad, run_bad, "undecodable output at every position", "<=2 other steps"),
    Suite("arguments", gen_args, run_args, "quoting, parameters, environment, directory", "all combinations"),
    Suite("scripts", gen_py, run_py, "locating and running python scripts", "all combinations"),
]
CHUNK = 16
ASSUMPTIONS = ["POSIX shell; the child's own writes are ordered (one process after the other)"]
