"""P51: an operation that is broken off at any moment leaves nothing behind in the process.

All break points: an exception of the kind a user's Ctrl-C raises comes before a line of the library; afterwards
operations must give what they give in a fresh process, and the directory, the environment and the settings of the
process are as before.  Operations are those of P49 and cases of the other checks with their own reference models.
"""

import decimal
import gc
import json
import locale
import logging
import os
import re
import shutil
import signal
import socket
import subprocess
import sys
import tempfile
import threading
import time
import uuid
import warnings
from xml.etree import ElementTree

from checks import p49, p50
from lib.mc import Suite

OPS = p49.OPS


class Stop(KeyboardInterrupt):
    pass


def broken(f, point):
    """f(), with Stop raised before the n-th time it comes to a line."""

    def act():
        raise Stop

    p50.stop_at(point, act)
    try:
        f()
    except BaseException:  # noqa
        pass
    finally:
        sys.settrace(None)


def process():
    """What an operation could leave changed in the process."""
    root = logging.getLogger()
    return {
        "directory": os.getcwd(),
        "environment": dict(os.environ),
        "path": list(sys.path),
        "root logger": [root.level, len(root.handlers), len(root.filters), root.disabled],
        "logging": [logging.root.manager.disable, logging.raiseExceptions, logging.getLoggerClass().__name__, logging.lastResort is None, dict(logging._levelToName)],
        "warnings": len(warnings.filters),
        "streams": [id(sys.stdin), id(sys.stdout), id(sys.stderr)],
        "hooks": [id(sys.excepthook), id(threading.excepthook), id(sys.displayhook)],
        "recursion": sys.getrecursionlimit(),
        "umask": umask(),
        "signals": [str(signal.getsignal(x)) for x in (signal.SIGINT, signal.SIGTERM, signal.SIGPIPE, signal.SIGCHLD)],
        "timeout": socket.getdefaulttimeout(),
        "locale": locale.setlocale(locale.LC_ALL),
        "collector": gc.isenabled(),
        "temporary": tempfile.gettempdir(),
        "xml names": dict(ElementTree._namespace_map),
        "decimals": decimal.getcontext().prec,
        "functions": [id(x) for x in (open, print, os.chdir, os.path.join, os.walk, os.stat, os.chmod, subprocess.Popen, shutil.rmtree, uuid.uuid4, json.dumps, re.compile)],
    }


def umask():
    m = os.umask(0o22)
    os.umask(m)
    return m


def gen_operations(tier):
    groups = {}
    for n in sorted(OPS):
        groups.setdefault(n.split(":")[0].replace("other_", ""), []).append(n)
    for g in groups.values():
        for a in g:
            yield [a, g, tier != "quick"]


def run_operations(case, ctx):
    a, after, every = case
    p49.preload()
    root = ctx.tmp()
    want = {n: p49.alone(n, root) for n in [a, *after]}
    if any(kind != "ok" for kind, _ in want.values()):
        return  # what it gives alone is not this property
    slow = a.startswith(("database", "tables"))

    def run(point, warm):
        place = p49.Place(root + "/w")

        def go(n):
            d = place()
            try:
                return p49.canon(OPS[n](d), d)
            finally:
                shutil.rmtree(d, ignore_errors=True)
        logging.basicConfig()  # as Python does with the first message
        before = process()
        if warm:
            go(a)
            now = process()
            if now != before:
                return f"{a} leaves {changed(before, now)}"
        broken(lambda: go(a), point)
        now = process()
        if now != before:
            return f"{a} broken off at {p50.at(point, warm)} leaves {changed(before, now)}"
        n = after[(point[3] + point[4]) % len(after)]
        for n in dict.fromkeys([n, a] if warm else [a, n]):
            r = go(n)
            if r != want[n][1]:
                return f"{n} after {a} was broken off at {p50.at(point, warm)}: {p50.differ(r, want[n][1])}"

    os.makedirs(root + "/p", exist_ok=True)
    v, done = p50.each(p50.points(lambda: OPS[a](root + "/p"), every, (150 if every else 30) if slow else (1000 if every else 200), 0), run)
    ctx.true(v is None, v)
    ctx.step(2 * done)
    ctx.state(("broken", a))


def changed(a, b):
    return str({x: (a[x], b[x]) for x in b if a[x] != b[x]})[:600]


def gen_cases(tier):
    for c in p50.gen_cases(tier):
        yield c


def run_cases(case, ctx):
    pid, name, a, q, other, b, most, shift = case
    p49.preload()
    s, t = p50.suites(pid)[name], p50.suites(q)[other]

    def alone():
        with p50.quiet():
            if p50.outcome(s, a) is not None or p50.outcome(t, b) is not None:
                return None  # what it gives alone is not this property
            t0 = time.monotonic()
            p50.outcome(s, a)
            p50.outcome(t, b)
            return time.monotonic() - t0

    def run(point, warm):
        with p50.quiet():
            logging.basicConfig()  # as Python does with the first message
            before = process()
            if warm:
                p50.outcome(s, a)
            broken(lambda: p50.outcome(s, a), point)
            now = process()
            if now != before:
                return f"{pid} {name} {a} broken off at {p50.at(point, warm)} leaves {changed(before, now)}"
            for x, u, c in ([[pid, name, a], s, a], [[q, other, b], t, b]):
                r = p50.outcome(u, c)
                if r is not None:
                    return f"{x} after {pid} {name} {a} was broken off at {p50.at(point, warm)}: {r}"

    kind, once = p49.in_child(alone)
    if kind != "ok":
        ctx.fail(f"{pid} {name} {a}, {q} {other} {b} {kind}: {once}")
    if once is None:
        return
    v, done = p50.each(p50.points(lambda: p50.outcome(s, a), False, most if once < 0.1 else max(3, int(most * 0.1 / once)), shift), run)
    ctx.true(v is None, v)
    ctx.step(2 * done)
    ctx.state(("cases", pid, name, q, other, shift))


SUITES = [
    Suite("operations", gen_operations, run_operations, "points at which an operation is broken off, and what operations give afterwards",
          {"quick": "at every line of the library that 130 operations run, the first, middle and last time, <=200 points each (30 in a database parse)", "thorough": "at every executed line (<=1000, <=30 s)"}),
    Suite("cases", gen_cases, run_cases, "points at which a case of another check is broken off, and cases afterwards with their reference models",
          {"quick": "3 cases of every suite of 33 checks, <=30 points", "thorough": "4 cases, <=100 points"}),
]
ASSUMPTIONS = ["an operation is broken off before a line of the library, by an exception in its thread"]
CHUNK = 1
