"""P50: threads that use the library at the same time do not disturb one another.

All schedules with one preemption at a line of the library: an operation is stopped before a line, another one runs to
its end in a second thread, and the first goes on.  Operations are those of P49, compared with what they give alone,
and cases of the other checks, each compared with its own reference model.  Every pair runs in a process of its own.
"""

import contextlib
import importlib
import itertools
import os
import shutil
import sys
import threading
import time

from checks import p49
from lib.mc import Ctx, Suite

OPS = p49.OPS
LIB = None
LEFT_OUT = {("P35", "printing"), ("P26", "defaults")}  # captures the log of the process; waits for the clock
# checks whose cases change the process (directory, environment, stand-ins for functions of Python, processes, git) are left out
CHECKS = ["P01", "P02", "P03", "P04", "P05", "P06", "P07", "P08", "P09", "P10", "P11", "P12", "P14", "P18", "P21", "P22", "P23", "P24", "P25", "P26", "P27",
          "P28", "P29", "P30", "P31", "P32", "P33", "P34", "P35", "P36", "P37", "P40", "P43"]


def library():
    global LIB
    if LIB is None:
        import edk2toollib

        LIB = os.path.dirname(os.path.abspath(edk2toollib.__file__)) + os.sep
    return LIB


def where(code):
    return code.co_filename, code.co_firstlineno, code.co_name


def lines_of(f):
    """The library lines that f() runs in this thread, in order."""
    lib, seen = library(), []

    def local(frame, event, arg):
        if event == "line":
            seen.append((*where(frame.f_code), frame.f_lineno))
        return local

    sys.settrace(lambda frame, event, arg: local if frame.f_code.co_filename.startswith(lib) else None)
    try:
        f()
    finally:
        sys.settrace(None)
    return seen


def stop_at(point, act):
    """Calls act() before the n-th time this thread comes to a line."""
    code, line, left = point[:3], point[3], [point[4]]

    def local(frame, event, arg):
        if event == "line" and frame.f_lineno == line:
            left[0] -= 1
            if left[0] == -1:
                sys.settrace(None)
                act()
        return local

    sys.settrace(lambda frame, event, arg: local if where(frame.f_code) == code else None)


def interrupted(f, point, other):
    """f(), with other() run in another thread at a point."""
    thread = threading.Thread(target=other)

    def act():
        thread.start()
        thread.join(3)  # it can be waiting for a lock that f holds

    stop_at(point, act)
    try:
        return f()
    finally:
        sys.settrace(None)
        if thread.ident is not None:
            thread.join()


def points(f, every, most, shift):
    """The moments at which f() is stopped: (file, function, line, how many times it ran before), found in a process of its own."""

    def find():
        t0 = time.monotonic()
        times = {}
        for x in lines_of(f):
            times[x] = times.get(x, 0) + 1
        return [(*x, i) for x, n in times.items() for i in (range(n) if every else sorted({0, n // 2, n - 1}))], time.monotonic() - t0

    kind, v = p49.in_child(find)
    if kind != "ok":
        raise RuntimeError(f"{kind}: {v}")
    ps, seconds = v
    k = -(-len(ps) // most) if ps else 1
    ps = ps[shift % k::k]
    step = next((x for x in (61, 67, 71, 73) if len(ps) % x), 1)
    return [ps[i * step % len(ps)] for i in range(len(ps))]  # in an order that comes to all parts soon


def at(point, warm):
    return f"{os.path.basename(point[0])}:{point[3]}, time {point[4] + 1}" + (" of a later run" if warm else "")


LIMIT = 30  # seconds for the points of one pair


def each(points, run):
    """run(point, warm) at each point in a process of its own; the first result that is not None, and how many there were."""
    t0, done = time.monotonic(), 0
    for done, p in enumerate(points, 1):
        kind, v = p49.in_child(lambda: run(p, done % 4 == 0))
        if kind != "ok":
            return f"at {at(p, done % 4 == 0)} it {kind}: {v}", done
        if v is not None:
            return v, done
        if time.monotonic() - t0 > LIMIT:
            break
    return None, done


# -- the operations of P49 -------------------------------------------------------------------------------------------


def gen_operations(tier):
    groups = {}
    for n in sorted(OPS):
        groups.setdefault(n.split(":")[0].replace("other_", ""), []).append(n)
    for g in groups.values():
        for a, b in itertools.product(g, repeat=2):
            yield [a, b, tier != "quick", 0, MOST]
    firsts = [g[0] for g in groups.values()]
    for k, (a, b) in enumerate(itertools.permutations(firsts, 2)):
        if tier != "quick" or k % 12 == 0:
            yield [a, b, False, k, MOST if tier == "quick" else 20]


def run_operations(case, ctx):
    a, b, every, shift, most = case
    p49.preload()
    root = ctx.tmp()
    want = {n: p49.alone(n, root) for n in (a, b)}
    if any(kind != "ok" for kind, _ in want.values()):
        return  # what it gives alone is not this property
    slow = a.startswith(("database", "tables"))

    def run(point, warm):
        place = p49.Place(root + "/w")
        inner = []
        if warm:
            e = place()
            OPS[a](e)
            shutil.rmtree(e, ignore_errors=True)
        before = os.getcwd(), dict(os.environ)

        def other():
            now = os.getcwd(), dict(os.environ)
            e = place()
            try:
                inner.append(p49.canon(OPS[b](e), e) if now == before else ["directory and environment of the process", *now])
            except BaseException as x:  # noqa
                inner.append(["raised", f"{type(x).__name__}: {x}"])
            shutil.rmtree(e, ignore_errors=True)
        d = place()
        r = p49.canon(interrupted(lambda: OPS[a](d), point, other), d)
        shutil.rmtree(d)
        for x in inner:
            if x[:1] == ["directory and environment of the process"]:
                return f"{a} changes the process at {at(point, warm)}: directory {x[1]}"
            if x != want[b][1]:
                return f"{b} while {a} is at {at(point, warm)}: {differ(x, want[b][1])}"
        if r != want[a][1]:
            return f"{a} interrupted at {at(point, warm)} by {b}: {differ(r, want[a][1])}"
        for n in dict.fromkeys((a, b)):
            d = place()
            r = p49.canon(OPS[n](d), d)
            shutil.rmtree(d)
            if r != want[n][1]:
                return f"{n} after {a} was interrupted at {at(point, warm)} by {b}: {differ(r, want[n][1])}"

    os.makedirs(root + "/p", exist_ok=True)
    v, done = each(points(lambda: OPS[a](root + "/p"), every, (150 if every else 20) if slow else 500 if every else most, shift), run)
    ctx.true(v is None, v)
    ctx.step(3 * done)
    ctx.state(("meanwhile", a, b))


MOST = 60


def differ(a, b):
    try:
        Ctx().eq(a, b, "")
    except Exception as e:  # noqa
        return str(e)[:700]
    return f"{a} and not {b}"[:700]


# -- the cases of the other checks --------------------------------------------------------------------------------------


def suites(pid):
    mod = importlib.import_module(f"checks.{pid.lower()}")
    return {s.name: s for s in mod.SUITES}


def pick(suite, n):
    """n cases of a suite, from all over its first 3000."""
    cases = list(itertools.islice(suite.gen("quick"), 3000))
    return [cases[len(cases) * (2 * i + 1) // (2 * n)] for i in range(min(n, len(cases)))]


def gen_cases(tier):
    n, most = (3, 30) if tier == "quick" else (4, 100)
    k = 0
    last = None
    for pid in CHECKS:
        for name, s in suites(pid).items():
            if (pid, name) in LEFT_OUT:
                continue
            own = pick(s, n)
            pairs = [(own[i], pid, name, own[(i + 1) % len(own)]) for i in range(len(own))]
            if last:
                pairs.append((own[-1], *last))
            last = (pid, name, own[-1])
            for a, q, other, b in pairs:
                k += 1
                yield [pid, name, a, q, other, b, most, k]


def outcome(suite, case):
    """None if the case of another check holds, else what is wrong."""
    ctx = Ctx()
    try:
        suite.run(case, ctx)
    except BaseException as e:  # noqa
        return f"{type(e).__name__}: {e}"[:600]
    finally:
        ctx.cleanup()
    return None


def run_cases(case, ctx):
    pid, name, a, q, other_name, b, most, shift = case
    p49.preload()
    s, t = suites(pid)[name], suites(q)[other_name]

    def alone():
        with quiet():
            if outcome(s, a) is not None or outcome(t, b) is not None:
                return None  # what it gives alone is not this property
            t0 = time.monotonic()
            outcome(s, a)
            outcome(t, b)
            return time.monotonic() - t0

    def run(point, warm):
        with quiet():
            if warm:
                outcome(s, a)
            before = os.getcwd(), dict(os.environ)
            inner = []

            def other():
                now = os.getcwd(), dict(os.environ)
                inner.append(outcome(t, b) if now == before else f"the process was changed: directory {now[0]}")
            r = interrupted(lambda: outcome(s, a), point, other)
            if any(inner):
                return f"{q} {other_name} {b} while {pid} {name} {a} is at {at(point, warm)}: {inner}"
            if r is not None:
                return f"{pid} {name} {a} interrupted at {at(point, warm)} by {q} {other_name} {b}: {r}"

    kind, once = p49.in_child(alone)
    if kind != "ok":
        ctx.fail(f"{pid} {name} {a}, {q} {other_name} {b} {kind}: {once}")
    if once is None:
        return
    v, done = each(points(lambda: outcome(s, a), False, most if once < 0.1 else max(3, int(most * 0.1 / once)), shift), run)
    ctx.true(v is None, v)
    ctx.step(2 * done)
    ctx.state(("cases", pid, name, q, other_name, shift))


@contextlib.contextmanager
def quiet():
    with open(os.devnull, "w") as sink, contextlib.redirect_stdout(sink), contextlib.redirect_stderr(sink):
        yield


SUITES = [
    Suite("operations", gen_operations, run_operations, "schedules of two threads with one preemption, 130 operations",
          {"quick": "all pairs of one kind and a twelfth of those of two kinds, <=60 preemption points each (20 in a database parse), each in a process of its own",
           "thorough": "all pairs of one kind, at every executed line (<=500), all others at <=20; <=30 s each"}),
    Suite("cases", gen_cases, run_cases, "schedules of two threads with one preemption, cases of the other checks with their reference models",
          {"quick": "3 cases of every suite of 33 checks, each interrupted by another of the suite and one by a case of another suite, <=30 points", "thorough": "4 cases, <=100 points"}),
]
ASSUMPTIONS = ["the second operation runs whole between two lines of the first", "operations do not share objects or files"]
CHUNK = 1
