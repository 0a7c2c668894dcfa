"""A small explicit-state / bounded-exhaustive model checker for Python code.

A check module in /verif/checks declares *suites*.  A suite is

    gen(tier)        -> iterator over JSON-serialisable cases (a history, an input, a fault plan ...)
                        enumerating a bounded space completely, simplest cases first
    run(case, ctx)   -> executes the case on the real code from /repo and compares every step with
                        a reference model; ctx.fail(...) on a disagreement,
                        ctx.step(n) per implementation step (transition),
                        ctx.state(x) per canonical model state reached.

Every case of the space is executed (no sampling, no time cut-off); distinct states are counted by
hashing their canonical form, transitions are the implementation steps that were compared.
A failing case is written to a replay file and can be run alone with
    ./run.sh PROP --replay FILE
"""

import _frozen_importlib_external
import contextlib
import hashlib
import importlib
import itertools
import json
import logging
import multiprocessing
import os
import resource
import shutil
import signal
import sys
import tempfile
import time
import traceback
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
WORKERS = int(os.environ.get("VERIF_WORKERS", "8"))
CASE_TIMEOUT = int(os.environ.get("VERIF_CASE_TIMEOUT", "60"))
MAX_FAILS = 5

# the tree under test comes first on the path, so that an installed copy is never picked up instead
if REPO not in sys.path:
    sys.path.insert(0, REPO)



def _from_source(path, *args, _original=_frozen_importlib_external.cache_from_source, **kwargs):
    """The tree under test is compiled from its sources, never taken from compiled files that may be older."""
    if os.fspath(path).startswith(os.path.join(REPO, "")):
        raise NotImplementedError
    return _original(path, *args, **kwargs)


_frozen_importlib_external.cache_from_source = _from_source
logging.disable(logging.CRITICAL)
warnings.simplefilter("ignore")


class Violation(Exception):
    """The property does not hold for the current case."""

    def __init__(self, msg, key=None):
        super().__init__(msg)
        self.msg = msg
        self.key = key


class CaseTimeout(BaseException):
    """A single case did not terminate."""


class Ctx:
    """Per-case context handed to a runner."""

    def __init__(self):
        self.states = set()
        self.steps = 0
        self.nontrivial = False
        self.scratch = None

    def state(self, x):
        self.states.add(hashlib.blake2b(repr(x).encode("utf-8", "surrogatepass"), digest_size=8).digest())

    def step(self, n=1):
        self.steps += n

    def fail(self, msg, key=None):
        raise Violation(msg, key)

    def eq(self, got, want, what, key=None):
        """One compared observation."""
        self.steps += 1
        if type(got) is not type(want) and not (isinstance(got, (int, bool)) and isinstance(want, (int, bool))):
            if got != want:
                raise Violation(f"{what}: got {got!r}, reference model says {want!r}", key)
        if got != want:
            raise Violation(f"{what}: got {got!r}, reference model says {want!r}", key)

    def true(self, cond, what, key=None):
        self.steps += 1
        if not cond:
            raise Violation(what, key)

    def tmp(self):
        """A private scratch directory, emptied before every case."""
        if self.scratch is None:
            self.scratch = tempfile.mkdtemp(prefix="mc_case_", dir=_scratch_root())
        return self.scratch

    def cleanup(self):
        if self.scratch is not None:
            shutil.rmtree(self.scratch, ignore_errors=True)
            self.scratch = None


_ROOT = None


def _scratch_root():
    return _ROOT or tempfile.gettempdir()


class Suite:
    def __init__(self, name, gen, run, what="", bound=""):
        self.name = name
        self.gen = gen
        self.run = run
        self.what = what
        self.bound = bound


def _alarm(signum, frame):
    raise CaseTimeout()


def run_case(suite, case):
    """Run one case -> (ctx, failure or None)."""
    ctx = Ctx()
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(CASE_TIMEOUT)
    fail = None
    sink = open(os.devnull, "w")
    try:
        with contextlib.redirect_stdout(sink), contextlib.redirect_stderr(sink):
            suite.run(case, ctx)
    except Violation as v:
        fail = (v.msg, v.key)
    except CaseTimeout:
        fail = (f"case did not terminate within {CASE_TIMEOUT} s", "timeout")
    except (Exception, SystemExit) as e:  # an unexpected exception on an input of the property's domain
        tb = traceback.extract_tb(e.__traceback__)
        where = ""
        for fr in reversed(tb):
            if fr.filename.startswith(REPO):
                where = f" at {os.path.relpath(fr.filename, REPO)}:{fr.name}"
                break
        if not where and os.environ.get("VERIF_DEBUG"):
            where = "\n" + "".join(traceback.format_exception(e))
        fail = (f"unexpected {type(e).__name__}: {e}{where}", "exception")
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)
        sink.close()
        ctx.cleanup()
    return ctx, fail


# -- parallel driver ---------------------------------------------------------------------------

_SUITES = None
_KNOWN = None


def _work(job):
    si, cases = job
    suite = _SUITES[si]
    states, steps, fails, known = set(), 0, [], []
    for case in cases:
        ctx, fail = run_case(suite, case)
        states |= ctx.states
        steps += ctx.steps
        if fail:
            k = _match_known(suite.name, case, fail)
            if k is not None:
                known.append(k)
            else:
                fails.append((case, fail[0], fail[1]))
                if len(fails) >= MAX_FAILS or fail[1] == "timeout":
                    break
    return si, len(cases), states, steps, fails, known


def _alone(ctxm, si, cases):
    """Runs the cases of a lost job one by one, each in a process of its own, to find the one that crashes."""
    states, steps, fails, known = set(), 0, [], []
    for case in cases:
        rd, wr = ctxm.Pipe(False)

        def child():
            _limit()
            wr.send(_work((si, [case])))

        p = ctxm.Process(target=child)
        p.start()
        wr.close()
        try:
            _, _, st, n, fl, kn = rd.recv()
        except EOFError:
            p.join()
            fails.append((case, f"the interpreter crashed (exit code {p.exitcode})", "crash"))
            break
        p.join()
        states |= st
        steps += n
        fails += fl
        known += kn
    return si, len(cases), states, steps, fails, known


def _limit():
    """A runaway case ends with MemoryError instead of taking the sandbox's memory."""
    lim = 4 << 30
    resource.setrlimit(resource.RLIMIT_AS, (lim, lim))


def _match_known(suite, case, fail):
    for i, k in enumerate(_KNOWN or []):
        if k.get("suite") == suite and case in k.get("cases", []):
            if "failure" not in k or k["failure"] in fail[0]:
                return i
    return None


def _chunks(it, n):
    it = iter(it)
    while True:
        c = list(itertools.islice(it, n))
        if not c:
            return
        yield c


def load_known(pid):
    out = []
    path = os.path.join(VERIF, "known_findings.jsonl")
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                line = line.strip()
                if not line or line.startswith("fixed:") or line.startswith("#"):
                    continue
                d = json.loads(line)
                if d.get("property") == pid:
                    out.append(d)
    return out


def main(argv):
    global _SUITES, _KNOWN, _ROOT
    pid = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    replay = None
    only = None
    i = 1
    while i < len(argv):
        if argv[i] == "--tier":
            tier = argv[i + 1]
            i += 2
        elif argv[i] == "--replay":
            replay = argv[i + 1]
            i += 2
        elif argv[i] == "--suite":
            only = argv[i + 1]
            i += 2
        else:
            print(f"unknown argument {argv[i]}", file=sys.stderr)
            return 2
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    t0 = time.time()
    _KNOWN = load_known(pid)
    _ROOT = tempfile.mkdtemp(prefix=f"mc_{pid}_")
    os.environ["TMPDIR"] = _ROOT
    tempfile.tempdir = _ROOT
    try:
        try:
            mod = importlib.import_module(f"checks.{pid.lower()}")
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)
            if any(fr.filename.startswith(os.path.join(REPO, "edk2toollib")) for fr in tb):
                return _report(pid, [("import", None, f"the package does not import: {e}", None)])
            raise
        _SUITES = mod.SUITES
        if replay:
            with open(replay) as f:
                d = json.load(f)
            s = next(x for x in _SUITES if x.name == d["suite"])
            ctx, fail = run_case(s, d["case"])
            if fail:
                print(f"{fail[0]}")
                print(f"VIOLATION property={pid} replay={os.path.abspath(replay)}")
                return 1
            print(f"{pid}: replayed case passes ({ctx.steps} steps)")
            return 0
        try:
            return _explore(pid, tier, seed, t0, mod, only)
        except Exception as e:  # generators may call the code under test
            tb = traceback.extract_tb(e.__traceback__)
            if any(fr.filename.startswith(os.path.join(REPO, "edk2toollib")) for fr in tb):
                return _report(pid, [("generate", None, f"unexpected {type(e).__name__}: {e}", None)])
            raise
    finally:
        shutil.rmtree(_ROOT, ignore_errors=True)


def _explore(pid, tier, seed, t0, mod, only):
    suites = _SUITES
    per, samples, fails, known_hit = {}, [], [], set()
    states = set()
    serial = getattr(mod, "SERIAL", False)
    ctxm = multiprocessing.get_context("fork")

    def jobs():
        for si, s in enumerate(suites):
            if only and s.name != only:
                continue
            first = True
            size = 4
            n = 0
            for c in _grow(s.gen(tier)):
                if first:
                    samples.append({"suite": s.name, "case": c[0]})
                    first = False
                n += len(c)
                yield si, c
            if len(samples) and samples[-1]["suite"] == s.name and n:
                samples.append({"suite": s.name, "case": c[-1]})

    def _grow(it):
        it = iter(it)
        size = min(4, getattr(mod, "CHUNK", 256))
        while True:
            c = list(itertools.islice(it, size))
            if not c:
                return
            yield c
            size = min(size * 2, getattr(mod, "CHUNK", 256))

    def take(res):
        si, n, st, steps, fl, kn = res
        name = suites[si].name
        d = per.setdefault(name, {"cases": 0, "states": set(), "transitions": 0})
        d["cases"] += n
        d["states"] |= st
        d["transitions"] += steps
        for case, msg, key in fl:
            fails.append((name, case, msg, key))
        known_hit.update(kn)

    if serial or WORKERS <= 1:
        for j in jobs():
            take(_work(j))
            if len(fails) >= MAX_FAILS:
                break
    else:
        with ctxm.Pool(WORKERS, initializer=_limit) as pool:
            pids = {p.pid for p in pool._pool}

            def result(r):
                """The result of a job; a worker that died (the interpreter crashed) is a failure of the job."""
                while True:
                    try:
                        return r[2].get(1)
                    except multiprocessing.TimeoutError:
                        if {p.pid for p in pool._pool} != pids or any(p.exitcode is not None for p in pool._pool):
                            return _alone(ctxm, r[0], r[1])

            # bounded look-ahead so that a huge generator is never materialised
            pending = []
            gen = jobs()
            done = False
            while not done or pending:
                while not done and len(pending) < WORKERS * 4:
                    try:
                        job = next(gen)
                        pending.append((*job, pool.apply_async(_work, (job,))))
                    except StopIteration:
                        done = True
                if pending:
                    take(result(pending.pop(0)))
                if fails:
                    done = True
                    for p in pending[: WORKERS]:
                        take(result(p))
                    pool.terminate()
                    break
    cov_suites = {}
    for s in suites:
        if s.name in per:
            d = per[s.name]
            states |= {s.name.encode() + x for x in d["states"]}
            cov_suites[s.name] = {
                "what": s.what,
                "bound": s.bound if isinstance(s.bound, str) else s.bound.get(tier, ""),
                "cases": d["cases"],
                "states": len(d["states"]),
                "transitions": d["transitions"],
            }
    cases = sum(d["cases"] for d in per.values())
    trans = sum(d["transitions"] for d in per.values())
    ev = {
        "property": pid,
        "tier": tier,
        "seed": seed,
        "level": "model_checking",
        "coverage": {
            "states": len(states),
            "transitions": trans,
            "traces_validated_against_impl": cases,
            "exhaustive": not fails,
            "samples": [json.loads(json.dumps(s))for s in samples[:12]],
            "suites": cov_suites,
        },
        "assumptions": list(getattr(mod, "ASSUMPTIONS", [])),
        "wall_s": round(time.time() - t0, 3),
        "violations": len(fails),
    }
    for s in ev["coverage"]["samples"]:
        if len(json.dumps(s)) > 3000:
            s["case"] = json.dumps(s["case"])[:3000] + "..."
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    tmp = os.path.join(VERIF, "evidence", f".{pid}.json.tmp")
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, os.path.join(VERIF, "evidence", f"{pid}.json"))
    for i in sorted(known_hit):
        print(f"KNOWN-FINDING: property={pid} {_KNOWN[i]['what']}")
    if fails:
        return _report(pid, fails)
    empty = [s.name for s in suites if not (only and s.name != only) and per.get(s.name, {}).get("cases", 0) == 0]
    if empty:
        print(f"{pid}: suites explored nothing: {empty}", file=sys.stderr)
        return 2
    print(f"{pid}: held on everything explored: {cases} executions, {len(states)} states, "
          f"{trans} compared steps, {ev['wall_s']} s ({tier})")
    return 0


def _report(pid, fails):
    d = os.path.join(VERIF, "evidence", "replay")
    os.makedirs(d, exist_ok=True)
    fails = sorted(fails, key=lambda f: len(json.dumps(f[1])))
    for n, (suite, case, msg, key) in enumerate(fails[:3]):
        p = os.path.join(d, f"{pid}_{n}.json")
        with open(p, "w") as f:
            json.dump({"property": pid, "suite": suite, "case": case, "message": msg}, f, indent=1)
        print(f"{pid} [{suite}] case {json.dumps(case)[:1500]}")
        print(f"  {msg[:3000]}")
        print(f"VIOLATION property={pid} replay={p}")
    return 1


# -- exploration helpers -----------------------------------------------------------------------


def sequences(alphabet, max_len, min_len=0):
    """All sequences over the alphabet, shortest first."""
    for n in range(min_len, max_len + 1):
        for t in itertools.product(alphabet, repeat=n):
            yield list(t)


def subsets(xs, min_len=0, max_len=None):
    xs = list(xs)
    for n in range(min_len, (len(xs) if max_len is None else max_len) + 1):
        for t in itertools.combinations(xs, n):
            yield list(t)


def deviations(n_points, menu, bound):
    """All environment plans with at most `bound` deviations from the default answer.

    A plan is a list of [point, alternative]; points 0..n_points-1, alternatives from menu(point).
    """
    for k in range(bound + 1):
        for pts in itertools.combinations(range(n_points), k):
            for alts in itertools.product(*[menu(p) for p in pts]):
                yield [[p, a] for p, a in zip(pts, alts)]


class Chooser:
    """Replayable nondeterministic choices (stateless exploration of one execution)."""

    def __init__(self, prefix):
        self.prefix = list(prefix)
        self.taken = []
        self.widths = []

    def choose(self, n):
        i = len(self.taken)
        c = self.prefix[i] if i < len(self.prefix) else 0
        if c >= n:
            raise RuntimeError("diverged while replaying a prefix")
        self.taken.append(c)
        self.widths.append(n)
        return c


def explore_choices(body, max_deviations=None):
    """Run body(chooser) for every choice sequence with at most max_deviations non-default choices."""
    stack = [[]]
    while stack:
        prefix = stack.pop()
        ch = Chooser(prefix)
        body(ch)
        yield ch.taken
        dev = sum(1 for c in prefix if c)
        if max_deviations is not None and dev >= max_deviations:
            continue
        for i in reversed(range(len(prefix), len(ch.taken))):
            for alt in range(1, ch.widths[i]):
                stack.append(ch.taken[:i] + [alt])


if __name__ == "__main__":
    sys.path.insert(0, VERIF)
    # run under the module name `lib.mc`, so that check modules share this state
    from lib import mc

    sys.exit(mc.main(sys.argv[1:]))
