"""P39: every table generator's work is in the database entirely or not at all, wherever it fails or the process ends."""

import builtins
import os
import shutil
import sqlite3
import tempfile

from checks import p38
from lib.mc import Suite

CHUNK = 1

# (state before, another parse of it before?, state parsed)
STARTS = [["", False, ""], ["", True, "sglmfn"], ["cfa", True, "cfasglnu"], ["x", True, "xcl"]]
MORE = [["cf", False, "cf"], ["lcaf", True, "n"], ["", True, ""], ["c", True, "x"]]


class Injected(Exception):
    pass


class Killed(BaseException):
    pass


def dump(path):
    """Everything in the database file, through a connection of its own."""
    c = sqlite3.connect(path)
    try:
        names = [r[0] for r in c.execute("select name from sqlite_master where type='table' order by name")]
        return {n: sorted(c.execute(f'select * from "{n}"').fetchall(), key=repr) for n in names}
    finally:
        c.close()


def copy_dump(path, to):
    """What a process finds that opens the files as they are now."""
    for suffix in ("", "-journal", "-wal", "-shm"):
        if os.path.exists(to + suffix):
            os.remove(to + suffix)
        if os.path.exists(path + suffix):
            shutil.copy(path + suffix, to + suffix)
    return dump(to)


def diff(a, b):
    return {n: (len(a.get(n, ())), len(b.get(n, ()))) for n in sorted({*a, *b}) if a.get(n) != b.get(n)}


class Run:
    """A database that is parsed, where the n-th event of a kind fails."""

    def __init__(self, case, ctx):
        from edk2toollib.database import Edk2DB
        from edk2toollib.database.edk2_db import TableGenerator

        start, self.ctx = case, ctx
        top = tempfile.mkdtemp(dir=os.path.realpath(ctx.tmp()))
        self.ws = os.path.join(top, "ws")
        os.mkdir(self.ws)
        self.w = p38.Workspace(self.ws)
        self.file = os.path.join(top, "db.db")
        self.dumps, self.done, self.count, self.fail_at, self.what, self.exc = [], 0, 0, None, None, Injected
        self.copies = None
        run = self

        class Probe(TableGenerator):
            def parse(self, session, pathobj, id, env):
                run.dumps.append(dump(run.file))

        self.db = Edk2DB(self.file, self.w.path)
        self.hook()
        self.parse_state = p38.toggle(frozenset(), start[0])
        if start[1]:
            self.db.register(*p38.generators("all"))
            self.w.put(self.parse_state)
            self.db.parse(self.w.env(self.parse_state))
            self.db.clear_parsers()
        self.parse_state = p38.toggle(frozenset(), start[2])
        self.w.put(self.parse_state)
        self.gens = p38.generators("all")
        for g in self.gens:
            self.db.register(g, Probe())
        self.dumps.append(dump(self.file))

    def hook(self):
        from sqlalchemy import event

        event.listen(self.db.engine, "connect", lambda c, _: c.execute("pragma synchronous=off"))  # no wait for the disk
        for name in ("before_cursor_execute", "after_cursor_execute", "commit"):
            event.listen(self.db.engine, name, lambda *a, name=name: self.event("sql"))

    def event(self, what):
        if what != self.what:
            return
        self.count += 1
        if self.copies is not None:
            self.copies.append((len(self.dumps), copy_dump(self.file, self.file + ".copy")))
        if self.count == self.fail_at:
            raise self.exc()

    def go(self, what, fail_at, exc=Injected, copies=False):
        """True if the parse ended without the failure"""
        self.what, self.fail_at, self.exc, self.count = what, fail_at, exc, 0
        self.copies = [] if copies else None
        real = builtins.open

        def fake(path, *a, **k):
            if isinstance(path, (str, os.PathLike)) and os.fspath(path).startswith(self.ws) and ".git" not in os.fspath(path):
                self.event("open")
            return real(path, *a, **k)

        builtins.open = fake
        try:
            self.db.parse(self.w.env(self.parse_state))
            return True
        except (Injected, Killed):
            return False
        finally:
            builtins.open = real
            self.what = None

    def close(self):
        self.db.engine.dispose()


def gen_faults(tier):
    for start in STARTS + ([] if tier == "quick" else MORE):
        for what in ("sql", "open"):
            for exc in ("error", "kill") if tier != "quick" or start == STARTS[1] else ("error",):
                for i in range(16):
                    yield [start, what, exc, i]


def run_faults(case, ctx):
    start, what, exc, part = case
    r = Run(start, ctx)
    ctx.true(r.go(what, None), "a parse without failures failed")
    total = r.count
    ctx.eq(len(r.dumps), 1 + len(r.gens), "generators that were run")
    r.close()
    for n in range(1 + part, total + 1, 16):
        r = Run(start, ctx)
        ended = r.go(what, n, Injected if exc == "error" else Killed)
        ctx.true(not ended, f"the failure of {what} {n} of {total} was hidden")
        now = dump(r.file)
        ctx.true(now == r.dumps[-1], f"{what} {n} of {total} failed in {type(r.gens[len(r.dumps) - 1]).__name__ if len(r.dumps) <= len(r.gens) else '?'}, "
                 f"but the database changed: {diff(r.dumps[-1], now)}")
        # the same database can be used on
        if exc == "error" and n % 3 == part % 3:
            ctx.true(r.go("none", None), "the next parse failed")
            with r.db.session() as session:
                envs, src, infs, pk, rp = p38.snapshot(session)
            last = [e for e in envs.values() if e["rows"] == p38.want_rows(r.parse_state, True, "BASE") and "version" in e]
            ctx.true(len(last) >= 1, "the parse after a failed one is not as expected")
            ctx.eq(pk, p38.want_packages("BASE"), "packages after a failed parse")
            want = p38.want_sources(r.parse_state)
            ctx.eq({p: v for p, v in src if p in want}, want, "sources after a failed parse")
            want = p38.want_infs(r.parse_state)
            ctx.eq({p: v for p, v in infs if p in want}, want, "INFs after a failed parse")
        r.close()
        ctx.state((case[0], what, exc, n))


def gen_crashes(tier):
    for start in STARTS + MORE:
        yield start


def run_crashes(case, ctx):
    r = Run(case, ctx)
    ctx.true(r.go("sql", None, copies=True), "a parse without failures failed")
    ok = r.dumps
    for i, (k, d) in enumerate(r.copies):
        # the k-th dump is of the last finished generator; a commit may just have happened
        ctx.true(d == ok[k - 1] or (k < len(ok) and d == ok[k]), f"a process that ends at SQL event {i} leaves a part of a generator's work: {diff(ok[k - 1], d)}")
        ctx.state((case, i))
    ctx.true(dump(r.file) == ok[-1], "the database changed after the last generator")
    r.close()


def gen_session(tier):
    for n in range(0, 5):
        for at in range(0, n + 1):
            for how in ("ok", "error", "kill"):
                yield [n, at, how]


def run_session(case, ctx):
    from edk2toollib.database import Edk2DB, Library
    from edk2toollib.uefi.edk2.path_utilities import Edk2Path

    n, at, how = case
    f = os.path.join(ctx.tmp(), "db.db")
    db = Edk2DB(f, Edk2Path(ctx.tmp(), []))
    with db.session() as s:
        s.add(Library(name="first"))
    before = dump(f)
    try:
        with db.session() as s:
            for i in range(n):
                if i == at and how != "ok":
                    raise Injected() if how == "error" else Killed()
                s.add(Library(name=f"n{i}"))
                if i % 2:
                    s.flush()
            if how != "ok":
                raise Injected() if how == "error" else Killed()
        ctx.eq(how, "ok", "a session hid an exception")
    except (Injected, Killed) as e:
        ctx.eq(type(e).__name__, {"error": "Injected", "kill": "Killed"}.get(how), "exception of a session")
    names = [r[1] for r in dump(f)["library"]]
    ctx.eq(sorted(names), sorted(["first"] + [f"n{i}" for i in range(n)]) if how == "ok" else ["first"], "rows after a session")
    ctx.true(how == "ok" or dump(f) == before, "a failed session changed the database")
    db.engine.dispose()
    ctx.state(case)


SUITES = [
    Suite("faults", gen_faults, run_faults, "the database after a failure, through another connection, and the next parse",
          {"quick": "a failure before and after every SQL statement, at every commit and at every opened file of 4 parses, as an exception and as an interrupt", "thorough": "8 parses"}),
    Suite("crashes", gen_crashes, run_crashes, "the files of the database as another process would find them", "before and after every SQL statement and at every commit of 8 parses"),
    Suite("session", gen_session, run_session, "sessions", "all sessions of <=4 additions that end at any point"),
]
