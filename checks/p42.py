"""P42: log handlers write exactly the records they should, whole and in order, and leave the records as they were."""

import _thread
import io
import itertools
import logging
import os
import sys
import threading

from lib.mc import Suite
from lib.sizes import counts

CSI = "\x1b["
COLOR = {"WARNING": 33, "INFO": 36, "DEBUG": 34, "CRITICAL": 97, "ERROR": 31, "STATUS": 32, "PROGRESS": 32, "SECTION": 36}
AZURE = {"CRITICAL": "##[section]", "ERROR": "##[error]"}


def mods():
    from edk2toollib.log import ansi_handler, file_handler, string_handler

    return ansi_handler, file_handler, string_handler


def rec(levelno=20, msg="m", args=(), name="n", levelname=None, exc=None):
    return logging.makeLogRecord({"name": name, "levelno": levelno, "levelname": levelname or logging.getLevelName(levelno), "msg": msg, "args": args, "exc_info": exc, "lineno": 7,
                                  "pathname": "f.py"})


# -- an independent reader of control sequences ---------------------------------------------------------------------


def sequences(text):
    """[(text, None) or (parameters, command)]"""
    out, i, start = [], 0, 0
    while i < len(text):
        j = i + 1 if text[i] == "\x01" else i
        if text[j : j + 2] == CSI:
            k = j + 2
            while k < len(text) and text[k] in "0123456789;":
                k += 1
            if k < len(text) and text[k].isascii() and text[k].isalpha():
                out.append((text[start:i], None))
                out.append((text[j + 2 : k], text[k]))
                i = start = k + 2 if text[k + 1 : k + 2] == "\x02" else k + 1
                continue
        i += 1
    out.append((text[start:], None))
    return [x for x in out if x[0] or x[1]]


def strip(text):
    return "".join(t for t, c in sequences(text) if c is None)


# -- records -> text ------------------------------------------------------------------------------------------------

KINDS = ["string", "file", "file_a", "plain", "strip", "tty", "notty", "closed"]


class Out(io.StringIO):
    tty = False

    def isatty(self):
        if self.closed:
            raise ValueError("I/O operation on closed file")
        return self.tty


def make(kind, tmp, first=True):
    """(handler, function that gives its text)"""
    a, f, s = mods()
    if kind == "string":
        h = s.StringStreamHandler()

        def text():
            h.seek_start()
            return "".join(h.readlines())

        return h, text
    if kind.startswith("file"):
        path = os.path.join(tmp, "log.txt")
        if first:
            with open(path, "w", encoding="utf-8") as o:
                o.write("old\n")
        h = f.FileHandler(path, mode="a") if kind == "file_a" else f.FileHandler(path)

        def text():
            with open(path, encoding="utf-8", newline="") as i:
                return i.read()

        return h, text
    out = Out()
    out.tty = kind == "tty"
    h = a.ColoredStreamHandler(out, strip={"plain": False, "strip": True}.get(kind))
    return h, out.getvalue


def gen_levels(tier):
    levels = [5, 10, 20, 25, 30, 40, 50]
    for kind in KINDS[:-1]:
        for hl in (0, 10, 25, 40, 60):
            for n in range(1, 4 if tier != "quick" else 3):
                for c in itertools.product(levels, repeat=n):
                    for flt in ("none", "odd"):
                        yield [kind, hl, list(c), flt]


def run_levels(case, ctx):
    kind, hl, levels, flt = case
    h, text = make(kind, ctx.tmp())
    h.setLevel(hl)
    h.setFormatter(logging.Formatter("%(levelno)d %(message)s"))
    want = "old\n" if kind == "file_a" else ""
    if flt == "odd":
        h.addFilter(lambda r: r.levelno % 10 == 0)
    for n, lv in enumerate(levels):
        r = rec(lv, f"{n} é\x1b[31mx")
        passed = flt == "none" or lv % 10 == 0
        ctx.eq(bool(h.handle(r)), passed, "handle()")
        if passed and lv >= hl:
            want += f"{lv} {n} é\x1b[31mx\n" if kind in ("string", "file", "file_a", "plain", "tty") else f"{lv} {n} éx\n"
        ctx.eq(text(), want, f"text after {levels[: n + 1]}")
        if kind == "string":
            h.seek_end()
    h.close()
    ctx.state((kind, want))


def gen_filters(tier):
    ops = ["pass", "drop", "replace", "edit"]
    for kind in KINDS[:-1]:
        for n in range(4):
            for c in itertools.product(ops, repeat=n):
                yield [kind, list(c)]


def run_filters(case, ctx):
    """Filters may drop a record, change it, or (from Python 3.12 on) replace it."""
    kind, ops = case
    h, text = make(kind, ctx.tmp())
    h.setFormatter(logging.Formatter("%(message)s"))
    want, msg = "old\n" if kind == "file_a" else "", "m"
    seen = []
    for n, op in enumerate(ops):

        def f(r, n=n, op=op):
            seen.append((n, r.msg))
            if op == "replace":
                return rec(20, f"{r.msg}r{n}")
            if op == "edit":
                r.msg += f"e{n}"
            return op != "drop"

        h.addFilter(f)
    calls, dropped = [], False
    for n, op in enumerate(ops):
        if op == "replace" and sys.version_info < (3, 12):
            return
        if not dropped:
            calls.append((n, msg))
        if op == "drop":
            dropped = True
        if not dropped:
            msg += {"replace": f"r{n}", "edit": f"e{n}", "pass": ""}[op]
    ctx.eq(bool(h.handle(rec(20, "m"))), not dropped, "handle()")
    ctx.eq(seen, calls, "calls of the filters")
    ctx.eq(text(), want + ("" if dropped else msg + "\n"), "text")
    h.close()
    ctx.state((kind, tuple(ops)))


# -- control sequences ----------------------------------------------------------------------------------------------

TOKENS = ["a", "\x1b", "[", "3", ";", "m", "\x01", "\x02", "\n"]
PIECES = ["\x1b[31m", "\x1b[0;1m", "\x1b[K", "\x01\x1b[36m\x02", "x", "\x1b[", "\x1b", "[3", "\x1b[;m", "é", "\x02", "\x1b[3é"]


def gen_strip(tier):
    n = 5 if tier == "quick" else 6
    for k in range(n - 2):
        for c in itertools.product(TOKENS, repeat=k):
            yield ["".join(c), True]
    for k in range(1, 5 if tier != "quick" else 4):
        for c in itertools.product(PIECES, repeat=k):
            yield ["".join(c), False]


def run_strip(case, ctx):
    head, more = case
    texts = [head + "".join(c) for c in itertools.product(TOKENS, repeat=3)] if more else [head]
    h, text = make("strip", None)
    p, ptext = make("plain", None)
    want, pwant = "", ""
    for t in texts:
        for x in (h, p):
            x.handle(rec(20, t))
        want += strip(t) + "\n"
        pwant += t + "\n"
        ctx.step()
    if text() != want:  # find the text
        for t in texts:
            h, text = make("strip", None)
            h.handle(rec(20, t))
            ctx.eq(text(), strip(t) + "\n", f"{t!r} stripped")
        ctx.fail("several records stripped")
    ctx.eq(ptext(), pwant, "not stripped")
    ctx.state(head)


def gen_default(tier):
    for tty, closed, s in itertools.product((0, 1), (0, 1), (None, True, False)):
        for err in (0, 1):
            yield [tty, closed, s, err]


def run_default(case, ctx):
    """Without `strip` a stream that is no terminal gets no control sequences; without a stream it is stderr."""
    tty, closed, s, err = case
    out = Out()
    out.tty = bool(tty)
    if closed:
        out.close()
    old = sys.stderr
    sys.stderr = out
    try:
        a = mods()[0]
        h = a.ColoredStreamHandler(None if err else out, strip=s)
    finally:
        sys.stderr = old
    ctx.true(h.stream is out, "the stream")
    if not closed:
        h.handle(rec(20, "a\x1b[31mb"))
        ctx.eq(out.getvalue(), "ab\n" if (s if s is not None else not tty) else "a\x1b[31mb\n", "text")
    ctx.state(tuple(case))


# -- console colors (with a stand-in for the Windows console) -------------------------------------------------------


class Console:
    STDOUT, STDERR = -11, -12
    attrs = 7
    calls = []

    @classmethod
    def winapi_test(cls):
        return True

    @classmethod
    def GetConsoleScreenBufferInfo(cls, stream_id=-11):
        class Info:
            wAttributes = cls.attrs

        return Info

    @classmethod
    def SetConsoleTextAttribute(cls, stream_id, attrs):
        cls.calls.append(attrs)
        return True


CODES = [*range(30, 38), 39, *range(40, 48), 49, *range(90, 98), *range(100, 108)]
RGB = [0, 4, 2, 6, 1, 5, 3, 7]  # ANSI colors as those of the console


def console(attrs, state, code):
    fore, back, light = state
    if 30 <= code <= 37 or 90 <= code <= 97:
        return RGB[code % 10], back, (code >= 90, light[1])
    if 40 <= code <= 47 or 100 <= code <= 107:
        return fore, RGB[code % 10], (light[0], code >= 100)
    if code == 39:
        return attrs & 7, back, (False, light[1])
    if code == 49:
        return fore, attrs >> 4 & 7, (light[0], False)
    return state


def gen_convert(tier):
    for attrs in (7, 0x0F, 0x17, 0x9C, 0xF0) if tier == "quick" else range(256):
        for a in CODES:
            yield [attrs, a]


def run_convert(case, ctx):
    a = mods()[0]
    attrs, first = case
    old = getattr(a, "Console", None), getattr(a, "Win32Console", None), a.GetHostInfo
    a.GetHostInfo = lambda: old[2]()._replace(os="Windows") if hasattr(old[2](), "_replace") else type("H", (), {"os": "Windows"})()
    a.Win32Console = Console
    Console.attrs = attrs
    try:
        for second in [*CODES, None]:
            for form in ("\x1b[{}mT\x1b[{}m", "\x1b[{};{}m"):
                out = Out()
                out.tty = True
                Console.calls = []
                h = a.ColoredStreamHandler(out)
                h.handle(rec(20, "p" + form.format(first, second or "") + "q"))
                ctx.eq(out.getvalue(), "pTq\n" if "T" in form else "pq\n", f"text of {form} {first} {second}")
                state, w = (attrs & 7, attrs >> 4 & 7, (False, False)), []
                for c in (first, second):
                    if c is not None:
                        state = console(attrs, state, c)
                        w.append(state[0] | state[1] << 4 | (attrs & 0x88) | 8 * state[2][0] | 0x80 * state[2][1])
                ctx.eq(Console.calls, w, f"colors of {form} {first} {second} with {attrs:#x}")
                # the console is left alone if it is not to be converted
                Console.calls = []
                h = a.ColoredStreamHandler(out, strip=True, convert=False)
                h.handle(rec(20, form.format(first, second or "")))
                ctx.eq(Console.calls, [], "colors without conversion")
                ctx.state((attrs, first, second))
    finally:
        a.GetHostInfo = old[2]
        if old[1] is None:
            del a.Win32Console
        else:
            a.Win32Console = old[1]


# -- formatting -----------------------------------------------------------------------------------------------------

NAMES = [("DEBUG", 10), ("INFO", 20), ("WARNING", 30), ("ERROR", 40), ("CRITICAL", 50), ("STATUS", 24), ("PROGRESS", 23), ("SECTION", 51), ("OTHER", 35), ("INFO", 45), ("ERROR", 5)]
MSGS = [["text", []], ["%s of %d", ["a", 3]], [["list", 1], []], ["100%", []], [None, []], ["", []], ["two\nlines", []], ["%s", ["50%"]], ["%(k)s", [{"k": "v"}]], ["%d", ["bad"]], ["%s %s", ["few"]]]
FORMATS = ["%(levelname)s - %(message)s", "%(message)s", "%(levelname)s", "[%(levelname)s] %(name)s:%(lineno)d %(message)s|", "%(message)s %(levelname)s", ""]


def gen_format(tier):
    for n in range(len(NAMES)):
        for m in range(len(MSGS)):
            for f in range(len(FORMATS)):
                for azure in (False, True):
                    for exc in (False, True):
                        yield [n, m, f, azure, exc]


def formatted(fmt, name, no, msg, azure, exc):
    if azure:
        name = AZURE.get(name, name)
    elif name in COLOR:
        start, reset = f"{CSI}{COLOR[name]}m", f"{CSI}39m"
        name, msg = (start + name + reset, msg) if no < 30 else (start + name, msg + reset)
    out = (fmt or "%(message)s").replace("%(levelname)s", name).replace("%(name)s", "n").replace("%(lineno)d", "7").replace("%(message)s", msg)
    return out + ("\nTRACE" if exc else "")


def run_format(case, ctx):
    n, m, f, azure, exc = case
    a = mods()[0]
    name, no = NAMES[n]
    msg, args = MSGS[m]
    args = args[0] if args and isinstance(args[0], dict) else tuple(args)
    fm = a.ColoredFormatter(FORMATS[f], azure)
    fm.formatException = lambda ei: "TRACE"
    try:
        text, bad = str(msg) % args if args else str(msg), False
    except TypeError:
        bad = True
    r = rec(no, msg, args, levelname=name, exc=(ValueError, ValueError("x"), None) if exc else None)
    before = dict(r.__dict__)
    for again in range(2):
        try:
            got = fm.format(r)
        except TypeError:
            got = None
        ctx.eq(got, None if bad else formatted(FORMATS[f], name, no, text, azure, exc), "formatted text")
        after = {k: v for k, v in r.__dict__.items() if k in before and k not in ("exc_text", "message", "asctime")}
        ctx.eq(after, {k: v for k, v in before.items() if k in after}, "the record after formatting it")
    # and with the handlers: one that colors and one that does not, in both orders
    if not bad:
        for order in (0, 1):
            hs = []
            for kind, fmt in (("tty", fm), ("string", logging.Formatter(FORMATS[f] or None))):
                h, t = make(kind, None)
                h.setFormatter(fmt)
                hs.append((h, t))
            if exc:
                hs[1][0].formatter.formatException = lambda ei: "TRACE"
            for h, _ in hs[:: -1 if order else 1]:
                h.handle(r)
            ctx.eq(hs[0][1](), formatted(FORMATS[f], name, no, text, azure, exc) + "\n", "colored")
            ctx.eq(hs[1][1](), formatted(FORMATS[f], name if name not in COLOR else name, no, text, True, exc).replace("##[error]", "ERROR").replace("##[section]", "CRITICAL") + "\n", "not colored")
    ctx.state((name, no, str(msg), f, azure, exc))


def gen_colors(tier):
    yield []


def run_colors(case, ctx):
    a = mods()[0]
    codes = [*CODES]
    for c in codes:
        ctx.eq(a.get_ansi_string(c), f"{CSI}{c}m", f"sequence of {c}")
    ctx.eq(a.get_ansi_string(), f"{CSI}39m", "reset")
    for c in range(-2, 256):
        if c not in codes:
            ctx.eq(a.get_ansi_string(c), f"{CSI}39m", f"sequence of {c}, which is no color")
    ctx.state("colors")


# -- the string handler's stream ------------------------------------------------------------------------------------

OPS = [["emit", "a"], ["emit", "bb\ncc"], ["emit", ""], ["lines", -1], ["lines", 1], ["lines", 3], ["start"], ["end"], ["seek", 2, 0], ["seek", 0, 1], ["seek", 0, 2]]


def gen_stream(tier):
    n = 4 if tier == "quick" else 6
    stack = [([], "", 0)]
    while stack:
        ops, text, pos = stack.pop()
        if len(ops) == n:
            yield ops
            continue
        for i, op in enumerate(OPS):
            t, p, _ = stream_model(text, pos, op)
            if t is not None:
                stack.append((ops + [i], t, p))


def stream_model(text, pos, op):
    """(text, position, lines read); None if the operation has no meaning here"""
    if op[0] == "emit":
        if pos != len(text):
            return None, None, None
        text += op[1] + "\n"
        return text, len(text), None
    if op[0] == "lines":
        out, n = [], 0
        while pos < len(text):
            e = text.index("\n", pos) + 1
            out.append(text[pos:e])
            n += e - pos
            pos = e
            if 0 < op[1] < n:
                break
        return text, pos, out
    pos = {"start": 0, "end": len(text)}.get(op[0], pos)
    if op[0] == "seek":
        pos = {0: op[1], 1: pos, 2: len(text)}[op[2]]
        if pos > len(text):
            return None, None, None
    return text, pos, None


def run_stream(case, ctx):
    h = mods()[2].StringStreamHandler()
    h.setFormatter(logging.Formatter("%(message)s"))
    text, pos = "", 0
    for n, i in enumerate(case):
        op = OPS[i]
        text, pos, lines = stream_model(text, pos, op)
        if op[0] == "emit":
            h.handle(rec(20, op[1]))
        elif op[0] == "lines":
            ctx.eq(h.readlines() if op[1] == -1 else h.readlines(op[1]), lines, f"lines after {[OPS[j] for j in case[: n + 1]]}")
        elif op[0] == "start":
            h.seek_start()
        elif op[0] == "end":
            h.seek_end()
        else:
            ctx.eq(h.seek(op[1], op[2]), pos, "the new position")
        ctx.state((text, pos))
    h.seek_start()
    ctx.eq("".join(h.readlines()), text, "all lines")


# -- files ----------------------------------------------------------------------------------------------------------


def gen_files(tier):
    n = 5 if tier == "quick" else 7
    for c in itertools.product(["w", "a", "emit", "emit2"], repeat=n):
        if c[0] in "wa":
            yield list(c)


def run_files(case, ctx):
    """Handlers for one file, opened one after the other."""
    f = mods()[1]
    path = os.path.join(ctx.tmp(), "a b.log")
    text, h = "", None
    for n, op in enumerate(case):
        if op in "wa":
            if h is not None:
                h.close()
            h = f.FileHandler(path) if op == "w" else f.FileHandler(path, "a")
            text = "" if op == "w" else text
        else:
            h.handle(rec(20, "é" * n if op == "emit" else f"{n}\n\u20ac"))
            text += ("é" * n if op == "emit" else f"{n}\n\u20ac") + "\n"
        with open(path, "rb") as i:
            ctx.eq(i.read(), text.encode("utf-8"), f"file after {case[: n + 1]}")
        ctx.state((text, op))
    h.close()


# -- threads: all schedules -----------------------------------------------------------------------------------------


class Stop(BaseException):
    pass


class Sched:
    """Runs one thread at a time; `choices` decides who runs at each visible operation."""

    def __init__(self, choices):
        self.choices, self.taken, self.options = choices, [], []
        self.gates, self.done, self.blocked, self.cur = [], [], [], None
        self.main = _thread.allocate_lock()
        self.main.acquire()
        self.error = None

    def pick(self):
        alive = [i for i in range(len(self.gates)) if not self.done[i] and self.blocked[i] is None]
        if not alive:
            self.error = self.error or (None if all(self.done) else "deadlock")
            self.main.release()
            return None
        n = len(self.taken)
        if self.cur in alive:  # going on is the first option
            alive.remove(self.cur)
            alive.insert(0, self.cur)
        k = self.choices[n] if n < len(self.choices) else 0
        self.taken.append(k)
        self.options.append(len(alive))
        return alive[k]

    def point(self):
        """A visible operation is next."""
        me = self.cur
        if me is None or _thread.get_ident() != self.ids[me]:
            return
        nxt = self.pick()
        if nxt != me:
            self.cur = nxt
            if nxt is not None:
                self.gates[nxt].release()
            self.gates[me].acquire()
            self.cur = me

    def run(self, bodies):
        self.ids = [None] * len(bodies)
        for i in range(len(bodies)):
            g = _thread.allocate_lock()
            g.acquire()
            self.gates.append(g)
            self.done.append(False)
            self.blocked.append(None)

        def start(i):
            self.ids[i] = _thread.get_ident()
            self.gates[i].acquire()
            self.cur = i
            try:
                bodies[i]()
            except BaseException as e:
                self.error = f"{type(e).__name__}: {e}"
            self.done[i] = True
            nxt = self.pick()
            if nxt is not None:
                self.gates[nxt].release()

        for i in range(len(bodies)):
            _thread.start_new_thread(start, (i,))
        first = self.pick()
        self.gates[first].release()
        self.main.acquire()
        return self.error


SCHED = None


class CoopLock:
    def __init__(self):
        self.owner, self.count = None, 0

    def acquire(self, blocking=True, timeout=-1):
        s = SCHED
        me = None if s is None else s.cur
        if s is not None:
            s.point()
            while self.owner is not None and (self.owner != me or not self.reentrant):
                if not blocking:
                    return False
                s.blocked[me] = self
                s.point()
        self.owner = me if me is not None else -1
        self.count += 1
        return True

    def release(self):
        self.count -= 1
        if self.count == 0:
            self.owner = None
            s = SCHED
            if s is not None:
                for i, b in enumerate(s.blocked):
                    if b is self:
                        s.blocked[i] = None

    def locked(self):
        return self.count > 0

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()

    def _at_fork_reinit(self):
        pass


class Plain(CoopLock):
    reentrant = False


class Reentrant(CoopLock):
    reentrant = True


class YieldingStream:
    closed, encoding = False, "utf-8"

    def __init__(self, fail=None):
        self.parts, self.calls, self.failing = [], 0, fail

    def write(self, text):
        if SCHED is not None:
            SCHED.point()
        self.calls += 1
        if self.failing == self.calls:
            raise OSError("write")
        self.parts.append(text)
        return len(text)

    def flush(self):
        if SCHED is not None:
            SCHED.point()

    def isatty(self):
        return False

    def close(self):
        pass


class Msg:
    """A message whose text takes some time to get."""

    def __init__(self, text):
        self.text = text

    def __str__(self):
        if SCHED is not None:
            SCHED.point()
        return self.text


def thread_cases():
    for kind in ("string", "file", "plain", "strip"):
        for threads, records in ((2, 1), (2, 2), (3, 1)):
            for fail in (None, 1, 2):
                yield kind, threads, records, fail


def gen_threads(tier):
    # preemptions: every schedule with at most so many switches away from a thread that could go on
    for kind, threads, records, fail in thread_cases():
        parts = 1 if tier == "quick" else 32
        for part in range(parts):  # by the first deviation
            yield [kind, threads, records, fail, 3 if tier == "quick" else 4, part, parts]


def run_threads(case, ctx):
    global SCHED
    kind, threads, records, fail, bound, part, parts = case
    a, f, s = mods()
    saved = threading.Lock, threading.RLock, logging.raiseExceptions
    logging.raiseExceptions = False
    fm = a.ColoredFormatter("%(levelname)s:%(message)s")
    fm.format(rec())
    stack, seen = [[]], 0
    try:
        while stack:
            choices = stack.pop()
            threading.Lock, threading.RLock = Plain, Reentrant
            try:
                out = YieldingStream(fail)
                if kind == "string":
                    h = s.StringStreamHandler()
                    h.stream = out
                elif kind == "file":
                    h = f.FileHandler(os.devnull)
                    h.stream.close()
                    h.stream = out
                else:
                    h = a.ColoredStreamHandler(out, strip=kind == "strip")
                h.setFormatter(fm)

                def body(t):
                    recs = [rec(30 if t == 0 else 20, Msg(f"<t{t}\x1b[31mr{r}>"), ()) for r in range(records)]

                    def go():
                        for r in recs:
                            h.handle(r)
                            if SCHED is not None:
                                SCHED.point()

                    return go

                SCHED = sched = Sched(choices)
                error = sched.run([body(t) for t in range(threads)])
            finally:
                SCHED = None
                threading.Lock, threading.RLock = saved[:2]
            seen += 1
            ctx.step(len(sched.taken))
            how = f"schedule {sched.taken}"
            ctx.eq(error, None, how)
            text = "".join(out.parts)
            whole = {}
            for t, r in itertools.product(range(threads), range(records)):
                lv, no = ("WARNING", 30) if t == 0 else ("INFO", 20)
                w = formatted("%(levelname)s:%(message)s", lv, no, f"<t{t}\x1b[31mr{r}>", False, False)
                whole[(strip(w) if kind == "strip" else w) + "\n"] = (t, r)
            order, rest, cut = [], text, 0
            while rest:
                k = next((w for w in whole if rest.startswith(w)), None)
                if k is None:
                    # the record whose write failed may be there in part
                    k = None if fail is None or cut else max((w[:n] for w in whole for n in range(1, len(w)) if rest.startswith(w[:n])), key=len, default=None)
                    ctx.true(k is not None, f"{text!r} is no sequence of whole records, {how}")
                    cut += 1
                    rest = rest[len(k) :]
                    continue
                order.append(whole[k])
                rest = rest[len(k) :]
            for t in range(threads):
                mine = [r for x, r in order if x == t]
                ctx.eq(mine, sorted(set(mine)), f"order of thread {t}'s records, {how}")
            ctx.true(len(order) >= threads * records - (fail is not None), f"records are missing in {text!r}, {how}")
            ctx.state((kind, threads, records, fail, text))
            h.stream = io.StringIO()
            h.close()
            # every alternative at the points after the given choices
            spent = sum(1 for c in sched.taken[: len(choices)] if c)
            for n in range(len(choices), len(sched.taken)):
                if spent < bound and (choices or n % parts == part):
                    for k in range(1, sched.options[n]):
                        stack.append(sched.taken[:n] + [k])
    finally:
        logging.raiseExceptions = saved[2]


CHUNK = 1

# -- sizes: number of records, length of messages, number of control sequences ---------------------------------------


def gen_sizes(tier):
    for n in [*counts(tier, 1025, 0), 4095, 4096, 4097, 8191, 8192, 8193, 65536]:
        for kind in ("string", "file", "strip", "plain", "tty"):
            for what in ("records", "length", "lines", "sequences"):
                if n <= 1025 or what == "length":
                    yield [kind, what, n]


def run_sizes(case, ctx):
    kind, what, n = case
    msgs = {"records": [f"m{i}" for i in range(n)], "length": ["x" * n, "é" * n, "end"], "lines": ["\n".join(f"l{i}" for i in range(n)), "end"],
            "sequences": ["".join(f"\x1b[{30 + i % 8}mt{i}" for i in range(n)) + "\x1b[0m", "end"]}[what]
    h, text = make(kind, ctx.tmp())
    h.setFormatter(logging.Formatter("%(message)s"))
    for m in msgs:
        h.handle(rec(20, m))
    want = "".join((strip(m) if kind == "strip" else m) + "\n" for m in msgs)
    got = text()
    ctx.true(got == want, f"text of {what} {n}: {len(got)} characters, expected {len(want)}")
    if kind == "string":
        h.seek_start()
        ctx.true(h.readlines() == want.splitlines(True), f"lines of {what} {n}")
        h.seek_end()
        ctx.eq(h.readlines(), [], "lines at the end")
    if kind == "file":
        h.close()
    ctx.state(tuple(case))


SUITES = [
    Suite("sizes", gen_sizes, run_sizes, "number of records, length of messages, number of lines and control sequences", "counts up to 24 and edges to 1025, messages to 65536 characters, 5 kinds of handlers"),
    Suite("levels", gen_levels, run_levels, "what handle() returns and the text after every record", {"quick": "all sequences of <=2 records of 7 levels, 5 handler levels, 2 filters, 7 kinds of handlers",
          "thorough": "<=3 records"}),
    Suite("filters", gen_filters, run_filters, "text and calls of filters", "all sequences of <=3 filters that pass, drop, edit or replace the record"),
    Suite("strip", gen_strip, run_strip, "text without control sequences", {"quick": "all texts of 3 to 5 of 9 tokens and <=3 of 12 pieces", "thorough": "3 to 6 tokens, <=4 pieces"}),
    Suite("default", gen_default, run_default, "whether sequences are stripped", "terminals or not, closed or not, given or stderr"),
    Suite("convert", gen_convert, run_convert, "colors of the console (stand-in) and text", {"quick": "all pairs of 34 color codes, in two forms, 5 initial colors", "thorough": "all 256 initial colors"}),
    Suite("format", gen_format, run_format, "the text and the record afterwards", "11 levels x 11 messages x 6 formats, with and without exceptions, for terminals and Azure"),
    Suite("colors", gen_colors, run_colors, "sequences", "all codes -2..255"),
    Suite("stream", gen_stream, run_stream, "lines read and positions", {"quick": "all histories of 4 of 11 operations", "thorough": "6 operations"}),
    Suite("files", gen_files, run_files, "the file after each record", {"quick": "all histories of 5 of 4 operations", "thorough": "7 operations"}),
    Suite("threads", gen_threads, run_threads, "text and order of the records", {"quick": "all schedules with <=3 preemptions of 2 threads with <=2 records and 3 with one, with and without failing writes",
          "thorough": "<=4 preemptions"}),
]
