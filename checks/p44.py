"""P44: on Linux, UEFI variables are read, listed, written and deleted through efivarfs exactly as asked.

The variables live in a scratch directory: every access below /sys/firmware/efi/efivars is redirected there, files are
immutable until `chattr -i` was called for them (as efivarfs has it), and `sudo` is a script that records its arguments.
"""

import builtins
import errno
import io
import itertools
import os
import stat
import struct
import uuid

from lib.mc import Suite
from lib.sizes import counts

ROOT = "/sys/firmware/efi/efivars"
NOT_FOUND = 0xCB
G1, G2 = "8be4df61-93ca-11d2-aa0d-00e098032b8c", "00000000-0000-0000-0000-0000000000ff"


class Fs:
    """The redirection."""

    def __init__(self, tmp):
        self.dir = os.path.join(tmp, "vars")
        self.bin = os.path.join(tmp, "bin")
        self.log = os.path.join(tmp, "log")
        self.immutable = set()
        self.writes = {}
        self.commands = []
        os.makedirs(self.dir)
        os.makedirs(self.bin)
        sudo = os.path.join(self.bin, "sudo")
        with open(sudo, "w") as f:
            f.write(f"#!/bin/sh\nfor a in \"$@\"; do printf '%s\\0' \"$a\"; done >> '{self.log}'\nprintf '\\n\\0' >> '{self.log}'\n")
        os.chmod(sudo, 0o755)

    def map(self, path):
        if isinstance(path, int):
            return path
        p = os.fspath(path)
        p = os.fsdecode(p)
        if p == ROOT or p.startswith(ROOT + "/"):
            return self.dir + p[len(ROOT) :]
        return path

    def sync(self):
        """Carries out the recorded commands."""
        if os.path.lexists(self.log):
            with self.real_open(self.log, "rb") as f:
                data = f.read()
            self.real["remove"](self.log)
            for c in data.split(b"\n\0")[:-1]:
                argv = [os.fsdecode(a) for a in c.split(b"\0")[:-1]]
                self.commands.append(argv)
                if argv[:2] == ["chattr", "-i"]:
                    self.immutable -= {p[len(ROOT) + 1 :] for p in argv[2:] if p.startswith(ROOT + "/")}

    def check_mutable(self, path, real):
        self.sync()
        name = os.path.basename(real)
        if os.path.dirname(real) == self.dir and name in self.immutable:
            raise PermissionError(errno.EPERM, "Operation not permitted", path)

    def __enter__(self):
        self.real_open = builtins.open
        self.real = {n: getattr(os, n) for n in ("stat", "lstat", "listdir", "scandir", "remove", "unlink", "open", "access", "mkdir", "rename", "replace", "chmod")}
        fs = self

        def wrap(name, changes):
            def f(path=".", *a, **k):
                real = fs.map(path)
                if changes and real is not path:
                    fs.check_mutable(path, real)
                return fs.real[name](real, *a, **k)

            return f

        for n in self.real:
            setattr(os, n, wrap(n, n in ("remove", "unlink", "rename", "replace")))

        def opened(path, mode="r", *a, **k):
            real = fs.map(path)
            if real is path or not set(mode) & set("wax+"):
                return fs.real_open(real, mode, *a, **k)
            fs.check_mutable(path, real)
            name = os.path.basename(real)
            fs.writes[name] = 0
            raw = fs.real_open(real, mode.replace("t", "").replace("b", "") + "b", buffering=0)

            class Raw(io.RawIOBase):
                def writable(self):
                    return True

                def write(self, b):
                    fs.writes[name] += 1
                    return raw.write(b)

                def close(self):
                    raw.close()
                    super().close()

            return io.BufferedWriter(Raw()) if k.get("buffering", a[0] if a else -1) else Raw()

        builtins.open = io.open = opened
        self.path = os.environ["PATH"]
        os.environ["PATH"] = self.bin + ":/usr/bin:/bin"
        self.cwd = os.getcwd()
        os.chdir(self.bin)
        return self

    def __exit__(self, *a):
        builtins.open = io.open = self.real_open
        for n, f in self.real.items():
            setattr(os, n, f)
        os.environ["PATH"] = self.path
        os.chdir(self.cwd)

    # the machine's side
    def put(self, name, data, immutable=True):
        with self.real_open(os.path.join(self.dir, name), "wb") as f:
            f.write(data)
        if immutable:
            self.immutable.add(name)

    def files(self):
        out = {}
        for n in self.real["listdir"](self.dir):
            with self.real_open(os.path.join(self.dir, n), "rb") as f:
                out[n] = f.read()
        return out


def unpack(data):
    """[(guid, name)] of the packed structures"""
    data, out, pos = bytes(data), [], 0
    while pos < len(data):
        (size,) = struct.unpack_from("<I", data, pos)
        end = pos + size if size else len(data)
        if size and size < 20 or end > len(data):
            return None
        out.append((str(uuid.UUID(bytes_le=data[pos + 4 : pos + 20])), data[pos + 20 : end].decode("utf-16-le").rstrip("\0")))
        pos = end
    return out


def vars_class():
    from edk2toollib.os.uefivariablesupport import UefiVariable

    return UefiVariable()


# -- histories ------------------------------------------------------------------------------------------------------

KEYS = [("A", G1), ("A", G2), ("A-b c", G1)]
START = [{}, {"A-" + G1: b"\x07\0\0\0one"}, {f"{n}-{g}": b"\x07\0\0\0old" + n.encode() for n, g in KEYS}]
OPS = ["get", "set1", "set2", "del", "list"]


def gen_histories(tier):
    n = 3 if tier == "quick" else 4
    for s in range(len(START)):
        for k in range(1, n + 1):
            for c in itertools.product(range(len(OPS) * len(KEYS)), repeat=k):
                if all(OPS[x % 5] != "list" or x < 5 for x in c):
                    if k == n and tier == "quick" and c[0] % 5 in (0, 4):
                        continue
                    yield [s, *c]


def run_histories(case, ctx):
    fs = Fs(ctx.tmp())
    with fs:
        model = dict(START[case[0]])
        for n, d in model.items():
            fs.put(n, d)
        u = vars_class()
        for n, x in enumerate(case[1:]):
            op, (name, guid) = OPS[x % 5], KEYS[x // 5]
            file = f"{name}-{guid}"
            what = f"{op} {file} after {case[: n + 1]}"
            if op == "get":
                ctx.eq(u.GetUefiVar(name, guid), (0, model[file][4:]) if file in model else (NOT_FOUND, None), what)
            elif op == "del":
                ctx.eq(u.SetUefiVar(name, guid) != 0, file in model, what)
                model.pop(file, None)
                fs.immutable.discard(file)
            elif op == "list":
                err, data = u.GetUefiAllVarNames()
                ctx.eq((err, sorted(unpack(data) or []), len(bytes(data)) == 0), (0, sorted((k[-36:], k[:-37]) for k in model), not model), what)
            else:
                data = {"set1": b"\0new", "set2": b"2"}[op]
                args = (data,) if op == "set1" else (data, 0x27)
                ctx.true(u.SetUefiVar(name, guid, *args) != 0, f"{what} failed")
                ctx.eq(fs.writes.get(file), 1, f"number of writes, {what}")
                model[file] = struct.pack("<I", 7 if op == "set1" else 0x27) + data
                fs.immutable.add(file)
            fs.sync()
            ctx.eq(fs.files(), model, f"variables after {what}")
            ctx.state(tuple(sorted(model.items())))


# -- names and data -------------------------------------------------------------------------------------------------

NAMES = ["A", "-", "a-b", " ", "x y", "a;b", "$HOME", "$(echo x)", "`x`", "a'b", 'a"b', "a\\b", "é", "&", "*", "-i", "a|b", ">x", "#", "~", "(", "A\0", "A\0\0", "." "a", "\U0001f600"]


def gen_names(tier):
    pairs = [""] if tier == "quick" else ["", *NAMES]
    for a, b in itertools.product(NAMES, pairs):
        for immutable in (False, True):
            yield [a + b, immutable]


def run_names(case, ctx):
    name, immutable = case
    fs = Fs(ctx.tmp())
    with fs:
        file = f"{name.rstrip(chr(0))}-{G1}"
        if "\0" in file:
            return
        u = vars_class()
        other = f"other-{G1}"
        fs.put(other, b"\x07\0\0\0x")
        fs.put(file, b"\x07\0\0\0\x01\x02", immutable)
        ctx.eq(u.GetUefiVar(name, G1), (0, b"\1\2"), "value")
        ctx.eq(sorted(unpack(u.GetUefiAllVarNames()[1]) or []), sorted([(G1, file[:-37]), (G1, "other")]), "names")
        ctx.true(u.SetUefiVar(name, G1, b"new") != 0, "setting")
        ctx.eq(fs.files(), {file: b"\x07\0\0\0new", other: b"\x07\0\0\0x"}, "variables")
        if immutable:
            fs.immutable.add(file)
        ctx.true(u.SetUefiVar(name, G1, None) != 0, "deleting")
        ctx.eq(fs.files(), {other: b"\x07\0\0\0x"}, "variables after deleting")
        ctx.eq(u.GetUefiVar(name, G1), (NOT_FOUND, None), "value after deleting")
        fs.sync()
        ctx.true(all(c == ["chattr", "-i", f"{ROOT}/{file}"] for c in fs.commands), f"commands {fs.commands}")
    ctx.state(tuple(case))


DATA = [b"", b"\0", b"\0\0\0\0", bytes(range(256)), b"x" * 5000, b"y" * 100000, b"\r\n\n"]
ATTRS = [None, 0, 1, 3, 7, 0x27, 0x37, 0x80000000, 0xFFFFFFFF]


def gen_data(tier):
    for d in range(len(DATA)):
        for a in ATTRS:
            yield [d, a]


def run_data(case, ctx):
    data, attrs = DATA[case[0]], case[1]
    fs = Fs(ctx.tmp())
    with fs:
        u = vars_class()
        for n in range(2):  # a new variable, and a known one
            ctx.true(u.SetUefiVar("V", G1, data, attrs) != 0, "setting")
            ctx.eq(fs.files(), {f"V-{G1}": struct.pack("<I", 7 if attrs is None else attrs) + data}, "variables")
            ctx.eq(fs.writes[f"V-{G1}"], 1, "number of writes")
            ctx.eq(u.GetUefiVar("V", G1), (0, data), "value")
            fs.immutable.add(f"V-{G1}")
        ctx.true(u.SetUefiVar("V", uuid.UUID(G1), data + b"z") != 0, "setting with a UUID")
        ctx.eq(u.GetUefiVar("V", uuid.UUID(G1)), (0, data + b"z"), "value")
    ctx.state(tuple(case))


FILES = [f"A-{G1}", f"A-{G2}", f"-{G1}", f"--{G1}", f"é-b-{G2}", f"1-2-3-4-5-6-{G1}", "bad", "a-b-c-d-e-f", f"X{G1}"[:-1]]


def gen_lists(tier):
    for n in range(len(FILES) + 1):
        for c in itertools.combinations(range(len(FILES)), n):
            if tier == "quick" and len([x for x in c if x > 5]) > 1:
                continue
            yield list(c)


def run_lists(case, ctx):
    fs = Fs(ctx.tmp())
    with fs:
        u = vars_class()
        for i in case:
            fs.put(FILES[i], b"\x07\0\0\0")
        try:
            err, data = u.GetUefiAllVarNames()
        except Exception:
            ctx.true(max(case, default=0) > 5, "refused though all files are variables")
            return
        ctx.true(max(case, default=0) <= 5, "a file that is no variable is listed")
        ctx.eq(err, 0, "status")
        ctx.eq(sorted(unpack(data) or []), sorted((FILES[i][-36:], FILES[i][:-37]) for i in case), "names")
        # without efivarfs
        for i in case:
            fs.immutable.clear()
            fs.real["remove"](os.path.join(fs.dir, FILES[i]))
        os.rmdir(fs.dir)
        ctx.eq(u.GetUefiAllVarNames(), (NOT_FOUND, None), "without efivarfs")
        ctx.eq(u.GetUefiVar("A", G1), (NOT_FOUND, None), "value without efivarfs")
        ctx.eq(u.SetUefiVar("A", G1), 0, "deleting without efivarfs")
        ctx.true(not os.path.exists(fs.dir) or stat.S_ISDIR(os.stat(fs.dir).st_mode), "scratch")
    ctx.state(tuple(case))


# -- sizes: number of variables, length of names and values ------------------------------------------------------


def gen_sizes(tier):
    for n in counts(tier, 1025, 0):
        yield ["many", n]
    for n in counts(tier, 218, 1):
        yield ["name", n]
    for n in [*counts(tier, 4097, 0), 8187, 8188, 8189, 8192, 65536, 1 << 20]:
        yield ["data", n]


def run_sizes(case, ctx):
    what, n = case
    fs = Fs(ctx.tmp())
    with fs:
        u = vars_class()
        if what == "many":
            want = []
            for i in range(n):
                name, g = "N" * (i % 40) + str(i), (G1, G2)[i % 2]
                fs.put(f"{name}-{g}", struct.pack("<I", 7) + str(i).encode())
                want.append((g, name))
            err, data = u.GetUefiAllVarNames()
            ctx.eq((err, sorted(unpack(data) or [])), (0, sorted(want)), f"names of {n} variables")
            for i in {0, n // 2, n - 1} if n else ():
                ctx.eq(u.GetUefiVar(want[i][1], want[i][0]), (0, str(i).encode()), f"variable {i} of {n}")
                ctx.true(u.SetUefiVar(want[i][1], want[i][0], None) != 0, f"deleting variable {i} of {n}")
                want[i] = None
            err, data = u.GetUefiAllVarNames()
            ctx.eq((err, sorted(unpack(data) or [])), (0, sorted(w for w in want if w)), f"names of the variables left of {n}")
        else:
            name, data = ("N" * n, b"value") if what == "name" else ("V", bytes(i * 7 & 0xFF for i in range(n)))
            for k in range(2):
                ctx.true(u.SetUefiVar(name, G1, data, 0x27) != 0, f"setting ({what} {n})")
                ctx.true(fs.files() == {f"{name}-{G1}": struct.pack("<I", 0x27) + data}, f"variables ({what} {n})")
                ctx.eq(fs.writes[f"{name}-{G1}"], 1, f"number of writes ({what} {n})")
                ctx.true(u.GetUefiVar(name, G1) == (0, data), f"value ({what} {n})")
                fs.immutable.add(f"{name}-{G1}")
            ctx.eq(unpack(u.GetUefiAllVarNames()[1]), [(G1, name)], "names")
            ctx.true(u.SetUefiVar(name, G1) != 0, f"deleting ({what} {n})")
            ctx.eq(fs.files(), {}, f"variables after deleting ({what} {n})")
    ctx.state(tuple(case))


SUITES = [
    Suite("sizes", gen_sizes, run_sizes, "number of variables, length of names and values", "<=1025 variables, names to 218 characters, values to 1 MiB"),
    Suite("histories", gen_histories, run_histories, "results, variables and writes", {"quick": "all histories of <=3 operations on 3 variables, 3 initial states (with 3, the first is no query)", "thorough": "<=4 operations"}),
    Suite("names", gen_names, run_names, "results, variables and commands", {"quick": "25 names, immutable or not", "thorough": "all pairs of 25 parts of names"}),
    Suite("data", gen_data, run_data, "files and values", "7 values up to 100000 bytes, 9 attributes"),
    Suite("lists", gen_lists, run_lists, "names or refusal", {"quick": "all sets of 6 variables and at most one of 3 other files", "thorough": "all sets of 9 files"}),
]
