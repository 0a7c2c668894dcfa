"""P45: on Windows, UEFI variables are read, listed, written and deleted through the firmware API exactly as asked.

Windows is a stand-in: the module is loaded with os.name "nt" and a model of the firmware environment API behind windll
(privilege, last error, buffer sizes, NTSTATUS as a signed number) and of the token functions of pywin32.
"""

import ctypes
import importlib.util
import itertools
import os
import platform
import struct
import sys
import types
import uuid

from lib.mc import REPO, Suite

GET, SET, SETEX, ENUM = "get", "set", "setex", "enum"
TOO_SMALL = 0xC0000023
NOT_FOUND = 203
G1, G2 = "8be4df61-93ca-11d2-aa0d-00e098032b8c", "00000000-0000-0000-0000-0000000000FF"
MIB = 1 << 20


def fill(buf, data):
    """What the API writes; a buffer that is too small for the size it was given with is an error, not an overrun."""
    if data:
        if ctypes.sizeof(buf) < len(data):
            raise OSError("access violation writing the buffer")
        ctypes.memmove(buf, data, len(data))


def signed(x):
    return ctypes.c_int(x).value


class Firmware:
    """The operating system."""

    def __init__(self):
        self.vars = {}
        self.error = 0
        self.enabled = False
        self.handles = {}
        self.calls = []
        self.fault = None  # (function, number of the call, error)
        self.grow = []  # variables another process adds after the next size query

    def enter(self, what, error_is_status=False):
        self.calls.append(what)
        if self.fault and self.fault[0] == what:
            n = self.fault[1]
            if n == 0:
                err = self.fault[2]
                self.fault = None
                return err
            self.fault = (what, n - 1, self.fault[2])
        if not self.enabled:
            return 0xC0000061 if error_is_status else 1314
        return 0

    def key(self, name, guid):
        if not isinstance(name, str) or not isinstance(guid, str):
            raise ctypes.ArgumentError("wrong type")
        if guid[:1] != "{" or guid[-1:] != "}":
            return None
        return name.split("\0")[0], uuid.UUID(guid)

    def get(self, name, guid, buf, size):
        err = self.enter(GET)
        k = self.key(name, guid)
        if not err and k is None:
            err = 87
        if not err and k not in self.vars:
            err = NOT_FOUND
        if not err and len(self.vars[k][1]) > size:
            err = 122
        if err:
            self.error = err
            return 0
        data = self.vars[k][1]
        fill(buf, data)
        return len(data)

    def put(self, what, name, guid, value, size, attrs):
        err = self.enter(what)
        k = self.key(name, guid)
        if not err and (k is None or not k[0]):
            err = 87
        if not err and (size == 0 or attrs == 0):
            if k not in self.vars:
                err = NOT_FOUND
            else:
                del self.vars[k]
                return 1
        if err:
            self.error = err
            return 0
        if value is None:
            raise OSError("access violation reading the value")
        raw = value if isinstance(value, bytes) else bytes(memoryview(value))
        if size > len(raw):
            raise OSError("access violation reading the value")
        self.vars[k] = (attrs, raw[:size])
        return 1

    def listing(self):
        out = b""
        items = [(g.bytes_le, (n + "\0").encode("utf-16-le")) for n, g in self.vars]
        for i, (g, n) in enumerate(items):
            size = 20 + len(n)
            out += struct.pack("<I", size if i + 1 < len(items) else 0) + g + n
        return out

    def enumerate(self, info, buf, length):
        err = self.enter(ENUM, True)
        length = getattr(length, "_obj", None) or length.contents
        if not err and info != 1:
            err = 0xC000000D
        if err:
            return signed(err)
        data = self.listing()
        if length.value < len(data):
            length.value = len(data)
            for k, v in self.grow:
                self.vars[k] = v
            self.grow = []
            return signed(TOO_SMALL)
        fill(buf, data)
        length.value = len(data)
        return 0


NOW = None  # the operating system of the current case


class Function:
    """A function of a DLL: attributes can be set on it."""

    def __init__(self, f):
        self.f = f

    def __call__(self, *a):
        return self.f(*a)


def stand_ins():
    kernel = types.SimpleNamespace(
        GetFirmwareEnvironmentVariableW=Function(lambda n, g, b, s: NOW.get(n, g, b, s)),
        SetFirmwareEnvironmentVariableW=Function(lambda n, g, v, s: NOW.put(SET, n, g, v, s, 7)),
        SetFirmwareEnvironmentVariableExW=Function(lambda n, g, v, s, a: NOW.put(SETEX, n, g, v, s, a)),
        GetLastError=Function(lambda: NOW.error),
    )
    ntdll = types.SimpleNamespace(
        NtEnumerateSystemEnvironmentValuesEx=Function(lambda i, b, p: NOW.enumerate(i, b, p)),
    )
    windll = types.SimpleNamespace(kernel32=kernel, ntdll=ntdll)
    pkg = types.ModuleType("win32")
    pkg.__path__ = []
    api, proc, sec = (types.ModuleType("win32." + n) for n in ("win32api", "win32process", "win32security"))
    sec.TOKEN_READ, sec.TOKEN_ADJUST_PRIVILEGES, sec.SE_PRIVILEGE_ENABLED = 0x20008, 0x20, 2

    def open_token(process, access):
        if process != "this process":
            raise OSError("invalid handle")
        h = 100 + len(NOW.handles)
        NOW.handles[h] = access
        return h

    def adjust(token, disable_all, privileges):
        if not NOW.handles.get(token, 0) & 0x20:
            raise OSError("access denied")
        if disable_all:
            NOW.enabled = False
            return ()
        for luid, attributes in privileges:
            if luid == ("luid", "SeSystemEnvironmentPrivilege"):
                NOW.enabled = attributes == 2
        return ()

    def close(h):
        if not NOW.handles.get(h):
            raise OSError("invalid handle")
        NOW.handles[h] = None

    sec.LookupPrivilegeValue = lambda system, name: ("luid", name)
    sec.OpenProcessToken = open_token
    sec.AdjustTokenPrivileges = adjust
    proc.GetCurrentProcess = lambda: "this process"
    api.CloseHandle = close
    pkg.win32api, pkg.win32process, pkg.win32security = api, proc, sec
    return windll, pkg, {"win32": pkg, "win32.win32api": api, "win32.win32process": proc, "win32.win32security": sec,
                         "win32api": api, "win32process": proc, "win32security": sec}


def load():
    """The module, as Windows would load it."""
    windll, _, mods = stand_ins()
    path = os.path.join(REPO, "edk2toollib", "os", "uefivariablesupport.py")
    import edk2toollib.os  # noqa: F401  (the package itself is loaded as usual)

    spec = importlib.util.spec_from_file_location("edk2toollib.os.uefivariablesupport_nt", path)
    mod = importlib.util.module_from_spec(spec)
    saved = {n: sys.modules.get(n) for n in mods}
    sys.modules.update(mods)
    ctypes.windll, ctypes.WinError = windll, lambda code=None, descr=None: OSError(code or NOW.error, "WinError")
    ctypes.wintypes = importlib.import_module("ctypes.wintypes")
    old = os.name, sys.platform, platform.system
    os.name, sys.platform, platform.system = "nt", "win32", lambda: "Windows"
    try:
        spec.loader.exec_module(mod)
    finally:
        os.name, sys.platform, platform.system = old
        for n, m in saved.items():
            if m is None:
                del sys.modules[n]
            else:
                sys.modules[n] = m

    class Like(types.ModuleType):
        """A module with other values for some names."""

        def __init__(self, original, **other):
            super().__init__(original.__name__)
            self.__dict__.update(other)
            self._original = original

        def __getattr__(self, n):
            return getattr(self._original, n)

    for name, like in (("os", Like(os, name="nt")), ("sys", Like(sys, platform="win32")),
                       ("platform", Like(platform, system=lambda: "Windows"))):
        if isinstance(getattr(mod, name, None), types.ModuleType):
            setattr(mod, name, like)
    return mod


_MOD = None


def module():
    global _MOD
    if _MOD is None:
        _MOD = load()
    return _MOD


def parse(buf):
    """The names of a listing."""
    raw = bytes(buf) if isinstance(buf, (bytes, bytearray)) else buf.raw
    out, at = [], 0
    while at < len(raw):
        (nxt,) = struct.unpack_from("<I", raw, at)
        guid = uuid.UUID(bytes_le=raw[at + 4 : at + 20])
        name = raw[at + 20 : at + nxt if nxt else len(raw)]
        text = name[: len(name) // 2 * 2].decode("utf-16-le")
        out.append((text.split("\0")[0], guid))
        if not nxt:
            break
        at += nxt
    return out


NAMES = ["A", "B-1", "\u00e9\u4e2d", "A\0", "LongName" * 8]
DATA = [b"\0", b"xy\0z", bytes(range(256))]
OPS = (
    [["get", n, g] for n in (0, 1, 3) for g in (0, 1)]
    + [["set", n, g, d, a] for n, g in ((0, 0), (0, 1), (1, 0), (3, 0)) for d in (0, 1) for a in (None, 3)]
    + [["set", 0, 0, 2, 0x27], ["set", 2, 1, 2, 7], ["set", 0, 0, "empty", None], ["set", 0, 0, "empty", 7], ["set", 0, 0, 1, 0]]
    + [["del", n, g, a] for n, g in ((0, 0), (3, 0), (1, 0)) for a in (None, 7)]
    + [["list"]]
)


def gen_hist(tier):
    yield []
    for n in (1, 2) + ((3,) if tier != "quick" else ()):
        for h in itertools.product(OPS, repeat=n):
            yield [list(o) for o in h]
    if tier == "quick":
        small = [o for o in OPS if o[0] in ("list", "del") or o in (["get", 0, 0], ["get", 3, 1])] + [["set", 0, 0, 1, None], ["set", 1, 0, 0, 3], ["set", 0, 1, 1, None]]
        for h in itertools.product(small, repeat=3):
            yield [list(o) for o in h]


def step(ctx, fw, uv, model, op, fault=None):
    """One call, compared with the model: {(name, guid): (attributes, data)}."""
    fw.fault = fault and tuple(fault)
    hit = False
    before = dict(model)
    kind = op[0]
    name, guid = (NAMES[op[1]], (G1, G2)[op[2]]) if kind != "list" else (None, None)
    key = kind != "list" and (name.rstrip("\0"), uuid.UUID(guid))
    n = len(fw.calls)
    if kind == "get":
        err, data = uv.GetUefiVar(name, guid)
        hit = fault and fw.fault is None
        if hit:
            ctx.eq(err, fault[2], f"{op}: error of a failing read")
            ctx.true(not data, f"{op}: data {data!r} of a failing read")
        elif key in model:
            ctx.eq((err, bytes(data)), (0, model[key][1]), f"{op}: an existing variable")
        else:
            ctx.eq(err, NOT_FOUND, f"{op}: error for a variable that does not exist")
            ctx.true(not data, f"{op}: data {data!r} of a variable that does not exist")
    elif kind == "list":
        status, names = uv.GetUefiAllVarNames()
        hit = fault and fw.fault is None
        if hit:
            ctx.true(status != 0 and (names is None or not len(names)), f"a failing listing is reported as ({status}, {names!r})")
        else:
            ctx.eq(status, 0, "status of the listing")
            got = parse(names)
            ctx.eq(sorted(got, key=str), sorted(model, key=str), "listed variables")
    else:
        if kind == "set":
            data = b"" if op[3] == "empty" else DATA[op[3]]
            attrs = op[4]
        else:
            data, attrs = None, op[3]
        if data is None:
            ret = uv.SetUefiVar(name, guid, None, attrs) if attrs is not None else uv.SetUefiVar(name, guid)
        else:
            ret = uv.SetUefiVar(name, guid, data, attrs) if attrs is not None else uv.SetUefiVar(name, guid, data)
        hit = fault and fw.fault is None
        if hit:
            ctx.eq(ret, 0, f"{op}: a failing write is reported as")
        elif not data or attrs == 0:
            ctx.eq(bool(ret), key in model, f"{op}: deletion succeeded")
            model.pop(key, None)
        else:
            ctx.true(ret, f"{op}: the write failed")
            model[key] = (7 if attrs is None else attrs, data)
        ctx.eq(fw.calls[n:].count(SET) + fw.calls[n:].count(SETEX), 1, f"{op}: writes")
        ctx.eq(fw.calls[n:].count(SETEX), 0 if attrs is None else 1, f"{op}: writes with attributes")
    if hit or kind in ("get", "list"):
        model.clear()
        model.update(before)
    ctx.eq(fw.vars, model, f"{op}: variables afterwards")
    ctx.state(sorted((k[0], str(k[1]), v) for k, v in fw.vars.items()))
    fw.fault = None


def fresh(ctx, enabled=False):
    global NOW
    NOW = fw = Firmware()
    uv = module().UefiVariable()
    ctx.true(fw.enabled, "the privilege is not enabled")
    ctx.true(all(h is None for h in fw.handles.values()), "a handle stays open")
    return fw, uv


def run_hist(h, ctx):
    fw, uv = fresh(ctx)
    model = {}
    for op in h:
        step(ctx, fw, uv, model, op)
    for op in (["list"], ["get", 0, 0], ["get", 0, 1], ["get", 1, 0]):
        step(ctx, fw, uv, model, op)


ERRORS = {GET: [5, 1314, 87, 122, 203, 1], SET: [5, 19, 87, 203], SETEX: [5, 19, 87, 203],
          ENUM: [0xC0000061, 0xC0000002, 0xC0000022, 0x80000005, 0xC000000D]}


def gen_fault(tier):
    pre = [[], [["set", 0, 0, 1, None]], [["set", 0, 0, 1, None], ["set", 1, 0, 0, 3]], [["set", 2, 1, 2, 7]]]
    for p in pre:
        for op in OPS:
            what = {"get": GET, "list": ENUM}.get(op[0]) or (SETEX if op[-1] is not None else SET)
            for err in ERRORS[what]:
                for n in (0, 1) if what == ENUM else (0,):
                    for post in OPS if tier != "quick" else (["get", 0, 0], ["list"], ["set", 0, 0, 0, 3]):
                        yield [p, op, [what, n, err], post]


def run_fault(case, ctx):
    pre, op, fault, post = case
    fw, uv = fresh(ctx)
    model = {}
    for o in pre:
        step(ctx, fw, uv, model, o)
    step(ctx, fw, uv, model, op, fault)
    step(ctx, fw, uv, model, post)
    step(ctx, fw, uv, model, ["list"])


def gen_size(tier):
    for n in (1, 2, 255, 256, 257, 4095, 4096, 65535, 65536, MIB - 1, MIB, MIB + 1):
        for fill in (0, 0xFF, 0x41):
            yield ["data", n, fill]
    for n in range(0, 41 if tier == "quick" else 200):
        yield ["names", n]
    for n in range(0, 4):
        for add in range(1, 4):
            yield ["grow", n, add]


def run_size(case, ctx):
    fw, uv = fresh(ctx)
    kind, n, x = case + [None] * (3 - len(case))
    if kind == "data":
        data = bytes([x]) * (n - 1) + b"\1"
        ret = uv.SetUefiVar("V", G1, data, 7)
        ctx.true(ret, "the write failed")
        ctx.eq(fw.vars[("V", uuid.UUID(G1))], (7, data), "written variable")
        err, got = uv.GetUefiVar("V", G1)
        if n > MIB:
            ctx.true(err in (0, 122) and (got == data if err == 0 else not got), "a variable that is too large")
        else:
            ctx.eq((err, bytes(got)), (0, data), f"variable of {n} bytes")
        return
    for i in range(n):
        fw.vars[("N" * (i % 7 + 1) + str(i), uuid.UUID(int=i << 64 | i))] = (7, b"x")
    if kind == "grow":
        fw.grow = [(("grown" + str(i), uuid.UUID(int=i)), (7, b"y")) for i in range(x)]
    status, names = uv.GetUefiAllVarNames()
    if kind == "grow" and status != 0:
        ctx.true(names is None or not len(names), "an incomplete listing")
        ctx.state(("grow", n, x))
        status, names = uv.GetUefiAllVarNames()
    ctx.eq(status, 0, "status of the listing")
    ctx.eq(sorted(parse(names), key=str), sorted(fw.vars, key=str), "listed variables")
    ctx.state((kind, n, x))


SUITES = [
    Suite("history", gen_hist, run_hist, "histories of reads, writes, deletions and listings, compared after every call",
          {"quick": "all of <=2 of 34 calls; all of 3 of 12", "thorough": "all of <=3 of 34 calls"}),
    Suite("fault", gen_fault, run_fault, "every operation failing in the firmware with every error, then another one", "4 histories, every call, 4-6 errors"),
    Suite("size", gen_size, run_size, "sizes of variables and of listings; variables added while listing", "1 byte .. 1 MiB + 1; 0..40 (200) names"),
]
ASSUMPTIONS = [
    "Windows is a stand-in: os.name is 'nt' for the module and the firmware environment API is modelled from its documentation",
    "a write with attributes uses SetFirmwareEnvironmentVariableEx, one without SetFirmwareEnvironmentVariable",
]
