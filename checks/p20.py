"""P20: locating Windows tools: vswhere, vcvarsall variables, SDK binaries - with stand-ins for the Windows side."""

import codecs
import contextlib
import glob
import hashlib
import importlib.resources
import io
import itertools
import os
import platform
import subprocess
import types
import urllib.request
from pathlib import Path
from unittest import mock

from lib.mc import Suite

codecs.register(lambda n: codecs.lookup("latin-1") if n == "mbcs" else None)


@contextlib.contextmanager
def host(system="Windows", machine="AMD64"):
    u = types.SimpleNamespace(system=system, machine=machine, node="n", release="10", version="10", processor=machine)
    with mock.patch.object(platform, "uname", lambda: u), mock.patch.object(platform, "system", lambda: system), \
            mock.patch.object(platform, "machine", lambda: machine):
        yield


# -- SDK binaries -------------------------------------------------------------------------------------

FRONTS = ["10.0.1.0/x64", "10.0.2.0/x64", "10.0.10.0/x64", "10.0.9.0/x86", "10.0.10.0/arm64", "x64", "any", "10.0.1.0/10.0.3.0",
          "10.0.10.0/arm", "9.99.0.0/amd64", "i386"]
HOSTS = ["AMD64", "x86", "ARM64"]
CUR = ["10.0.1.0", "10.0.2.0\\", "10.0.99.0", None]


def arch_ok(front, machine):
    parts = [p.lower() for p in front.split("/")]
    if "x64" in parts or "amd64" in parts:
        return machine == "AMD64"
    if "x86" in parts:
        return machine in ("AMD64", "x86")
    if "arm64" in parts:
        return machine == "ARM64"
    if "arm" in parts:
        return machine == "ARM64"
    return "i386" not in parts


def ver(v):
    return tuple(int(x) for x in v.strip("\\").split(".")[:3])


def gen_sdk(tier):
    n = 3 if tier == "quick" else 4
    for k in range(n + 1):
        for fr in itertools.permutations(range(len(FRONTS)), k):
            for m in range(len(HOSTS)):
                for c in range(len(CUR)):
                    if k >= 3 and (m + c + sum(fr)) % (2 if tier == "quick" else 3):
                        continue
                    yield [list(fr), m, c]


def run_sdk(case, ctx):
    from edk2toollib.windows import locate_tools as lt

    fr, m, c = case
    fronts = [FRONTS[i] for i in fr]
    root = os.path.realpath("/nowhere/kit")
    calls = []

    def query(keys, arch=None, product=None, vs_version=None, vc_version=None):
        calls.append((sorted(keys), arch, product))
        if CUR[c] is None:
            raise ValueError("Missing keys")
        return {"WindowsSdkDir": root, "WindowsSDKVersion": CUR[c]}

    base = root if CUR[c] is not None else os.path.join("/nowhere/pf", "Windows Kits", "10", "bin")
    base = os.path.realpath(base)
    matches = [os.path.join(base, f, "tool.exe") for f in fronts]
    pats = []

    def find(p, *a, **kw):
        pats.append((p, kw.get("recursive", False)))
        return list(matches) if p == os.path.join(base, "**", "tool.exe") else []

    machine = HOSTS[m]
    with host(machine="x86_32" if machine == "x86" else machine), mock.patch.object(lt, "QueryVcVariables", query), \
            mock.patch.object(glob, "iglob", lambda *a, **k: iter(find(*a, **k))), mock.patch.object(glob, "glob", find), \
            mock.patch.dict(os.environ, {"ProgramFiles(x86)": "/nowhere/pf"}):
        got = lt.FindToolInWinSdk("tool.exe", product="prod", arch="ia64")
    ctx.eq(calls, [(["WindowsSDKVersion", "WindowsSdkDir"], "ia64", "prod")], "query of the SDK variables (keys, arch, product)")
    best, want = None, set()
    for f, p in zip(fronts, matches):
        if not arch_ok(f, machine):
            continue
        vs = [ver(x) for x in f.split("/") if x.count(".") == 3]
        cur = CUR[c] is not None and ver(CUR[c]) in vs
        rank = (1, ()) if cur else (0, max(vs, default=()))
        if best is None or rank > best:
            best, want = rank, set()
        if rank == best:
            want.add(p)
    if not want:
        ctx.eq(got, None, f"no tool among {fronts} for {machine}")
    else:
        ctx.true(got in want, f"tool among {fronts} for {machine} with SDK {CUR[c]}: {got!r}, expected one of {sorted(want)}")
    ctx.state(repr(case))


# -- vcvarsall ------------------------------------------------------------------------------------------

ENVS = [
    ["PATH=C:\\a;C:\\b;", "WindowsSdkDir=C:\\Kits\\10\\", "WindowsSDKVersion=10.0.1.0\\", "X=1"],
    ["Path=C:\\a", "WINDOWSSDKDIR=C:\\k", "windowssdkversion=9", "[Environment initialized]", "LIB=a=b;c=d"],
    ["**** banner", "", "LIB=", "Path=;"],
    ["PATHX=no", "XPATH=no"],
]
KEYS = ["PATH", "path", "WindowsSdkDir", "WindowsSDKVersion", "LIB"]


class Popen:
    env = []
    rc = 0
    calls = []

    def __init__(self, args, *a, **kw):
        Popen.calls.append(args)
        out = "\r\n".join(Popen.env) + "\r\n"
        self.stdout = io.BytesIO(out.encode("latin-1"))
        self.stderr = io.BytesIO(b"The input line is too long" if Popen.rc == 2 else b"failed \xe9")
        self.returncode = None
        self.args = args
        self.pid = 1

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def communicate(self, *a, **kw):
        self.wait()
        return self.stdout.read(), self.stderr.read()

    def wait(self, *a, **kw):
        self.returncode = Popen.rc
        return Popen.rc

    poll = wait


def gen_query(tier):
    for e in range(len(ENVS)):
        for k in range(len(KEYS) + 1):
            for keys in itertools.permutations(KEYS, k) if tier != "quick" else itertools.combinations(KEYS, k):
                for rc in (0, 1, 2):
                    if rc and k != 1:
                        continue
                    for inst in ([1], [0, 1], [1, 1], [0, 0], None):
                        if (k not in (1, 2)) and inst != [0, 1]:
                            continue
                        for opts in ([None, None, None, None], ["x86", "prod", "VS2019", "14.1"]):
                            yield [e, list(keys), rc, inst, opts]
    for vs in ("vs2015", "2019", "", "vs"):
        yield [0, ["PATH"], 0, [1], [None, None, vs, None]]


VS = {"vs2017": "15.0,16.0", "vs2019": "16.0,17.0", "vs2022": "17.0,18.0", "vs2026": "18.0,19.0"}


def run_query(case, ctx):
    from edk2toollib.windows import locate_tools as lt

    e, keys, rc, inst, (arch, product, vs, vc) = case
    d = ctx.tmp()
    paths = []
    for i, has in enumerate(inst or []):
        p = os.path.join(d, f"VS {i}")
        b = os.path.join(p, "VC", "Auxiliary", "Build")
        os.makedirs(b)
        if has:
            open(os.path.join(b, "vcvarsall.bat"), "w").close()
        paths.append(p)
    cmds = []

    def run_cmd(cmd, params, *a, outstream=None, **kw):
        cmds.append((cmd, params))
        outstream.write("".join(p + " \r\n" for p in paths))
        return 0

    Popen.env, Popen.rc, Popen.calls = ENVS[e], rc, []
    try:
        with host(), mock.patch.object(lt, "GetVsWherePath", lambda *a: "vswhere.exe"), mock.patch.object(lt, "RunCmd", run_cmd), \
                mock.patch.object(subprocess, "Popen", Popen), mock.patch.object(os, "pathsep", ";"):
            got = lt.QueryVcVariables(list(keys), arch, product, vs, vc)
    except (ValueError, RuntimeError) as x:
        got = type(x).__name__
    want = None
    if vs is not None and vs.lower() not in VS:
        want = "ValueError"
        ctx.eq(cmds, [], "no search for an unsupported version")
    else:
        ctx.eq([c for c, _ in cmds], ["vswhere.exe"], "vswhere runs")
        words = cmds[0][1].split()
        ctx.eq(words[words.index("-products") + 1], product or "*", "product searched")
        ctx.eq(words[words.index("-version") + 1] if "-version" in words else None, VS[vs.lower()] if vs else None, "version range")
        ctx.true("-sort" in words and "-all" in words, "all installations, sorted")
        if not inst or 1 not in inst:
            want = "ValueError"
        else:
            bat = os.path.join(paths[inst.index(1)], "VC", "Auxiliary", "Build", "vcvarsall.bat")
            ctx.eq(len(Popen.calls), 1, "one shell")
            cmdline = " ".join(str(Popen.calls[0]).split())
            ctx.eq(cmdline, " ".join(f'"{bat}" {arch or "amd64"} {"-vcvars_ver=" + vc if vc else ""} & set'.split()), "command line")
            if rc:
                want = "RuntimeError"
    if want is None:
        need = {k.upper() for k in keys}
        want = {}
        for ln in ENVS[e]:
            k, eq, v = ln.strip().partition("=")
            if eq and k.upper() in need:
                want[k] = v[:-1] if v.endswith(";") else v
        if {k.upper() for k in want} != need:
            want = "ValueError"
    ctx.eq(got, want, f"variables {keys} from {ENVS[e]}")
    ctx.state(repr(case))


# -- vswhere --------------------------------------------------------------------------------------------

OUTS = ["", "\r\n", "C:\\VS\\2022\r\n", "C:\\VS\\2022\r\nC:\\Program Files (x86)\\VS 2019\r\n", " a \nb\nc\n"]


def gen_where(tier):
    for o in range(len(OUTS)):
        for rc in (0, 1, 87):
            for prod in ("*", None, "Microsoft.VisualStudio.Product.BuildTools"):
                for vs in [None, "vs2018", "VS2022"] + list(VS):
                    for present in (True, False):
                        yield [o, rc, prod, vs, present]


def run_where(case, ctx):
    from edk2toollib.windows import locate_tools as lt

    o, rc, prod, vs, present = case
    cmds = []

    def run_cmd(cmd, params, *a, outstream=None, **kw):
        cmds.append((cmd, params))
        outstream.write(OUTS[o])
        return rc

    for name in ("FindAllWithVsWhere", "FindWithVsWhere"):
        cmds.clear()
        with host(), mock.patch.object(lt, "GetVsWherePath", lambda *a: "w.exe" if present else None), \
                mock.patch.object(lt, "RunCmd", run_cmd):
            try:
                got = getattr(lt, name)(prod, vs)
            except (ValueError, RuntimeError, EnvironmentError) as x:
                got = type(x)
        if not present:
            want = OSError
        elif vs is not None and vs.lower() not in VS:
            want = ValueError
        elif rc:
            want = RuntimeError
        else:
            want = [x.strip() for x in OUTS[o].split("\n") if x.strip()] or None
            if name == "FindWithVsWhere" and want:
                want = want[0]
        ctx.eq(got, want, f"{name} with output {OUTS[o]!r}")
    with host(system="Linux", machine="x86_64"):
        try:
            lt.FindAllWithVsWhere(prod, None)
            ctx.fail("no error on Linux")
        except EnvironmentError:
            ctx.step()
    ctx.state(repr(case))


class Digest:
    """sha256 stand-in: content b'good' has whatever digest is expected."""

    class Text(str):
        def __eq__(self, o):
            return str(self) == "good"

        def __ne__(self, o):
            return str(self) != "good"

        def __hash__(self):
            return 0

    def __init__(self, data=b"", **kw):
        self.d = data

    def update(self, x):
        self.d += x

    def hexdigest(self):
        return Digest.Text(self.d.decode("latin-1"))


def gen_path(tier):
    for pkg in (None, "good", "bad"):
        for where in ([], [0], [1], [0, 1]):
            for web in (None, "good", "bad"):
                for fail in (True, False):
                    yield [pkg, where, web, fail]


def run_path(case, ctx):
    from edk2toollib.windows import locate_tools as lt

    pkg, where, web, fail = case
    d = os.path.realpath(ctx.tmp())
    home = os.path.join(d, "home")
    os.makedirs(os.path.join(home, "bin"))
    own = os.path.join(home, "bin", "vswhere.exe")
    if pkg:
        Path(own).write_text(pkg)
    dirs = [os.path.join(d, "p0"), os.path.join(d, "p1")]
    for i, p in enumerate(dirs):
        os.makedirs(p)
        if i in where:
            open(os.path.join(p, "vswhere.exe"), "w").close()
    urls = []

    def urlopen(u, *a, **kw):
        urls.append(u)
        if web is None:
            raise urllib.error.URLError("no network")
        return contextlib.nullcontext(io.BytesIO(web.encode()))

    with host(), mock.patch.object(importlib.resources, "files", lambda *a: Path(home)), \
            mock.patch.object(urllib.request, "urlopen", urlopen), mock.patch.object(hashlib, "sha256", Digest), \
            mock.patch.dict(os.environ, {"PATH": os.pathsep.join(dirs)}):
        got = lt.GetVsWherePath(fail)
        again = lt.GetVsWherePath(fail)
    if pkg:
        want = own
    elif where:
        want = os.path.join(dirs[where[0]], "vswhere.exe")
    elif web == "good":
        want = own
    else:
        want = None
    if want is not None or fail:
        ctx.eq(got, want, f"path of vswhere (package {pkg}, PATH {where}, web {web})")
        ctx.eq(again, want, "path the second time")
    else:
        ctx.true(got is None or not os.path.exists(got), "vswhere was not found")
    ctx.eq(os.path.exists(own), bool(pkg) or (not where and web == "good"),
           "only a download with the right hash stays on disk")
    ctx.eq(bool(urls), not pkg and not where, "downloads only when there is no vswhere")
    ctx.state(repr(case))


SUITES = [
    Suite("sdk", gen_sdk, run_sdk, "candidate binaries in every order x hosts x SDK versions",
          {"quick": "<=3 of 11 candidates", "thorough": "<=4 of 11 candidates"}),
    Suite("query", gen_query, run_query, "installations, environments and keys", "5 keys, 4 environments"),
    Suite("vswhere", gen_where, run_where, "vswhere outputs, products, versions", "all combinations"),
    Suite("path", gen_path, run_path, "package, PATH and download", "all combinations"),
]
ASSUMPTIONS = ["Windows itself (vswhere.exe, cmd, vcvarsall.bat, glob results, mbcs) is represented by stand-ins",
               "SDK versions differ in their first three components"]
