"""P38: the workspace database holds what the files were at each parse, and keeps earlier parses as they were."""

import datetime
import itertools
import os
import re
import shutil
import subprocess
import tempfile
from pathlib import Path

from lib.mc import Suite
from lib.sizes import counts

CHUNK = 4

# -- the workspace: a state is a set of toggles ---------------------------------------------------------------------

TOGGLES = {
    "s": "sources of Drv", "g": "GUID and module type of Drv", "l": "instance of library class L", "c": "components of the DSC", "a": "TARGET_ARCH", "m": "text of Drv.c",
    "f": "FVs", "n": "a new INF and source", "v": "HEAD", "u": "library class of Lib2", "x": "an INF of the FDF is missing",
}
DEC = "[Defines]\n DEC_SPECIFICATION = 0x00010005\n PACKAGE_NAME = P\n"
SRC = {
    False: "// SPDX-License-Identifier: MIT\n\nint a;\n",
    True: "int b;\r\n/* x\r\n * SPDX-License-Identifier: BSD-2-Clause-Patent\r\n */\r\n\r\nint c;",
}


def inf(name, guid, mt, srcs, libs, cls=None):
    return (f"[Defines]\n INF_VERSION = 0x00010005\n BASE_NAME = {name}\n" + (f" FILE_GUID = {guid}\n" if guid else "") + f" MODULE_TYPE = {mt}\n"
            + (f" LIBRARY_CLASS = {cls}\n" if cls else "") + "[Sources]\n" + "".join(f" {s}\n" for s in srcs) + "[LibraryClasses]\n" + "".join(f" {x}\n" for x in libs))


G = "00000000-0000-0000-0000-0000000000%02d"


def modules(st):
    """edk2 path -> (directory in the workspace, name, guid, module type, sources, library classes used, its class, package)"""
    m = {
        "Pkg/Drv/Drv.inf": ("", "Drv", G % (2 if "g" in st else 1), "DXE_RUNTIME_DRIVER" if "g" in st else "DXE_DRIVER", ["Drv.c", "Gone.c"] if "s" in st else ["Drv.c", "../Inc.h"],
                            ["L"], None, "Pkg"),
        "Pkg/Lib1/Lib1.inf": ("", "Lib1", G % 3, "BASE", ["Lib1.c"], [], "L", "Pkg"),
        "Pkg/Lib2/Lib2.inf": ("", "Lib2", G % 4, "BASE", ["Lib2.c"], ["M"], "L2" if "u" in st else "L", "Pkg"),
        "Com/CPkg/App/App.inf": ("", "App", G % 5, "UEFI_APPLICATION", ["App.c"], ["L", "M"], None, "CPkg"),
        "Com/CPkg/LibM/LibM.inf": ("", "LibM", G % 6, "BASE", ["LibM.c"], [], "M", "CPkg"),
        "ComX/XPkg/X/X.inf": ("", "X", G % 7, "DXE_DRIVER", ["X.c"], [], None, "XPkg"),
        "ComX/Loose/Loose.inf": ("", "Loose", G % 8, "DXE_DRIVER", ["Loose.c"], [], None, None),
        "Com/Loose/Loose.inf": ("", "Loose", G % 9, "DXE_DRIVER", ["Loose.c"], [], None, None),
        "QPkg/Q/Q.inf": ("PP/", "Q", G % 10, "DXE_DRIVER", ["Q.c"], ["L"], None, "QPkg"),
        "BuildX/B.inf": ("", "B", G % 11, "DXE_DRIVER", ["B.c"], [], None, None),
    }
    if "n" in st:
        m["Pkg/New/New.inf"] = ("", "New", G % 12, "DXE_DRIVER", ["New.c"], ["L"], None, "Pkg")
    return m


PACKAGES = {"Pkg": ("Pkg", None), "CPkg": ("Com/CPkg", "Com"), "XPkg": ("ComX/XPkg", None), "QPkg": ("PP/QPkg", None), "YPkg": ("ComX/Sub/YPkg", "ComX/Sub")}
SUBMODULES = {"Com": "common-name", "ComX/Sub": "ComX/Sub"}


def components(st):
    c = ["Pkg/Drv/Drv.inf", "ComX/XPkg/X/X.inf"]
    if "c" in st:
        c = ["Com/CPkg/App/App.inf", "Pkg/Drv/Drv.inf", "QPkg/Q/Q.inf", "ComX/Loose/Loose.inf", "Com/Loose/Loose.inf"]
    if "n" in st:
        c.append("Pkg/New/New.inf")
    return c


def fvs(st):
    f = {"FVONE": ["Pkg/Drv/Drv.inf", "Com/CPkg/App/App.inf"]}
    if "f" in st:
        f = {"FVONE": ["ComX/XPkg/X/X.inf", "QPkg/Q/Q.inf"], "FVTWO": ["Pkg/Drv/Drv.inf"]}
    if "x" in st:
        f["FVONE"] = ["Pkg/Missing/Missing.inf", *f["FVONE"]]
    return f


def instance(cls, st):
    return "Com/CPkg/LibM/LibM.inf" if cls == "M" else "Pkg/Lib2/Lib2.inf" if "l" in st else "Pkg/Lib1/Lib1.inf"


def source_path(p, s):
    return os.path.normpath(os.path.join(os.path.dirname(p), s))


def write(ws, rel, text):
    p = os.path.join(ws, rel)
    os.makedirs(os.path.dirname(p), exist_ok=True)
    with open(p, "wb") as f:
        f.write(text.encode("latin-1"))


def files(st):
    out = {}
    for name, (path, _) in PACKAGES.items():
        out[f"{path}/{name}.dec"] = DEC
    for p, (d, name, guid, mt, srcs, libs, cls, _) in modules(st).items():
        out[d + p] = inf(name, guid, mt, srcs, libs, cls)
        for s in srcs:
            if s != "Gone.c":
                out[d + source_path(p, s)] = SRC["m" in st] if s == "Drv.c" else f"// {name}\n" * len(name)
    out["Win/w.inf"] = "[Version]\nSignature=\"$Windows NT$\"\n"
    out["Build/Out/Gen.inf"] = inf("Gen", G % 20, "DXE_DRIVER", ["Gen.c"], [])
    out["Build/Out/Gen.c"] = "int gen;\n"
    out["BuildX/odd.S"] = "x\n"
    out["BuildX/odd.s"] = "; SPDX-License-Identifier: Apache-2.0 \ny\x81\xff\n\n\n"
    out["Pkg/read.txt"] = "not a source\n"
    out["Plat.dsc"] = ("[Defines]\n PLATFORM_NAME = Plat\n SUPPORTED_ARCHITECTURES = IA32|X64\n[LibraryClasses]\n L|" + instance("L", st) + "\n M|" + instance("M", st)
                       + "\n[Components]\n" + "".join(f" {c}\n" for c in components(st)))
    out["Plat.fdf"] = "[Defines]\n" + "".join(f"[FV.{n}]\n" + "".join(f"INF {'RuleOverride = R ' if i else ''}{c}\n" for i, c in enumerate(l)) for n, l in fvs(st).items())
    return out


_GIT = None


def git_files():
    """(files of .git, the two commits) of a repository with two submodules"""
    global _GIT
    if _GIT is None:
        d = tempfile.mkdtemp(prefix="p38git")
        try:
            env = {**os.environ, "GIT_CONFIG_GLOBAL": "/dev/null", "GIT_CONFIG_SYSTEM": "/dev/null", "GIT_AUTHOR_DATE": "2024-01-01T00:00:00Z", "GIT_COMMITTER_DATE": "2024-01-01T00:00:00Z"}

            def git(*a):
                return subprocess.run(["git", "-c", "user.name=a", "-c", "user.email=a@b", *a], cwd=d, env=env, check=True, capture_output=True, text=True).stdout.strip()

            git("init", "-q", "--template=", "-b", "main")
            write(d, ".gitmodules", "".join(f'[submodule "{n}"]\n\tpath = {p}\n\turl = https://example.com/{n}\n' for p, n in SUBMODULES.items()))
            git("add", ".gitmodules")
            for p in SUBMODULES:
                git("update-index", "--add", "--cacheinfo", "160000,1111111111111111111111111111111111111111," + p)
            shas = []
            for m in ("one", "two"):
                git("commit", "-q", "--allow-empty", "-m", m)
                shas.append(git("rev-parse", "HEAD"))
            out = {}
            for r, _, fs in os.walk(os.path.join(d, ".git")):
                for f in fs:
                    p = os.path.join(r, f)
                    with open(p, "rb") as h:
                        out[os.path.relpath(p, d)] = h.read().decode("latin-1")
            out[".gitmodules"] = open(os.path.join(d, ".gitmodules")).read()
            _GIT = out, shas
        finally:
            shutil.rmtree(d)
    return _GIT


class Workspace:
    def __init__(self, ws, git=True, url=None):
        from edk2toollib.uefi.edk2.path_utilities import Edk2Path

        self.ws, self.git, self.now = ws, git, None
        self.base = "BASE"
        if git:
            for p, t in git_files()[0].items():
                write(ws, p, t)
            if url:
                with open(os.path.join(ws, ".git", "config"), "a") as f:
                    f.write(f'[remote "origin"]\n\turl = {url}\n')
        os.makedirs(os.path.join(ws, "PP"))
        self.path = Edk2Path(ws, ["PP"])

    def put(self, st):
        new = files(st)
        for p, t in new.items():
            if self.now is None or self.now.get(p) != t:
                write(self.ws, p, t)
        for p in self.now or ():
            if p not in new:
                os.remove(os.path.join(self.ws, p))
        self.now = new
        if self.git:
            write(self.ws, ".git/refs/heads/main", git_files()[1]["v" in st] + "\n")

    def env(self, st):
        return {"ACTIVE_PLATFORM": "Plat.dsc", "FLASH_DEFINITION": "Plat.fdf", "TARGET_ARCH": "IA32 X64" if "a" in st else "X64", "TARGET": "DEBUG", "EMPTY": ""}


# -- what the database must hold ----------------------------------------------------------------------------------


def want_sources(st):
    out = {}
    for p, t in files(st).items():
        if re.search(r"\.(c|h|cpp|asm|s|nasm|masm|rs)$", p) and not p.startswith("Build/"):
            lines = t.replace("\r\n", "\n").replace("\r", "\n").split("\n")
            if lines[-1] == "":
                lines.pop()
            lic = [re.search(r"SPDX-License-Identifier:\s*(.*)$", x) for x in lines]
            lic = [m.group(1) for m in lic if m]
            out[p.removeprefix("PP/")] = (lic[-1] if lic else "Unknown", len(lines), len(lines), 0, 0)
    return out


def want_infs(st):
    return {p: (guid, cls, pkg, mt, sorted(source_path(p, s) for s in srcs), sorted(libs)) for p, (d, name, guid, mt, srcs, libs, cls, pkg) in modules(st).items()}


def want_rows(st, git, base, tables=True):
    mods, rows = modules(st), []
    known = git and tables
    for arch in ("IA32", "X64") if "a" in st else ("X64",):
        for c in components(st):
            seen = set()

            def add(p, cls):
                if p in seen:
                    return
                seen.add(p)
                d, name, guid, mt, srcs, libs, _, pkg = mods[p]
                repo = None
                if known:
                    sub = PACKAGES[pkg][1] if pkg else "Com" if p.startswith("Com/") else None
                    repo = (SUBMODULES[sub], sub) if sub else (base, None)
                for x in libs:
                    add(instance(x, st), x)
                rows.append((p, cls, name, arch, "Plat.dsc", c, tuple(sorted(source_path(p, s) for s in srcs)), pkg if known else None, repo, tuple(sorted(instance(x, st) for x in libs))))

            add(c, None)
    return sorted(rows, key=repr)


def want_fvs(st):
    c = components(st)
    return sorted((n, "Plat.fdf", tuple(sorted(p for p in l if p in c))) for n, l in fvs(st).items())


def want_packages(base):
    return sorted((n, p, SUBMODULES[s] if s else base, s) for n, (p, s) in PACKAGES.items())


def snapshot(session):
    """(everything recorded for each environment, the tables of files)"""
    from edk2toollib.database import Environment, Fv, Inf, InstancedInf, Package, Repository, Source

    envs = {}
    for e in session.query(Environment).all():
        envs[e.id] = {"version": e.version, "date": e.date, "values": {v.key: v.value for v in e.values}, "rows": [], "fvs": []}
    for r in session.query(InstancedInf).all():
        repo = None if r.repository is None else (r.repository.name, r.repository.path)
        pkg = None if r.package is None else r.package.name
        libs = sorted(set(x.path for x in r.libraries))
        bad = [x for x in r.libraries if (x.env, x.arch, x.component) != (r.env, r.arch, r.component)]
        row = (r.path, r.cls, r.name, r.arch, r.dsc, r.component, tuple(sorted(set(s.path for s in r.sources))), pkg, repo, tuple(libs) if not bad else ("of another environment or component",))
        envs.setdefault(r.env, {"rows": [], "fvs": []})["rows"].append(row)
    for f in session.query(Fv).all():
        bad = [i for i in f.infs if i.env != f.env or i.cls is not None]
        envs.setdefault(f.env, {"rows": [], "fvs": []})["fvs"].append((f.name, f.fdf, tuple(sorted(i.path for i in f.infs)) if not bad else ("of another environment",)))
    for e in envs.values():
        e["rows"].sort(key=repr)
        e["fvs"].sort()
    src = [(s.path, (s.license, s.total_lines, s.code_lines, s.comment_lines, s.blank_lines)) for s in session.query(Source).all()]
    infs = [(i.path, (i.guid, i.library_class, i.package_name, i.module_type, sorted(set(s.path for s in i.sources)), sorted(set(x.name for x in i.libraries)))) for i in session.query(Inf).all()]
    pk = [(p.name, p.path, p.repository.name, p.repository.path) for p in session.query(Package).all()]
    rp = [(r.name, r.path) for r in session.query(Repository).all()]
    return envs, src, infs, sorted(pk), rp


def generators(kind):
    from edk2toollib.database.tables import EnvironmentTable, InfTable, InstancedFvTable, InstancedInfTable, PackageTable, SourceTable

    if kind == "inst":
        return [EnvironmentTable(), InstancedInfTable(), InstancedFvTable()]
    return [EnvironmentTable(), PackageTable(), SourceTable(n_jobs=1), InfTable(n_jobs=1), InstancedInfTable(), InstancedFvTable()]


def toggle(st, ops):
    for o in ops:
        st = st ^ {o}
    return st


def run_history(case, ctx):
    from edk2toollib.database import Edk2DB

    kind, git, url, disk, first, steps = case
    ws = os.path.realpath(ctx.tmp())
    w = Workspace(ws, git, url)
    base = "BASE" if not url else "EDK2"
    dbfile = os.path.join(ctx.tmp(), "db.db") if disk else ":memory:"
    db = Edk2DB(dbfile, w.path)
    db.register(*generators(kind))
    st = toggle(frozenset(), first)
    before, ever_src, ever_inf = {}, {}, {}
    for step in [None, *steps]:
        if step is not None:
            if "!" in step:  # another process opens the same file
                db.engine.dispose()
                db = Edk2DB(dbfile, w.path)
                db.register(*generators(kind))
            st = toggle(st, step.replace("!", ""))
        w.put(st)
        env = w.env(st)
        low = datetime.datetime.now()
        db.parse(dict(env))
        high = datetime.datetime.now()
        with db.session() as session:
            envs, src, infs, pk, rp = snapshot(session)
        for i, e in before.items():
            ctx.eq(envs.get(i), e, "what was recorded for an earlier parse")
        fresh = [i for i in envs if i not in before]
        ctx.eq(len(fresh), 1, "new environments after a parse")
        e = envs[fresh[0]]
        ctx.true("version" in e, "rows without an environment")
        ctx.eq(e["version"], git_files()[1]["v" in st] if git else "UNKNOWN", "version of the environment")
        ctx.eq(e["values"], env, "values of the environment")
        ctx.true(low <= e["date"] <= high, "date of the environment")
        ctx.eq(e["rows"], want_rows(st, git, base, kind == "all"), f"instanced INFs in state {sorted(st)}")
        ctx.eq(e["fvs"], want_fvs(st) if "a" not in st else [(n, f, tuple(sorted(set(p)))) for n, f, p in want_fvs(st)], f"FVs in state {sorted(st)}")
        ctx.eq(len(src), len({p for p, _ in src}), "sources recorded twice")
        if kind == "all":
            ws_, wi = want_sources(st), want_infs(st)
            ctx.eq({p: v for p, v in src if p in ws_}, ws_, "sources of the workspace")
            ctx.eq({p: v for p, v in infs if p in wi}, wi, "INFs of the workspace")
            ctx.eq(len(infs), len({p for p, _ in infs}), "INFs recorded twice")
            ever_src.update(ws_)
            ever_inf.update(wi)
            ctx.eq([p for p, _ in infs if p not in ever_inf], [], "INFs that never were in the workspace")
            refs = {s for _, v in infs for s in v[4]} | {s for x in envs.values() for r in x["rows"] for s in r[6]}
            ctx.eq([p for p, v in src if p not in ever_src and p not in refs], [], "sources that never were in the workspace")
            ctx.eq([p for p, v in src if p not in ever_src and v != (None,) * 5], [], "sources that do not exist have lines")
            ctx.eq(pk, want_packages(base) if git else [], "packages")
            ctx.eq(sorted(rp, key=repr), sorted({(r, s) for _, _, r, s in pk}, key=repr), "repositories")
        before = envs
        ctx.state((kind, git, tuple(sorted(st)), len(before)))
    db.engine.dispose()


def gen_history(tier):
    ops = ["", *TOGGLES]
    for c in itertools.product(ops, repeat=2 if tier == "quick" else 3):
        yield ["all", True, None, False, "", list(c)]
    for c in itertools.product(ops, repeat=2):
        yield ["inst", True, None, False, "c", list(c)]
        if tier != "quick":
            yield ["all", False, None, False, "", list(c)]
    for o in ops:
        yield ["all", False, None, False, "c", [o]]
        yield ["all", True, "https://github.com/tianocore/edk2.git", True, "c", ["!" + o, o + "!", "sgl"]]


def gen_pairs(tier):
    ops = list(TOGGLES)
    rest = [o for o in ops if o not in "lcaf"]
    for k in range(len(ops) + 1):
        for first in itertools.combinations(ops, k):
            r = [o for o in first if o in rest]
            if tier == "quick" and k > 1 and (k > 5 or r) and len(r) != len(rest):
                continue
            yield ["all", True, None, False, "".join(first), ["".join(o for o in ops if o not in first), "".join(ops)]]
            if tier != "quick" and len(r) in (0, len(rest)):
                for o in ops:
                    yield ["all", True, None, False, "".join(first), [o]]


URLS = {"https://github.com/tianocore/edk2": "EDK2", "https://github.com/tianocore/edk2.git": "EDK2", "git@github.com:tianocore/edk2.git": "EDK2", "ssh://h/x/foo.github.io": "FOO.GITHUB.IO",
        "https://h/a.git/b.gitlab.git": "B.GITLAB", "/local/path/repo.git": "REPO", "https://h/.github": ".GITHUB"}


def gen_repos(tier):
    for names in ([], ["origin"], ["up"], ["up", "origin"], ["origin", "up"], ["a", "b"]):
        for us in itertools.permutations(URLS, len(names)):
            yield [names, list(us)]
    yield ["nocommit", []]


def run_repos(case, ctx):
    from edk2toollib.database import Edk2DB, Environment, Package
    from edk2toollib.database.tables import EnvironmentTable, PackageTable

    names, us = case
    ws = os.path.realpath(ctx.tmp())
    w = Workspace(ws, True)
    w.put(frozenset())
    if names == "nocommit":
        os.remove(os.path.join(ws, ".git/refs/heads/main"))
        db = Edk2DB(":memory:", w.path)
        db.register(EnvironmentTable())
        db.parse({"A": "B"})
        with db.session() as session:
            ctx.eq([(e.version, len(e.values)) for e in session.query(Environment).all()], [("UNKNOWN", 1)], "environment of a repository without commits")
        ctx.state("nocommit")
        return
    with open(os.path.join(ws, ".git", "config"), "a") as f:
        for n, u in zip(names, us):
            f.write(f'[remote "{n}"]\n\turl = {u}\n\tfetch = +refs/heads/*:refs/remotes/{n}/*\n')
    want = "BASE" if not names else URLS[us[names.index("origin") if "origin" in names else 0]]
    db = Edk2DB(":memory:", w.path)
    db.register(PackageTable())
    for _ in range(2):
        db.parse({})
        with db.session() as session:
            ctx.eq(sorted((p.name, p.path, p.repository.name, p.repository.path) for p in session.query(Package).all()), want_packages(want), f"packages with remotes {case}")
    db.engine.dispose()
    ctx.state(case)


# -- sources: which files they are, and what their lines are ---------------------------------------------------------

EXT = ("c", "h", "cpp", "asm", "s", "nasm", "masm", "rs")
NAMES = [f"a.{e}" for e in EXT] + ["b.cc", "b.hpp", "b.rsx", "b.inc", "b.nasmb", "c", ".c", "x.c.txt", "x.txt.c", "c.h.c", "Build/a.c", "Build/D/a.h", "Build.c", "D/Build/a.c", "D/E/F/a.s", "PP/a.c", "PP/Q/a.rs",
         "Builder/a.c", "d.c/", "d.c/a.h", "d.c/readme"]
LINES = {"code": "int %s;", "doc": "// %s", "block": "/* %s */", "blank": "", "white": "  \t", "both": "int %s; // x", "lic": "// SPDX-License-Identifier: %s", "open": "/* %s", "close": "%s */"}


def gen_src(tier):
    for n in NAMES:
        for form in ("default", "own", "none"):
            yield ["names", [n], form]
    for pair in itertools.combinations(NAMES, 2):
        yield ["names", list(pair), "default"]
    for k in range(0, 4 if tier == "quick" else 5):
        for t in itertools.product([x for x in LINES if x not in ("open", "close")], repeat=k):
            for eol in ("\n", "\r\n"):
                for last in (True, False):
                    if t or last:
                        yield ["lines", list(t), eol, last]
    for a, b, c in itertools.product(("", "code", "blank", "doc", "lic"), repeat=3):
        if b != "blank":
            yield ["lines", [x for x in (a, "open", b, "close", c) if x], "\n", True]


def run_src(case, ctx):
    from edk2toollib.database import Edk2DB, Source
    from edk2toollib.database.tables import SourceTable

    ws = os.path.realpath(ctx.tmp())
    if case[0] == "names":
        os.makedirs(os.path.join(ws, "PP"))
        for n in case[1]:
            if n.endswith("/"):
                os.makedirs(os.path.join(ws, n), exist_ok=True)
            else:
                write(ws, n, "x\n")
        exts = {"default": EXT, "own": ("c", "hpp", "txt"), "none": ()}[case[2]]
        kw = {} if case[2] == "default" else {"source_extensions": [f"*.{e}" for e in exts]}
        want = {n.removeprefix("PP/"): ("Unknown", 1, 1, 0, 0) for n in case[1] if not n.endswith("/") and not n.startswith("Build/") and n.endswith(tuple("." + e for e in exts))}
        runs = [(kw, want)]
    else:
        _, kinds, eol, last = case
        text = eol.join((LINES[k] % ("MIT" if k == "lic" else f"v{i}") if "%" in LINES[k] else LINES[k]) for i, k in enumerate(kinds)) + (eol if last and kinds else "")
        write(ws, "a.c", text)
        n = len(kinds) - (1 if kinds and not last and LINES[kinds[-1]] == "" else 0)
        lic = "MIT" if "lic" in kinds else "Unknown"
        code = doc = blank = 0
        inside = False
        for k in kinds[:n]:
            inside = inside or k == "open"
            if k in ("blank", "white"):
                blank += 1
            elif inside or k in ("doc", "block", "lic"):
                doc += 1
            else:
                code += 1
            inside = inside and k != "close"
        used = [x for x, k in enumerate(kinds[:n]) if k not in ("blank", "white")]
        inner = sum(k in ("blank", "white") for k in kinds[used[0]:used[-1]]) if used else 0
        runs = [({}, {"a.c": (lic, n, n, 0, 0)}), ({"source_stats": True}, {"a.c": (lic, n, code, doc, blank)}), ({"source_stats": False}, {"a.c": (lic, n, n, 0, 0)})]
        # one database with changing options
    from edk2toollib.uefi.edk2.path_utilities import Edk2Path

    db = None
    for k, (kw, want) in enumerate([*runs, *(runs if len(runs) > 1 else [])]):
        if k in (0, len(runs)):
            if db:
                db.engine.dispose()
            db = Edk2DB(":memory:", Edk2Path(ws, ["PP"] if os.path.isdir(os.path.join(ws, "PP")) else []))
        if k >= len(runs):
            kw, want = runs[len(runs) - 1 - (k - len(runs))]
        db.clear_parsers()
        db.register(SourceTable(n_jobs=1, **kw))
        db.parse({})
        with db.session() as session:
            got = {s.path: (s.license, s.total_lines, s.code_lines, s.comment_lines, s.blank_lines) for s in session.query(Source).all()}
            ctx.eq(session.query(Source).count(), len(got), "sources recorded twice")
        if kw.get("source_stats") and "a.c" in got:
            # blank lines at the start and end may be counted or not
            b = got["a.c"][4]
            ctx.true(inner <= b <= want["a.c"][4], f"{b} blank lines of {want['a.c'][4]}")
            want = {"a.c": (*want["a.c"][:4], b)}
        ctx.eq(got, want, f"sources with {kw}")
        ctx.step()
    db.engine.dispose()
    ctx.state(case)


# -- sizes: numbers of sources, modules, libraries, FVs, parses, values and lines --------------------------------------


def gen_sizes(tier):
    for n in counts(tier, 300, 1, 6 if tier == "quick" else 24):
        for what in ("sources", "modules", "chain", "uses", "fvs", "env", "lines", "parses"):
            if n <= {"chain": 129, "parses": 24}.get(what, 300):
                yield [what, n]


def run_sizes(case, ctx):
    from edk2toollib.database import Edk2DB
    from edk2toollib.uefi.edk2.path_utilities import Edk2Path

    what, n = case
    ws = os.path.realpath(ctx.tmp())
    r = range(n)
    srcs = [f"s{i}.c" for i in (r if what == "sources" else range(2))]
    mods = {"P/D/D.inf": ("D", None, srcs, ["C0"] if what == "chain" else [f"C{i}" for i in r] if what == "uses" else [])}
    comps, libs, fvl = ["P/D/D.inf"], {}, {"FV0": ["P/D/D.inf"]}
    if what == "modules":
        for i in r:
            mods[f"P/M{i}/M{i}.inf"] = (f"M{i}", None, [f"m{i}.c"], [])
        comps += [f"P/M{i}/M{i}.inf" for i in r]
        fvl["FV0"] = comps[::-1]
    if what in ("chain", "uses"):
        for i in r:
            mods[f"P/L{i}/L{i}.inf"] = (f"L{i}", f"C{i}", [f"l{i}.c"], [f"C{i + 1}"] if what == "chain" and i + 1 < n else [])
            libs[f"C{i}"] = f"P/L{i}/L{i}.inf"
    if what == "fvs":
        fvl = {f"FV{i}": ["P/D/D.inf"] for i in r}
    for i, (p, (name, cls, ss, ls)) in enumerate(mods.items()):
        write(ws, p, inf(name, f"00000000-0000-0000-0000-{i:012}", "DXE_DRIVER" if cls is None else "BASE", ss, ls, cls))
        for s in ss:
            write(ws, source_path(p, s), "int x;\n" * (n if what == "lines" else 2))
    write(ws, "P/P.dec", DEC)
    write(ws, "Plat.dsc", "[Defines]\n PLATFORM_NAME = Plat\n SUPPORTED_ARCHITECTURES = X64\n[LibraryClasses]\n" + "".join(f" {c}|{p}\n" for c, p in libs.items())
          + "[Components]\n" + "".join(f" {c}\n" for c in comps))
    write(ws, "Plat.fdf", "[Defines]\n" + "".join(f"[FV.{f}]\n" + "".join(f"INF {c}\n" for c in l) for f, l in fvl.items()))
    env = {"ACTIVE_PLATFORM": "Plat.dsc", "FLASH_DEFINITION": "Plat.fdf", "TARGET_ARCH": "X64", "TARGET": "DEBUG"} | ({f"V{i}": str(i) for i in r} if what == "env" else {})
    db = Edk2DB(":memory:", Edk2Path(ws, []))
    db.register(*generators("all"))
    for _ in range(n if what == "parses" else 1):
        db.parse(dict(env))
    with db.session() as session:
        envs, src, infs, pk, rp = snapshot(session)
    db.engine.dispose()
    ctx.eq(len(envs), n if what == "parses" else 1, f"environments ({what} {n})")
    rows = []
    for p, (name, cls, ss, ls) in mods.items():
        own = p if p in comps else "P/D/D.inf"
        rows.append((p, cls, name, "X64", "Plat.dsc", own, tuple(sorted(source_path(p, s) for s in ss)), None, None, tuple(sorted(libs[c] for c in ls))))
    for e in envs.values():
        ctx.eq(e["values"], env, f"values ({what} {n})")
        ctx.eq(e["rows"], sorted(rows, key=repr), f"instanced INFs ({what} {n})")
        ctx.eq(e["fvs"], sorted((f, "Plat.fdf", tuple(sorted(l))) for f, l in fvl.items()), f"FVs ({what} {n})")
    ctx.eq(sorted(infs), sorted((p, (f"00000000-0000-0000-0000-{i:012}", cls, "P", "DXE_DRIVER" if cls is None else "BASE", sorted(source_path(p, s) for s in ss), sorted(ls)))
                                for i, (p, (name, cls, ss, ls)) in enumerate(mods.items())), f"INFs ({what} {n})")
    want = {source_path(p, s): ("Unknown", *[n if what == "lines" else 2] * 2, 0, 0) for p, m in mods.items() for s in m[2]}
    ctx.eq(dict(src), want, f"sources ({what} {n})")
    ctx.eq(len(src), len(want), f"sources recorded twice ({what} {n})")
    ctx.state(tuple(case))


SUITES = [
    Suite("sizes", gen_sizes, run_sizes, "numbers of sources, modules, libraries, FVs, values, lines and parses", "counts up to 6 and edges to 300"),
    Suite("histories", gen_history, run_history, "all tables after each parse", {"quick": "all histories of 3 parses with one of 11 changes (or none) before the second and third; reopened databases; workspaces without git",
                                                                              "thorough": "all histories of 4 parses"}),
    Suite("states", gen_pairs, run_history, "all tables after each parse", {"quick": "39 of the 2048 states of the workspace, changed to their complement and back", "thorough": "all 2048 states, to their complement and back, and all single changes of 32 of them"}),
    Suite("repos", gen_repos, run_repos, "repository names and versions", "all sets of <=2 remotes of 7 URLs"),
    Suite("sources", gen_src, run_src, "names of source files, and lines with and without statistics", {"quick": "31 names and their pairs, 3 lists of extensions; <=3 lines of 7 kinds, 2 line ends", "thorough": "<=4 lines"}),
]
