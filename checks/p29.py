"""P29: generated INF files describe exactly the given firmware; Inf2Cat is run for the right target; bad input is refused."""

import datetime
import itertools
import os
import uuid

from lib.mc import Suite
from lib.sizes import counts

G = ["34e094e9-4079-44cd-9450-3f2cb7824c97", "01234567-89AB-CDEF-FEDC-BA9876543210", "{34e094e9-4079-44cd-9450-3f2cb7824c98}", "0123456789abcdef0123456789abcdef"]
ARCH = {"amd64": "amd64", "x64": "amd64", "X64": "amd64", "arm": "arm", "arm64": "arm64", "AARCH64": "arm64"}


def parse(text, ctx):
    """an INF file as Windows reads it: {section: [lines]}, with the strings filled in"""
    secs, cur = {}, None
    for ln in text.splitlines():
        ln = ln.strip()
        if not ln or ln.startswith(";"):
            continue
        if ln.startswith("["):
            ctx.true(ln.endswith("]"), f"section line {ln!r}")
            cur = ln[1:-1].lower()
            ctx.true(cur not in secs, f"section {cur} is defined twice")
            secs[cur] = []
        else:
            ctx.true(cur is not None, f"{ln!r} is outside of a section")
            secs[cur].append(ln)
    strings = {}
    for ln in secs.get("strings", []):
        k, v = [x.strip() for x in ln.split("=", 1)]
        ctx.true(k.lower() not in strings, f"string {k} is defined twice")
        strings[k.lower()] = v[1:-1] if v[:1] == '"' and v[-1:] == '"' and len(v) > 1 else v

    def fill(ln):
        parts = ln.split("%")
        ctx.true(len(parts) % 2 == 1, f"unbalanced % in {ln!r}")
        for k in range(1, len(parts), 2):
            if parts[k] == "13":
                parts[k] = "<13>"
            else:
                ctx.true(parts[k].lower() in strings, f"string {parts[k]!r} is not defined")
                parts[k] = strings[parts[k].lower()].replace("=", "\x01")  # not the one of the line
        return "".join(parts)

    return {s: [fill(ln) for ln in lines] for s, lines in secs.items() if s != "strings"}, strings


def pairs(lines):
    return {k.strip().lower(): v.strip() for k, v in (ln.split("=", 1) for ln in lines)}


def read_inf(text, ctx):
    """what Windows would do with the INF"""
    secs, strings = parse(text, ctx)
    ver = pairs(secs["version"])
    out = {"provider": ver["provider"], "date,version": ver["driverver"], "cat": ver["catalogfile"], "class": (ver["class"], ver["classguid"].lower(), ver["signature"], ver["pnplockdown"])}
    ((mfg, models),) = [[x.strip() for x in ln.split("=", 1)] for ln in secs["manufacturer"]]
    base, target = models.split(",")
    out["manufacturer"], out["target"] = mfg, target.lower()
    out["disk"] = pairs(secs["sourcedisksnames"])["1"]
    ctx.eq(pairs(secs["destinationdirs"]), {"defaultdestdir": "13"}, "destination")
    used = {"version", "manufacturer", "sourcedisksnames", "sourcedisksfiles", "destinationdirs"}
    model_sec = f"{base}.{target}".lower()
    used.add(model_sec)
    sources = [ln.split("=")[0].strip() for ln in secs["sourcedisksfiles"]]
    ctx.true(all(ln.split("=")[1].strip() == "1" for ln in secs["sourcedisksfiles"]), "disk of the source files")
    out["sources"] = sources
    fw = []
    for ln in secs[model_sec]:
        desc, rest = [x.strip() for x in ln.split("=", 1)]
        install, res = rest.split(",")
        inst = install.lower() + ".nt"
        d = pairs(secs[inst])
        copy = secs[d["copyfiles"].lower()]
        ctx.eq(secs[inst + ".services"], ["AddService=,2"], "service")
        hw = pairs(secs[inst + ".hw"])
        reg = secs[hw["addreg"].lower()]
        used |= {inst, d["copyfiles"].lower(), inst + ".services", inst + ".hw", hw["addreg"].lower()}
        ctx.eq(len(set(copy)), len(copy), "number of different copied files")
        policy = []
        if "addreg" in d:
            policy = secs[d["addreg"].lower()]
            used.add(d["addreg"].lower())
        fw.append([desc.replace("\x01", "="), res, copy, sorted(reg), policy])
    out["firmware"] = fw
    ctx.eq(set(secs) - used, set(), "sections that nothing refers to")
    return out


def model(desc, guid, version, name, rollback, integrity):
    g = "{" + str(uuid.UUID(guid)) + "}"
    reg = [f"HKR,,FirmwareId,,{g}", f"HKR,,FirmwareVersion,0x00010001,0x{version:X}", f"HKR,,FirmwareFilename,,<13>\\{name}"]
    if integrity:
        reg.append(f"HKR,,FirmwareIntegrityFilename,,<13>\\{integrity}")
    pol = [f"HKLM,SYSTEM\\CurrentControlSet\\Control\\FirmwareResources\\{g},Policy,0x00010001,1"] if rollback else []
    return [desc, f"UEFI\\RES_{g}", [name] + ([integrity] if integrity else []), sorted(reg), pol]


def lower_guids(r):
    for f in r["firmware"]:
        f[1] = f[1][:9] + f[1][9:].lower()
        f[3] = sorted(x if "FirmwareId," not in x else x[:18] + x[18:].lower() for x in f[3])
        f[4] = [x.lower() for x in f[4]]
    return r


CLASS = ("Firmware", "{f2e7dd72-6468-4e36-b6f1-6488f42c1b52}", '"$WINDOWS NT$"', "1")
# Tag, description, GUID, version, file, rollback, integrity file
FW = [
    ["Firmware0", "UEFI Firmware", 0, "1234", "fw.bin", False, None],
    ["tagB", "", 1, "0xFFFFFFFF", "Firmware-1.2.bin", True, None],
    ["C_3", "Third = one; [x]", 2, "0x04158000", "c.bin", False, "integrity123.bin"],
    ["D", "fw", 3, "0", "fw.bin", True, "c.bin"],
    ["E", "Same GUID", 0, "0b101", "e", True, "e.int"],
]


def gen_multi(tier):
    n = 3 if tier == "quick" else 5
    for k in range(n + 1):
        for t in itertools.permutations(range(len(FW)), k):
            yield [list(t), "amd64", None, "Name-1_2", "4.15.80.0", "01/02/2021", ""]
    for a in ARCH:
        for osv in (None, "10.0", "10.0...22000", "10.0.19041", " 10.0...17763 ", "10.0...17763\n"):
            for t in ([], [0], [1, 2]):
                yield [t, a, osv, "N", "1.2", "12/31/1999", ""]
    for name in ("", "a", "-", "A_9-b"):
        for v in ("1.2", "1.2.3", "0.0.0.0"):
            for d in ("01/01/2021", "1/2/2003", "12/31/2099"):
                yield [[1], "x64", None, name, v, d, "x"]


def run_multi(case, ctx):
    from edk2toollib.windows.capsule.inf_generator2 import InfFile

    fws, arch, osv, name, version, date, suffix = case
    a = (osv,) if osv else ()
    default = name.startswith("Name") and arch == "amd64" and not osv
    disk = "Firmware Update" if default else "Disk" + suffix
    more = () if default else (arch, disk, *a)
    f = InfFile(name, version, date, "Provider" + suffix, "Manufacturer" + suffix, *more)
    want = {
        "provider": "Provider" + suffix,
        "manufacturer": "Manufacturer" + suffix,
        "disk": disk,
        "date,version": datetime.datetime.strptime(date, "%m/%d/%Y").strftime("%m/%d/%Y") + "," + version,
        "cat": name + ".cat",
        "class": CLASS,
        "target": f"nt{ARCH[arch]}.{(osv or '10.0...17134').strip()}",
        "sources": [],
        "firmware": [],
    }
    for i in fws:
        tag, desc, g, v, fn, rb, integ = FW[i]
        # options that are not given are off
        f.AddFirmware(tag, desc, G[g], v, fn, **dict([("Rollback", True)] if rb else []), **dict([("IntegrityFile", integ)] if integ else []))
        want["firmware"].append(model(desc, G[g], int(v, 0), fn, rb, integ))
        for x in (fn, integ):
            if x and x not in want["sources"]:
                want["sources"].append(x)
        # an INF at every step; asking for it changes nothing
        ctx.eq(lower_guids(read_inf(str(f), ctx)), lower_guids(dict(want, firmware=[list(x) for x in want["firmware"]])), "the INF")
        ctx.step()
    if not fws:
        text = str(f)
        secs, strings = parse(text, ctx)
        ctx.eq(secs["firmware." + want["target"]], [], "models")
    ctx.state(str(f))


NAMES = ["a.bin", "aa.bin", "a.bin.a", "bin", "a", "b-1_2.int"]
TAGS = ["F", "F0", "0F", "FF0", "f_1"]


def gen_names(tier):
    """firmwares whose tags and files contain each other"""
    for t in itertools.permutations(TAGS, 2):
        for f in itertools.product(NAMES, repeat=2):
            yield [[[t[0], f[0], None], [t[1], f[1], None]]]
    for f in itertools.product(NAMES, [None] + NAMES, NAMES, [None] + NAMES):
        if f[0] != f[1] and f[2] != f[3]:
            yield [[["F", f[0], f[1]], ["F0", f[2], f[3]]]]
    if tier != "quick":
        for t in itertools.permutations(TAGS, 3):
            for f in itertools.permutations(NAMES, 4):
                yield [[[t[0], f[0], f[1]], [t[1], f[2], None], [t[2], f[3], f[0]]]]


def run_names(case, ctx):
    from edk2toollib.windows.capsule.inf_generator2 import InfFile

    f = InfFile("N", "1.2", "01/02/2021", "P", "M", "amd64", "D")
    fw, sources = [], []
    for k, (tag, fn, integ) in enumerate(case[0]):
        f.AddFirmware(tag, "desc " + tag, G[0], str(k), fn, k == 1, integ)
        fw.append(model("desc " + tag, G[0], k, fn, k == 1, integ))
        sources += [x for x in (fn, integ) if x and x not in sources]
    out = lower_guids(read_inf(str(f), ctx))
    ctx.eq(out["sources"], sources, "source files")
    ctx.eq(out["firmware"], lower_guids({"firmware": fw})["firmware"], "firmware")
    ctx.state(case)


BAD2 = [
    ("Name", x) for x in ("a b", "a.b", "a\n", "\n", "a/b", "a;", "a\\b", "%a%")
] + [("Version", x) for x in ("1", "", "1.2.3.4.5")] + [("Date", x) for x in ("2021-01-01", "13/01/2021", "02/30/2021", "", "1/1/21")] + [
    ("Arch", x) for x in ("x86", "", "amd64 ", "ia32")
] + [("OsVersion", x) for x in ("", "6.1", "11.0", "10.0...", "10.0...17134]", "10.0\n[x]", "x10.0", "10.0.1.2")] + [
    ("Tag", x) for x in ("a b", "a]", "a\n", "a.b", "a-b")
] + [("Guid", x) for x in ("", "34e094e9", "{34e094e9-4079-44cd-9450-3f2cb7824c9}", "34e094e9-4079-44cd-9450-3f2cb7824c9g")] + [
    ("FwVersion", x) for x in ("", "1.2", "x", "-1", "0x100000000", "-0x5", "4294967296")
] + [("File", x) for x in ("a b.bin", "a/b.bin", "a\\b.bin", "f.bin\n", "f;.bin", "f%.bin", "f=.bin")] + [
    ("Integrity", x) for x in ("a b.bin", "dir/b.bin", "f.bin\n")
]


def gen_bad2(tier):
    for k in range(len(BAD2)):
        for pre in ([], [0], [2, 1]):
            yield [k, pre]


def run_bad2(case, ctx):
    from edk2toollib.windows.capsule.inf_generator2 import InfFile

    what, v = BAD2[case[0]]
    args = {"Name": "N", "Version": "1.2", "Date": "01/02/2021", "Arch": "amd64", "OsVersion": "10.0"}
    if what in args:
        args[what] = v
        try:
            InfFile(args["Name"], args["Version"], args["Date"], "P", "M", args["Arch"], "D", args["OsVersion"])
        except ValueError:
            ctx.state(repr(case))
            return
        ctx.fail(f"{what} {v!r} was accepted")
    f = InfFile("N", "1.2", "01/02/2021", "P", "M")
    for i in case[1]:
        tag, desc, g, ver, fn, rb, integ = FW[i]
        f.AddFirmware(tag, desc, G[g], ver, fn, rb, integ)
    fw = {"Tag": "T", "Guid": G[0], "FwVersion": "1", "File": "f.bin", "Integrity": None}
    fw[what] = v
    try:
        f.AddFirmware(fw["Tag"], "d", fw["Guid"], fw["FwVersion"], fw["File"], False, fw["Integrity"])
    except ValueError:
        ctx.eq([d[0] for d in (read_inf(str(f), ctx)["firmware"] if case[1] else [])], [FW[i][1] for i in case[1]], "firmware after a refused one")
        ctx.step()
        ctx.state(repr(case))
        return
    ctx.fail(f"{what} {v!r} was accepted")


# -- the generator for one firmware -----------------------------------------------------------------------------------


def gen_single(tier):
    for arch in ARCH:
        for rb in (False, True):
            for integ in (None, "integ.bin"):
                for g in range(len(G)):
                    for man in (None, "Another Manufacturer"):
                        for hexv in ("0x0", "0xFFFFFFFF", "17"):
                            yield [arch, rb, integ, g, man, hexv, "Name-1", "1.2.3.4", "dir/fw.bin"]
    for name in ("", "a_b", "A-9"):
        for ver in ("1.2", "1.2.3", "10.20.30.40"):
            for f in ("fw.bin", "/abs/dir/fw.bin", "./f", "a b.bin"):
                yield ["x64", True, None, 0, None, "0x10", name, ver, f]


def str_date(d):
    return d.strftime("%m/%d/%Y")


def run_single(case, ctx):
    from edk2toollib.windows.capsule.inf_generator import InfGenerator

    arch, rb, integ, g, man, hexv, name, ver, f = case
    t0 = datetime.date.today()
    o = InfGenerator(name, "The Provider", G[g], arch, "A description", ver, hexv)
    if man:
        o.Manufacturer = man
    if integ:
        o.IntegrityFilename = integ
    ctx.true(o.Date in (str_date(t0), str_date(datetime.date.today())), "the default date is not today")
    o.Date = datetime.date(2021, 3, 4)
    ctx.eq((o.Name, o.Provider, o.Manufacturer, o.Description, uuid.UUID(o.EsrtGuid), o.VersionString, int(o.VersionHex, 16), o.Arch.lower(), o.Date, o.IntegrityFilename),
           (name, "The Provider", man or "The Provider", "A description", uuid.UUID(G[g]), ver, int(hexv, 0), ARCH[arch], "03/04/2021", integ or ""), "attributes")
    d = ctx.tmp()
    p = os.path.join(d, "x.inf")
    ctx.eq(o.MakeInf(p, f, rb) if rb or integ else o.MakeInf(p, f), 0, "return value")
    base = os.path.basename(f)
    want = {
        "provider": "The Provider",
        "manufacturer": man or "The Provider",
        "disk": "Firmware Update",
        "date,version": "03/04/2021," + ver,
        "cat": name + ".cat",
        "class": CLASS,
        "target": f"nt{ARCH[arch]}.10.0...17134",
        "sources": [base] + ([integ] if integ else []),
        "firmware": [model("A description", G[g], int(hexv, 0), base, rb, integ)],
    }
    with open(p) as fh:
        ctx.eq(lower_guids(read_inf(fh.read(), ctx)), lower_guids(want), "the INF")
    ctx.step(2)
    ctx.state(repr(case))


BAD1 = [("Name", x) for x in ("a b", "a.b", "a\n", "\n", "a/b", "ä b")] + [("VersionString", x) for x in ("1", "", "1.2.3.4.5")] + [("Arch", x) for x in ("x86", "", "ia32")] + [
    ("EsrtGuid", x) for x in ("", "34e094e9", "x" * 32)
] + [("VersionHex", x) for x in ("", "x", "0x100000000", "-1", "-0x5", "1.0")] + [("Date", x) for x in ("01/01/2021", None, 5)]


def gen_bad1(tier):
    for k in range(len(BAD1)):
        for how in ("init", "set"):
            if not (BAD1[k][0] == "Date" and how == "init"):
                yield [k, how]


def run_bad1(case, ctx):
    from edk2toollib.windows.capsule.inf_generator import InfGenerator

    what, v = BAD1[case[0]]
    names = ["Name", "Provider", "EsrtGuid", "Arch", "Description", "VersionString", "VersionHex"]
    good = dict(zip(names, ["N", "P", G[0], "x64", "D", "1.2", "0x10"]))
    if case[1] == "init":
        try:
            InfGenerator(*[v if n == what else good[n] for n in names])
        except ValueError:
            ctx.state(repr(case))
            return
        ctx.fail(f"{what} {v!r} was accepted")
    o = InfGenerator(*[good[n] for n in names])
    before = [getattr(o, n) for n in names + ["Date"]]
    try:
        setattr(o, what, v)
    except ValueError:
        ctx.eq([getattr(o, n) for n in names + ["Date"]], before, "attributes after a refused one")
        ctx.state(repr(case))
        return
    ctx.fail(f"{what} {v!r} was accepted")


# -- the catalog generator ----------------------------------------------------------------------------------------------

OSES = ["win10", "10", "10_AU", "10_rs2", "10_RS3", "10_RS4", "10_RS5", "10_19H1", "10_vb", "10_CO", "10_NI", "Server10", "SERVER2016", "ServerRS2", "serverrs3", "ServerRS4"]


def gen_cat(tier):
    for arch in ("x64", "AMD64", "arm", "ARM64", "aarch64"):
        for o in OSES:
            yield [arch, o, "given", 0, True]
    for tool in ("given", "found", "missing", "none"):
        for ret in (0, 1, -1):
            for made in (True, False):
                yield ["x64", "10_ni", tool, ret, made]
    for arch in ("x86", "", "x64 "):
        yield [arch, "10", "bad", 0, True]
    for o in ("win11", "", "10 ", "11"):
        yield ["x64", o, "bad", 0, True]


def run_cat(case, ctx):
    from edk2toollib.windows.capsule import cat_generator as cg

    arch, osname, tool, ret, made = case
    if tool == "bad":
        try:
            cg.CatGenerator(arch, osname)
        except ValueError:
            ctx.state(repr(case))
            return
        ctx.fail(f"{arch!r}, {osname!r} accepted")
    d = ctx.tmp()
    out = os.path.join(d, "sub", "x.cat")
    os.makedirs(os.path.dirname(out))
    exe = os.path.join(d, "Inf2Cat.exe")
    if tool != "missing":
        open(exe, "w").close()
    calls = []

    def run(cmd, parameters, workingdir=None, **kw):
        calls.append((cmd, parameters, workingdir))
        if made:
            open(out, "w").close()
        return ret

    saved = cg.RunCmd, cg.FindToolInWinSdk
    cg.RunCmd = run
    cg.FindToolInWinSdk = lambda name, *a: (exe if tool == "found" else None) if name == "Inf2Cat.exe" else "/wrong tool"
    try:
        c = cg.CatGenerator(arch, osname)
        try:
            r = c.MakeCat(out, exe if tool in ("given", "missing") else None)
        except Exception:
            r = "error"
    finally:
        cg.RunCmd, cg.FindToolInWinSdk = saved
    usable = tool in ("given", "found")
    ctx.eq(r, 0 if usable and ret == 0 and made else "error", "result")
    ctx.eq(len(calls), int(usable), "runs of the tool")
    if calls:
        cmd, params, wd = calls[0]
        a = {"x64": "X64", "amd64": "X64", "arm": "ARM", "arm64": "ARM64", "aarch64": "ARM64"}[arch.lower()]
        o = {"win10": "10"}.get(osname.lower(), osname.lower())
        ctx.eq((cmd, wd), (exe, os.path.dirname(out)), "tool and folder")
        opts = {p.split(":")[0]: p.partition(":")[2] for p in params.split()}
        ctx.eq(opts["/driver"], ".", "driver folder")
        ctx.eq(opts["/os"].lower(), f"{o}_{a}".lower(), "target")
        ctx.true(opts["/os"].endswith("_" + a), "spelling of the architecture")
    ctx.step()
    ctx.state(repr(case))


# -- sizes: number of firmwares, length of names and texts ----------------------------------------------------


def gen_sizes(tier):
    for n in counts(tier, 300, 1):
        for what in ("many", "tag", "file", "desc", "name"):
            yield [what, n]


def run_sizes(case, ctx):
    from edk2toollib.windows.capsule.inf_generator2 import InfFile

    what, n = case
    name = "N" * n if what == "name" else "N"
    f = InfFile(name, "1.2", "01/02/2021", "P", "M", "amd64", "D")
    fw, sources = [], []
    if what == "many":
        items = [(f"T{i}", f"desc {i}", f"f{i % (n - 1 or 1)}.bin", f"i{i}.bin" if i % 3 == 0 else None) for i in range(n)]
    else:
        x = "x" * n
        items = [("A" + x * (what == "tag"), "d" + " y" * n * (what == "desc"), x + ".bin" if what == "file" else "a.bin", None),
                 ("A" + x[1:] * (what == "tag") + "b", "e", x + "y.bin" if what == "file" else "b.bin", x + ".bin2" if what == "file" else "c")]
    for k, (tag, desc, fn, integ) in enumerate(items):
        f.AddFirmware(tag, desc, G[k % len(G)], str(k), fn, k % 2 == 1, integ)
        fw.append(model(desc, G[k % len(G)], k, fn, k % 2 == 1, integ))
        sources += [s for s in (fn, integ) if s and s not in sources]
    out = lower_guids(read_inf(str(f), ctx))
    ctx.eq(out["sources"], sources, f"source files ({what} {n})")
    ctx.eq(out["firmware"], lower_guids({"firmware": fw})["firmware"], f"firmware ({what} {n})")
    ctx.eq(out["cat"], name + ".cat", "catalog")
    ctx.state(tuple(case))


SUITES = [
    Suite("sizes", gen_sizes, run_sizes, "number of firmwares, length of names and texts", "counts up to 24 and edges to 300"),
    Suite("several", gen_multi, run_multi, "INF files for several firmwares", {"quick": "all orders of <=3 of 5 firmwares; 6 architectures x 6 OS versions", "thorough": "all orders of 5 firmwares"}),
    Suite("names", gen_names, run_names, "firmwares whose tags and file names contain each other", {"quick": "all pairs", "thorough": "all triples"}),
    Suite("refused", gen_bad2, run_bad2, "values that cannot be written", f"{len(BAD2)} values after <=2 firmwares"),
    Suite("single", gen_single, run_single, "INF files for one firmware", "6 architectures x rollback x integrity file x 4 GUIDs x manufacturer x 3 versions"),
    Suite("refused_single", gen_bad1, run_bad1, "values that cannot be written", f"{len(BAD1)} values"),
    Suite("catalog", gen_cat, run_cat, "Inf2Cat runs (a stand-in for the tool)", "5 architectures x 16 systems; tool and result outcomes"),
]
