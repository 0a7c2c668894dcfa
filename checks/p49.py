"""P49: what one object did never shows in another one.

Every ordered pair of operations of a catalogue runs in a process of its own (forked before anything was used), while
results of the first are alive and after its owner changed them; each operation must give what it gives alone.
"""

import datetime
import enum
import importlib
import io
import itertools
import json
import logging
import os
import pickle
import shutil
import signal
import time
import types
import uuid
import xml.etree.ElementTree as ElementTree

from lib.mc import Suite

OPS = {}


def op(*variants):
    def add(f):
        for v in variants or ((),):
            v = v if isinstance(v, tuple) else (v,)
            name = f.__name__ + ("" if not v else ":" + ",".join(str(x) for x in v))
            OPS[name] = lambda d, f=f, v=v: f(d, *v)
        return f

    return add


def put(d, rel, text):
    p = os.path.join(d, rel)
    os.makedirs(os.path.dirname(p), exist_ok=True)
    with open(p, "wb" if isinstance(text, bytes) else "w") as f:
        f.write(text)
    return p


def parsed(cls, d, name, text, **var):
    from edk2toollib.uefi.edk2.path_utilities import Edk2Path

    mod = {"DscParser": "dsc_parser", "FdfParser": "fdf_parser", "InfParser": "inf_parser", "DecParser": "dec_parser",
           "TargetTxtParser": "targettxt_parser"}[cls]
    p = getattr(importlib.import_module("edk2toollib.uefi.edk2.parsers." + mod), cls)()
    p.SetEdk2Path(Edk2Path(d, []))
    if var:
        p.SetInputVars(var)
    p.ParseFile(put(d, name, text))
    return p


DSC = ["[Defines]\nPLATFORM_NAME=A\nSUPPORTED_ARCHITECTURES=X64\nDEFINE M=1\n[LibraryClasses]\nL|P/L.inf\nNULL|P/N.inf\n[Components.X64]\nP/A.inf {\n"
       "<LibraryClasses>\nK|P/K.inf\n}\n[PcdsFixedAtBuild]\ngTokenSpaceGuid.P|5\n",
       "[Defines]\nPLATFORM_NAME=B\nSUPPORTED_ARCHITECTURES=IA32|X64\n[LibraryClasses]\nL|P/M.inf\n[Components]\nP/B.inf\n[Components.IA32]\n!if $(V) == 1\nP/C.inf\n"
       "!else\nP/D.inf\n!endif\n$(M)/E.inf\n"]


@op(0, 1)
def dsc(d, i):
    p = parsed("DscParser", d, "t.dsc", DSC[i], V=str(1 - i))
    return [p.LocalVars, p.InputVars, p.SixMods, p.ThreeMods, p.OtherMods, p.Libs, p.LibraryClassToInstanceDict, p.ScopedLibraryDict, p.Components, p.Pcds,
            p.PcdValueDict, p.SixModsEnhanced, p.GetAllDscPaths(), p.Lines]


@op(("DscParser", 0), ("DscParser", 1), ("FdfParser", 0), ("FdfParser", 1))
def included(d, cls, i):
    put(d, "i/x.inc", "DEFINE A = %d\n!include i/y.inc\n" % i)
    put(d, "i/y.inc", "B = $(A)%d\n" % i)
    p = parsed(cls, d, "t.txt", "[Defines]\n!include i/x.inc\nC = $(B)\n")
    return [p.LocalVars, p.Lines, getattr(p, "GetAllDscPaths", set)()]


@op(0, 1)
def fdf(d, i):
    p = parsed("FdfParser", d, "t.fdf", ["[Defines]\nDEFINE M=1\n[FD.A]\nX=1\n[FV.A]\nINF $(M)/A.inf\nFILE RAW = 7E175642-F3AD-490A-9F8A-2E9FC6933DDD {\nSECTION RAW = x\n}\n",
                                         "[FV.A]\nINF $(M)/B.inf\n[FD.B]\nX=2\n[FV.B]\nINF C.inf\n"][i])
    return [p.Dict, p.FVs, p.FDs, p.LocalVars]


@op(0, 1, 2, 3)
def inf(d, i):
    p = parsed("InfParser", d, "t.inf", ["[Defines]\nBASE_NAME=A\nLIBRARY_CLASS=L\n[Sources]\na.c\n[Guids]\ng\n", "[Defines]\nBASE_NAME=B\nLIBRARY_CLASS=L|PEIM\n[Sources.X64]\nb.c\n",
                                         "[LibraryClasses]\nL\n[Protocols]\np\n", "[Defines]\nLIBRARY_CLASS=K|BASE\n[Packages]\nP/P.dec\n"][i])
    return [p.Dict, p.LibraryClass, p.SupportedPhases, p.Sources, p.GuidsUsed, p.PackagesUsed, p.LibrariesUsed, p.ProtocolsUsed, p.PcdsUsed, p.PpisUsed,
            p.Binaries, p.ScopedLibraryDict, p.ScopedSourceDict, p.get_sources(["X64"]), p.Lines]


GUID = "{ 0xD3B36F2C, 0xD551, 0x11D4, { 0x9A, 0x46, 0x00, 0x90, 0x27, 0x3F, 0xC1, 0x4%s }}"


@op(0, 1)
def dec(d, i):
    p = parsed("DecParser", d, "t.dec", ["[Defines]\nPACKAGE_NAME=P\n[Includes]\nI\n[Guids]\ng=%s\n[PcdsFixedAtBuild]\nT.P|1|UINT8|1\n" % (GUID % "A"),
                                         "[LibraryClasses]\nL|L.h\n[Protocols]\np=%s\n[Ppis]\nq=%s\n" % (GUID % "B", GUID % "C")][i])
    return [p.Dict, p.Guids, p.Protocols, p.PPIs, p.LibraryClasses, p.Pcds, p.IncludePaths]


@op(0, 1)
def target(d, i):
    p = parsed("TargetTxtParser", d, "target.txt", ["TARGET = DEBUG\nTARGET_ARCH = X64\n", "TOOL_CHAIN_TAG = GCC\n"][i])
    return [p.Dict, p.Lines]


@op(0, 1)
def override(d, i):
    from edk2toollib.uefi.edk2.parsers.override_parser import OverrideParser

    return OverrideParser(inf_contents="\n".join("#OVERRIDE : 00000001 | P/%d.inf | %s | 2018-05-09T01-00-00" % (k, "0123456789abcdef" * 2) for k in range(i + 1)))


@op(0, 1)
def conditions(d, i):
    from edk2toollib.uefi.edk2.parsers.base_parser import BaseParser

    p = BaseParser("x")
    p.SetInputVars({"A": "1"} if i else {"B": "2"})
    out = []
    for line in ("!ifdef $(A)", "!if $(B) == 2", "!else", "!endif", "!endif", "!ifndef B"):
        p.ProcessConditional(p.ReplaceVariables(line))
        out.append(p.InActiveCode())
    return [out, p.InputVars]


@op("other")
def other_paths(d, kind):
    from edk2toollib.uefi.edk2.path_utilities import Edk2Path

    put(d, "w/P/M/Q.dec", "")
    put(d, "w/P/M/N.inf", "")
    put(d, "w/P/M/a.c", "")
    os.makedirs(os.path.join(d, "o"))
    e = Edk2Path(os.path.join(d, "w"), [os.path.join(d, "o")])
    return [e.WorkspacePath, e.PackagePathList, e.GetContainingModules(os.path.join(d, "w/P/M/a.c")), e.GetContainingPackage(os.path.join(d, "w/P/M/a.c")),
            e.GetAbsolutePathOnThisSystemFromEdk2RelativePath("P/M/a.c"), e.GetEdk2RelativePathFromAbsolutePath(os.path.join(d, "w/P/M/a.c"))]


@op("ws", "pp")
def paths(d, kind):
    from edk2toollib.uefi.edk2.path_utilities import Edk2Path

    put(d, "w/P/P.dec", "")
    put(d, "w/P/M/M.inf", "")
    put(d, "o/P/M/a.c", "")
    pp = [os.path.join(d, "o")] if kind == "pp" else []
    e = Edk2Path(os.path.join(d, "w"), pp)
    return [e.WorkspacePath, e.PackagePathList, pp, e.GetContainingModules(os.path.join(d, "w/P/M/a.c")), e.GetContainingPackage(os.path.join(d, "w/P/M/a.c")),
            e.GetAbsolutePathOnThisSystemFromEdk2RelativePath("P/M/a.c"), e.GetEdk2RelativePathFromAbsolutePath(os.path.join(d, "o/P/M/a.c"))]


@op(0, 1, 2)
def guids(d, i):
    from edk2toollib.uefi.edk2.guid_list import GuidList

    c = "ABC"[i]
    put(d, "g/a.dec", f"[Defines]\nPACKAGE_NAME=P{c}\nPACKAGE_GUID=7E175642-F3AD-490A-9F8A-2E9FC6933DD{c}\n[Guids]\ng={GUID % c}\n[Protocols]\np{c}={GUID % c}\n[Ppis]\nq{c}={GUID % c}\nr={GUID % c}\n")
    put(d, "g/s/b.inf", "[Defines]\nBASE_NAME=B\nFILE_GUID=7E175642-F3AD-490A-9F8A-2E9FC6933DDD\n")
    return [GuidList.guidlist_from_filesystem(os.path.join(d, "g"), *([], [["s/"]], [["*.dec"]])[i])]


@op(0, 1)
def ignore(d, i):
    from edk2toollib.gitignore_parser import parse_gitignore_lines

    lines = [["*.a", "!x.a", "/b/"], ["x.*", "b/**"]][i]
    f = parse_gitignore_lines(lines, os.path.join(d, ".gitignore"), d)
    return [[f(os.path.join(d, x)) for x in ("x.a", "y.a", "b", "b/c", "x.b")], lines]


@op(0, 1)
def report(d, i):
    from checks import p10
    from edk2toollib.uefi.edk2.parsers.buildreport_parser import BuildReport

    regions = [["mod", 0, [0, "rel", [["lib", ["lib1", "null"]], ["pcd", ["ts1", "int"]]]]], ["mod", 1, [1, "abs", [["depex", 1]]]]][:i + 1]
    m = p10.Model()
    text = list(p10.HEAD)
    for r in regions:
        text += p10.render_module(r[1], r[2], m)
    text += p10.render_fd([["FVONE", [[k, 0] for k in range(i + 1)]]], m)
    text = [x.replace("@WS@", d).replace("@PP@", d + "/pp") for x in text]
    os.mkdir(d + "/pp")
    b = BuildReport(put(d, "r.txt", "\n".join(text)), d, d + "/pp", {"PROTECTED": "x"})
    b.BasicParse()
    return [b.Modules, b.FindComponentByInfPath("Pkg/Mod0/Mod0.inf").Guid, b.PlatformName, b.DscPath]


@op(0, 1)
def database(d, i):
    from edk2toollib.database import Edk2DB, Inf
    from edk2toollib.database.tables import InfTable
    from edk2toollib.uefi.edk2.path_utilities import Edk2Path

    put(d, "P/P.dec", "")
    for k in range(i + 1):
        put(d, f"P/M{k}/M{k}.inf", f"[Defines]\nBASE_NAME=M{k}\nFILE_GUID=7E175642-F3AD-490A-9F8A-2E9FC6933DD{k}\nMODULE_TYPE=BASE\n[Sources]\na.c\n[LibraryClasses]\nL\n")
    env = {"A": str(i)}
    db = Edk2DB(os.path.join(d, "x.db"), Edk2Path(d, []))
    db.register(InfTable(n_jobs=1))
    db.parse(env)
    with db.session() as s:
        rows = [[r.path, r.guid, r.package_name, r.library_class, r.module_type, [str(x.path) for x in r.sources], [x.name for x in r.libraries]] for r in s.query(Inf).order_by(Inf.path)]
    db.engine.dispose()
    return [rows, env]


@op(0, 1)
def dmar(d, i):
    from checks import p33
    from edk2toollib.acpi.dmar_parser import DMARTable

    t = DMARTable(p33.table(p33.STRUCTS[:2 + i]))
    return [t.dmar_table, t.DMARBitEnabled(), t.ANDDCount(), ElementTree.tostring(t.toXml())]


@op(0, 1)
def ivrs(d, i):
    from checks import p34

    t = p34.T()(p34.table(p34.STRUCTS[i:i + 2]))
    return [t.acpi_header, t.SubStructs, t.Encode() if hasattr(t, "Encode") else None, t.IVMD_list if hasattr(t, "IVMD_list") else None]


@op("empty")
def ivrs_new(d, _):
    from checks import p34

    return [p34.T()()]


@op(0, 1, 2)
def device_path(d, i):
    from checks import p36
    from edk2toollib.uefi.device_path import DevicePathFactory

    got = DevicePathFactory.from_binary(b"".join(p36.node(n) for n in p36.NODES[i:i + 3] + p36.NODES[14:15]))
    return [got, [str(x) for x in got], [x.__dict__() for x in got]]


@op(1, 8, 24)
def bmp(d, bpp):
    from checks import p35

    return [p35.B()(io.BytesIO(p35.build(bpp))), p35.B()()]


@op(0, 1)
def cert(d, i):
    from edk2toollib.uefi.wincert import WinCertUefiGuid

    c = WinCertUefiGuid()
    c.add_cert_data(b"abc"[:i + 1])
    return [c, c.encode(), WinCertUefiGuid()]


@op(0, 1, 2)
def capsule(d, i):
    from checks import p28

    o = p28.build(p28.REUSE[i])
    c = type(o)()
    return [o, o.Encode(), c]


@op("FmpPayloadHeaderClass", "FmpAuthHeaderClass", "FmpCapsuleHeaderClass", "FmpCapsuleImageHeaderClass", "UefiCapsuleHeaderClass")
def fresh_header(d, name):
    mod = {"FmpPayloadHeaderClass": "edk2.fmp_payload_header", "FmpAuthHeaderClass": "fmp_auth_header", "UefiCapsuleHeaderClass": "uefi_capsule_header"}.get(name, "fmp_capsule_header")
    return [getattr(importlib.import_module("edk2toollib.uefi." + mod), name)()]


@op(("Var", 0), ("Var", 1), ("AuthVar", 0))
def variables(d, kind, i):
    from checks import p22
    from edk2toollib.uefi.edk2 import variable_format as vf

    v = p22.new(kind)
    e = p22.new(kind)
    v.VendorGuid = e.VendorGuid = uuid.UUID(int=9)  # random at first
    v.set_name(p22.NAMES[1 + i])
    v.set_data(p22.DATAS[2 + i])
    return [v, v.serialize(True), e, vf.VariableStoreHeader()]


@op(("Var", 0), ("AuthVar", 1))
def var_store(d, kind, i):
    from checks import p21
    from edk2toollib.uefi.edk2.variablestore_manulipulations import VariableStore

    img, n = p21.image(kind, 600, [p21.POOL[i]], b"", b"")
    p = put(d, "rom.bin", img)
    s = VariableStore(p, len(p21.PRE), n)
    try:
        new = s.get_new_var_class()
        new.VendorGuid = uuid.UUID(int=9)  # random at first
        new.set_name("N")
        new.set_data(b"1")
        s.variables.append(new)
        s.flush_to_file()
        return [s.variables, s.var_store_header, s.fv_header, open(p, "rb").read()]
    finally:
        s.rom_file_fs.close() if hasattr(s, "rom_file_fs") and hasattr(s.rom_file_fs, "close") else None


@op(3, "EFI_VARIABLE_NON_VOLATILE", "NV,BS,RT")
def attributes(d, a):
    from edk2toollib.uefi.uefi_multi_phase import EfiVariableAttributes

    v = EfiVariableAttributes(a)
    return [v.attributes, str(v), v.get_short_string(), v.encode(), EfiVariableAttributes(0).attributes]


@op("fv", "ext", "ffs", "block", "whead", "wrec")
def headers(d, name):
    from checks import p24

    mod, cls, fields, size, _ = p24.S[name]
    cls = getattr(importlib.import_module(mod), cls)
    b = next(iter(p24.make([name, [0], 0])))
    h = cls()
    h.load_from_file(io.BytesIO(b))
    return [h, cls()]


@op(0, 1)
def var_policy(d, i):
    from checks import p23
    from edk2toollib.uefi.edk2.variable_policy import VariablePolicyEntry

    e = VariablePolicyEntry()
    body = p23.lock_bytes(1, 7, p23.STATE_NAMES[0]) if i else b""
    e.decode(p23.entry(1, p23.NUMS[1], 3 if i else 1, body, p23.NAMES[1 + i]))
    return [e, VariablePolicyEntry()]


@op(("S", 0), ("S", 1), ("X", 0))
def signature_list(d, kind, i):
    from checks import p25
    from edk2toollib.uefi.authenticated_variables_structure_support import EfiSignatureDatabase

    e = p25.build(kind, [[0, 0], [1, 1]][:i + 1], "build")
    db = EfiSignatureDatabase(esl_list=[e])
    return [e.encode(), db.encode(), EfiSignatureDatabase().encode(), db.get_duplicates().encode(), db.get_canonical().encode(), db.esl_list, EfiSignatureDatabase().esl_list]


@op(0, 1)
def auth_time(d, i):
    from edk2toollib.uefi.authenticated_variables_structure_support import EfiTime, EfiVariableAuthentication2Builder

    t = datetime.datetime(2020 + i, 1, 2, 3, 4, 5)
    b = EfiVariableAuthentication2Builder("N" * (i + 1), uuid.UUID(int=i + 1), "NV,BS" if i else 7, b"p" * (i + 1), t)
    return [EfiTime(t).encode(), b.get_digest(), b.get_signature()]


@op(0, 1)
def firmware_policy(d, i):
    from checks import p30

    L = p30.lib()
    p = L.FirmwarePolicy()
    p.SetDevicePolicy(i + 1)
    p.SetDeviceTarget(p30.TARGETS[i]) if isinstance(p30.TARGETS[i], dict) else None
    p.AddRule(p30.mk(p30.RULES[i]))
    out = bytearray()
    f = io.BytesIO()
    p.SerializeToStream(f)
    q = L.FirmwarePolicy(io.BytesIO(f.getvalue()))
    return [p30.view(p), f.getvalue(), p30.view(q), p30.view(L.FirmwarePolicy()), p.Rules, q.Rules, L.FirmwarePolicy().Rules, bytes(out)]


@op(0, 1)
def tpm(d, i):
    from edk2toollib.tpm import tpm2_defs as t, tpm2_stream as s

    c = s.Tpm2CommandStream(0x8001, 0, 0x144 + i)
    c.add_element(s.TPM2B(b"ab"[:i + 1]))
    e = s.Tpm2CommandStream(0x8001, 0, 0x144)
    return [c.get_stream(), e.get_stream(), s.TPM2B(b"").marshal(), t.CommandCode.get_code("TPM_CC_Startup"), t.CommandCode.get_string(0x144 + i), t.ResponseCode.get_simple_string(0x100 + i) if hasattr(t.ResponseCode, "get_simple_string") else None]


@op(0, 1, 2)
def tpm_policy(d, i):
    from checks import p31
    import edk2toollib.tpm.tpm2_policy_calc as pc

    tree = p31.mk([["and", [["L", [0]], ["C", 0x126]]], ["or", [["and", [["L", [3]]]], ["solo", ["L", [4]]]]], ["solo", ["C", 0x18E]]][i])
    return [tree.get_policy(pc.PolicyHasher("sha256" if i else "sha384"))]


@op(0, 1, 2)
def fw_inf(d, i):
    from edk2toollib.windows.capsule.inf_generator2 import InfFile

    f = InfFile("N" * (i + 1), "1.2.3.4", "01/02/2021", "P", "M", "x64", "D", *([], ["10.0"], ["10.0...22000"])[i])
    for k in range(i + 1):
        f.AddFirmware("T%d" % k, "desc %d" % k, "34e094e9-4079-44cd-9450-3f2cb7824c9%d" % k, "0x1", "f%d.bin" % k, bool(k), "i.bin" if k else None)
    return [str(f)]


@op(0, 1)
def fw_inf1(d, i):
    from edk2toollib.windows.capsule.inf_generator import InfGenerator

    o = InfGenerator("N", "P", "34e094e9-4079-44cd-9450-3f2cb7824c97", "x64", "d", "1.2", "0x1")
    o.Date = datetime.date(2021, 3, 4)
    if i:
        o.Manufacturer = "Other"
        o.IntegrityFilename = "i.bin"
    p = os.path.join(d, "x.inf")
    o.MakeInf(p, "f.bin", bool(i))
    return [open(p).read(), o.Provider, o.Manufacturer, o.Arch]


@op("amd64", "arm64")
def cat(d, arch):
    from edk2toollib.windows.capsule.cat_generator import CatGenerator

    c = CatGenerator(arch, "10" if arch == "amd64" else "Server10")
    return [c.Arch, c.OperatingSystem]


def dsc_desc(i):
    from checks import p41

    a = {"library_classes": [[p41.SEC[0], p41.LIBS[:1 + i]]], "components": [[p41.SEC[1], p41.COMPS[i:i + 1]]], "defines": p41.DEFS[:1 + i],
         "build_options": [[p41.BSEC[1], p41.OPTS[:1 + i]]]}
    return a


@op(0, 1)
def dsc_object(d, i):
    from checks import p41
    from edk2toollib.uefi.edk2.build_objects.dsc_translator import DscTranslator

    o = p41.build(dsc_desc(i))
    p = os.path.join(d, "o.dsc")
    DscTranslator.dsc_to_file(o, p)
    lines = sorted(x.strip() for x in open(p))
    m = p41.mod()
    e = m.dsc()
    k = m.component("P/Z.inf")
    return [lines, sorted(type(x).__name__ for x in o.defines), len(e.defines), len(e.components), len(k.pcds), len(k.library_classes), len(k.build_options), len(k.defines)]


@op("changed", "fresh")
def dsc_defaults(d, how):
    """Containers of new objects are their own."""
    from checks import p41

    m = p41.mod()
    k, o = m.component("P/Z.inf"), m.dsc()
    if how == "changed":
        k.library_classes.add(m.library_class("L", "P/L.inf"))
        k.defines.add(m.definition("A", "1"))
        k.pcds[m.dsc_pcd_component_type("FixedAtBuild")] = {m.pcd("g", "P", "1")}
        o.defines.add(m.definition("A", "1"))
        o.components[m.dsc_section_type()].add(k)
        o.skus.add(m.sku_id(1, "S"))
    n, p = m.component("P/Z.inf"), m.dsc()
    return [[len(getattr(n, a)) for a in ("library_classes", "defines", "pcds", "build_options")],
            [len(getattr(p, a)) for a in ("defines", "components", "skus", "libraries", "library_classes", "pcds", "build_options", "default_stores")]]


@op(0, 1)
def junit(d, i):
    from edk2toollib.log.junit_report_format import JunitTestReport

    r = JunitTestReport()
    s = r.create_new_testsuite("s%d" % i, "p")
    for k in range(i + 1):
        c = s.create_new_testcase("c%d" % k, "k")
        c.LogStdOut("o%d" % k)
        c.LogStdError("e")
        c.SetFailed("m", "t") if k else c.SetSuccess()
        c.StartTime = c.EndTime = 0 if hasattr(c, "StartTime") else None
    p = os.path.join(d, "r.xml")
    r.Output(p)
    import re

    return [re.sub(r'(time|timestamp)="[^"]*"', "", open(p).read())]


@op(0, 1)
def handlers(d, i):
    from edk2toollib.log.ansi_handler import ColoredFormatter, ColoredStreamHandler
    from edk2toollib.log.file_handler import FileHandler
    from edk2toollib.log.string_handler import StringStreamHandler

    rec = lambda m: logging.LogRecord("n", [logging.ERROR, logging.INFO][i], "f", 1, m, None, None)
    out = io.StringIO()
    c = ColoredStreamHandler(out)
    c.setFormatter(ColoredFormatter("%(message)s", use_azure=bool(i)))
    s = StringStreamHandler()
    h = FileHandler(os.path.join(d, "l.txt"))
    for k in (c, s, h):
        k.handle(rec("m%d" % i))
    s.seek_start()
    text = s.readlines()
    h.close()
    return [out.getvalue(), text, open(os.path.join(d, "l.txt")).read(), StringStreamHandler().readlines()]


@op(0, 1)
def tools(d, i):
    from edk2toollib import utility_functions as u

    out = io.StringIO()
    env = {"V": str(i), "PATH": os.environ.get("PATH", "")} if i else None
    r = u.RunCmd("echo", "a%d $V" % i, outstream=out, workingdir=d, environ=env)
    b = bytes(range(20 + i))
    o2 = io.StringIO()
    u.hexdump(b, outfs=o2)
    o3 = io.StringIO()
    u.export_c_type_array(io.BytesIO(b), "n%d" % i, o3)
    return [r, out.getvalue(), o2.getvalue(), o3.getvalue(), u.version_compare("1.2", "1.%d" % i), str(u.GetHostInfo()),
            u.import_module_by_file_name(put(d, "m%d.py" % i, "X = [%d]\n" % i)).X]


@op(0, 1)
def plugin_module(d, i):
    """Modules of the same file name in different folders."""
    from edk2toollib import utility_functions as u

    m = u.import_module_by_file_name(put(d, "plugin.py", "class A:\n    v = %d\n\nX = [%d]\n" % (i, i)))
    return [m.X, m.A.v]


# -- the texts and the other direction of codecs --------------------------------------------------------------------------


@op(0, 1)
def cert_back(d, i):
    from edk2toollib.uefi.wincert import WinCert, WinCertUefiGuid

    c = WinCertUefiGuid()
    c.add_cert_data(b"abc" * (i + 1))
    f = io.BytesIO(c.encode())
    w = WinCert.factory(f)
    return [w.encode(), f.tell(), w]


@op(("S", 0), ("X", 1))
def signature_text(d, kind, i):
    from checks import p25
    from edk2toollib.uefi.authenticated_variables_structure_support import EfiSignatureDatabase

    b = p25.build(kind, [[0, 0], [1, 1]][:i + 1], "build").encode()
    db = EfiSignatureDatabase(io.BytesIO(b * (i + 1)))
    out, raw = io.StringIO(), io.BytesIO()
    db.print(bool(i), out)
    db.write(raw)
    return [out.getvalue(), raw.getvalue(), db.esl_list]


@op(1, 8)
def bmp_text(d, bpp):
    from checks import p35

    o = p35.B()(io.BytesIO(p35.build(bpp)))
    out, raw = io.StringIO(), io.BytesIO()
    try:
        o.Print(out)
    except TypeError:
        pass
    o.Write(raw)
    return [out.getvalue(), raw.getvalue()]


@op(0, 1, 2)
def capsule_decode(d, i):
    from checks import p28

    b = p28.build(p28.REUSE[i])
    o = type(b)()
    return [o.Decode(b.Encode()), o, o.Encode()]


@op("fv", "ext", "block", "whead", "wrec")
def headers_back(d, name):
    from checks import p24

    mod, cls, fields, size, _ = p24.S[name]
    h = getattr(importlib.import_module(mod), cls)()
    h.load_from_file(io.BytesIO(next(iter(p24.make([name, [1], 1])))))
    try:
        return [h.serialize(), h]
    except AttributeError:
        return [h]


@op(0, 1)
def status(d, i):
    from edk2toollib.uefi.status_codes import UefiStatusCode

    u = UefiStatusCode()
    return [[f((top << bits) + n) for n in (i, 2 + i, 5)] for f, bits in ((u.Convert32BitToString, 31), (u.Convert64BitToString, 63)) for top in (0, 1)] + [
        [f(x) for x in ("0x%x" % i, "0x5")] for f in (u.ConvertHexString64ToString, u.ConvertHexString32ToString)]


@op(0, 1)
def guid_text(d, i):
    from edk2toollib.uefi.edk2.parsers.base_parser import BaseParser
    from edk2toollib.uefi.edk2.parsers.guid_parser import GuidParser as g

    c = GUID % "AB"[i]
    r = g.reg_guid_from_c_format(c)
    u = g.uuid_from_guidstring(r)
    return [r, g.c_guid_from_reg_format(r), u, g.c_guid_str_from_uuid(u), g.reg_guid_str_from_uuid(u), g.is_guid_in_c_format(c), g.is_guid_in_reg_format(c), BaseParser("x").ParseGuid(c)]


@op(0, 1)
def policy_text(d, i):
    from checks import p23
    from edk2toollib.uefi.edk2.variable_policy import VariablePolicyEntry

    e = VariablePolicyEntry()
    body = p23.lock_bytes(1, 7, p23.STATE_NAMES[0]) if i else b""
    e.decode(p23.entry(1, p23.NUMS[1], 3 if i else 1, body, p23.NAMES[1 + i]))
    return [str(e), e.csv_header(), e.csv_row()]


@op(0, 1)
def ivrs_text(d, i):
    from checks import p34

    t = p34.T()(p34.table(p34.STRUCTS[i:i + 2]))
    return [ElementTree.tostring(t.ToXmlElementTree()), t.Encode()]


@op(0, 1)
def ignore_file(d, i):
    from edk2toollib.gitignore_parser import parse_gitignore_file

    f = parse_gitignore_file(put(d, "i/.gitignore", ["*.a\n# c\n!x.a\n", "[ab].?\n/c/**/d\n"][i]))
    return [[f(os.path.join(d, "i", x)) for x in ("x.a", "y.a", "a.b", "c/d", "c/e/d", "q/c/d")]]


@op(0, 1)
def tpm_text(d, i):
    from edk2toollib.tpm import tpm2_defs as t, tpm2_stream as s

    r = s.Tpm2CommandStream(0x8002, 0, 0x144 + i)
    r.add_element(s.TPM2B(b"x" * i))
    return [t.ResponseCode.parse_code(0x100 + i), t.ResponseCode.parse_code(0x9A2 + i), t.ResponseCode.parse_code(0x184 + i), r.get_stream(), r.get_size(),
            t.CommandCode.get_string(0x17A + i), t.CommandCode.get_code("TPM_CC_GetRandom")]


@op(0, 1)
def reports(d, i):
    from edk2toollib.log.junit_report_format import JunitTestReport

    r = JunitTestReport()
    for n in range(2):
        s = r.create_new_testsuite("s<%d>" % n, "p")
        for k in range(3):
            c = s.create_new_testcase("c%d" % k, "k")
            c.LogStdOut("o%d" % (k + i))
            [c.SetError, c.SetSkipped, c.SetFailed][(k + i) % 3](*(() if (k + i) % 3 == 1 else ("m&", "t")))
    p = os.path.join(d, "r.xml")
    r.Output(p)
    import re

    return [re.sub(r'(time|timestamp)="[^"]*"', "", open(p).read())]


@op(0, 1)
def formatted(d, i):
    from edk2toollib.log.ansi_handler import ColoredFormatter, get_ansi_string

    f = ColoredFormatter("%(levelname)s:%(message)s", use_azure=bool(i))
    rec = [logging.LogRecord("n", v, "f", 1, "m%d", (v + i,), None) for v in (logging.DEBUG, logging.INFO, logging.WARNING, logging.ERROR, logging.CRITICAL)]
    return [[f.format(r) for r in rec], [[r.levelname, r.msg, r.args] for r in rec], get_ansi_string()]


@op(0, 1)
def modules(d, i):
    from edk2toollib import utility_functions as u

    m = u.import_module_by_file_name(put(d, "m%d.py" % i, "import io\nclass A(io.StringIO): pass\nclass B(A): v = %d\n" % i))
    t = put(d, "t/a/b.txt", "x")
    os.chmod(t, 0o444)
    u.RemoveTree(os.path.join(d, "t"))
    o = io.StringIO()
    r = u.RunPythonScript(put(d, "s.py", "import sys\nprint(sys.argv[1:])\nsys.exit(%d)\n" % i), "a b%d" % i, outstream=o, workingdir=d)
    return [u.locate_class_in_module(m, io.StringIO).__name__, os.path.exists(t), r, o.getvalue()]


@op(0, 1)
def tables(d, i):
    """The whole database."""
    from edk2toollib.database import Edk2DB, Fv, InstancedInf, Package, Source
    from edk2toollib.database.tables import InstancedFvTable, InstancedInfTable, PackageTable, SourceTable
    from edk2toollib.uefi.edk2.path_utilities import Edk2Path

    put(d, "P/P.dec", "[Defines]\nPACKAGE_NAME=P\n")
    for k in range(3):
        put(d, f"P/M{k}/M{k}.inf", f"[Defines]\nBASE_NAME=M{k}\nFILE_GUID=7E175642-F3AD-490A-9F8A-2E9FC6933DD{k}\nMODULE_TYPE={'BASE' if k else 'DXE_DRIVER'}\n"
            + (f"LIBRARY_CLASS=L{k}\n" if k else "") + f"[Sources]\na{i}.c\n[LibraryClasses]\n{'L1' if k != 1 else ''}\n")
        put(d, f"P/M{k}/a{i}.c", "x\n" * (k + 1 + i))
    put(d, "P/P.dsc", f"[Defines]\nPLATFORM_NAME=P\nSUPPORTED_ARCHITECTURES=X64\n[LibraryClasses]\nL1|P/M{1 + i}/M{1 + i}.inf\nL2|P/M2/M2.inf\n[Components]\nP/M0/M0.inf\n")
    put(d, "P/P.fdf", "[FV.A]\nINF P/M0/M0.inf\n")
    db = Edk2DB(os.path.join(d, "x.db"), Edk2Path(d, []))
    db.register(SourceTable(n_jobs=1), PackageTable(), InstancedInfTable(), InstancedFvTable())
    db.parse({"ACTIVE_PLATFORM": "P/P.dsc", "FLASH_DEFINITION": "P/P.fdf", "TARGET_ARCH": "X64", "TARGET": "DEBUG"})
    with db.session() as s:
        out = [sorted(map(str, ([r.path, r.total_lines] for r in s.query(Source)))), [[r.name, r.path] for r in s.query(Package)],
               sorted(str([r.path, r.arch, r.cls, sorted(x.path for x in r.libraries)]) for r in s.query(InstancedInf)), [[r.name, sorted(str(x.path) for x in r.infs)] for r in s.query(Fv)]]
    db.engine.dispose()
    return out


# -- observing and changing results ---------------------------------------------------------------------------------------

PLAIN = (str, int, float, bool, type(None), bytes)


def public(o):
    return {k: v for k, v in sorted(vars(o).items()) if not k.startswith("_") and not callable(v)}


def ours(o):
    return type(o).__module__.startswith("edk2toollib") and isinstance(getattr(o, "__dict__", None), dict)


def canon(o, d, depth=0):
    if isinstance(o, str):
        return o.replace(d, "@")
    if isinstance(o, enum.Enum):
        return str(o)
    if isinstance(o, PLAIN):
        return o
    if isinstance(o, (uuid.UUID, datetime.date, os.PathLike)):
        return str(o).replace(d, "@")
    if isinstance(o, (bytearray, memoryview)):
        return bytes(o)
    if depth > 8:
        return "..."
    if isinstance(o, dict):
        return ["dict"] + [[canon(k, d, depth + 1), canon(v, d, depth + 1)] for k, v in o.items()]
    if isinstance(o, (set, frozenset)):
        return ["set"] + sorted(repr(canon(v, d, depth + 1)) for v in o)
    if isinstance(o, (list, tuple)):
        return [canon(v, d, depth + 1) for v in o]
    if ours(o):
        return [type(o).__name__, [[k, canon(v, d, depth + 1)] for k, v in public(o).items()]]
    return type(o).__name__


def change(o, seen=None):
    """The owner of a result changes everything he can reach in it."""
    seen = set() if seen is None else seen
    if isinstance(o, PLAIN) or id(o) in seen or len(seen) > 3000:
        return
    seen.add(id(o))
    if isinstance(o, dict):
        for v in list(o.values()):
            change(v, seen)
        o["mc_junk"] = "mc_junk"
    elif isinstance(o, (list, bytearray)):
        for v in list(o):
            change(v, seen)
        o.append("mc_junk" if isinstance(o, list) else 7)
        o.insert(0, "mc_junk" if isinstance(o, list) else 7)
    elif isinstance(o, set):
        try:
            o.add("mc_junk")
        except (ValueError, TypeError):
            o.clear()
    elif isinstance(o, tuple):
        for v in o:
            change(v, seen)
    elif ours(o) and not isinstance(o, (enum.Enum, types.ModuleType)):
        for k, v in public(o).items():
            change(v, seen)
            if isinstance(v, (str, int, bytes)):
                try:
                    setattr(o, k, "mc_junk")
                except Exception:
                    pass


BASE = {}


def in_child(f):
    """The value of f(), computed in a process forked from this one, which itself runs no operation."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            signal.setitimer(signal.ITIMER_REAL, 0)
            try:
                v = ("ok", f())
            except BaseException as e:  # noqa
                import traceback
                v = ("raised", "".join(traceback.format_exception(e))[-900:])
            with os.fdopen(w, "wb") as p:
                pickle.dump(v, p)
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r, "rb") as p:
        data = p.read()
    os.waitpid(pid, 0)
    return pickle.loads(data) if data else ("died", "")


class Place:
    def __init__(self, root):
        self.root, self.n = root, 0

    def __call__(self):
        self.n += 1
        d = os.path.join(self.root, str(self.n))
        os.makedirs(d)
        return d


def alone(name, root):
    if name not in BASE:
        e = os.path.join(root, "alone", name.replace(",", "-").replace(":", "-"))

        def f():
            os.makedirs(e)
            return canon(OPS[name](e), e)
        BASE[name] = in_child(f)
    return BASE[name]


def preload():
    if preload.done:
        return
    import pkgutil

    import edk2toollib

    for m in pkgutil.walk_packages(edk2toollib.__path__, "edk2toollib."):
        try:
            importlib.import_module(m.name)
        except Exception:  # modules of another operating system
            pass
    preload.done = True


preload.done = False


def pair(a, b, root):
    place = Place(root)
    out = []

    def do(name):
        d = place()
        r = OPS[name](d)
        return r, d

    ra, da = do(a)
    sa = canon(ra, da)
    out.append(["first", a, sa])
    rb, db = do(b)
    out.append([f"after {a}", b, canon(rb, db)])
    out.append([f"the earlier result after {b}", a, canon(ra, da)])
    change(rb)
    out.append([f"the earlier result after a result of {b} was changed", a, canon(ra, da)])
    ra2, da2 = do(a)
    out.append([f"again, after a result of {b} was changed", a, canon(ra2, da2)])
    change(ra)
    change(ra2)
    rb, db = do(b)
    out.append([f"after results of {a} and {b} were changed", b, canon(rb, db)])
    return out


def gen(tier):
    names = sorted(OPS)
    for a in names:
        for k in range(0, len(names), 8):
            yield [a, names[k:k + 8]]


def run(case, ctx):
    preload()
    a, others = case
    root = ctx.tmp()
    for b in others:
        want = {}
        for n in {a, b}:
            kind, v = alone(n, root)
            if kind != "ok":
                ctx.fail(f"{n} alone {kind}: {v}")
            want[n] = v
        kind, v = in_child(lambda: pair(a, b, os.path.join(root, b.replace(",", "-").replace(":", "-"))))
        if kind != "ok":
            ctx.fail(f"{b} after {a} {kind}: {v}")
        for how, n, got in v:
            if got != want[n]:
                x, y = json.dumps(got, default=repr), json.dumps(want[n], default=repr)
                at = next((i for i, (p, q) in enumerate(zip(x, y)) if p != q), min(len(x), len(y)))
                ctx.fail(f"{n} {how}: ...{x[max(0, at - 80):at + 80]}, alone it gives ...{y[max(0, at - 80):at + 80]}")
            ctx.step()
        ctx.state((a, b))


def gen_triples(tier):
    groups = {}
    for n in sorted(OPS):
        groups.setdefault(n.split(":")[0], []).append(n)
    names = sorted(OPS)
    for g in groups.values():
        for t in itertools.product(g, repeat=3):
            yield list(t)
    if tier == "thorough":
        for a, b in itertools.product(groups, repeat=2):
            for x, y in itertools.product(groups[a][:2], groups[b][:2]):
                yield [x, y, groups[a][-1]]
                yield [x, y, x, y]
    for n in names:
        yield [n] * 5


def run_triples(case, ctx):
    preload()
    root = ctx.tmp()

    def f():
        place = Place(root + "/s")
        kept, out = [], []
        for n in case:
            d = place()
            r = OPS[n](d)
            kept.append((n, r, d))
            out += [[m, canon(x, e)] for m, x, e in kept]
        return out
    kind, v = in_child(f)
    if kind != "ok":
        ctx.fail(f"{case} {kind}: {v}")
    for n, got in v:
        k, want = alone(n, root)
        ctx.eq(got, want, f"{n} in {case}")
    ctx.state(tuple(case))


def gen_place(tier):
    groups = {}
    for n in sorted(OPS):
        if not n.startswith("plugin_module"):  # Python itself keeps compiled modules by name, size and second
            groups.setdefault(n.split(":")[0].replace("other_", ""), []).append(n)
    for g in groups.values():
        for k in (2, 3) if tier == "quick" else (2, 3, 4):
            for t in itertools.product(g, repeat=k):
                if all(x != y for x, y in zip(t, t[1:])):
                    yield list(t)


def run_place(case, ctx):
    """The same folder with new contents each time."""
    preload()
    root = ctx.tmp()
    d = os.path.join(root, "s")

    def f():
        out = []
        for n in case:
            os.makedirs(d)
            out.append([n, canon(OPS[n](d), d)])
            shutil.rmtree(d)
        return out
    kind, v = in_child(f)
    if kind != "ok":
        ctx.fail(f"{case} in one folder {kind}: {v}")
    for n, got in v:
        k, want = alone(n, root)
        ctx.eq(got, want, f"{n} in {case} in one folder")
    ctx.state(("place", tuple(case)))


def gen_many(tier):
    for n in sorted(OPS):
        yield [n, 300 if tier == "quick" else 3000]


def run_many(case, ctx):
    """The same operation over and over, in folders of its own; the results of every third are kept and changed."""
    n, top = case
    preload()
    root = ctx.tmp()
    kind, want = alone(n, root)

    def f():
        place = Place(root + "/m")
        kept, t0 = [], time.monotonic()
        for i in range(top):
            d = place()
            r = OPS[n](d)
            got = canon(r, d)
            if got != want:
                return i, got
            if i % 3 == 0:
                kept.append(r)
            elif i % 3 == 1:
                change(r)
            shutil.rmtree(d)
            if i >= 40 and time.monotonic() - t0 > (8 if top < 1000 else 25):  # the slowest ones
                break
        return i + 1, None
    kind, v = in_child(f)
    if kind != "ok":
        ctx.fail(f"{n}, repeated {kind}: {v}")
    if v[1] is not None:
        ctx.eq(v[1], want, f"{n}, time {v[0] + 1}")
    ctx.step(v[0])
    ctx.state(("many", n))


SUITES = [
    Suite("many", gen_many, run_many, "the same operation over and over", {"quick": "300 times or 8 s, at least 40", "thorough": "3000 times or 25 s, at least 40"}),
    Suite("pairs", gen, run, "ordered pairs of operations, with results alive and changed", f"all pairs of {len(OPS)} operations"),
    Suite("places", gen_place, run_place, "sequences of operations in one folder whose files are replaced", {"quick": "up to three of one class",
                                                                                                   "thorough": "up to four of one class"}),
    Suite("sequences", gen_triples, run_triples, "sequences of operations, all results kept", {"quick": "all triples of one class, 5 repetitions",
                                                                                      "thorough": "also 2 x 2 operations of all pairs of classes"}),
]
ASSUMPTIONS = ["results are changed through public attributes and the containers they hold, never through classes or modules"]
CHUNK = 4
