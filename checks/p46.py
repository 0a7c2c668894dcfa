"""P46: signing runs signtool once, on exactly the given file and certificate, and delivers its result.

signtool is a script that records its arguments and its directory, and behaves as told: it writes a signature or not and
ends with a code.
"""

import itertools
import os
import shutil

from lib.mc import Suite

FLAGS = {"/a", "/debug", "/v"}
VALUES = {"/fd", "/p7ce", "/p7co", "/p7", "/f", "/u", "/p"}
OLD, CONTENT = b"old signature", b"\x00to sign\xff"

SCRIPT = """#!/bin/sh
D='{tmp}'
{{ printf '%s\\0' "$PWD" "$@"; printf '\\n\\0'; }} >> "$D/log"
last=
dir=
prev=
for a in "$@"; do
  if [ "$prev" = /p7 ]; then dir=$a; fi
  prev=$a
  last=$a
done
mode=$(cat "$D/mode")
case $mode in
  p7) cat "$last" "$D/cert" > "$dir/$(basename "$last").p7" 2>/dev/null ;;
  attach) printf signed >> "$last" ;;
esac
echo output
exit $(cat "$D/code")
"""


def options(argv):
    """The options of a call and the file it is for, or None."""
    if argv[:1] != ["sign"]:
        return None
    out, rest = {}, argv[1:-1]
    while rest:
        o = rest.pop(0).lower()
        if o in out or (o not in FLAGS and o not in VALUES) or (o in VALUES and not rest):
            return None
        out[o] = rest.pop(0) if o in VALUES else True
    return out, argv[-1]


def tree(d):
    out = {}
    for root, dirs, files in os.walk(d):
        for n in dirs:
            out[os.path.relpath(os.path.join(root, n), d)] = None
        for n in files:
            p = os.path.join(root, n)
            with open(p, "rb") as f:
                out[os.path.relpath(p, d)] = f.read()
    return out


SITES = [
    # (directory of the tool, of the file, of the certificate, of the output)
    ["bin", "in", "keys", "out"],
    ["my tools", "in put", "my keys", "out dir"],
    ["bin", "same", "same", "same"],
    ["my tools", "in", "keys", "in"],
    ["bin", "in put", "my keys", "in put"],
]
FILES = ["a.bin", "a b.bin", "noext"]


def gen_detached(tier):
    for site, name, rel in itertools.product(SITES, FILES, (False, True)):
        for outname, oldout in itertools.product(("sig.p7b", "s g", None), (False, True)):
            if not outname and oldout:
                continue
            for pw, oid, eku in itertools.product((None, "secret"), (None, "1.2.3"), (None, "1.3.6.1")):
                for mode, code in (("p7", 0), ("none", 0), ("p7", 1), ("none", 2), ("none", 255)):
                    if tier == "quick" and (mode, code) != ("p7", 0) and (pw or oid or eku) and not (pw and oid and eku):
                        continue
                    if tier == "quick" and sum(map(bool, (rel, name != "a.bin", outname != "sig.p7b", oldout, pw, oid, eku))) not in (0, 1, 2, 6, 7):
                        continue
                    yield [site, name, rel, outname, oldout, pw, oid, eku, mode, code]
    yield "missing tool"
    for name in FILES:
        for pw in (None, "secret"):
            yield ["bare", name, pw]


def setup(ctx, site, name, mode, code):
    tmp = os.path.realpath(ctx.tmp())
    shutil.rmtree(tmp, ignore_errors=True)
    for d in site:
        os.makedirs(os.path.join(tmp, d), exist_ok=True)
    tool = os.path.join(tmp, site[0], "signtool.exe")
    with open(tool, "w") as f:
        f.write(SCRIPT.format(tmp=tmp))
    os.chmod(tool, 0o755)
    src, pfx = os.path.join(tmp, site[1], name), os.path.join(tmp, site[2], "cert key.pfx" if " " in site[2] else "cert.pfx")
    for p, data in ((src, CONTENT), (pfx, b"key"), (os.path.join(tmp, "cert"), b"#signature")):
        with open(p, "wb") as f:
            f.write(data)
    for n, t in (("mode", mode), ("code", str(code))):
        with open(os.path.join(tmp, n), "w") as f:
            f.write(t)
    return tmp, tool, src, pfx


def calls(tmp):
    log = os.path.join(tmp, "log")
    if not os.path.exists(log):
        return []
    with open(log, "rb") as f:
        data = f.read()
    os.remove(log)
    return [[os.fsdecode(a) for a in c.split(b"\0")[:-1]] for c in data.split(b"\n\0")[:-1]]


def call(f, *a, **k):
    try:
        return ("returned", f(*a, **k))
    except Exception as e:
        return ("raised", e)


def one_call(ctx, tmp, want, src):
    cs = calls(tmp)
    ctx.eq(len(cs), 1, "calls of signtool")
    cwd, argv = cs[0][0], cs[0][1:]
    got = options(argv)
    ctx.true(got is not None, f"arguments of signtool: {argv!r}")
    opts, last = got
    ctx.eq(os.path.realpath(os.path.join(cwd, last)), src, "file to sign")
    for o in ("/f", "/p7"):
        if o in opts:
            opts[o] = os.path.realpath(os.path.join(cwd, opts[o])) if opts[o] else "(empty)"
    opts["/fd"] = opts.get("/fd", "").lower()
    for o in ("/debug", "/v"):
        opts.pop(o, None)
    ctx.eq(opts, want, "options of signtool")


def run_detached(case, ctx):
    from edk2toollib.utility_functions import DetachedSignWithSignTool as sign

    if case == "missing tool":
        tmp, tool, src, pfx = setup(ctx, SITES[0], "a.bin", "p7", 0)
        before = tree(tmp)
        ctx.eq(call(sign, tool + "x", src, os.path.join(tmp, "out", "sig"), pfx), ("returned", -1), "a missing tool")
        ctx.eq(tree(tmp), before, "files after a call with a missing tool")
        return
    bare = case[0] == "bare"
    if bare:
        case = [["bin", "same", "same", "same"], case[1], True, "sig", False, case[2], None, None, "p7", 0]
    site, name, rel, outname, oldout, pw, oid, eku, mode, code = case
    tmp, tool, src, pfx = setup(ctx, site, name, mode, code)
    product = os.path.join(tmp, site[3], name + ".p7")
    out = product if outname is None else os.path.join(tmp, site[3], outname)
    if oldout:
        with open(out, "wb") as f:
            f.write(OLD)
    before = tree(tmp)
    cwd = os.getcwd()
    os.chdir(os.path.join(tmp, "same") if bare else tmp)
    try:
        here = os.getcwd()
        given = [os.path.relpath(p, here) if rel else p for p in (tool, src, out, pfx)]
        kw = {}
        if oid:
            kw["Oid"] = oid
        if eku:
            kw["Eku"] = eku
        kind, val = call(sign, *given, *([pw] if pw else []), **kw)
    finally:
        os.chdir(cwd)
    want = {"/fd": "sha256", "/p7ce": "DetachedSignedData", "/p7co": oid or "1.2.840.113549.1.7.2",
            "/p7": os.path.join(tmp, site[3]), "/f": pfx}
    if pw:
        want["/p"] = pw
    if eku:
        want["/u"] = eku
    one_call(ctx, tmp, want, src)
    after = tree(tmp)
    expect = dict(before)
    key = os.path.relpath(out, tmp)
    pkey = os.path.relpath(product, tmp)
    if code:
        ctx.eq((kind, val), ("returned", code), "result of a failing signtool")
        if mode == "p7":
            expect[pkey] = CONTENT + b"#signature"  # what signtool left
            after.setdefault(pkey, expect[pkey])
    elif mode == "none":
        ctx.eq(kind, "raised", "a signtool without a product")
    else:
        ctx.eq((kind, val), ("returned", 0), "result")
        expect[key] = CONTENT + b"#signature"
    ctx.eq(after, expect, "files afterwards")
    ctx.state((kind, str(val)[:3], sorted(after)))


def gen_catalog(tier):
    for site, name, rel, pw, code in itertools.product(SITES, FILES, (False, True, "bare", "quoted"), (None, "secret"), (0, 1, 2, 255)):
        if rel == "bare" and site[1] == site[0]:
            continue
        yield [site, name, rel, pw, code]
    yield "missing tool"


def run_catalog(case, ctx):
    from edk2toollib.utility_functions import CatalogSignWithSignTool as sign

    if case == "missing tool":
        tmp, tool, src, pfx = setup(ctx, SITES[0], "a.bin", "attach", 0)
        before = tree(tmp)
        ctx.eq(call(sign, tool + "x", src, pfx), ("returned", -1), "a missing tool")
        ctx.eq(tree(tmp), before, "files after a call with a missing tool")
        return
    site, name, rel, pw, code = case
    tmp, tool, src, pfx = setup(ctx, site, name, "attach", code)
    before = tree(tmp)
    cwd = os.getcwd()
    os.chdir(os.path.dirname(src) if rel == "bare" else tmp)
    try:
        here = os.getcwd()
        given = [os.path.relpath(p, here) if rel in (True, "bare") else p for p in (tool, src, pfx)]
        if rel == "quoted":
            given[2] = '"' + given[2] + '"'
        kind, val = call(sign, *given, *([pw] if pw else []))
    finally:
        os.chdir(cwd)
    want = {"/a": True, "/fd": "sha256", "/f": pfx}
    if pw:
        want["/p"] = pw
    one_call(ctx, tmp, want, src)
    ctx.eq((kind, val), ("returned", code), "result")
    expect = dict(before)
    expect[os.path.relpath(src, tmp)] = CONTENT + b"signed"
    ctx.eq(tree(tmp), expect, "files afterwards")
    ctx.state((code, rel, pw, name))


CHUNK = 16
SUITES = [
    Suite("detached", gen_detached, run_detached, "detached signing: places of tool, file, certificate and output x options x behaviour of signtool",
          {"quick": "5 layouts, 3 names, <=2 or >=6 of 7 variations, 5 behaviours", "thorough": "5 layouts, all variations, 5 behaviours"}),
    Suite("catalog", gen_catalog, run_catalog, "catalog signing: places of tool, file and certificate x behaviour of signtool", "5 layouts, 3 names, 4 kinds of paths, 4 exit codes"),
]
ASSUMPTIONS = ["signtool is a script run by /bin/sh", "paths and passwords without characters special to the shell other than spaces in paths"]
