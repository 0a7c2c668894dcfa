"""P15: gitignore matching, used by walks that prune ignored folders, against a reference and against git itself."""

import itertools
import os
import shutil
import subprocess
import sys

from lib.mc import Suite
from lib.sizes import counts

# -- reference: gitignore(5) over relative posix paths -----------------------------------------------


def wild(pat, text):
    """wildmatch with pathname semantics on one pattern without leading slash; both are strings."""
    memo = {}

    def one(k):
        """A character of a bracket, that may be escaped."""
        k += pat[k : k + 1] == "\\"
        return (pat[k], k + 1) if k < len(pat) else (None, k)

    def m(i, j):
        k = (i, j)
        if k not in memo:
            memo[k] = go(i, j)
        return memo[k]

    def go(i, j):
        if i == len(pat):
            return j == len(text)
        if pat.startswith("**/", i) and (i == 0 or pat[i - 1] == "/"):
            # zero or more directories
            if m(i + 3, j):
                return True
            return any(text[k] == "/" and m(i, k + 1) for k in range(j, len(text)))
        if pat[i:] == "**" and i > 0 and pat[i - 1] == "/":
            return len(text) > j
        c = pat[i]
        if c == "*":
            e = i
            while e < len(pat) and pat[e] == "*":
                e += 1
            k = j
            while True:
                if m(e, k):
                    return True
                if k >= len(text) or text[k] == "/":
                    return False
                k += 1
        if j >= len(text):
            return False
        if c == "?":
            return text[j] != "/" and m(i + 1, j + 1)
        if c == "[":
            neg = pat[i + 1 : i + 2] in ("!", "^")
            k = s = i + 1 + neg
            hit = False
            while k == s or pat[k : k + 1] != "]":
                lo, k = one(k)
                hi = lo
                if pat[k : k + 1] == "-" and pat[k + 1 : k + 2] not in ("", "]"):
                    hi, k = one(k + 1)
                if lo is None or hi is None:
                    return False
                hit |= lo <= text[j] <= hi
            return hit != neg and text[j] != "/" and m(k + 1, j + 1)
        if c == "\\" and i + 1 == len(pat):
            return False
        if c == "\\" and i + 1 < len(pat):
            return text[j] == pat[i + 1] and m(i + 2, j + 1)
        return text[j] == c and m(i + 1, j + 1)

    return m(0, 0)


def parse(line):
    """-> (negated, dir_only, anchored, pattern) or None."""
    if line.endswith("\n"):
        line = line[:-1]
    if line.startswith("#"):
        return None
    while line.endswith(" ") and (len(line) - 1 - len(line[:-1].rstrip("\\"))) % 2 == 0:
        line = line[:-1]
    if not line:
        return None
    neg = line.startswith("!")
    if neg:
        line = line[1:]
    donly = line.endswith("/")
    if donly:
        line = line[:-1]
    anch = "/" in line
    if line.startswith("/"):
        line = line[1:]
    if not line:
        return None
    return neg, donly, anch, line


def decide(rules, rel, isdir):
    """Last matching rule decides one path (parents not considered)."""
    for neg, donly, anch, pat in reversed(rules):
        if donly and not isdir:
            continue
        if wild(pat, rel if anch else rel.rsplit("/", 1)[-1]):
            return not neg
    return False


def walk(entries, ignored):
    """Relative paths of the files a pruning walk reports. entries: rel -> isdir."""
    out = []
    for rel, isdir in entries.items():
        parts = rel.split("/")
        if isdir:
            continue
        if any(ignored("/".join(parts[:k]), True) for k in range(1, len(parts))):
            continue
        if not ignored(rel, False):
            out.append(rel)
    return sorted(out)


def real_walk(root, ignore):
    out = []
    for d, dirs, files in os.walk(root):
        dirs[:] = [x for x in dirs if not ignore(os.path.join(d, x))]
        out += [os.path.relpath(os.path.join(d, f), root) for f in files if not ignore(os.path.join(d, f))]
    return sorted(out)


TREE = ["a.c", "b.c", "ab", "x/a.c", "x/b.c", "x/ab", "x/y/a.c", "x/y/z/b.c", "y/a.c", "y/x/ab", "ax/b.c", "Build/o.bin", "x/Build/o.bin",
        "y/#k", "y/!k", "#k", "!k"]


def entries_of(files):
    e = {}
    for f in files:
        p = f.split("/")
        for k in range(1, len(p)):
            e["/".join(p[:k])] = True
        e[f] = False
    return e


ENTRIES = entries_of(TREE)

LINES = ["a.c", "*.c", "/a.c", "x/", "/x/", "x", "/x", "x/a.c", "x/*.c", "x/**", "**/a.c", "**/x", "x/**/a.c", "x/**/b.c", "?b", "[ab].c", "[!a].c",
         "a*", "Build/", "**/Build/", "x/Build/", "# note", "", "   ", "\\#k", "\\!k", "/*", "y/*", "*", "a.c ", "x/y", "**/y/**",
         "[a-b].c", "z/b.c", "*/a.c", "ab*", "/", "**", "/**", "**/", "!", "//"]
NEG = ["!a.c", "!/a.c", "!x/a.c", "!*.c", "!**/b.c", "!x/**/a.c", "!y/a.c", "!ab", "!o.bin", "!/x/*.c", "!\\!k"]


def in_domain(lines):
    """A pattern ending in "/" never meets a file of that name (the matcher is given no file types)."""
    for r in map(parse, lines):
        if r and r[1] and any(decide([(False, False, r[2], r[3])], f, False) for f in TREE):
            return False
    return True


def gen_lines(tier):
    allp = [x for x in LINES + NEG if in_domain([x])]
    for a in allp:
        yield [a]
    for a, b in itertools.product(allp, repeat=2):
        yield [a, b]
    third = LINES[:6] + LINES[9:13] + ["Build/", "*", "/*"]
    for a, b, c in itertools.product(LINES if tier == "thorough" else third, allp if tier == "thorough" else NEG + ["x/", "b.c"],
                                     NEG + ["x/", "a.c", "*.c"]):
        yield [a, b, c]


TOK = ["a", "*", "**", "/", "?", "[ab]", "x", ".c"]


def gen_pat(tier):
    n = 4 if tier == "quick" else 5
    for k in range(1, n + 1):
        for t in itertools.product(TOK, repeat=k):
            p = "".join(t)
            if "//" in p or "***" in p:
                continue
            if p.strip("/") == "":
                continue
            # "**" only as a whole path component
            if any("**" in comp and comp != "**" for comp in p.split("/")):
                continue
            if in_domain([p]):
                yield [p]


def ref_walk(lines):
    rules = [r for r in map(parse, lines) if r]
    return walk(ENTRIES, lambda rel, isdir: decide(rules, rel, isdir))


def setup(ctx):
    root = os.path.join(os.path.realpath(ctx.tmp()), "r")
    return root


def run(case, ctx):
    """The walk over an in-memory tree: only path strings are handed to the matcher."""
    from edk2toollib.gitignore_parser import parse_gitignore_lines

    root = "/nonexistent_root_for_gitignore/r"
    ignore = parse_gitignore_lines([x + "\n" for x in case] if len(case) % 2 else list(case), root + "/.gitignore", root)
    got = walk(ENTRIES, lambda rel, isdir: ignore(root + "/" + rel))
    ctx.eq(got, ref_walk(case), f"files left by {case}")
    ctx.eq(bool(ignore(root + "x/a.c")), False, "a path outside the folder")
    ctx.state(tuple(got))


def gen_files(tier):
    for a in LINES + NEG:
        if not in_domain([a]):
            continue
        yield [a, "*.c"]
        yield ["*.c", a]
    if tier == "thorough":
        for a, b in itertools.product(LINES, NEG):
            yield [a, b]


def run_files(case, ctx):
    """Real file, real walk; and the reference is validated against git when git is there."""
    from edk2toollib.gitignore_parser import parse_gitignore_file

    root = os.path.join(os.path.realpath(ctx.tmp()), "r")
    for f in TREE:
        os.makedirs(os.path.dirname(os.path.join(root, f)), exist_ok=True)
        open(os.path.join(root, f), "w").close()
    gi = os.path.join(ctx.tmp(), "ignorefile")
    with open(gi, "w") as f:
        f.write("\n".join(case) + "\n")
    want = ref_walk(case)
    ctx.eq(real_walk(root, parse_gitignore_file(gi, root)), want, f"files left by {case}")
    sub = os.path.join(root, "x")
    here = os.path.join(root, ".gitignore")
    shutil.copy(gi, here)
    ctx.eq([f for f in real_walk(root, parse_gitignore_file(here)) if f != ".gitignore"], want, "base folder taken from the file")
    os.unlink(here)
    if shutil.which("git"):
        env = dict(os.environ, GIT_CONFIG_NOSYSTEM="1", GIT_CONFIG_GLOBAL="/dev/null", HOME=ctx.tmp())
        subprocess.run(["git", "init", "-q", root], check=True, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        shutil.copy(gi, os.path.join(root, ".git", "info", "exclude"))
        r = subprocess.run(["git", "-C", root, "ls-files", "-o", "-z", "--exclude-standard"], env=env, stdout=subprocess.PIPE, check=True)
        git = sorted(x for x in r.stdout.decode().split("\0") if x)
        if git != want:
            raise RuntimeError(f"the reference model disagrees with git on {case}: {want} / git {git}")
        ctx.step()
    ctx.state(tuple(case))


# -- characters: escapes, brackets and spaces ------------------------------------------------------
CHARS = ["a", "b", " ", "[", "]", "!", "^", "-", "\\", "*", "?", "#", "/"]
ODD = ["a ", "a", "b", "a  ", "[", "]", "-", "^", "a[", "a]", "[a]", "a*", "ab", "*", "a\\", "\\", "?", "a?", "!", "#", "a#b", " a", "a b", "[]", "!a", "-b",
       "d/a", "d/b", "d/ ", "d/[", "d/e/a", "a^", "^b", "\\a", "[ab]", "aa", "bb", "a\nb", "a\n"]


def gen_chars(tier):
    n = 4 if tier == "quick" else 5
    yield [[], 1]
    for t in itertools.product(CHARS, repeat=2):
        yield [list(t), n - 2]


def run_chars(case, ctx):
    from edk2toollib.gitignore_parser import parse_gitignore_lines

    pre, more = case
    root = "/nonexistent_root_for_gitignore/r"
    entries = entries_of(ODD)
    git = shutil.which("git")
    if git:
        real = os.path.join(os.path.realpath(ctx.tmp()), "r")
        for f in ODD:
            os.makedirs(os.path.dirname(os.path.join(real, f)), exist_ok=True)
            open(os.path.join(real, f), "w").close()
        env = dict(os.environ, GIT_CONFIG_NOSYSTEM="1", GIT_CONFIG_GLOBAL="/dev/null", HOME=ctx.tmp())
        subprocess.run([git, "init", "-q", real], check=True, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    n = 0
    for k in range(more + 1):
        for t in itertools.product(CHARS, repeat=k):
            p = "".join(pre + list(t))
            bare = p.strip(" ")
            # "**" only as a whole component; "//" names nothing; folders are matched by patterns ending in "/"
            if "//" in p or any("**" in c and c != "**" for c in bare.lstrip("!").split("/")) or (bare.endswith("/") and any("**" in c for c in bare.split("/"))):
                continue
            if any("[" in c and "]" not in c for c in p.split("/")[:-1]) and "]" in p:
                continue  # a bracket across a "/"
            r = parse(p)
            if r and r[1] and any(decide([(False, False, r[2], r[3])], f, False) for f in ODD):
                continue
            if r and r[1] and p.rstrip(" ").endswith("\\/"):
                continue  # an escaped "/" at the end
            want = walk(entries, lambda rel, isdir: decide([r] if r else [], rel, isdir))
            ignore = parse_gitignore_lines([p + "\n"], root + "/.gitignore", root)
            got = walk(entries, lambda rel, isdir: bool(ignore(root + "/" + rel)))
            n += 1
            if git and k <= 1:
                with open(os.path.join(real, ".git", "info", "exclude"), "w") as f:
                    f.write(p + "\n")
                o = subprocess.run([git, "-C", real, "ls-files", "-o", "-z", "--exclude-standard"], env=env, stdout=subprocess.PIPE, check=True).stdout.decode()
                if sorted(x for x in o.split("\0") if x) != want:
                    raise RuntimeError(f"the reference model disagrees with git on {p!r}: {sorted(set(o.split(chr(0))) ^ set(want))}")
            if got != want:
                ctx.fail(f"pattern {p!r} ignores {sorted(set(ODD) - set(got))}, expected {sorted(set(ODD) - set(want))}")
            ctx.state(tuple(want))
    ctx.step(n)


# -- sizes: number of rules, depth of paths, length of components ----------------------------------------


def gen_sizes(tier):
    for n in counts(tier, 300, 1):
        for what in ("rules", "last", "depth", "anchored", "name", "stars"):
            if n <= {"stars": 40, "depth": 65, "anchored": 65}.get(what, 300):
                yield [what, n]


def run_sizes(case, ctx):
    from edk2toollib.gitignore_parser import parse_gitignore_lines

    what, n = case
    root = "/nonexistent_root_for_gitignore/r"
    if what == "rules":
        lines = [f"f{i}.c" for i in range(n)]
        paths = [f"f{i}.c" for i in range(n + 1)] + [f"s/f{n - 1}.c", f"s/f{n}.c"]
    elif what == "last":  # the last of many contradicting rules decides
        lines = ["*.c" if i % 2 else "!*.c" for i in range(n)]
        paths = ["a.c", "s/a.c", "a.h"]
    elif what == "depth":
        d = "/".join(["d"] * n)
        lines = ["k.c", "/top.c", "x/**/y.c"]
        paths = [f"{d}/k.c", f"{d}/top.c", "top.c", f"x/{d}/y.c", f"x/{d}/z.c", f"{d}/x/y.c"]
    elif what == "anchored":
        d = "/".join(f"d{i}" for i in range(n))
        lines = [d + "/k.c", d + "/sub/"]
        paths = [f"{d}/k.c", f"{d}/sub/k.c", f"s/{d}/k.c", f"{d}/k.h", d.rpartition("/")[0] + "/k.c" if n > 1 else "k.c"]
    elif what == "name":
        m = min(n, 250)
        lines = ["a" * m + ".c", "b" * (m - 1) + "?.c", "[c]" * m + ".c", "/e" + "e" * m]
        paths = [x for k in (m - 1, m, m + 1) for c in "abc" for x in (c * k + ".c", "s/" + c * k + ".c")] + ["e" * m, "e" * (m + 1), "s/" + "e" * (m + 1)]
    else:
        k = min(n, 6)
        lines = ["*".join("ab"[i % 2] for i in range(k)) + ".c"]
        paths = ["".join("ab"[i % 2] for i in range(k)) + ".c", "x".join("ab"[i % 2] for i in range(k)) + ".c",
                 "y" * n + "".join("ab"[i % 2] for i in range(k)) + ".c", "x".join("ab"[i % 2] for i in range(k - 1)) + ".c"]
    ignore = parse_gitignore_lines(lines, root + "/.gitignore", root)
    entries = entries_of(sorted(set(paths)))
    rules = [r for r in map(parse, lines) if r]
    limit = sys.getrecursionlimit()
    sys.setrecursionlimit(20000)  # for the reference
    try:
        want = walk(entries, lambda rel, isdir: decide(rules, rel, isdir))
    finally:
        sys.setrecursionlimit(limit)
    got = walk(entries, lambda rel, isdir: ignore(root + "/" + rel))
    ctx.eq(got, want, f"files left by {len(lines)} rules such as {lines[-1][:40]!r} ({what} {n})")
    ctx.state(tuple(case))


SUITES = [
    Suite("sizes", gen_sizes, run_sizes, "number of rules, depth of paths, length of names", "counts up to 24 and edges to 300"),
    Suite("characters", gen_chars, run_chars, "patterns of escapes, brackets, spaces and wildcards on 39 files", {"quick": "<=4 of 13 characters, <=3 validated against git", "thorough": "<=5 of 13 characters, <=3 validated against git"}),
    Suite("lines", gen_lines, run, "lists of ignore lines on a tree of 17 files", "48 lines, <=2, reduced 3"),
    Suite("patterns", gen_pat, run, "all patterns over 8 tokens", {"quick": "<=4 tokens", "thorough": "<=5 tokens"}),
    Suite("files", gen_files, run_files, "real files and walks; reference validated against git", "96 lists"),
]
ASSUMPTIONS = [
    "'**' only as a whole path component; a pattern ending in '/' does not meet a file of that name; folders are not "
    "re-included by a negated pattern ending in '/'"]
