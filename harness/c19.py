"""C19: the v1-to-v2 migration rewrites imports and nothing else.

The modules under test are assembled from import statements and other statements; imported names,
local names, modules, comments and string literals have symbolic characters.  The trees of the
module before and after are compared.
"""
import ast
import contextlib
import importlib
import io
import keyword
import os
import shutil

from d42.migration import migrate_v1_to_v2 as M

from harness.v1names import TABLE

BOUNDS = {
    "names": "all v1 names of harness/v1names.py and every other ASCII identifier of the same lengths; "
             "one or two (quick) or three names in an import",
    "modules": "the v1 modules, and every dotted name that differs from one in up to 4 characters",
    "layouts": "up to three statements (quick) or four in every combination of FORMS, JOINTS, OTHERS",
    "text": "comments and string literals of up to 3 characters over TEXT (also line boundaries of "
            "splitlines() and characters of 1 to 4 bytes)",
}
ASSUMPTIONS = ["the parser treats characters of string literals and comments alike (ASCII punctuation, "
               "quotes and line ends aside), and identifiers too (keywords aside)",
               "the v2 counterpart of a v1 name is the object that the pinned commit imports for it"]

FIRST = ((65, 90), (95, 95), (97, 122))
REST = ((48, 57), (65, 90), (95, 95), (97, 122))
TEXT = ((97, 99), (11, 11), (28, 30), (0x85, 0x85), (0xa0, 0xff), (0x430, 0x432), (0x2028, 0x2029),
        (0x3000, 0x3001), (0x1F600, 0x1F601))


def ident(ctx, name, n):
    s = ctx.str(name + ".0", 1, 1, FIRST)
    if n > 1:
        s = s + ctx.str(name + ".1", n - 1, n - 1, REST)
    for k in keyword.kwlist:
        if len(k) == n:
            ctx.assume(s != k)
    return s


# ---------------------------------------------------------------- oracle
def counterparts():
    """TABLE, with a target replaced by another name of the same object."""
    out = {}
    for old, names in TABLE.items():
        out[old] = {}
        for n, (mod, new) in names.items():
            got = M.mapping.get(old, {}).get(n)
            if got is not None and tuple(got) != (mod, new):
                with contextlib.suppress(ImportError, AttributeError):
                    if getattr(importlib.import_module(got[0]), got[1]) is \
                            getattr(importlib.import_module(mod), new):
                        out[old][n] = tuple(got)
                        continue
            out[old][n] = (mod, new)
    return out


_CACHE = []


def table():
    if not _CACHE:
        _CACHE.append(counterparts())
    return _CACHE[0]


def look_up(tab, module, name):
    for m, names in tab.items():
        if module == m:
            for n, target in names.items():
                if name == n:
                    return target
    return None


def expected(node, tab):
    """The bindings [(module, name, local name)] of a statement to be replaced, else None."""
    if not isinstance(node, ast.ImportFrom) or node.level or node.module is None:
        return None
    out, mapped = [], False
    for a in node.names:
        t = look_up(tab, node.module, a.name)
        if t is not None:
            mapped = True
        mod, name = t if t is not None else (node.module, a.name)
        out.append((mod, name, a.asname if a.asname is not None else a.name))
    return out if mapped else None


def same_tree(a, b):
    if isinstance(a, ast.AST):
        if type(a) is not type(b):
            return False
        for f in a._fields:
            if not same_tree(getattr(a, f, None), getattr(b, f, None)):
                return False
        return True
    if isinstance(a, list):
        if not isinstance(b, list) or len(a) != len(b):
            return False
        for i in range(len(a)):
            if not same_tree(a[i], b[i]):
                return False
        return True
    if isinstance(a, str) and isinstance(b, str):
        return bool(a == b)
    return type(a) is type(b) and repr(a) == repr(b)


def same_triple(x, y):
    return bool(x[0] == y[0]) and bool(x[1] == y[1]) and bool(x[2] == y[2])


def match(want, have):
    if len(want) != len(have):
        return False
    rest = list(have)
    for w in want:
        for i in range(len(rest)):
            if same_triple(w, rest[i]):
                del rest[i]
                break
        else:
            return False
    for i in range(len(want)):                 # the last import of a name is the one that counts
        last = [w for w in want if w[2] == want[i][2]][-1]
        if not same_triple(last, [h for h in have if h[2] == want[i][2]][-1]):
            return False
    return True


def judge(ctx, source, out, tab):
    tree = ast.parse(source)
    want = [expected(node, tab) for node in tree.body]
    if out is None:
        for w in want:
            ctx.check(w is None, "an import of a v1 name is not replaced", source)
        return "nothing"
    try:
        got = ast.parse(out).body
    except SyntaxError:
        ctx.fail("the result is not valid Python", source, out)
    i = 0
    for node, w in zip(tree.body, want):
        if w is None:
            ctx.check(i < len(got) and same_tree(node, got[i]), "another statement is not preserved",
                      source, out)
            i += 1
            continue
        have = []
        while i < len(got) and len(have) < len(w) and isinstance(got[i], ast.ImportFrom) \
                and not got[i].level:
            for a in got[i].names:
                have.append((got[i].module, a.name, a.asname if a.asname is not None else a.name))
            i += 1
        ctx.check(match(w, have), "an import is not replaced by the imports of its counterparts",
                  source, out)
    ctx.check(i == len(got), "statements were added", source, out)
    return len(got)


def run(ctx, source, mapping=None, tab=None):
    try:
        ast.parse(source)
    except SyntaxError:
        ctx.reject()
    out = M.rewrite_imports(source, M.mapping if mapping is None else mapping)
    ctx.check(out is None or isinstance(out, str), "neither nothing to do nor a module", source)
    return judge(ctx, source, out, table() if tab is None else tab)


# ---------------------------------------------------------------- statements
def join_names(names, sep=", "):
    return sep.join([n if a is None else n + " as " + a for n, a in names])


FORMS = [
    lambda m, ns: "from " + m + " import " + join_names(ns),
    lambda m, ns: "from " + m + " import (" + join_names(ns) + ")",
    lambda m, ns: "from " + m + " import (\n    " + join_names(ns, ",  # one\n    ") + ",  # d\u00e9\n)",
    lambda m, ns: "from " + m + " import " + join_names(ns, ", \\\n  "),
    lambda m, ns: "from " + m + " \\\n  import\t" + join_names(ns, " ,"),
    lambda m, ns: "from  " + m + " import(" + join_names(ns) + ",)",
    lambda m, ns: "from " + m + " import (\r\n\r\n    " + join_names(ns, ",\r\n") + "\r\n)",
    lambda m, ns: "from " + " . ".join(m.split(".")) + " import (\r  " + join_names(ns, ",\r") + ")",
    lambda m, ns: "from " + m + "\\\n\timport (  # from district42 import (\n" + join_names(ns) + "\n\n)",
    lambda m, ns: "from " + m + " import (" + join_names(ns, "\x0c,\x0c") + ")",
]
JOINTS = ["\n", "; ", ";", "\r\n", "\r", "\n\n\n", "  # t\u00e9xt; from district42 import schema\n", "; \\\n",
          ";  # c\n", "\n\x0c\n", "\n# \u2028 c\n", "\n#\x0c\n\x0c"]
BEFORE = ["", "#!/usr/bin/env python\n# -*- coding: utf-8 -*-\n", "\n\n", "\x0c", "\t# c\n", "\\\n", "\r\n",
          "# \x85 \x1c\n"]
AFTER = ["", "\n", "  # c", ";", "\r\n", ";\n\n\x0c", "\n#", "\r", " \\\n"]
OTHERS = [
    "x = 1", "'''d\u00f6c\nfrom district42 import schema\n'''", "if x:\n    from district42 import schema\n",
    "if x: from district42 import schema", "s = '\u00e9\u20ac\U0001f600'",
    "def f():\n\tfrom district42 import schema\n\treturn schema\n", "x = (1,\n     2)",
    "try:\n    from district42 import schema\nexcept ImportError:\n    pass\n", "from __future__ import annotations",
    "import district42, os.path as p", "from .district42 import schema", "from . import schema",
    "from district42 import *", "from district42.nothing import schema", "from d42 import schema",
    "from .. import district42", "@d\nclass A:\n  '''x'''\n  from district42 import schema\n",
    "x = '''a\x0cb\u2028c\x1c\n'''", "s = 'a\\\nb'", "f'{x!r:>{w}} {y}'", "x = u'1' b'' if 0 else 0", "pass",
    "async def g(): await h()\n", "x = 'from district42 import schema'", "from district42 import schema as t",
    "lambda: 0", "match x:\n    case 1: pass\n", "del x", "x: int = 0x10", "s = rb'\\d'", "x = 1_000 + 1e1000 - 1j",
    "from ....district42.types import schema",
]


def names(ctx, tag, spec):
    out = []
    for i, (n, a) in enumerate(spec):
        name = ident(ctx, f"{tag}n{i}", n) if isinstance(n, int) else n
        alias = None
        if a:
            alias = ident(ctx, f"{tag}a{i}", a) if isinstance(a, int) else a
        out.append((name, alias))
    return out


def h_names(ctx, cfg):
    """from <module> import <names>"""
    ns = names(ctx, "", cfg["names"])
    f = ctx.pick(FORMS, "form") if cfg.get("forms") else FORMS[0]
    return run(ctx, f(cfg["module"], ns) + "\n")


def h_module(ctx, cfg):
    """A module that may be a v1 module; some of its characters are symbolic."""
    m = cfg["module"]
    for i in cfg["at"]:
        m = m[:i] + ctx.str(f"m{i}", 1, 1, FIRST) + m[i + 1:]
    for part in m.split("."):
        for k in keyword.kwlist:
            if len(k) == len(part):
                ctx.assume(part != k)
    return run(ctx, FORMS[0](m, [(cfg["name"], None), ("other", None)]))


def statement(ctx, kind, i, cfg):
    if kind == "I":
        ns = ctx.pick([[(6, None)], [("schema", 1)], [(8, 1), (6, None)], [("schema", 6), ("Other", None)]]
                      if not cfg.get("simple") else [[(6, None)], [("schema", None), ("Other", "o")]], f"names{i}")
        return ctx.pick(FORMS, f"form{i}")(ctx.pick(["district42", "district42.types"], f"mod{i}")
                                          if not cfg.get("simple") else "district42",
                                          names(ctx, f"s{i}", ns))
    if kind == "J":
        return "from district42 import schema, Other"
    if kind == "O":
        return ctx.pick(OTHERS, f"other{i}")
    n = cfg.get("text", 2)
    t = ctx.str(f"t{i}", n, 0, TEXT)
    return ctx.pick([lambda: "s = '" + t + "'", lambda: "'''" + t + "\nfrom district42 import schema\n" + t + "'''",
                     lambda: "x = (1, # " + t + "\n'" + t + "')", lambda: "# " + t + "\npass"], f"text{i}")()


def h_layout(ctx, cfg):
    kinds = cfg["kinds"]
    src = ctx.pick(BEFORE, "before") if cfg.get("before") else ""
    for i, k in enumerate(kinds):
        if i:
            src = src + (ctx.pick(JOINTS, f"joint{i}") if cfg.get("joints", 1) else cfg["joint"])
        src = src + statement(ctx, k, i, cfg)
    src = src + (ctx.pick(AFTER, "after") if cfg.get("after") else "\n")
    return run(ctx, src)


def h_large(ctx, cfg):
    """Many statements, and many names in one import."""
    def imp(i):
        n = cfg["names"]
        at = ctx.choose(n, f"at{i}") if n < 5 else ctx.pick([0, 1, n // 2, n - 2, n - 1], f"at{i}")
        ns = [("name%d" % j, "other%d" % j if cfg["alias"] and j % 2 else None) for j in range(n)]
        ns[at] = (ident(ctx, f"n{i}", 6), ctx.pick([None, "x"], f"as{i}"))
        if n > 3 and ctx.flag(f"more{i}"):
            ns[n - 1 - at] = ("optional", ctx.pick([None, "y"], f"as2{i}"))
        return FORMS[ctx.choose(4, f"form{i}")]("district42", ns)
    filler = ["x%d = %d" % (i, i) for i in range(cfg["size"])]
    src = ctx.pick(["\n", "; ", "\r\n"], "joint").join(
        filler[:cfg["size"] // 2] + [imp(0)] + filler[cfg["size"] // 2:] + ([imp(1)] if cfg["two"] else []))
    return run(ctx, src + "\n")


SMALL = {
    "old": {"a": ("new", "a"), "bb": ("new", "cc"), "cc": ("new.sub", "bb"), "dd": ("other", "dd"), "e": ("new", "e")},
    "old.sub": {"a": ("new", "a"), "bb": ("new.sub", "b")},
    "gone": {},
}


def h_small(ctx, cfg):
    """A mapping with renamed names, with every combination of names and local names."""
    ns = names(ctx, "", cfg["names"])
    src = FORMS[0](cfg["module"], ns)
    for i, spec in enumerate(cfg.get("more", [])):
        src = src + ctx.pick(["\n", "; "], "joint") + FORMS[0](spec[0], names(ctx, f"m{i}", spec[1]))
    return run(ctx, src, SMALL, SMALL)


def h_targets(ctx, cfg):
    """Every target can be imported and is the counterpart."""
    old = ctx.pick(sorted(M.mapping), "old")
    name = ctx.pick(sorted(M.mapping[old]), "name")
    mod, new = M.mapping[old][name]
    try:
        obj = getattr(importlib.import_module(mod), new)
    except ImportError:
        ctx.fail("the module of a target cannot be imported", old, name, mod)
    except AttributeError:
        ctx.fail("a target cannot be imported", old, name, mod, new)
    if name in TABLE.get(old, {}):
        pmod, pname = TABLE[old][name]
        with contextlib.suppress(ImportError, AttributeError):
            ctx.check(obj is getattr(importlib.import_module(pmod), pname),
                      "a target is not the counterpart of the v1 name", old, name, mod, new)
    for o, ns in TABLE.items():
        for n in ns:
            ctx.check(n in M.mapping.get(o, {}), "a v1 name has no counterpart", o, n)
    return [old, name]


@contextlib.contextmanager
def scratch():
    for n in range(10 ** 6):
        d = os.path.join(os.environ.get("TMPDIR", "/tmp"), f"c19-{os.getpid()}-{n}")
        try:
            os.mkdir(d, 0o700)
            break
        except FileExistsError:
            pass
    try:
        yield d
    finally:
        shutil.rmtree(d)


def h_files(ctx, cfg):
    """The command on a directory with one to three modules."""
    files = {}
    for i in range(cfg["n"]):
        src = ctx.pick(["from district42 import schema, Other", "from district42 import schema",
                        "from district42 import Other"], f"import{i}")
        if ctx.flag(f"first{i}"):
            src = ctx.pick(OTHERS, f"other{i}") + ctx.pick(JOINTS, f"joint{i}") + src
        else:
            src = src + ctx.pick(JOINTS, f"joint{i}") + ctx.pick(OTHERS, f"other{i}")
        src += ctx.pick(["", "\n", "\r\n"], f"end{i}")
        try:
            ast.parse(src)
        except SyntaxError:
            ctx.reject()
        files[ctx.pick(["a%d.py", os.path.join("sub", "b%d.py")], f"where{i}") % i] = src
    files["broken.py"] = "from district42 import schema\ndef\n"
    with scratch() as d:
        os.mkdir(os.path.join(d, "sub"))
        for f, s in files.items():
            with open(os.path.join(d, f), "w", encoding="utf-8", newline="") as fh:
                fh.write(s)
        with contextlib.redirect_stdout(io.StringIO()):
            M.migrate_v1_to_v2(d)
        found = sorted(os.path.relpath(os.path.join(r, f), d) for r, _, fs in os.walk(d) for f in fs)
        ctx.check(found == sorted(files), "files were added or removed", found)
        for f, s in files.items():
            with open(os.path.join(d, f), encoding="utf-8", newline="") as fh:
                got = fh.read()
            if f == "broken.py":
                ctx.check(got == s, "a file that is not Python was changed", got)
            else:
                judge(ctx, s, got, table())
    return len(files)


def TASKS(tier):
    q = tier == "quick"
    b = 10 if q else 300
    out = []

    def add(fn, **cfg):
        out.append({"fn": fn, "cfg": cfg, "budget": b, "validate": 12 if q else 60})
    add("h_targets")
    for m, ns in TABLE.items():
        for n in sorted({len(x) for x in ns}):
            add("h_names", module=m, names=[(n, None)])
            add("h_names", module=m, names=[(n, n)])
            add("h_names", module=m, names=[(n, 2), (n, None)])
    for sp in ([(6, None), (6, None)], [(6, 6), (6, 6)], [(8, 8), (5, None)], [(6, 6), ("schema", None)],
               [("optional", "x"), (6, "y"), ("other", None)]):
        add("h_names", module="district42", names=sp, forms=1)
        add("h_names", module="district42.types", names=sp)
    for m in TABLE:
        name = sorted(TABLE[m])[0]
        n = len(m)
        for at in ([0], [n - 1], [n - 2, n - 1], [0, 1, 2, 3]):
            add("h_module", module=m, name=name, at=at)
        add("h_module", module=m.replace(".", "_"), name=name, at=[i for i, c in enumerate(m) if c == "."] or [1])
        add("h_module", module=m + ".x", name=name, at=[n + 1])
    for kinds in ("I", "O", "T"):
        add("h_layout", kinds=kinds, before=1, after=1)
    for kinds in ("OJ", "JO", "TJ", "JT", "JJ"):
        add("h_layout", kinds=kinds, after=1)
        add("h_layout", kinds=kinds, before=1)
    for kinds in ("OI", "IO", "II", "TI", "IT", "OJO", "JOJ", "JTJ", "TJT", "OTJ"):
        add("h_layout", kinds=kinds, simple=1, text=1 if len(kinds) > 2 else 2)
    add("h_layout", kinds="TJ", text=3, joint="; ", joints=0)
    add("h_layout", kinds="TI", text=3, joint="; ", joints=0)
    for a in ("old", "old.sub", "gone", "new"):
        for sp in ([(1, None)], [(2, None)], [(2, 2)], [(2, None), (2, None)], [(2, 2), (2, None)],
                   [(1, 1), (2, 1), (1, None)]):
            add("h_small", module=a, names=sp)
    add("h_small", module="old", names=[(2, None)], more=[("old.sub", [(2, None)])])
    add("h_small", module="old", names=[(2, 1), (1, None)], more=[("old", [(1, 2)])])
    for size, n, two in ((0, 4, 0), (0, 7, 0), (0, 26, 0), (1, 5, 1), (9, 1, 1), (47, 2, 0), (130, 1, 1),
                         (1030, 2, 0)):
        for alias in (0, 1):
            add("h_large", size=size, names=n, two=two, alias=alias)
    add("h_files", n=1)
    add("h_files", n=2)
    return out
