"""Imports d42 (from /repo's working tree) and the harnesses with their operations routed
through symex.rt.  The source is read again on every run; nothing is cached on disk."""
import ast
import importlib
import importlib.abc
import importlib.util
import os
import sys

REPO = os.environ.get("D42_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ROOTS = {"d42": REPO, "harness": VERIF}
SKIP_CALL = {"super", "locals", "globals", "vars", "eval", "exec", "dir", "__import__"}
_CODE = {}
SOURCES = {}


def _name(n):
    return ast.Name(id=n, ctx=ast.Load())


class Rewriter(ast.NodeTransformer):
    def visit_Call(self, node):
        self.generic_visit(node)
        if isinstance(node.func, ast.Name) and (node.func.id in SKIP_CALL or node.func.id.startswith("__rt_")):
            return node
        return ast.copy_location(
            ast.Call(func=_name("__rt_call__"), args=[node.func] + node.args,
                     keywords=node.keywords), node)

    _OPS = {ast.Is: "__rt_is__", ast.IsNot: "__rt_is_not__",
            ast.In: "__rt_in__", ast.NotIn: "__rt_not_in__"}

    def visit_Compare(self, node):
        self.generic_visit(node)
        if not any(type(op) in self._OPS for op in node.ops):
            return node
        if len(node.ops) == 1:
            return ast.copy_location(_call(self._OPS[type(node.ops[0])], node.left, node.comparators[0]), node)
        args = [node.left]
        for op, x in zip(node.ops, node.comparators):
            args += [ast.Constant(type(op).__name__), _thunk(x)]
        return ast.copy_location(_call("__rt_chain__", *args), node)

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load):
            idx = node.slice
            if isinstance(idx, ast.Slice):
                parts = [x if x is not None else ast.Constant(None)
                         for x in (idx.lower, idx.upper, idx.step)]
                idx = ast.copy_location(
                    ast.Call(func=_name("__rt_slice__"), args=parts, keywords=[]), node)
            elif isinstance(idx, ast.Tuple) and any(isinstance(x, (ast.Slice, ast.Starred))
                                                    for x in idx.elts):
                return node
            return ast.copy_location(
                ast.Call(func=_name("__rt_getitem__"), args=[node.value, idx], keywords=[]), node)
        return node

    # ---- stores
    def fresh(self):
        self.n = getattr(self, "n", 0) + 1
        return f"_rt_t{self.n}"

    def store(self, target, after):
        """The target with its subscripts replaced by names; `after` assigns them."""
        if isinstance(target, ast.Subscript):
            if isinstance(target.slice, (ast.Slice, ast.Tuple)) and self.sliced(target.slice):
                return target
            n = self.fresh()
            after.append(ast.Expr(_call("__rt_setitem__", _name(n), target.value, target.slice)))
            return ast.Name(id=n, ctx=ast.Store())
        if isinstance(target, (ast.Tuple, ast.List)):
            target.elts = [self.store(x, after) for x in target.elts]
        elif isinstance(target, ast.Starred):
            target.value = self.store(target.value, after)
        return target

    @staticmethod
    def sliced(x):
        return isinstance(x, ast.Slice) or isinstance(x, ast.Tuple) and \
            any(isinstance(y, (ast.Slice, ast.Starred)) for y in x.elts)

    def visit_Assign(self, node):
        self.generic_visit(node)
        if len(node.targets) == 1 and isinstance(node.targets[0], ast.Subscript) \
                and not self.sliced(node.targets[0].slice):
            t = node.targets[0]
            return ast.copy_location(ast.Expr(_call("__rt_setitem__", node.value, t.value, t.slice)), node)
        if not any(isinstance(x, ast.Subscript) for t in node.targets for x in ast.walk(t)):
            return node
        n = self.fresh()
        out = [ast.Assign(targets=[ast.Name(id=n, ctx=ast.Store())], value=node.value)]
        for t in node.targets:
            after = []
            out.append(ast.Assign(targets=[self.store(t, after)], value=_name(n)))
            out += after
        return [ast.copy_location(x, node) for x in out]

    def visit_AnnAssign(self, node):
        if isinstance(node.target, ast.Subscript) and node.value is not None:
            return self.visit_Assign(ast.copy_location(ast.Assign(targets=[node.target], value=node.value), node))
        self.generic_visit(node)
        return node

    def visit_AugAssign(self, node):
        self.generic_visit(node)
        if isinstance(node.target, ast.Subscript) and not self.sliced(node.target.slice):
            t = node.target
            return ast.copy_location(ast.Expr(_call(
                "__rt_augitem__", t.value, t.slice, ast.Constant(type(node.op).__name__), node.value)), node)
        return node

    def visit_Delete(self, node):
        self.generic_visit(node)
        out = []
        for t in node.targets:
            if isinstance(t, ast.Subscript) and not self.sliced(t.slice):
                out.append(ast.Expr(_call("__rt_delitem__", t.value, t.slice)))
            else:
                out.append(ast.Delete(targets=[t]))
        return [ast.copy_location(x, node) for x in out]

    def visit_For(self, node):
        self.generic_visit(node)
        after = []
        node.target = self.store(node.target, after)
        node.body = after + node.body
        return node

    # ---- displays with computed keys
    def visit_Dict(self, node):
        self.generic_visit(node)
        if all(isinstance(k, ast.Constant) for k in node.keys):
            return node
        pairs = [ast.Tuple(elts=[_name("__rt_star__") if k is None else k, v], ctx=ast.Load())
                 for k, v in zip(node.keys, node.values)]
        return ast.copy_location(_call("__rt_mkdict__", ast.List(elts=pairs, ctx=ast.Load())), node)

    def visit_DictComp(self, node):
        self.generic_visit(node)
        pair = ast.Tuple(elts=[node.key, node.value], ctx=ast.Load())
        return ast.copy_location(_call("__rt_mkdict__", ast.ListComp(elt=pair, generators=node.generators)), node)

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, (ast.Mod, ast.BitOr)):
            return ast.copy_location(_call("__rt_mod__" if isinstance(node.op, ast.Mod) else "__rt_or__",
                                           node.left, node.right), node)
        return node

    def visit_JoinedStr(self, node):
        parts = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                val = self.visit(v.value)
                spec = ast.Constant(None) if v.format_spec is None else \
                    self.visit_JoinedStr(v.format_spec)
                parts.append(ast.Tuple(elts=[val, ast.Constant(v.conversion), spec],
                                       ctx=ast.Load()))
        return ast.copy_location(
            ast.Call(func=_name("__rt_fstr__"), args=parts, keywords=[]), node)

    def visit_Set(self, node):
        self.generic_visit(node)
        return ast.copy_location(ast.Call(
            func=_name("__rt_mkset__"),
            args=[ast.List(elts=node.elts, ctx=ast.Load())], keywords=[]), node)

    def visit_SetComp(self, node):
        self.generic_visit(node)
        return ast.copy_location(ast.Call(
            func=_name("__rt_mkset__"),
            args=[ast.ListComp(elt=node.elt, generators=node.generators)], keywords=[]), node)

    # ---- match: a chain of ifs
    def visit_Match(self, node):
        m = self.fresh()
        out = [ast.Assign(targets=[ast.Name(id=m, ctx=ast.Store())], value=node.subject)]
        chain = None
        for case in reversed(node.cases):
            test = self.pattern(case.pattern, _name(m))
            if case.guard is not None:
                test = _and(test, case.guard)
            chain = ast.If(test=test, body=case.body, orelse=[chain] if chain else [])
        out.append(chain)
        out = [ast.fix_missing_locations(ast.copy_location(x, node)) for x in out]
        res = []
        for x in out:
            x = self.visit(x)
            res += x if isinstance(x, list) else [x]
        return res

    def bind(self, name, x):
        return _call("__rt_true__", ast.NamedExpr(target=ast.Name(id=name, ctx=ast.Store()), value=x))

    def pattern(self, p, x):
        """The test that the pattern matches the expression, which binds its names."""
        t = type(p)
        if t is ast.MatchValue:
            return ast.Compare(left=x, ops=[ast.Eq()], comparators=[p.value])
        if t is ast.MatchSingleton:
            return ast.Compare(left=x, ops=[ast.Is()], comparators=[ast.Constant(p.value)])
        if t is ast.MatchOr:
            return ast.BoolOp(op=ast.Or(), values=[self.pattern(q, x) for q in p.patterns])
        if t is ast.MatchAs:
            tests = [] if p.pattern is None else [self.pattern(p.pattern, x)]
            return _and(*tests, *([self.bind(p.name, x)] if p.name else []))
        if t is ast.MatchSequence:
            star = [i for i, q in enumerate(p.patterns) if type(q) is ast.MatchStar]
            n = len(p.patterns) - len(star)
            tests = [_call("__rt_mseq__", x, ast.Constant(n), ast.Constant(bool(star)))]
            for i, q in enumerate(p.patterns):
                if type(q) is ast.MatchStar:
                    if q.name:
                        tests.append(self.bind(q.name, _call("__rt_mrest__", x, ast.Constant(i), ast.Constant(n - i))))
                else:
                    at = i if not star or i < star[0] else i - len(p.patterns)
                    tests.append(self.pattern(q, _sub(x, ast.Constant(at))))
            return _and(*tests)
        if t is ast.MatchMapping:
            tests = [_call("__rt_mmap__", x)]
            for k, q in zip(p.keys, p.patterns):
                tests.append(ast.Compare(left=k, ops=[ast.In()], comparators=[x]))
                tests.append(self.pattern(q, _sub(x, k)))
            if p.rest:
                keys = ast.Tuple(elts=list(p.keys), ctx=ast.Load())
                tests.append(self.bind(p.rest, _call("__rt_mothers__", x, keys)))
            return _and(*tests)
        if t is ast.MatchClass:
            tests = [_call("__rt_isinstance__", x, p.cls)]
            for i, q in enumerate(p.patterns):
                tests.append(self.pattern(q, _call("__rt_mpos__", x, p.cls, ast.Constant(i))))
            for a, q in zip(p.kwd_attrs, p.kwd_patterns):
                tests.append(_call("hasattr", x, ast.Constant(a)))
                tests.append(self.pattern(q, ast.Attribute(value=x, attr=a, ctx=ast.Load())))
            return _and(*tests)
        raise NotImplementedError(t)


def _call(f, *args):
    return ast.Call(func=_name(f), args=list(args), keywords=[])


def _thunk(x):
    return ast.Lambda(args=ast.arguments(posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[], defaults=[]), body=x)


def _sub(x, i):
    return ast.Subscript(value=x, slice=i, ctx=ast.Load())


def _and(*tests):
    if not tests:
        return ast.Constant(True)
    return tests[0] if len(tests) == 1 else ast.BoolOp(op=ast.And(), values=list(tests))


def code_for(path, name):
    with open(path, "rb") as f:
        src = f.read()
    SOURCES[name] = path
    hit = _CODE.get(path)
    if hit and hit[0] == src:
        return hit[1]
    tree = ast.parse(src, path)
    tree = ast.fix_missing_locations(Rewriter().visit(tree))
    code = compile(tree, path, "exec", dont_inherit=True)
    _CODE[path] = (src, code)
    return code


class _Loader(importlib.abc.Loader):
    def __init__(self, path):
        self.path = path

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        from . import rt
        g = module.__dict__
        g.update(rt.GLOBALS)
        exec(code_for(self.path, module.__name__), g)


class Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, name, path=None, target=None):
        root = name.split(".")[0]
        if root not in ROOTS:
            return None
        base = os.path.join(ROOTS[root], *name.split("."))
        init = os.path.join(base, "__init__.py")
        if os.path.isfile(init):
            return importlib.util.spec_from_file_location(
                name, init, loader=_Loader(init), submodule_search_locations=[base])
        if os.path.isfile(base + ".py"):
            return importlib.util.spec_from_file_location(name, base + ".py",
                                                          loader=_Loader(base + ".py"))
        return None


_FINDER = Finder()


def install():
    for p in ("/opt/venv/lib/python3.12/site-packages",):
        if p not in sys.path:
            sys.path.append(p)
    sys.dont_write_bytecode = True
    if _FINDER not in sys.meta_path:
        sys.meta_path.insert(0, _FINDER)


def unload():
    for n in [n for n in sys.modules if n.split(".")[0] in ROOTS]:
        del sys.modules[n]


def load(modname):
    return importlib.import_module(modname)


# ---------------------------------------------------------------- what was executed
class Coverage:
    """Functions of d42 executed symbolically, and their lines (sys.monitoring)."""
    TOOL = 4

    def __init__(self):
        self.functions = set()
        self.lines = set()
        self.root = os.path.join(REPO, "d42") + os.sep

    def start(self):
        m = sys.monitoring
        try:
            m.use_tool_id(self.TOOL, "symex")
        except ValueError:
            return
        m.register_callback(self.TOOL, m.events.PY_START, self._start)
        m.register_callback(self.TOOL, m.events.LINE, self._line)
        m.set_events(self.TOOL, m.events.PY_START | m.events.LINE)

    def _start(self, code, off):
        if code.co_filename.startswith(self.root) and code.co_name != "<module>":
            self.functions.add((code.co_filename[len(self.root):], code.co_qualname))
        return sys.monitoring.DISABLE

    def _line(self, code, line):
        if code.co_filename.startswith(self.root):
            self.lines.add((code.co_filename[len(self.root):], line))
        return sys.monitoring.DISABLE


# ---------------------------------------------------------------- module state
class StateGuard:
    """Snapshot of the mutable state reachable from the loaded d42 modules."""

    def __init__(self, modules=None):
        self.items = []
        seen = set()
        if modules is None:
            modules = sys.modules
        import types

        def walk(o, depth):
            if id(o) in seen or depth > 6:
                return
            t = type(o)
            if t in (dict, list, set):
                seen.add(id(o))
                self.items.append((o, self._snap(o)))
                for x in (list(o.values()) if t is dict else list(o)):
                    walk(x, depth + 1)
            elif t is types.FunctionType:
                if not (o.__module__ or "").startswith("d42"):
                    return
                seen.add(id(o))
                for d in (o.__defaults__ or ()):
                    walk(d, depth + 1)
                for d in (o.__kwdefaults__ or {}).values():
                    walk(d, depth + 1)
                if o.__dict__:
                    walk(o.__dict__, depth + 1)
                for c in (o.__closure__ or ()):
                    try:
                        walk(c.cell_contents, depth + 1)
                    except ValueError:
                        pass
            elif isinstance(o, type):
                if not o.__module__.startswith("d42"):
                    return
                seen.add(id(o))
                self.items.append((o, self._snap(o)))
                for x in list(o.__dict__.values()):
                    walk(x, depth + 1)
            elif t in (staticmethod, classmethod):
                walk(o.__func__, depth + 1)
            elif t is property:
                walk(o.fget, depth + 1)
            elif hasattr(o, "cache_info") and hasattr(o, "cache_clear"):
                seen.add(id(o))
                self.items.append((o, self._snap(o)))
            elif getattr(t, "__module__", "").startswith("d42"):
                seen.add(id(o))
                d = getattr(o, "__dict__", None)
                if d is not None:
                    walk(d, depth + 1)
        for n, m in list(modules.items()):
            if n == "d42" or n.startswith("d42."):
                walk({k: v for k, v in m.__dict__.items() if not k.startswith("__")}, 0)
                self.items.append((m.__dict__, self._snap(m.__dict__)))

    @staticmethod
    def _snap(o):
        t = type(o)
        if t is dict:
            return list(o.keys()), [id(v) for v in o.values()], list(o.values())
        if t is list:
            return [id(v) for v in o], list(o)
        if t is set:
            return set(o)
        if hasattr(o, "cache_info") and not isinstance(o, type):
            return o.cache_info().currsize
        d = o.__dict__
        return [(k, id(v)) for k, v in d.items() if not k.startswith("_abc_")
                and k not in ("__abstractmethods__", "__parameters__")], \
            list(d.values())

    def changed(self):
        for o, s in self.items:
            t = type(o)
            if t is dict:
                if len(o) != len(s[0]) or [id(v) for v in o.values()] != s[1]:
                    return True
            elif t is list:
                if [id(v) for v in o] != s[0]:
                    return True
            elif t is set:
                if len(o) != len(s):
                    return True
            elif isinstance(o, type):
                if [(k, id(v)) for k, v in o.__dict__.items() if not k.startswith("_abc_")
                        and k not in ("__abstractmethods__", "__parameters__")] != s[0]:
                    return True
            elif hasattr(o, "cache_info"):
                if o.cache_info().currsize != s:
                    return True
        return False


_SECOND = []


def second_copy(make, fresh=False):
    """make() in a newly imported copy of d42; the copy is used again as long as its state is
    as it was after the import."""
    if not fresh and _SECOND and not _SECOND[0][1].changed():
        return _SECOND[0][0]
    _SECOND.clear()
    old = {n: m for n, m in sys.modules.items() if n == "d42" or n.startswith("d42.")}
    for n in old:
        del sys.modules[n]
    try:
        res = make()
        if fresh:
            return res
        mods = {n: m for n, m in sys.modules.items() if n == "d42" or n.startswith("d42.")}
        _SECOND.append((res, StateGuard(mods)))
        return res
    finally:
        for n in [n for n in sys.modules if n == "d42" or n.startswith("d42.")]:
            del sys.modules[n]
        sys.modules.update(old)
