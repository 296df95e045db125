"""Runtime the instrumented code calls: symbolic-aware versions of Python operations."""
import ast
import builtins
import collections
import copy
import datetime as _dt
import functools
import itertools
import math
import operator
import random as _random
import re as _re
import re._parser
import string
import sys
import types
import uuid as _uuid
import z3
from . import core
from .values import (Sym, SymAny, SymBool, SymBytes, SymDelta, SymFloat, SymInt, SymOpaque,
                     SymStr, chars_of, ch_c, concretise, str_at, concretise_deep, deref, deref_resolve,
                     is_sym, isinstance_, mkbool, mkint, mkstr, mknot, sym_isclose, sym_join,
                     type_of, seq_eq, ch_in_ranges, mkor, mkbool_of)
from . import stubs, regexenc, pysrc

FunctionType, MethodType = types.FunctionType, types.MethodType
BuiltinType = types.BuiltinFunctionType
from types import MethodDescriptorType, MethodWrapperType, WrapperDescriptorType
_MISSING = object()


# ---------------------------------------------------------------- sets
class SymSet(Sym):
    """A set with symbolic members, or one whose iteration order is left open."""
    __slots__ = ("items", "frozen", "order")

    def __init__(self, items, frozen=False):
        self.items = []
        self.frozen = frozen
        self.order = None
        for x in items:
            self._add(x)

    def _add(self, x):
        if not isinstance_(x, Sym):
            hash(x)
        if not in_(x, self.items):
            self.items.append(x)
            self.order = None

    @property
    def __class__(self):
        return frozenset if self.frozen else set

    @property
    def c(self):
        from .values import to_concrete
        return {to_concrete(x) for x in self.items}

    def add(self, x):
        self._add(x)

    def update(self, *others):
        for o in others:
            for x in o:
                self._add(x)

    def discard(self, x):
        self.items = [y for y in self.items if not (x == y)]

    def remove(self, x):
        if not in_(x, self.items):
            raise KeyError(x)
        self.discard(x)

    def __len__(self):
        return len(self.items)

    def __bool__(self):
        return bool(self.items)

    def __iter__(self):
        return iter(list(stubs.set_order(self)))

    def pop(self):
        x = next(iter(self))
        self.items = [y for y in self.items if y is not x]
        self.order = None
        return x

    def __contains__(self, x):
        return in_(x, self.items)

    def _mk(self, items):
        return SymSet(items, self.frozen)

    def __sub__(self, o):
        o = list(o)
        return self._mk([x for x in self.items if not in_(x, o)])
    difference = __sub__

    def __rsub__(self, o):
        return SymSet([x for x in o if not in_(x, self.items)])

    def __and__(self, o):
        o = list(o)
        return self._mk([x for x in self.items if in_(x, o)])
    __rand__ = intersection = __and__

    def __or__(self, o):
        return self._mk(self.items + list(o))
    __ror__ = union = __or__

    def __xor__(self, o):
        return (self - o) | (SymSet(o) - self)
    symmetric_difference = __xor__

    def __eq__(self, o):
        o = deref_resolve(o)
        if isinstance_(o, (set, frozenset, SymSet)) or isinstance_(o, type({}.keys())):
            o = list(o)
            return len(o) == len(self.items) and all(in_(x, o) for x in self.items)
        return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not r

    def __le__(self, o):
        o = list(o)
        return all(in_(x, o) for x in self.items)
    issubset = __le__

    def __ge__(self, o):
        return all(in_(x, self.items) for x in o)
    issuperset = __ge__

    def isdisjoint(self, o):
        return not any(in_(x, self.items) for x in o)

    def copy(self):
        return self._mk(self.items)

    def __hash__(self):
        return 19


def mkset(items, frozen=False):
    items = [deref_resolve(x) for x in items]
    if any(isinstance_(x, Sym) for x in items) or stubs.open_set_order(items):
        return SymSet(items, frozen)
    return frozenset(items) if frozen else set(items)


# ---------------------------------------------------------------- operators
def is_(a, b):
    if a is b:
        return True
    ta, tb = type(a), type(b)
    if ta is SymAny or tb is SymAny:
        if ta is not SymAny:
            a, b, ta, tb = b, a, tb, ta
        if tb is SymAny:
            return a.resolve() is b.resolve()
        if not a.done:
            cls = type_of(b)
            if not a.narrow(lambda k: k.cls is cls):
                return False
        return is_(a.resolve(), b)
    if ta is SymBool or tb is SymBool:
        if ta is not SymBool:
            a, b, ta, tb = b, a, tb, ta
        if tb is bool or tb is SymBool:
            return bool(a == b)
        return False
    return False


def is_not(a, b):
    return not is_(a, b)


def str_in(x, c):
    """Symbolic string in a collection of plain strings, decided at once; None if not that."""
    if type(x) is not SymStr or len(c) < 2 or not all(type(y) is str for y in c):
        return None
    n = len(x.chars)
    ys = [y for y in c if len(y) == n]
    if not ys:
        return False
    if n == 1:
        return bool(ch_in_ranges(x.chars[0], stubs.ranges_of([ord(y) for y in ys])))
    return bool(mkor(*[mkbool_of(seq_eq(x.chars, chars_of(y))) for y in ys]))


def in_(x, c):
    c = deref_resolve(c)
    t = type(c)
    if t is str or t is SymStr:
        x = deref_resolve(x)
        if t is SymStr or type(x) is SymStr:
            return bool((SymStr(chars_of(c)) if t is str else c).contains(x))
        return x in c
    if isinstance_(c, str) and t is not SymStr and t.__contains__ is str.__contains__:
        x = deref_resolve(x)
        if type(x) is SymStr:
            return bool(SymStr([ord(y) for y in str.__str__(c)]).contains(x))
        return x in c
    if t is list or t is tuple:
        r = str_in(x, c)
        if r is not None:
            return r
        for y in c:
            if x is y or x == y:
                return True
        return False
    if t in (dict, set, frozenset) or isinstance_(c, (dict, _DKEYS)):
        x = deref_resolve(x)
        r = str_in(x, c)
        if r is not None:
            return r
        if isinstance_(x, Sym) or _has_sym(x):
            hash(x)
            for y in c:
                if x is y or x == y:
                    return True
            return False
        if not isinstance_(c, collections.UserDict) and any(isinstance_(y, Sym) for y in c):
            hash(x)
            for y in c:
                if x is y or x == y:
                    return True
            return False
        return x in c
    if isinstance_(x, SymAny) and t is range:
        return x.resolve() in c
    return x in c


_DKEYS = (type({}.keys()),)


def not_in(x, c):
    return not in_(x, c)


def _has_sym(x):
    """Symbolic parts inside a hashable."""
    t = type(x)
    if issubclass(t, Sym):
        return True
    if t is tuple or t is frozenset:
        return any(_has_sym(y) for y in x)
    if t.__name__ == "optional":
        return isinstance_(getattr(x, "_key", None), Sym)
    return False


def _find_key(d, k):
    for y in d:
        if y is k or y == k:
            return y
    return _MISSING


def _sym_keys(d, k):
    return _has_sym(k) or any(isinstance_(y, Sym) for y in d)


def getitem(o, i):
    if type(o) is SymAny:
        o = o.resolve()
    if type(i) is SymAny:
        i = i.resolve()
    t = type(o)
    if t is dict or isinstance_(o, dict):
        if _sym_keys(o, i):
            y = _find_key(o, i)
            if y is not _MISSING:
                return o[y] if t is not dict else dict.__getitem__(o, y)
            if t is dict:
                raise KeyError(i)
        return o[i]
    if t is str and isinstance_(i, SymInt):
        return str_at(chars_of(o), i)
    return o[i]


def setitem_(v, o, i):
    if type(o) is SymAny:
        o = o.resolve()
    if type(i) is SymAny:
        i = i.resolve()
    if isinstance_(o, dict) and _sym_keys(o, i):
        y = _find_key(o, i)
        if y is not _MISSING:
            i = y
    o[i] = v


def delitem(o, i):
    o, i = deref_resolve(o), deref_resolve(i)
    if isinstance_(o, dict) and _sym_keys(o, i):
        y = _find_key(o, i)
        if y is _MISSING:
            raise KeyError(i)
        i = y
    del o[i]


def augitem(o, i, op, v):
    setitem_(_AUG[op](getitem(o, i), v), o, i)


_AUG = {"Add": operator.iadd, "Sub": operator.isub, "Mult": operator.imul, "BitOr": operator.ior,
        "BitAnd": operator.iand, "BitXor": operator.ixor, "Div": operator.itruediv, "FloorDiv": operator.ifloordiv,
        "Mod": lambda a, b: mod(a, b), "Pow": operator.ipow, "LShift": operator.ilshift, "RShift": operator.irshift,
        "MatMult": operator.imatmul}
_REL = {"Eq": operator.eq, "NotEq": operator.ne, "Lt": operator.lt, "LtE": operator.le, "Gt": operator.gt,
        "GtE": operator.ge, "Is": lambda a, b: is_(a, b), "IsNot": lambda a, b: not is_(a, b),
        "In": lambda a, b: in_(a, b), "NotIn": lambda a, b: not in_(a, b)}


def chain(left, *rest):
    for i in range(0, len(rest), 2):
        right = rest[i + 1]()
        r = _REL[rest[i]](left, right)
        if i + 2 == len(rest) or not r:
            return r
        left = right


STAR = object()


def mkdict(pairs):
    out = {}
    for k, v in pairs:
        if k is STAR:
            v = deref_resolve(v)
            for x in v.keys():
                setitem_(v[x], out, x)
        elif type(k) is str or type(k) is int:
            if any(isinstance_(y, Sym) for y in out):
                setitem_(v, out, k)
            else:
                out[k] = v
        else:
            setitem_(v, out, k)
    return out


def true(x):
    return True


def mod(a, b):
    """a % b, also of text"""
    if type(a) is SymAny:
        a = a.resolve()
    if type(a) is not str:
        return (concretise(a) if type(a) is SymStr else a) % b
    b = deref_resolve(b)
    args = b if type(b) is tuple else (b,)
    if type(b) is dict or not any(isinstance_(deref_resolve(x), SymStr) for x in args):
        return a % b
    parts, n = [], 0
    for text, conv in _PERCENT.findall(a):
        parts.append(text)
        if conv == "%%":
            parts.append("%")
        elif conv in ("%s", "%r", "%a"):
            if n >= len(args):
                raise TypeError("not enough arguments for format string")
            parts.append((args[n], ord(conv[1]), None))
            n += 1
        elif conv:
            parts.append(conv % (concretise(deref_resolve(args[n])) if isinstance_(deref_resolve(args[n]), SymStr)
                                 else args[n],))
            n += 1
    if n < len(args):
        raise TypeError("not all arguments converted during string formatting")
    return fstr(*parts)


_PERCENT = _re.compile(r"([^%]*)(%[^a-zA-Z%]*[a-zA-Z%]|$)")


def str_format(s, a, k):
    parts, auto = [], 0
    f = string.Formatter()
    for text, field, spec, conv in f.parse(s):
        if text:
            parts.append(text)
        if field is None:
            continue
        if field == "" or field[0] in ".[":
            field, auto = f"{auto}{field}", auto + 1
        if "{" in (spec or ""):
            spec = spec.format(*a, **k)
        v, _ = f.get_field(field, a, k)
        parts.append((v, ord(conv) if conv else -1, spec or None))
    return fstr(*parts)


# ---------------------------------------------------------------- match
def m_seq(x, n, star):
    if not b_isinstance(x, collections.abc.Sequence) or b_isinstance(x, (str, bytes, bytearray)):
        return False
    m = b_len(x)
    return m >= n if star else m == n


def m_rest(x, i, j):
    x = deref_resolve(x)
    return list(x[i:len(x) - j])


def m_map(x):
    return b_isinstance(x, collections.abc.Mapping)


def m_others(x, keys):
    x = deref_resolve(x)
    return {k: v for k, v in x.items() if not in_(k, keys)}


_SELF = (bool, bytearray, bytes, dict, float, frozenset, int, list, set, str, tuple)


def m_pos(x, cls, i):
    if i == 0 and "__match_args__" not in cls.__dict__ and issubclass(cls, _SELF):
        return x
    return getattr(deref_resolve(x), cls.__match_args__[i])


def slice_(a, b, c):
    f = lambda x: x.__index__() if isinstance_(deref_resolve(x), (SymInt, SymBool)) \
        else deref_resolve(x)
    return slice(f(a), f(b), f(c))


def fstr(*parts):
    out = []
    sym = False
    for p in parts:
        if type(p) is str:
            out.append(p)
            continue
        v, conv, spec = p
        if type(v) is SymAny and v.opaque() and not spec:
            out.append(repr(v) if conv in (114, 97) else str(v))
            continue
        v = deref_resolve(v)
        if spec is not None and isinstance_(spec, SymStr):
            spec = concretise(spec)
        if conv == 114:
            v = repr(v)
        elif conv == 97:
            v = ascii(v)
        elif conv == 115:
            v = v if isinstance_(v, SymStr) else str(v)
        elif isinstance_(v, SymStr) and not spec:
            pass
        else:
            v = format(v, spec or "")
        if isinstance_(v, SymStr):
            sym = True
            if spec:
                v = format(v, spec)
        elif conv != -1 and spec:
            v = format(v, spec)
        out.append(v)
    if sym and stubs.join_fstr():
        return sym_join("", out)
    return "".join(str(x) for x in out)


# ---------------------------------------------------------------- builtins
def b_isinstance(x, cls):
    if type(x) is SymAny and not x.done:
        return x.narrow(lambda k: issubclass(k.cls, cls))
    if isinstance_(x, Sym):
        return issubclass(type_of(x), cls)
    return isinstance(x, cls)


def b_type(*a, **k):
    if len(a) == 1 and not k and isinstance_(a[0], Sym):
        if type(a[0]) is SymAny:
            return type_of(a[0].resolve())
        return type_of(a[0])
    return type(*a, **k)


def b_len(x):
    return len(deref_resolve(x))


def b_str(*a, **k):
    if len(a) == 1 and not k:
        x = deref_resolve(a[0])
        return x if isinstance_(x, SymStr) else str(x)
    return str(*[concretise(x) for x in a], **k)


def b_int(*a, **k):
    if len(a) == 1 and not k:
        x = deref_resolve(a[0])
        if isinstance_(x, SymInt):
            return x
        if isinstance_(x, SymFloat):
            return x.__trunc__()
        if isinstance_(x, SymBool):
            return mkint(z3.If(x.e, z3.IntVal(1), z3.IntVal(0)), int(x.c))
        return int(concretise(x))
    return int(*[concretise(x) for x in a], **k)


def b_float(*a):
    if len(a) == 1:
        x = deref_resolve(a[0])
        if isinstance_(x, (SymFloat, SymInt, SymBool)):
            return SymFloat.lift(x)
        return float(concretise(x))
    return float(*a)


def b_bool(*a):
    if len(a) == 1:
        x = deref_resolve(a[0])
        if isinstance_(x, SymBool):
            return x
        return bool(x)
    return bool(*a)


def b_set(*a):
    return mkset(a[0]) if a else mkset([])


def b_frozenset(*a):
    return mkset(a[0], True) if a else frozenset()


def b_chr(x):
    x = deref_resolve(x)
    if isinstance_(x, SymInt):
        if not (mkbool(z3.And(x.e >= 0, x.e <= 0x10ffff), 0 <= x.c <= 0x10ffff)):
            raise ValueError("chr() arg not in range(0x110000)")
        return SymStr([x])
    return chr(x)


def b_ord(x):
    x = deref_resolve(x)
    if isinstance_(x, SymStr):
        if len(x.chars) != 1:
            raise TypeError("ord() expected a character")
        ch = x.chars[0]
        return ch
    return ord(x)


def b_hash(x):
    f = sys._getframe(1)
    for _ in range(3):                       # a __hash__ that a dict calls must return an int
        if f is None:
            break
        if f.f_code.co_name == "__hash__":
            return hash(deref_resolve(x))
        f = f.f_back
    return stubs.hash_of(deref_resolve(x))


def b_id(x):
    return stubs.id_of(x)


def b_map(f, *its):
    return map(lambda *a: call(f, *a), *its)


def b_filter(f, it):
    return filter(None, it) if f is None else filter(lambda x: call(f, x), it)


def b_sorted(it, **k):
    if k.get("key") is not None:
        f = k["key"]
        k["key"] = lambda x: call(f, x)
    return sorted(it, **k)


def b_minmax(g):
    def h(*a, **k):
        if k.get("key") is not None:
            f = k["key"]
            k["key"] = lambda x: call(f, x)
        return g(*[deref_resolve(x) for x in a], **k)
    return h


def b_round(x, n=None):
    x, n = deref_resolve(x), deref_resolve(n)
    if isinstance_(n, SymInt):
        n = n.__index__()
    return round(x) if n is None else round(x, n)


def b_range(*a):
    return range(*[x.__index__() if isinstance_(deref_resolve(x), SymInt) else deref_resolve(x)
                   for x in a])


def b_getattr(o, n, *d):
    n = concretise(n) if isinstance_(n, Sym) else n
    return getattr(o, n, *d)


def b_divmod(a, b):
    return a // b, a % b


def m_isnan(x):
    x = deref_resolve(x)
    return False if isinstance_(x, (SymFloat, SymInt)) else math.isnan(x)


def m_isfinite(x):
    x = deref_resolve(x)
    return True if isinstance_(x, (SymFloat, SymInt)) else math.isfinite(x)


def m_copysign(x, y):
    x, y = deref_resolve(x), deref_resolve(y)
    if not isinstance_(y, Sym):
        neg = math.copysign(1.0, y) < 0
    else:
        neg = bool(y < 0)          # a symbolic float is never a negative zero
    if isinstance_(x, Sym):
        return -m_fabs(x) if neg else m_fabs(x)
    return math.copysign(x, -1.0 if neg else 1.0)


def m_fabs(x):
    x = deref_resolve(x)
    return abs(SymFloat.lift(x)) if isinstance_(x, (SymFloat, SymInt)) else math.fabs(x)


def _m(name):
    f = getattr(math, name)

    def h(x):
        x = deref_resolve(x)
        if isinstance_(x, (SymFloat, SymInt)):
            return getattr(x, f"__{name}__")()
        return f(x)
    return h


def m_isclose(a, b, *, rel_tol=1e-09, abs_tol=0.0):
    a, b = deref_resolve(a), deref_resolve(b)
    if is_sym(a) or is_sym(b) or is_sym(rel_tol) or is_sym(abs_tol):
        return sym_isclose(a, b, rel_tol, abs_tol)
    return math.isclose(a, b, rel_tol=rel_tol, abs_tol=abs_tol)


def d_timedelta(*a, **k):
    if not a and set(k) == {"days"} and isinstance_(deref_resolve(k["days"]), SymInt):
        d = deref_resolve(k["days"])
        if not mkbool(z3.And(d.e >= -999999999, d.e <= 999999999), abs(d.c) <= 999999999):
            raise OverflowError("days out of range")
        return SymDelta(d.e, d.c)
    return _dt.timedelta(*[concretise(x) for x in a], **{n: concretise(x) for n, x in k.items()})


def r_search(kind):
    f = getattr(_re, kind)

    def h(pattern, string, flags=0):
        pattern, string = deref_resolve(pattern), deref_resolve(string)
        if isinstance_(pattern, regexenc.SymPattern):
            return getattr(pattern, kind)(string)
        if isinstance_(pattern, SymStr):
            return regexenc.run_sym(kind, pattern, string, flags)
        if isinstance_(string, SymStr):
            return regexenc.run(kind, pattern, string, flags)
        return f(pattern, string, flags)
    return h


def r_compile(pattern, flags=0):
    pattern = deref_resolve(pattern)
    if isinstance_(pattern, SymStr):
        return regexenc.SymPattern(pattern, flags)
    return _re.compile(pattern, flags)


def r_all(kind):
    f = getattr(_re, kind)

    def h(pattern, *a, **k):
        pattern, a = deref_resolve(pattern), [deref_resolve(x) for x in a]
        at = 1 if kind.startswith("sub") else 0
        if isinstance_(pattern, SymStr):
            pattern = concretise(pattern, "symbolic regular expression")
        if len(a) <= at or not isinstance_(a[at], SymStr):
            if at and callable(a[0]):
                g = a[0]
                a[0] = lambda m: concretise(call(g, m))
            return f(pattern, *[concretise(x) if isinstance_(x, Sym) else x for x in a], **k)
        names = {"findall": ("flags",), "finditer": ("flags",), "split": ("count", "flags"),
                 "sub": ("count", "flags"), "subn": ("count", "flags")}[kind]
        opts = dict(zip(names, a[at + 1:]))
        opts.update({"count" if n == "maxsplit" else n: v for n, v in k.items()})
        repl = a[0] if at else None
        if at and callable(repl):
            g = repl
            repl = lambda m: call(g, m)
        return regexenc.find_all(kind, pattern, a[at], opts.get("flags", 0), repl,
                                 opts.get("count", 0))
    return h


def d_deepcopy(x, memo=None):
    return copy.deepcopy(x, memo) if memo is not None else copy.deepcopy(x)


def f_partial(f, /, *a, **k):
    return functools.partial(lambda *x, **y: call(f, *x, **y), *a, **k)


def b_dict(*a, **k):
    if not a:
        return dict(**k)
    x = deref_resolve(a[0])
    if isinstance_(x, dict):
        out = dict(x)
    elif hasattr(x, "keys"):
        out = mkdict([(y, x[y]) for y in x.keys()])
    else:
        out = mkdict([(p, q) for p, q in x])
    for n, y in k.items():
        setitem_(y, out, n)
    return out


def b_counter(*a, **k):
    if len(a) == 1 and not k and not isinstance_(deref_resolve(a[0]), dict):
        out = collections.Counter()
        for x in deref_resolve(a[0]):
            augitem(out, x, "Add", 1)
        return out
    return collections.Counter(*a, **k)


def or_(a, b):
    if type(a) is SymAny:
        a = a.resolve()
    if type(a) is dict:
        b = deref_resolve(b)
        if type(b) is dict:
            return mkdict([*a.items(), *b.items()])
    return a | b


def b_callable(x):
    return callable(deref_resolve(x))


def b_reduce(f, *a):
    return functools.reduce(lambda x, y: call(f, x, y), *a)


def with_function(g, at=0):
    def h(*a, **k):
        if len(a) > at and a[at] is not None:
            f = a[at]
            a = a[:at] + (lambda *x: call(f, *x),) + a[at + 1:]
        return g(*a, **k)
    return h


def bound(f, a, k):
    """A method of a built-in type that was looked up on the type or on a plain object."""
    name = f.__name__
    if type(f) is MethodWrapperType:
        x, rest = f.__self__, a
    else:
        x, rest = a[0] if a else None, a[1:]
        if type(x) is SymAny:
            x = x.resolve()
        if not (isinstance_(x, Sym) or type(x) is f.__objclass__):
            return f(*a, **k)
    if name == "__contains__" and len(rest) == 1:
        return in_(rest[0], x)
    if name == "__getitem__" and len(rest) == 1:
        return getitem(x, rest[0])
    if name == "__setitem__" and len(rest) == 2:
        return setitem_(rest[1], x, rest[0])
    if name == "__delitem__" and len(rest) == 1:
        return delitem(x, rest[0])
    if name == "__len__":
        return b_len(x)
    if name in _DUNDER and len(rest) == 1:
        return _DUNDER[name](x, deref_resolve(rest[0]))
    if type(f) is MethodWrapperType:
        return f(*[deref_resolve(y) for y in rest], **k)
    if f.__objclass__ is not object and name[:2] != "__":
        return call(getattr(x, name), *rest, **k)
    return f(*a, **k)


_DUNDER = {f"__{n}__": getattr(operator, n) for n in ("eq", "ne", "lt", "le", "gt", "ge", "add", "sub", "mul", "and_",
                                                      "or_", "xor", "truediv", "floordiv", "pow")}
PYFUNC = {
    _re.search: r_search("search"), _re.match: r_search("match"),
    _re.fullmatch: r_search("fullmatch"), _re.compile: r_compile,
    **{getattr(_re, n): r_all(n) for n in ("findall", "finditer", "split", "sub", "subn")},
    re._parser.parse: regexenc.sym_parse, ast.parse: pysrc.parse, ast.unparse: pysrc.unparse,
    _uuid.uuid4: lambda: stubs.uuid4(), _uuid.uuid1: lambda *a: stubs.uuid1(),
}
TYPES = {
    str: b_str, int: b_int, float: b_float, bool: b_bool, set: b_set, frozenset: b_frozenset,
    type: b_type, map: b_map, filter: b_filter, range: b_range, _dt.timedelta: d_timedelta,
    functools.partial: f_partial, dict: b_dict, collections.Counter: b_counter, itertools.starmap: with_function(itertools.starmap),
    itertools.takewhile: with_function(itertools.takewhile), itertools.dropwhile: with_function(itertools.dropwhile),
    itertools.filterfalse: with_function(itertools.filterfalse), itertools.groupby: with_function(itertools.groupby, 1),
    itertools.accumulate: with_function(itertools.accumulate, 1),
}
BUILTIN = {
    isinstance: b_isinstance, len: b_len, chr: b_chr, ord: b_ord, hash: b_hash, id: b_id,
    sorted: b_sorted, min: b_minmax(min), max: b_minmax(max), round: b_round,
    getattr: b_getattr, divmod: b_divmod, callable: b_callable, functools.reduce: b_reduce,
    operator.is_: is_, operator.is_not: is_not, operator.contains: lambda c, x: in_(x, c),
    operator.getitem: lambda o, i: getitem(o, i), operator.setitem: lambda o, i, v: setitem_(v, o, i),
    operator.delitem: lambda o, i: delitem(o, i), operator.mod: lambda a, b: mod(a, b),
    operator.concat: lambda a, b: a + b, operator.or_: lambda a, b: or_(a, b),
    math.isclose: m_isclose, math.isnan: m_isnan, math.isfinite: m_isfinite,
    math.isinf: lambda x: False if isinstance_(deref_resolve(x), (SymFloat, SymInt))
    else math.isinf(deref_resolve(x)),
    math.fabs: m_fabs, math.copysign: m_copysign, math.floor: _m("floor"), math.ceil: _m("ceil"), math.trunc: _m("trunc"),
}
NATIVE = {repr, abs, iter, next, any, all, sum, print, hasattr, setattr, delattr, callable, pow,
          format, issubclass, ascii}
NATIVE_TYPES = {list, tuple, dict, enumerate, zip, reversed, slice, super, property, object,
                staticmethod, classmethod, collections.OrderedDict, collections.defaultdict,
                collections.deque, collections.Counter, collections.ChainMap}
NATIVE_MODULES = {"itertools", "functools", "operator", "_operator", "collections",
                  "_collections", "copy", "typing", "niltype", "th", "abc", "_abc", "types",
                  "contextlib", "dataclasses", "enum", "_functools", "weakref", "ast", "_ast"}
STDLIB = set(sys.stdlib_module_names) - NATIVE_MODULES


def call(f, /, *a, **k):
    t = type(f)
    if t is FunctionType:
        h = PYFUNC.get(f)
        if h is not None:
            return h(*a, **k)
        mod = f.__module__
        if mod == "random" or mod == "secrets" or mod == "uuid":
            return stubs.random_function(f, a, k)
        if mod and mod.split(".")[0] in STDLIB and (any(isinstance_(x, (SymStr, SymBytes)) for x in a) or
                              any(isinstance_(x, (SymStr, SymBytes)) for x in k.values())):
            return f(*[concretise_deep(x, f"call of {mod}.{f.__name__}") for x in a],
                     **{n: concretise_deep(x) for n, x in k.items()})
        return f(*a, **k)
    if t is MethodType:
        if isinstance_(f.__self__, _random.Random):
            return stubs.random_method(f.__self__, f.__func__.__name__, a, k)
        return f(*a, **k)
    if t is type or issubclass(t, type):
        h = TYPES.get(f)
        if h is not None:
            return h(*a, **k)
        if f in NATIVE_TYPES or f.__module__.split(".")[0] in _OWN or \
                issubclass(f, BaseException):
            return f(*a, **k)
        if f is _random.SystemRandom or issubclass(f, _random.Random):
            return stubs.new_random(f, a, k)
        if any(isinstance_(x, Sym) for x in a) or any(isinstance_(x, Sym) for x in k.values()):
            if f.__module__ in NATIVE_MODULES:
                return f(*a, **k)
            return f(*[concretise_deep(x) for x in a],
                     **{n: concretise_deep(x) for n, x in k.items()})
        return f(*a, **k)
    if issubclass(t, BuiltinType):
        return call_builtin(f, a, k)
    if t is MethodDescriptorType or t is WrapperDescriptorType or t is MethodWrapperType:
        return bound(f, a, k)
    if t is SymAny:
        return f.resolve()(*a, **k)
    return f(*a, **k)


_OWN = {"d42", "harness", "th", "niltype", "typing"}
_REAL_RANDOM = _random.Random


_SETS = {"union", "intersection", "difference", "symmetric_difference", "issubset", "issuperset", "isdisjoint"}


def call_builtin(f, a, k):
    h = BUILTIN.get(f)
    if h is not None:
        return h(*a, **k)
    s = f.__self__
    ts = type(s)
    if ts is str:
        if f.__name__ == "join" and len(a) == 1:
            items = list(deref_resolve(a[0]))
            if any(isinstance_(x, Sym) for x in items):
                return sym_join(s, items)
            return f(items)
        if f.__name__ == "format" and (any(isinstance_(deref_resolve(x), SymStr) for x in a) or
                                       any(isinstance_(deref_resolve(x), SymStr) for x in k.values())):
            return str_format(s, a, k)
        if any(isinstance_(x, Sym) for x in a):
            a = [deref_resolve(x) for x in a]
            if any(isinstance_(x, SymStr) for x in a) and f.__name__ not in ("format",):
                return getattr(SymStr(chars_of(s)), f.__name__)(*a, **k)
            if f.__name__ != "format":
                a = [concretise(x) for x in a]
            return f(*a, **k)
        return f(*a, **k)
    if ts is dict and (a or k):
        name = f.__name__
        if name in ("get", "pop", "setdefault"):
            key = deref_resolve(a[0])
            if _sym_keys(s, key):
                y = _find_key(s, key)
                if y is _MISSING:
                    if name == "pop" and len(a) < 2:
                        raise KeyError(key)
                    d = a[1] if len(a) > 1 else None
                    if name == "setdefault":
                        dict.__setitem__(s, key, d)
                    return d
                if name == "pop":
                    return dict.pop(s, y)
                return dict.__getitem__(s, y)
            return f(key, *a[1:], **k)
        if name == "update":
            for x, v in b_dict(*a, **k).items():
                setitem_(v, s, x)
            return None
        if name == "__contains__":
            return in_(a[0], s)
        if name == "items" or name == "keys" or name == "values":
            return f()
        if name == "__getitem__":
            return getitem(s, a[0])
        return f(*a, **k)
    if s is dict and f.__name__ == "fromkeys" and a:
        return mkdict([(x, a[1] if len(a) > 1 else None) for x in deref_resolve(a[0])])
    if ts is set and a and f.__name__ in ("add", "discard", "remove"):
        x = deref_resolve(a[0])
        if _sym_keys(s, x):
            y = _find_key(s, x)
            x = x if y is _MISSING else y
        return f(x)
    if (ts is set or ts is frozenset) and a and f.__name__ in _SETS:
        others = [list(deref_resolve(x)) for x in a]
        if any(_has_sym(x) for o in others for x in o) or any(_has_sym(x) for x in s):
            r = SymSet(list(s), ts is frozenset)
            for o in others:
                r = getattr(r, f.__name__)(o)
            return r
        return f(*others)
    if isinstance_(s, _re.Pattern):
        if f.__name__ in ("search", "match", "fullmatch") and a:
            x = deref_resolve(a[0])
            if isinstance_(x, SymStr):
                if len(a) > 1 or k:
                    x = concretise(x)
                    return f(x, *a[1:], **k)
                return regexenc.run(f.__name__, s.pattern, x, s.flags)
        elif f.__name__ in ("findall", "finditer", "split", "sub", "subn"):
            return PYFUNC[getattr(_re, f.__name__)](s.pattern, *a, flags=s.flags, **k)
        return f(*[concretise(x) if isinstance_(x, Sym) else x for x in a], **k)
    if isinstance_(s, _random.Random):
        return stubs.random_method(s, f.__name__, a, k)
    if s is _dt.datetime or s is _dt.date or isinstance_(s, type) and issubclass(s, _dt.date):
        if f.__name__ in ("utcnow", "now", "today"):
            return stubs.clock(s)
    mod = f.__module__
    if mod in ("time", "posix", "os", "_random", "nt") and stubs.is_env(f):
        return stubs.env_call(f, a, k)
    if not any(isinstance_(x, Sym) for x in a) and \
            not any(isinstance_(x, Sym) for x in k.values()):
        return f(*a, **k)
    if f in NATIVE or mod in NATIVE_MODULES or ts in (list, tuple, set, dict, collections.deque):
        return f(*a, **k)
    return f(*[concretise_deep(x, f"call of {f.__name__}") for x in a],
             **{n: concretise_deep(x) for n, x in k.items()})


GLOBALS = {
    "__rt_call__": call, "__rt_is__": is_, "__rt_is_not__": is_not, "__rt_in__": in_,
    "__rt_not_in__": not_in, "__rt_getitem__": getitem, "__rt_setitem__": setitem_,
    "__rt_delitem__": delitem, "__rt_augitem__": augitem, "__rt_chain__": chain, "__rt_mkdict__": mkdict,
    "__rt_star__": STAR, "__rt_true__": true, "__rt_mseq__": m_seq, "__rt_mrest__": m_rest, "__rt_mmap__": m_map,
    "__rt_mothers__": m_others, "__rt_mpos__": m_pos, "__rt_mod__": mod, "__rt_or__": or_, "__rt_isinstance__": b_isinstance,
    "__rt_slice__": slice_, "__rt_fstr__": fstr, "__rt_mkset__": mkset,
}
