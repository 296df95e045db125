"""Nondeterministic stand-ins for the environment: random numbers, clocks, UUIDs, hash order.

A stub returns an arbitrary value limited only by the documented contract of the call.
Each draw is recorded, so that a counterexample can be replayed against unmodified d42.

In 'streams' mode (C17) a seeded generator is a function of (seed, history of calls); every
other source of entropy - unseeded generators, os.urandom, clocks, uuid4, str hashing, the
iteration order of sets, id() - stays free.
"""
import datetime as _dt
import math
import random as _random
import uuid as _uuid
import z3
from . import core
from .values import (Sym, SymBool, SymFloat, SymInt, SymOpaque, SymStr, chars_of, concretise,
                     deref, deref_resolve, is_sym, isinstance_, mkbool, mkint, mkstr, B)

NOT_SET = object()


def mode(name):
    eng = core.CUR
    return eng is not None and name in eng.modes


def join_fstr():
    return True


# ---------------------------------------------------------------- variables
def var_int(name, lo=None, hi=None, default=0, cond=None):
    """A fresh integer in [lo, hi]; lo/hi may be symbolic.  cond(term) -> extra constraint."""
    eng = core.CUR
    u = eng.fresh_name(name)
    lo_c = lo.c if isinstance_(lo, SymInt) else lo
    hi_c = hi.c if isinstance_(hi, SymInt) else hi
    if lo_c is not None and default < lo_c:
        default = lo_c
    if hi_c is not None and default > hi_c:
        default = hi_c
    c = eng.shadow_for(u, default)
    if (lo_c is not None and c < lo_c) or (hi_c is not None and c > hi_c):
        c = default
    e = z3.Int(u)
    parts = []
    if lo is not None:
        parts.append(e >= (lo.e if isinstance_(lo, SymInt) else lo))
    if hi is not None:
        parts.append(e <= (hi.e if isinstance_(hi, SymInt) else hi))
    if parts:
        eng.constrain(z3.And(parts) if len(parts) > 1 else parts[0])
    return SymInt(e, c)


def var_bool(name, default=False):
    eng = core.CUR
    u = eng.fresh_name(name)
    return SymBool(z3.Bool(u), eng.shadow_for(u, default))


def ranges_of(codes):
    codes = sorted(set(codes))
    out = []
    for x in codes:
        if out and out[-1][1] == x - 1:
            out[-1] = (out[-1][0], x)
        else:
            out.append((x, x))
    return out


def var_char(name, ranges, default=None):
    """A fresh code point within the given inclusive ranges."""
    eng = core.CUR
    u = eng.fresh_name(name)
    if default is None or not any(a <= default <= b for a, b in ranges):
        default = ranges[0][0]
    c = eng.shadow_for(u, default)
    if not any(a <= c <= b for a, b in ranges):
        c = default
    e = z3.Int(u)
    cond = z3.Or([z3.And(e >= a, e <= b) if a != b else e == a for a, b in ranges]) \
        if len(ranges) > 1 else z3.And(e >= ranges[0][0], e <= ranges[0][1])
    eng.constrain(cond)
    return SymInt(e, c)


# ---------------------------------------------------------------- random
def _rec(kind, val):
    eng = core.CUR
    eng.draws.append((kind, val))
    return val


def _key(x):
    x = deref(x)
    if isinstance_(x, (SymInt, SymFloat)):
        return ("sym", x.e.get_id(), x.x if isinstance_(x, SymFloat) else 0, x.e)
    return repr(x)


class Node:
    __slots__ = ("kids",)

    def __init__(self):
        self.kids = {}


def stream(inst):
    eng = core.CUR
    st = eng.extra.setdefault("streams", {})
    if id(inst) not in st:
        st[id(inst)] = [Node(), inst]
    return st[id(inst)]


def memo_draw(inst, name, args, fresh):
    """A draw from `inst`; in streams mode equal histories give equal results."""
    if not mode("streams"):
        return fresh()
    if isinstance_(inst, _random.SystemRandom):
        return fresh()
    s = stream(inst)
    k = (name,) + tuple(_key(a)[:3] if isinstance(_key(a), tuple) else _key(a) for a in args)
    hit = s[0].kids.get(k)
    if hit is None:
        hit = (fresh(), Node(), args)
        s[0].kids[k] = hit
    s[0] = hit[1]
    return hit[0]


def seed(inst, a):
    if mode("streams"):
        eng = core.CUR
        roots = eng.extra.setdefault("roots", {})
        k = _key(a[0]) if a else None
        if k is None or k == "None":
            stream(inst)[0] = Node()
        else:
            k = k[:3] if isinstance(k, tuple) else k
            stream(inst)[0] = roots.setdefault(k, Node())
    eng = core.CUR
    eng.draws.append(("seed", None))


def new_random(cls, a, k):
    inst = cls.__new__(cls)
    if not issubclass(cls, _random.SystemRandom):
        _random.Random.seed(inst, 0)
    eng = core.CUR
    eng.extra.setdefault("instances", []).append(inst)
    seed(inst, a)
    return inst


def _index(inst, n, tag="rand"):
    """An index below the concrete n, decided by a choice."""
    return memo_draw(inst, "index", (n,), lambda: core.CUR.choose(n, tag))


def randint(inst, a, b, rec="randint"):
    a, b = deref_resolve(a), deref_resolve(b)
    for x in (a, b):
        if not isinstance_(x, (int, SymInt)):
            if isinstance_(x, (float, SymFloat)):
                raise TypeError("'float' object cannot be interpreted as an integer")
            raise TypeError("randint arguments must be integers")
    if a > b:
        raise ValueError("empty range for randrange()")
    ac, bc = (x.c if isinstance_(x, SymInt) else int(x) for x in (a, b))
    if not is_sym(a) and not is_sym(b) and ac == bc:
        return _rec(rec, ac)
    r = memo_draw(inst, "randint", (a, b), lambda: var_int("rnd", a, b, ac))
    return _rec(rec, r)


def choice(inst, seq):
    seq = deref_resolve(seq)
    n = len(seq)
    if n == 0:
        raise IndexError("Cannot choose from an empty sequence")
    if isinstance_(seq, (str, SymStr)):
        cs = chars_of(seq)
        if mode("streams"):
            i = memo_draw(inst, "idx", (n,), lambda: var_int("idx", 0, n - 1, 0)) \
                if n > 1 else 0
            if not isinstance_(i, SymInt):
                return seq[i]
            e = None
            for j in range(n - 1, -1, -1):
                t = cs[j].e if is_sym(cs[j]) else z3.IntVal(cs[j])
                e = t if e is None else z3.If(i.e == j, t, e)
            cj = cs[i.c]
            return SymStr([SymInt(e, cj.c if is_sym(cj) else cj)])
        if not any(is_sym(x) for x in cs):
            rs = ranges_of(cs)
            ch = cs[0] if rs == [(cs[0], cs[0])] else var_char("chr", rs)
            return _rec("choice_value", mkstr([ch]))
        ts = [x.e if is_sym(x) else z3.IntVal(x) for x in cs]
        c0 = cs[0].c if is_sym(cs[0]) else cs[0]
        eng = core.CUR
        u = eng.fresh_name("chr")
        c = eng.shadow_for(u, c0)
        if not any(c == (x.c if is_sym(x) else x) for x in cs):
            c = c0
        e = z3.Int(u)
        eng.constrain(z3.Or([e == t for t in ts]) if n > 1 else e == ts[0])
        return _rec("choice_value", mkstr([SymInt(e, c)]))
    if isinstance_(seq, (dict, set, frozenset)):
        raise KeyError(0)
    if type(seq) is range and n > 8:
        k = randint(inst, 0, n - 1, "choice_index")
        return seq.start + k * seq.step
    if not mode("streams") and n == 2 and all(type(y) is bool for y in seq):
        b = var_bool("choice") if seq[0] is not seq[1] else seq[0]
        return _rec("choice_value", b)
    i = _index(inst, n)
    _rec("choice_index", i)
    return seq[i]


def rnd01(inst):
    def fresh():
        v = var_int("r01", 0, 2 ** 53 - 1, 0)
        return SymFloat(v.e, -53, v.c)
    return _rec("random", memo_draw(inst, "random", (), fresh))


def uniform(inst, a, b):
    a, b = deref_resolve(a), deref_resolve(b)
    fa, fb = SymFloat.lift(a), SymFloat.lift(b)
    if fa is None or fb is None:
        raise TypeError("uniform arguments")
    if isinstance_(fa, float) or isinstance_(fb, float):
        # infinite or nan end: a + (b - a) * random()
        x = [lambda: concretise(a) + (concretise(b) - concretise(a)) * 0.0,
             lambda: concretise(a) + (concretise(b) - concretise(a)) * 0.5]
        return _rec("uniform", x[_index(inst, 2)]())
    if not (is_sym(a) or is_sym(b)):
        if math.isinf(b - a):
            w = b - a
            return _rec("uniform", [a + w * 0.0, a + w * 0.5][_index(inst, 2)])
        if a == b:
            return _rec("uniform", a)
    if fa > fb:
        fa, fb = fb, fa

    def fresh():
        x = min(fa.x, fb.x)
        sh = lambda m, k: m << k if k >= 0 else m >> -k
        while max(sh(abs(fa.m), fa.x - x), sh(abs(fb.m), fb.x - x)) >= 2 ** 53:
            x += 1
        if x > min(fa.x, fb.x):
            # ends on different scales: the ends themselves, or a point of the coarse grid
            k = core.CUR.choose(3, "uniform end")
            if k == 0:
                return a
            if k == 1:
                return b
            lo = -((-fa.m) >> (x - fa.x)) if fa.x < x else fa.m << (fa.x - x)
            hi = fb.m >> (x - fb.x) if fb.x < x else fb.m << (fb.x - x)
            if is_sym(a) or is_sym(b) or lo > hi:
                return a
            v = var_int("uni", lo, hi, lo)
            return SymFloat(v.e, x, v.c)
        lo = SymInt(fa.e * (1 << (fa.x - x)), fa.m << (fa.x - x))
        hi = SymInt(fb.e * (1 << (fb.x - x)), fb.m << (fb.x - x))
        v = var_int("uni", lo, hi, lo.c)
        return SymFloat(v.e, x, v.c)
    return _rec("uniform", memo_draw(inst, "uniform", (fa, fb), fresh))


def shuffle(inst, x):
    x = deref_resolve(x)
    items = list(x)
    out = []
    while items:
        i = _index(inst, len(items))
        _rec("shuffle", i)
        out.append(items.pop(i))
    x[:] = out


def sample(inst, pop, k):
    items = list(deref_resolve(pop))
    k = k.__index__()
    if not 0 <= k <= len(items):
        raise ValueError("Sample larger than population or is negative")
    out = []
    for _ in range(k):
        i = _index(inst, len(items))
        _rec("sample", i)
        out.append(items.pop(i))
    return out


def random_method(inst, name, a, k):
    if name in ("randint",):
        return randint(inst, *a, **k)
    if name == "randrange":
        return randrange(inst, *a, **k)
    if name == "choice":
        return choice(inst, *a, **k)
    if name == "choices":
        return choices(inst, *a, **k)
    if name == "random":
        return rnd01(inst)
    if name == "uniform":
        return uniform(inst, *a, **k)
    if name == "shuffle":
        return shuffle(inst, *a)
    if name == "sample":
        return sample(inst, *a, **k)
    if name == "seed":
        return seed(inst, a)
    if name == "getrandbits":
        n = a[0].__index__()
        return _rec("getrandbits", memo_draw(inst, "bits", (n,),
                                             lambda: var_int("bits", 0, (1 << n) - 1, 0)))
    if name == "randbytes":
        from .values import SymBytes
        n = a[0].__index__()
        return SymBytes([randint(inst, 0, 255) for _ in range(n)])
    if name == "getstate":
        return ("state", stream(inst)[0] if mode("streams") else None)
    if name == "setstate":
        if mode("streams"):
            stream(inst)[0] = a[0][1]
        return None
    core.CUR.note_concretised("random." + name)
    return getattr(_random.Random(0), name)(*[concretise(x) for x in a], **k)


def randrange(inst, start, stop=None, step=1):
    if stop is None:
        start, stop = 0, start
    if step == 1:
        if not (start < stop):
            raise ValueError("empty range in randrange()")
        return randint(inst, start, stop - 1, "randrange")
    r = range(concretise(start), concretise(stop), concretise(step))
    if len(r) == 0:
        raise ValueError("empty range in randrange()")
    i = randint(inst, 0, len(r) - 1, "_")
    core.CUR.draws.pop()
    return _rec("randrange", r.start + i * r.step)


def choices(inst, population, weights=None, *, cum_weights=None, k=1):
    k = k.__index__()
    return [choice(inst, population) for _ in range(k)]


def random_function(f, a, k):
    """Module level functions of random / secrets / uuid written in Python."""
    sysr = core.CUR.extra.setdefault("sysrandom", _random.SystemRandom())
    n = f.__name__
    if f.__module__ == "uuid":
        return uuid4() if n == "uuid4" else f(*a, **k)
    if n in ("randbelow", "_randbelow"):
        return randint(sysr, 0, a[0] - 1)
    if n in ("token_hex", "token_urlsafe"):
        return mkstr([choice(sysr, "0123456789abcdef").chars[0] for _ in range(8)])
    return random_method(sysr, n, a, k)


# ---------------------------------------------------------------- clock, uuid, environment
def uuid4():
    v = var_int("uuid", 0, 10 ** 6, 1)
    return SymOpaque(_uuid.UUID, v.e, v.c, 4)


def uuid1():
    v = var_int("uuid", 0, 10 ** 6, 1)
    return SymOpaque(_uuid.UUID, v.e, v.c, 1)


def clock(cls):
    """A moment of the era of this software."""
    day = cls.__name__ != "datetime" and not issubclass(cls, _dt.datetime)
    us = 1 if day else 86400 * 10 ** 6
    v = var_int("today" if day else "now", _dt.date(2020, 1, 1).toordinal() * us,
                _dt.date(2100, 1, 1).toordinal() * us, _dt.date(2026, 1, 1).toordinal() * us)
    out = SymOpaque(_dt.date if day else _dt.datetime, v.e, v.c)
    core.CUR.extra.setdefault("clock", {})[v.e.get_id()] = out
    core.CUR.extra.setdefault("reads", []).append(out)
    return out


_ENV = {"time", "time_ns", "monotonic", "monotonic_ns", "perf_counter", "perf_counter_ns",
        "process_time", "urandom", "getpid", "getrandom"}


def is_env(f):
    return f.__name__ in _ENV


def env_call(f, a, k):
    n = f.__name__
    if n in ("urandom", "getrandom"):
        from .values import SymBytes
        return SymBytes([var_int("os", 0, 255, 0) for _ in range(int(a[0]))])
    v = var_int("env", 1, 10 ** 9, 1)
    return v if n.endswith("_ns") or n == "getpid" else SymFloat(v.e, 0, v.c)


# ---------------------------------------------------------------- hashing
def open_set_order(items):
    return mode("ndset") and any(type(x) not in (int, bool, float, type(None)) for x in items)


def set_order(s):
    """Sorted in process 0; sorted or reversed, the same for equal sets, in any other."""
    items = s.items
    if not mode("ndset") or len(items) < 2:
        return items
    if s.order is None:
        try:
            base = sorted(items)
        except TypeError:
            base = list(items)
        run = core.CUR.extra.get("run", 0)
        if run == 0:
            s.order = base
        else:
            memo = core.CUR.extra.setdefault("orders", {}).setdefault(run, {})
            key = None if any(is_sym(x) for x in base) else repr(base)
            rev = memo.get(key) if key else None
            if rev is None:
                rev = core.CUR.choose(2, "set order") == 0
                if key:
                    memo[key] = rev
            s.order = base[::-1] if rev else base
    return s.order


def hash_of(x):
    if not mode("ndset"):
        return hash(x)
    if type(x) in (int, bool, float, type(None)):
        return hash(x)
    memo = core.CUR.extra.setdefault("hashes", {}).setdefault(core.CUR.extra.get("run", 0), {})
    k = repr(x)
    if k not in memo:
        memo[k] = var_int("hash", -2 ** 61, 2 ** 61, 0)
    return memo[k]


def id_of(x):
    if not mode("ndset"):
        return id(x)
    return var_int("id", 1, 2 ** 40, 1)
