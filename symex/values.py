"""Symbolic values: proxies with a z3 term and a concrete shadow."""
from fractions import Fraction
import bisect
import datetime as _dt
import math
import uuid as _uuid
import z3
from . import core
from .core import Infeasible

TRUE, FALSE = z3.BoolVal(True), z3.BoolVal(False)


class Sym:
    """Base class of all proxies."""
    __slots__ = ()

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __reduce_ex__(self, proto):
        raise TypeError("symbolic values are not pickled")


def is_sym(x):
    return isinstance_(x, Sym)


_real_isinstance = isinstance


def isinstance_(x, cls):
    return issubclass(type(x), cls)


# ---------------------------------------------------------------------------- bool
class SymBool(Sym):
    __slots__ = ("e", "c")

    def __init__(self, e, c):
        self.e = e
        self.c = bool(c)

    @property
    def __class__(self):
        return bool

    def __bool__(self):
        return core.CUR.branch(self.e, self.c)

    def _force(self):
        return core.CUR.branch(self.e, self.c)

    def __eq__(self, o):
        if isinstance_(o, SymBool):
            return SymBool(self.e == o.e, self.c == o.c)
        if isinstance_(o, bool):
            return self if o else mknot(self)
        o = deref(o)
        if isinstance_(o, (int, float, SymInt, SymFloat)):
            return self.as_int() == o
        return self._force() == o

    def __ne__(self, o):
        return mknot(mkbool_of(self == o))

    def __hash__(self):
        return hash(self._force())

    def __and__(self, o):
        return mkand(self, o) if isinstance_(o, (bool, SymBool)) else int(self._force()) & o
    __rand__ = __and__

    def __or__(self, o):
        return mkor(self, o) if isinstance_(o, (bool, SymBool)) else int(self._force()) | o
    __ror__ = __or__

    def __xor__(self, o):
        return mknot(self == o)
    __rxor__ = __xor__

    def __int__(self):
        return int(self._force())

    def __index__(self):
        return int(self._force())

    def __repr__(self):
        return repr(self._force())

    def as_int(self):
        return SymInt(z3.If(self.e, z3.IntVal(1), z3.IntVal(0)), int(self.c))

    def __round__(self, n=None):
        return self.as_int()

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return getattr(self._force(), name)


def _as_int(op):
    def f(self, *a):
        return getattr(self.as_int(), op)(*a)
    f.__name__ = op
    return f


for _op in ("add", "radd", "sub", "rsub", "mul", "rmul", "floordiv", "mod", "rfloordiv", "rmod",
            "truediv", "rtruediv", "pow", "rpow", "neg", "pos", "abs", "lt", "le", "gt", "ge",
            "lshift", "rshift", "invert", "divmod", "trunc", "floor", "ceil"):
    setattr(SymBool, f"__{_op}__", _as_int(f"__{_op}__"))


def B(x):
    """(term, shadow) of a bool-like."""
    if isinstance_(x, SymBool):
        return x.e, x.c
    return (TRUE, True) if x else (FALSE, False)


def mkbool(e, c):
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return SymBool(e, c)


def mkbool_of(x):
    return x if isinstance_(x, (bool, SymBool)) else bool(x)


def mknot(x):
    if isinstance_(x, SymBool):
        return SymBool(z3.Not(x.e), not x.c)
    return not x


def mkand(*xs):
    xs = [x for x in xs if not (isinstance_(x, bool) and x)]
    if any(isinstance_(x, bool) for x in xs):
        return False
    if not xs:
        return True
    if len(xs) == 1:
        return xs[0]
    return SymBool(z3.And([x.e for x in xs]), all(x.c for x in xs))


def mkor(*xs):
    xs = [x for x in xs if not (isinstance_(x, bool) and not x)]
    if any(isinstance_(x, bool) for x in xs):
        return True
    if not xs:
        return False
    if len(xs) == 1:
        return xs[0]
    return SymBool(z3.Or([x.e for x in xs]), any(x.c for x in xs))


def mkimplies(a, b):
    return mkor(mknot(a), b)


# ---------------------------------------------------------------------------- tokens
def token(x, kind="r"):
    """Opaque text standing for repr()/str() of a symbolic value."""
    eng = core.CUR
    d = _digest_terms(x)
    for key, y in eng.tokens.items():
        if key.startswith("__sym_" + kind) and type(y) is type(x) and _digest_terms(y) == d:
            return key
    key = "__sym_%s%d__" % (kind, len(eng.tokens))
    eng.tokens[key] = x
    return key


def _digest_terms(x):
    """Equal for two values made of the same terms."""
    t = type(x)
    if t is SymStr or t is SymBytes:
        return tuple([c.e.get_id() if is_sym(c) else ("c", c) for c in
                      (x.chars if t is SymStr else x.data)])
    if t is SymInt or t is SymBool:
        return x.e.get_id()
    if t is SymFloat:
        return (x.e.get_id(), x.x)
    if t is SymOpaque:
        return (x.e.get_id(), x.kind, x.version)
    return id(x)


# ---------------------------------------------------------------------------- int
def _int_term(o):
    if isinstance_(o, SymInt):
        return o.e, o.c
    if isinstance_(o, SymBool):
        return _int_term(o.as_int())
    if isinstance_(o, bool):
        return z3.IntVal(int(o)), int(o)
    if isinstance_(o, int):
        return z3.IntVal(int(o)), int(o)
    return None


class SymInt(Sym):
    __slots__ = ("e", "c")

    def __init__(self, e, c):
        self.e = e
        self.c = c

    @property
    def __class__(self):
        return int

    # -- arithmetic
    def _bin(self, o, f, g):
        o = deref(o)
        t = _int_term(o)
        if t is None:
            return NotImplemented
        return mkint(f(self.e, t[0]), g(self.c, t[1]))

    def __add__(self, o):
        if isinstance_(deref(o), (float, SymFloat)):
            return SymFloat.lift(self) + o
        return self._bin(o, lambda a, b: a + b, lambda a, b: a + b)
    __radd__ = __add__

    def __sub__(self, o):
        if isinstance_(deref(o), (float, SymFloat)):
            return SymFloat.lift(self) - o
        return self._bin(o, lambda a, b: a - b, lambda a, b: a - b)

    def __rsub__(self, o):
        if isinstance_(deref(o), (float, SymFloat)):
            return o - SymFloat.lift(self)
        return self._bin(o, lambda a, b: b - a, lambda a, b: b - a)

    def __mul__(self, o):
        o = deref(o)
        if isinstance_(o, (str, list, tuple, bytes, SymStr)):
            return o * self.__index__()
        if isinstance_(o, (float, SymFloat)):
            return SymFloat.lift(self) * o
        return self._bin(o, lambda a, b: a * b, lambda a, b: a * b)
    __rmul__ = __mul__

    def _divmod_const(self, o):
        if isinstance_(o, int) and not isinstance_(o, bool) and o != 0:
            return o
        return None

    def __floordiv__(self, o):
        k = self._divmod_const(o)
        if k is None:
            return concretise(self) // concretise(o)
        # z3 div rounds so that the remainder is non-negative: equals floor for k > 0
        if k > 0:
            return mkint(self.e / z3.IntVal(k), self.c // k)
        return mkint((-self.e) / z3.IntVal(-k), self.c // k)

    def __mod__(self, o):
        k = self._divmod_const(o)
        if k is None or k < 0:
            return concretise(self) % concretise(o)
        return mkint(self.e % z3.IntVal(k), self.c % k)

    def __rfloordiv__(self, o):
        return o // concretise(self)

    def __rmod__(self, o):
        return o % concretise(self)

    def __truediv__(self, o):
        o = deref(o)
        if isinstance_(o, int) and o != 0:
            # int / int is correctly rounded
            num, c = (self.e, self.c) if o > 0 else (-self.e, -self.c)
            return fl(z3.simplify(num), c, abs(int(o)), 0)
        if isinstance_(o, (float, SymFloat)):
            return SymFloat.lift(self) / o
        return concretise(self) / concretise(o)

    def __rtruediv__(self, o):
        return o / concretise(self)

    def __pow__(self, o, m=None):
        return pow(concretise(self), concretise(o), m) if m is not None else \
            concretise(self) ** concretise(o)

    def __rpow__(self, o):
        # base ** symbolic: enumerate the exponent
        return o ** self.__index__()

    def __neg__(self):
        return mkint(-self.e, -self.c)

    def __pos__(self):
        return self

    def __abs__(self):
        return mkint(z3.If(self.e >= 0, self.e, -self.e), abs(self.c))

    def __round__(self, n=None):
        return self

    def __trunc__(self):
        return self
    __floor__ = __trunc__
    __ceil__ = __trunc__

    def __and__(self, o):
        return concretise(self) & concretise(o)
    __rand__ = __and__

    def __or__(self, o):
        return concretise(self) | concretise(o)
    __ror__ = __or__

    def __xor__(self, o):
        return concretise(self) ^ concretise(o)
    __rxor__ = __xor__

    def __lshift__(self, o):
        return concretise(self) << concretise(o)

    def __rshift__(self, o):
        return concretise(self) >> concretise(o)

    def __invert__(self):
        return mkint(-self.e - 1, ~self.c)

    def __divmod__(self, o):
        return self // o, self % o

    # -- comparison
    def _cmp(self, o, f, g, eq=None):
        o = deref(o)
        t = _int_term(o)
        if t is not None:
            return mkbool(f(self.e, t[0]), g(self.c, t[1]))
        if isinstance_(o, (float, SymFloat)):
            # compares exactly, whatever the size of the integer
            return SymFloat(self.e, 0, self.c)._cmp(o, f, g, eq)
        return NotImplemented

    def __eq__(self, o):
        r = self._cmp(o, lambda a, b: a == b, lambda a, b: a == b, True)
        return r

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else mknot(r)

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b, lambda a, b: a >= b)

    def __bool__(self):
        return core.CUR.branch(self.e != 0, self.c != 0)

    def __hash__(self):
        return 7

    def __index__(self):
        return core.CUR.pick_value(self.e, self.c)

    def __int__(self):
        return core.CUR.pick_value(self.e, self.c)

    def __float__(self):
        return float(concretise(self))

    def __repr__(self):
        return token(self)

    def __str__(self):
        return token(self, "r")

    def __format__(self, spec):
        if spec == "":
            return token(self, "r")
        return format(concretise(self), spec)

    def bit_length(self):
        return concretise(self).bit_length()

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return getattr(concretise(self), name)


def mkint(e, c):
    if z3.is_int_value(e):
        return e.as_long()
    return SymInt(e, c)


# ---------------------------------------------------------------------------- float
#
# A finite double is m * 2**e with e a concrete exponent and m an Int term, |m| < 2**53.
# Every operation with a constant operand (and + - between two symbolic floats) is encoded
# exactly: the real result is a linear integer term over a power-of-two / constant divisor,
# and IEEE round-half-even at 53 bits is integer div/mod by a constant after the bit length
# of the result has been decided by branching.
P53 = 2 ** 53
EMIN = -1074


def _pw(e):
    return z3.IntVal(1 << e)


def _iabs(e):
    return z3.If(e >= 0, e, -e)


def _rne_div(e, c, k):
    """(term, value) of round-half-even(e / k), k a positive int constant."""
    if k == 1:
        return e, c
    kk = z3.IntVal(k)
    q, r = e / kk, e % kk
    qc, rc = c // k, c % k
    if k == 2:
        up = z3.And(r == 1, q % 2 == 1)
    elif k % 2:
        up = 2 * r > kk
    else:
        up = z3.Or(2 * r > kk, z3.And(2 * r == kk, q % 2 == 1))
    upc = 2 * rc > k or (2 * rc == k and qc % 2 == 1)
    return z3.If(up, q + 1, q), (qc + 1 if upc else qc)


def _bitlen_at_most(e, c, n):
    """Branch: |e| < 2**n."""
    lim = z3.IntVal(1 << n)
    return core.CUR.branch(z3.And(e < lim, -lim < e), abs(c) < (1 << n))


def fl(num, numc, den, exp):
    """The double nearest to (num / den) * 2**exp; num Int term, den > 0 constant."""
    if z3.is_int_value(num):
        return _fl_const(num.as_long(), den, exp)
    while den % 2 == 0:
        den //= 2
        exp -= 1
    if den == 1:
        t = 0
        if exp >= EMIN and _bitlen_at_most(num, numc, 53):
            return SymFloat(num, exp, numc)
    else:
        # scale so that the quotient has at least 53 bits whenever num is not tiny
        if core.CUR.branch(num == 0, numc == 0):
            return 0.0
        t = 54 + den.bit_length()
    # value = (num * 2**t / den) * 2**(exp - t); split on the bit length n of the quotient
    a = _iabs(num)
    big = a * (1 << t) if t else a
    shadow_n = ((abs(numc) << t) // den).bit_length()
    n = core.CUR.pick_case(
        lambda k: z3.And(big >= z3.IntVal(den << (k - 1) if k > 0 else 0),
                         big < z3.IntVal(den << k)), shadow_n, what="bit length")
    s = max(n - 53, 0)
    e2 = exp - t + s
    if e2 < EMIN:
        s += EMIN - e2
        e2 = EMIN
    e, c = _rne_div(num * (1 << t) if t else num, numc << t, den << s)
    if e2 + 53 > 1024:
        lim = 1 << max(1024 - e2, 0)
        if core.CUR.branch(z3.Or(e >= z3.IntVal(lim), e <= z3.IntVal(-lim)), abs(c) >= lim):
            return math.inf if core.CUR.branch(e > 0, c > 0) else -math.inf
    return SymFloat(e, e2, c)


def _fl_const(num, den, exp):
    q = Fraction(num, den) * (Fraction(2) ** exp)
    try:
        return q.numerator / q.denominator
    except OverflowError:
        return math.inf if q > 0 else -math.inf


def _parts(x):
    """Finite float/int constant -> (mantissa, exponent)."""
    if isinstance_(x, int):
        x = float(x)
    m, e = math.frexp(x)
    m = int(m * P53)
    e -= 53
    if m == 0:
        return 0, 0
    while m % 2 == 0:
        m //= 2
        e += 1
    return m, e


class SymFloat(Sym):
    """m * 2**e; never nan or infinite, zero has no sign."""
    __slots__ = ("e", "x", "m", "tag")

    def __init__(self, term, exp, mc, tag=None):
        self.e = term
        self.x = exp
        self.m = mc

    @property
    def c(self):
        return math.ldexp(self.m, self.x)

    @property
    def __class__(self):
        return float

    @staticmethod
    def lift(o):
        """-> SymFloat, or the float constant itself when it is not finite, or None."""
        o = deref(o)
        if isinstance_(o, SymFloat):
            return o
        if isinstance_(o, SymBool):
            o = o.as_int()
        if isinstance_(o, SymInt):
            r = fl(o.e, o.c, 1, 0)
            return r if isinstance_(r, SymFloat) else SymFloat.lift(r)
        if isinstance_(o, int):
            o = float(o)
        if isinstance_(o, float):
            if math.isnan(o) or math.isinf(o):
                return o
            m, e = _parts(o)
            return SymFloat(z3.IntVal(m), e, m)
        return None

    # comparisons are exact (Python compares int and float exactly)
    def _cmp(self, o, f, g, eq=None):
        o = deref(o)
        if isinstance_(o, SymBool):
            o = o.as_int()
        if isinstance_(o, float) and (math.isnan(o) or math.isinf(o)):
            return g(self.c, o)
        if isinstance_(o, SymFloat):
            be, bx, bc = o.e, o.x, o.m
        elif isinstance_(o, SymInt):
            be, bx, bc = o.e, 0, o.c
        elif isinstance_(o, int):
            be, bx, bc = z3.IntVal(int(o)), 0, int(o)
        elif isinstance_(o, float):
            m, bx = _parts(o)
            be, bc = z3.IntVal(m), m
        else:
            return NotImplemented
        ae, ac, ax = self.e, self.m, self.x
        if ax > bx:
            ae, ac = ae * (1 << (ax - bx)), ac << (ax - bx)
        elif bx > ax:
            be, bc = be * (1 << (bx - ax)), bc << (bx - ax)
        return mkbool(z3.simplify(f(ae, be)) if z3.is_int_value(ae) else f(ae, be), g(ac, bc))

    def __hash__(self):
        return 7

    def __eq__(self, o):
        return self._cmp(o, lambda a, b: a == b, lambda a, b: a == b, True)

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else mknot(r)

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b, lambda a, b: a >= b)

    def __bool__(self):
        return core.CUR.branch(self.e != 0, self.m != 0)

    def _addsub(self, o, sign, rev):
        b = SymFloat.lift(o)
        if b is None:
            return NotImplemented
        if isinstance_(b, float):
            return (b + sign * self.c) if rev else (self.c + sign * b)
        a = self
        if rev:
            a, b = b, a
        x = min(a.x, b.x)
        ea, ca = (a.e * (1 << (a.x - x)), a.m << (a.x - x)) if a.x > x else (a.e, a.m)
        eb, cb = (b.e * (1 << (b.x - x)), b.m << (b.x - x)) if b.x > x else (b.e, b.m)
        if sign > 0:
            return fl(z3.simplify(ea + eb), ca + cb, 1, x)
        return fl(z3.simplify(ea - eb), ca - cb, 1, x)

    def __add__(self, o):
        return self._addsub(o, 1, False)
    __radd__ = __add__

    def __sub__(self, o):
        return self._addsub(o, -1, False)

    def __rsub__(self, o):
        return self._addsub(o, -1, True)

    def __mul__(self, o):
        b = SymFloat.lift(o)
        if b is None:
            return NotImplemented
        if isinstance_(b, float):
            return (1.0 if self > 0 else -1.0 if self < 0 else 0.0) * b
        if not z3.is_int_value(b.e) and not z3.is_int_value(self.e):
            return concretise(self) * concretise(o)
        return fl(z3.simplify(self.e * b.e), self.m * b.m, 1, self.x + b.x)
    __rmul__ = __mul__

    def __truediv__(self, o):
        b = SymFloat.lift(o)
        if b is None:
            return NotImplemented
        if isinstance_(b, float):
            return (1.0 if self >= 0 else -1.0) / b
        if not z3.is_int_value(b.e):
            return concretise(self) / concretise(o)
        k = b.e.as_long()
        if k == 0:
            raise ZeroDivisionError("float division by zero")
        num, c = (self.e, self.m) if k > 0 else (-self.e, -self.m)
        return fl(z3.simplify(num), c, abs(k), self.x - b.x)

    def __rtruediv__(self, o):
        return o / concretise(self)

    def __floordiv__(self, o):
        return concretise(self) // concretise(o)

    def __mod__(self, o):
        return concretise(self) % concretise(o)

    def __pow__(self, o):
        return concretise(self) ** concretise(o)

    def __rpow__(self, o):
        return o ** concretise(self)

    def __neg__(self):
        return SymFloat(z3.simplify(-self.e), self.x, -self.m)

    def __pos__(self):
        return self

    def __abs__(self):
        return SymFloat(_iabs(self.e), self.x, abs(self.m))

    def _to_int(self, how):
        if self.x >= 0:
            return mkint(self.e * (1 << self.x), self.m << self.x)
        k = 1 << -self.x
        if how == "round":
            e, c = _rne_div(self.e, self.m, k)
        elif how == "floor":
            e, c = self.e / z3.IntVal(k), self.m // k
        elif how == "ceil":
            e, c = -((-self.e) / z3.IntVal(k)), -((-self.m) // k)
        else:
            kk = z3.IntVal(k)
            e = z3.If(self.e >= 0, self.e / kk, -((-self.e) / kk))
            c = self.m // k if self.m >= 0 else -((-self.m) // k)
        return mkint(z3.simplify(e), c)

    def __round__(self, n=None):
        n = deref(n)
        if n is None:
            return self._to_int("round")
        n = n.__index__() if is_sym(n) else n
        if n < 0:
            return round(concretise(self), n)
        t = 10 ** n
        if self.x >= 0:
            return self
        e, c = _rne_div(self.e * t, self.m * t, 1 << -self.x)
        return fl(z3.simplify(e), c, t, 0)

    def __trunc__(self):
        return self._to_int("trunc")

    def __floor__(self):
        return self._to_int("floor")

    def __ceil__(self):
        return self._to_int("ceil")

    def is_integer(self):
        if self.x >= 0:
            return True
        k = 1 << -self.x
        return bool(mkbool(self.e % k == 0, self.m % k == 0))

    def __int__(self):
        return int(concretise(self))

    def __float__(self):
        return concretise(self)

    def __repr__(self):
        return token(self)

    __str__ = __repr__

    def __format__(self, spec):
        return token(self) if spec == "" else format(concretise(self), spec)

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return getattr(concretise(self), name)


def sym_isclose(a, b, rel_tol=1e-09, abs_tol=0.0):
    """math.isclose, with the double arithmetic of the C implementation."""
    a, b = deref(a), deref(b)
    if is_sym(rel_tol) or is_sym(abs_tol):
        rel_tol, abs_tol = concretise(rel_tol), concretise(abs_tol)
    if rel_tol < 0 or abs_tol < 0:
        raise ValueError("tolerances must be non-negative")
    a, b = SymFloat.lift(a), SymFloat.lift(b)
    if a is None or b is None:
        raise TypeError("must be real number")
    if isinstance_(a, float) or isinstance_(b, float):
        return (a == b) if isinstance_(a, float) and isinstance_(b, float) else False
    if a == b:
        return True
    if rel_tol == 0 and abs_tol == 0:
        return False
    diff = b - a
    if isinstance_(diff, float):
        diff = SymFloat.lift(diff)
        if isinstance_(diff, float):
            return False
    diff = abs(diff)
    # fl is monotone, so diff <= fl(t) is decided exactly through fl(t)
    for x in (b, a):
        t = abs(x) * float(rel_tol)
        if diff <= t:
            return True
    return bool(diff <= float(abs_tol))


# ---------------------------------------------------------------------------- str
def ch_term(ch):
    return ch.e if isinstance_(ch, SymInt) else z3.IntVal(ch)


def ch_c(ch):
    return ch.c if isinstance_(ch, SymInt) else ch


def ch_eq(a, b):
    if isinstance_(a, int) and isinstance_(b, int) and not is_sym(a) and not is_sym(b):
        return a == b
    return mkbool(ch_term(a) == ch_term(b), ch_c(a) == ch_c(b))


def ch_in_ranges(ch, ranges):
    """ranges: list of (lo, hi) inclusive."""
    if not is_sym(ch):
        return any(lo <= ch <= hi for lo, hi in ranges)
    if not ranges:
        return False
    return mkbool(z3.Or([ch.e == lo if lo == hi else z3.And(ch.e >= lo, ch.e <= hi)
                         for lo, hi in ranges]), any(lo <= ch.c <= hi for lo, hi in ranges))


def chars_of(s):
    s = deref(s)
    if isinstance_(s, SymStr):
        return s.chars
    return [ord(x) for x in s]


def mkstr(chars):
    if any(is_sym(c) for c in chars):
        return SymStr(list(chars))
    return "".join(map(chr, chars))


def seq_eq(a, b):
    if len(a) != len(b):
        return False
    return mkand(*[ch_eq(x, y) for x, y in zip(a, b)])


class SymStr(Sym):
    """A string of fixed length with symbolic code points."""
    __slots__ = ("chars",)

    def __init__(self, chars):
        self.chars = chars

    @property
    def __class__(self):
        return str

    @property
    def c(self):
        return "".join(chr(ch_c(x)) for x in self.chars)

    def __len__(self):
        return len(self.chars)

    def __bool__(self):
        return len(self.chars) > 0

    def __iter__(self):
        for ch in self.chars:
            yield mkstr([ch])

    def __reversed__(self):
        for ch in reversed(self.chars):
            yield mkstr([ch])

    def __getitem__(self, i):
        i = deref(i)
        if isinstance_(i, slice):
            a, b, c = (x.__index__() if x is not None else None
                       for x in (deref(i.start), deref(i.stop), deref(i.step)))
            return mkstr(self.chars[slice(a, b, c)])
        if isinstance_(i, SymInt):
            return str_at(self.chars, i)
        return mkstr([self.chars[i.__index__() if is_sym(i) else i]])

    def _s(self, o):
        o = deref(o)
        if isinstance_(o, (str, SymStr)):
            return chars_of(o)
        return None

    def __add__(self, o):
        t = self._s(o)
        return NotImplemented if t is None else mkstr(self.chars + t)

    def __radd__(self, o):
        t = self._s(o)
        return NotImplemented if t is None else mkstr(t + self.chars)

    def __mul__(self, n):
        n = deref(n)
        return mkstr(self.chars * (n.__index__() if is_sym(n) else n))
    __rmul__ = __mul__

    def __mod__(self, args):
        return concretise(self) % args

    def __eq__(self, o):
        t = self._s(o)
        return NotImplemented if t is None else seq_eq(self.chars, t)

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else mknot(r)

    def _less(self, o, strict):
        t = self._s(o)
        if t is None:
            return NotImplemented
        for a, b in zip(self.chars, t):
            if not ch_eq(a, b):
                return mkbool(ch_term(a) < ch_term(b), ch_c(a) < ch_c(b))
        return len(self.chars) < len(t) if strict else len(self.chars) <= len(t)

    def __lt__(self, o):
        return self._less(o, True)

    def __le__(self, o):
        return self._less(o, False)

    def __gt__(self, o):
        r = self._less(o, False)
        return r if r is NotImplemented else mknot(r)

    def __ge__(self, o):
        r = self._less(o, True)
        return r if r is NotImplemented else mknot(r)

    def __hash__(self):
        return 11

    def contains(self, o):
        t = self._s(o)
        if t is None:
            raise TypeError("'in <string>' requires string as left operand")
        n, m = len(self.chars), len(t)
        return mkor(*[seq_eq(self.chars[i:i + m], t) for i in range(n - m + 1)])

    def __contains__(self, o):
        return bool(self.contains(o))

    def match_at(self, i, t):
        return seq_eq(self.chars[i:i + len(t)], t)

    def find(self, sub, start=0, end=None):
        t = chars_of(sub)
        if len(t) == 1 and len(self.chars) > 3 and start == 0 and end is None and is_sym(t[0]):
            i = find_char(self.chars, t[0])
            if i is not None:
                return i
        end = len(self.chars) if end is None else end
        for i in range(start, end - len(t) + 1):
            if self.match_at(i, t):
                return i
        return -1

    def rfind(self, sub, start=0, end=None):
        t = chars_of(sub)
        end = len(self.chars) if end is None else end
        for i in range(end - len(t), start - 1, -1):
            if self.match_at(i, t):
                return i
        return -1

    def index(self, sub, start=0, end=None):
        r = self.find(sub, start, end)
        if r < 0:
            raise ValueError("substring not found")
        return r

    def rindex(self, sub, start=0, end=None):
        r = self.rfind(sub, start, end)
        if r < 0:
            raise ValueError("substring not found")
        return r

    def count(self, sub):
        t = chars_of(sub)
        if not t:
            return len(self.chars) + 1
        n = i = 0
        while i + len(t) <= len(self.chars):
            if self.match_at(i, t):
                n += 1
                i += len(t)
            else:
                i += 1
        return n

    def startswith(self, p, start=0, end=None):
        if isinstance_(p, tuple):
            return any(self.startswith(x, start, end) for x in p)
        t = chars_of(p)
        ch = self.chars[start:end]
        return len(t) <= len(ch) and bool(seq_eq(ch[:len(t)], t))

    def endswith(self, p):
        if isinstance_(p, tuple):
            return any(self.endswith(x) for x in p)
        t = chars_of(p)
        return len(t) <= len(self.chars) and bool(seq_eq(self.chars[len(self.chars) - len(t):], t))

    def split(self, sep=None, maxsplit=-1):
        if sep is None:
            return [x for x in concretise(self).split(None, maxsplit)]
        t = chars_of(sep)
        if not t:
            raise ValueError("empty separator")
        out, cur, i = [], 0, 0
        while i + len(t) <= len(self.chars):
            if maxsplit >= 0 and len(out) >= maxsplit:
                break
            if self.match_at(i, t):
                out.append(mkstr(self.chars[cur:i]))
                i += len(t)
                cur = i
            else:
                i += 1
        out.append(mkstr(self.chars[cur:]))
        return out

    def rsplit(self, sep=None, maxsplit=-1):
        if sep is None:
            return concretise(self).rsplit(None, maxsplit)
        t = chars_of(sep)
        if not t:
            raise ValueError("empty separator")
        out, end, i = [], len(self.chars), len(self.chars) - len(t)
        while i >= 0:
            if maxsplit >= 0 and len(out) >= maxsplit:
                break
            if self.match_at(i, t):
                out.append(mkstr(self.chars[i + len(t):end]))
                end = i
                i -= len(t)
            else:
                i -= 1
        out.append(mkstr(self.chars[:end]))
        return out[::-1]

    def partition(self, sep):
        i = self.find(sep)
        if i < 0:
            return self, "", ""
        n = len(chars_of(sep))
        return mkstr(self.chars[:i]), sep, mkstr(self.chars[i + n:])

    def rpartition(self, sep):
        i = self.rfind(sep)
        if i < 0:
            return "", "", self
        n = len(chars_of(sep))
        return mkstr(self.chars[:i]), sep, mkstr(self.chars[i + n:])

    def replace(self, old, new, count=-1):
        t = chars_of(old)
        if not t:
            return concretise(self).replace(concretise(old), concretise(new), count)
        return sym_join(new, self.split(old, count))

    def removeprefix(self, p):
        return mkstr(self.chars[len(chars_of(p)):]) if self.startswith(p) else self

    def removesuffix(self, p):
        n = len(chars_of(p))
        return mkstr(self.chars[:len(self.chars) - n]) if n and self.endswith(p) else self

    def join(self, items):
        return sym_join(self, items)

    def encode(self, *a):
        return SymBytes.from_chars(self.chars, a)

    def splitlines(self, keepends=False):
        out, cur, i, n = [], 0, 0, len(self.chars)
        while i < n:
            ch = self.chars[i]
            if not ch_in_ranges(ch, LINE_ENDS):
                i += 1
                continue
            end = i
            if i + 1 < n and ch_in_ranges(ch, [(13, 13)]) and \
                    ch_in_ranges(self.chars[i + 1], [(10, 10)]):
                i += 1
            i += 1
            out.append(mkstr(self.chars[cur:i if keepends else end]))
            cur = i
        if cur < n:
            out.append(mkstr(self.chars[cur:]))
        return out

    def _strip(self, chars, left, right):
        t = None if chars is None else chars_of(chars)

        def drop(ch):
            return bool(ch_in_ranges(ch, SPACES) if t is None else mkor(*[ch_eq(ch, x) for x in t]))
        a, b = 0, len(self.chars)
        while left and a < b and drop(self.chars[a]):
            a += 1
        while right and a < b and drop(self.chars[b - 1]):
            b -= 1
        return mkstr(self.chars[a:b])

    def strip(self, chars=None):
        return self._strip(chars, True, True)

    def lstrip(self, chars=None):
        return self._strip(chars, True, False)

    def rstrip(self, chars=None):
        return self._strip(chars, False, True)

    def isascii(self):
        return bool(mkand(*[ch_in_ranges(x, [(0, 127)]) for x in self.chars]))

    def _mapped(self, name):
        if name in ("lower", "swapcase") and len(self.chars) > 1 and \
                bool(mkor(*[ch_in_ranges(x, [(0x3a3, 0x3a3)]) for x in self.chars])):
            return getattr(concretise(self), name)()           # depends on the neighbours
        return mkstr([y for x in self.chars for y in case_of(x, name)])

    def lower(self):
        return self._mapped("lower")

    def upper(self):
        return self._mapped("upper")

    def casefold(self):
        return self._mapped("casefold")

    def swapcase(self):
        return self._mapped("swapcase")

    def capitalize(self):
        if len(self.chars) > 1 and bool(mkor(*[ch_in_ranges(x, [(0x3a3, 0x3a3)]) for x in self.chars])):
            return concretise(self).capitalize()
        return mkstr(case_of(self.chars[0], "title") + chars_of(mkstr(self.chars[1:]).lower()))

    def _all(self, name):
        for x in self.chars:
            if not is_of(x, name):
                return False
        return len(self.chars) > 0

    def isalpha(self):
        return self._all("isalpha")

    def isalnum(self):
        return self._all("isalnum")

    def isdigit(self):
        return self._all("isdigit")

    def isdecimal(self):
        return self._all("isdecimal")

    def isnumeric(self):
        return self._all("isnumeric")

    def isspace(self):
        return self._all("isspace")

    def isprintable(self):
        return all(is_of(x, "isprintable") for x in self.chars)

    def isidentifier(self):
        for i, x in enumerate(self.chars):
            if not is_of(x, "isidentifier" if i == 0 else "continues"):
                return False
        return len(self.chars) > 0

    def _cased(self, name):
        some = False
        for x in self.chars:
            if is_of(x, name):
                some = True
            elif is_of(x, "cased"):
                return False
        return some

    def islower(self):
        return self._cased("islower")

    def isupper(self):
        return self._cased("isupper")

    def _pad(self, n, fill, left):
        n = n.__index__()
        k = max(0, n - len(self.chars))
        return mkstr((chars_of(fill) * k if left else []) + self.chars + ([] if left else chars_of(fill) * k))

    def ljust(self, n, fill=" "):
        return self._pad(n, fill, False)

    def rjust(self, n, fill=" "):
        return self._pad(n, fill, True)

    def __repr__(self):
        return token(self)

    def __str__(self):
        return token(self, "s")

    def __format__(self, spec):
        return token(self, "s") if spec == "" else format(concretise(self), spec)

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return getattr(concretise(self), name)


LINE_ENDS = [(10, 13), (0x1c, 0x1e), (0x85, 0x85), (0x2028, 0x2029)]
SPACES = [(9, 13), (0x1c, 0x20), (0x85, 0x85), (0xa0, 0xa0), (0x1680, 0x1680), (0x2000, 0x200a),
          (0x2028, 0x2029), (0x202f, 0x202f), (0x205f, 0x205f), (0x3000, 0x3000)]


PER_CHAR = {
    "continues": lambda c: ("_" + c).isidentifier(), "cased": lambda c: c.islower() or c.isupper() or c.istitle(),
}
RUNS = {}


def runs_of(name):
    """(start, what) of the runs of characters on which a method of str does the same: a shift of the
    code point, other characters, or a verdict."""
    if name not in RUNS:
        f = PER_CHAR.get(name) or getattr(str, name)
        starts, what, prev = [], [], None
        for i in range(0x110000):
            y = f(chr(i))
            y = y if type(y) is bool else ord(y) - i if len(y) == 1 else tuple(map(ord, y))
            if i == 0 or y != prev or type(y) is tuple:
                starts.append(i)
                what.append(y)
                prev = y
        RUNS[name] = starts, what
    return RUNS[name]


def run_of(ch, name):
    """What the method does to the character (decides the run it is in)."""
    starts, what = runs_of(name)
    if not is_sym(ch):
        return what[bisect.bisect_right(starts, ch) - 1]
    a, b = 0, len(starts)
    for top in (0x80, 0x500):                  # most characters are there
        k = bisect.bisect_left(starts, top)
        if a < k < b and bool(ch < starts[k]):
            b = k
            break
    while b - a > 1:
        m = (a + b) // 2
        if bool(ch < starts[m]):
            b = m
        else:
            a = m
    return what[a]


def case_of(ch, name):
    w = run_of(ch, name)
    return list(w) if type(w) is tuple else [ch + w if w else ch]


def is_of(ch, name):
    return run_of(ch, name)


def utf8_width(ch):
    """Number of bytes of a character in UTF-8 (decides it); 0 for a surrogate."""
    for n, top in ((1, 0x7f), (2, 0x7ff), (3, 0xd7ff), (0, 0xdfff), (3, 0xffff)):
        if ch_in_ranges(ch, [(0, top)]):
            return n
    return 4


def utf8_bytes(ch, n):
    if n == 1:
        return [ch]
    out = []
    lead = {2: 0xC0, 3: 0xE0, 4: 0xF0}[n]
    for k in range(n):
        d = 64 ** (n - 1 - k)
        e = (ch.e / d) % 64 + 0x80 if k else ch.e / d + lead
        c = (ch.c // d) % 64 + 0x80 if k else ch.c // d + lead
        out.append(Utf8Byte(e, c, ch, k, n))
    return out


def find_char(chars, ch):
    """The index of a symbolic character in a table of distinct known ones."""
    if any(is_sym(x) for x in chars) or len(set(chars)) != len(chars):
        return None
    if not mkor(*[ch_eq(ch, x) for x in chars]):
        return -1
    e = z3.IntVal(len(chars) - 1)
    for j in range(len(chars) - 2, -1, -1):
        e = z3.If(ch.e == chars[j], z3.IntVal(j), e)
    core.CUR.extra.setdefault("tables", {})[e.get_id()] = (ch, list(chars), e)
    return SymInt(e, chars.index(ch.c) if ch.c in chars else len(chars) - 1)


def str_at(chars, i):
    """The character at a symbolic index."""
    n = len(chars)
    if not (mkand(i >= 0, i < n)):
        if mkand(i < 0, i >= -n):
            i = i + n
        else:
            raise IndexError("string index out of range")
    if n <= 2:
        return mkstr([chars[i.__index__()]])
    hit = core.CUR.extra.get("tables", {}).get(i.e.get_id())
    e = ch_term(chars[-1])
    if hit is not None and len(hit[1]) == n:       # a permutation applied to a character
        if hit[1] == list(chars):
            return mkstr([hit[0]])
        for j in range(n - 2, -1, -1):
            e = z3.If(hit[0].e == hit[1][j], ch_term(chars[j]), e)
    else:
        for j in range(n - 2, -1, -1):
            e = z3.If(i.e == j, ch_term(chars[j]), e)
    return mkstr([SymInt(e, ch_c(chars[i.c if 0 <= i.c < n else 0]))])


def sym_join(sep, items):
    out = []
    first = True
    s = chars_of(sep)
    for i, it in enumerate(items):
        it = deref(it)
        if not isinstance_(it, (str, SymStr)):
            raise TypeError(f"sequence item {i}: expected str instance, "
                            f"{type_of(it).__name__} found")
        if not first:
            out.extend(s)
        first = False
        out.extend(chars_of(it))
    return mkstr(out)


class Utf8Byte(SymInt):
    __slots__ = ("ch", "k", "n")

    def __init__(self, e, c, ch, k, n):
        super().__init__(e, c)
        self.ch, self.k, self.n = ch, k, n


def mkbytes(data):
    return SymBytes(list(data)) if any(is_sym(x) for x in data) else bytes(data)


class SymBytes(Sym):
    __slots__ = ("data",)

    def __init__(self, data):
        self.data = data

    @staticmethod
    def from_chars(chars, args):
        if all(bool(ch_in_ranges(x, [(0, 127)])) for x in chars):
            return SymBytes(list(chars)) if any(is_sym(c) for c in chars) else bytes(chars)
        if args and (len(args) > 1 or str(args[0]).lower().replace("_", "-") not in ("utf-8", "utf8")):
            return concretise(SymStr(list(chars))).encode(*args)
        out = []
        for ch in chars:
            if not is_sym(ch):
                out.extend(chr(ch).encode(*args))
                continue
            n = utf8_width(ch)
            if n == 0:
                return concretise(SymStr(list(chars))).encode(*args)
            out.extend(utf8_bytes(ch, n))
        return mkbytes(out)

    @property
    def __class__(self):
        return bytes

    def __getitem__(self, i):
        i = deref(i)
        if isinstance_(i, slice):
            a, b, c = (x.__index__() if x is not None else None
                       for x in (deref(i.start), deref(i.stop), deref(i.step)))
            return mkbytes(self.data[slice(a, b, c)])
        return self.data[i.__index__() if is_sym(i) else i]

    def __add__(self, o):
        o = deref(o)
        if isinstance_(o, SymBytes):
            return mkbytes(list(self.data) + list(o.data))
        if isinstance_(o, (bytes, bytearray)):
            return mkbytes(list(self.data) + list(o))
        return NotImplemented

    def __radd__(self, o):
        if isinstance_(o, (bytes, bytearray)):
            return mkbytes(list(o) + list(self.data))
        return NotImplemented

    def decode(self, encoding="utf-8", errors="strict"):
        if encoding.lower().replace("_", "-") not in ("utf-8", "utf8") or errors != "strict":
            return concretise(self).decode(encoding, errors)
        out, i, d = [], 0, list(self.data)
        while i < len(d):
            b = d[i]
            if isinstance_(b, Utf8Byte):
                part = d[i:i + b.n]
                if b.k == 0 and len(part) == b.n and all(
                        isinstance_(x, Utf8Byte) and x.ch is b.ch and x.k == j
                        for j, x in enumerate(part)):
                    out.append(b.ch)
                    i += b.n
                    continue
                return concretise(self).decode(encoding, errors)
            if is_sym(b):
                if not ch_in_ranges(b, [(0, 127)]):
                    return concretise(self).decode(encoding, errors)
                out.append(b)
                i += 1
                continue
            j = i
            while j < len(d) and not is_sym(d[j]):
                j += 1
            out.extend(map(ord, bytes(d[i:j]).decode(encoding)))
            i = j
        return mkstr(out)

    @property
    def c(self):
        return bytes(ch_c(x) for x in self.data)

    def __len__(self):
        return len(self.data)

    def __bool__(self):
        return len(self.data) > 0

    def __eq__(self, o):
        o = deref(o)
        if isinstance_(o, SymBytes):
            return seq_eq(self.data, o.data)
        if isinstance_(o, (bytes, bytearray)):
            return seq_eq(self.data, list(o))
        return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else mknot(r)

    def __hash__(self):
        return 13

    def __iter__(self):
        return iter(self.data)

    def __repr__(self):
        return token(self)
    __str__ = __repr__

    def __format__(self, spec):
        return token(self) if spec == "" else format(concretise(self), spec)

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return getattr(concretise(self), name)


# ---------------------------------------------------------------------------- opaque
_US = 86400 * 10 ** 6


def conc_datetime(i):
    return _dt.datetime.min + _dt.timedelta(microseconds=i)


def datetime_us(d):
    return (d - _dt.datetime.min) // _dt.timedelta(microseconds=1)


def _number(o, kind):
    """(term, concrete) of a date or naive datetime of that kind, or None."""
    if isinstance_(o, SymOpaque):
        return (o.e, o.i) if o.kind is kind else None
    if kind is _dt.datetime and isinstance_(o, _dt.datetime) and o.tzinfo is None:
        n = datetime_us(o)
    elif kind is _dt.date and isinstance_(o, _dt.date) and not isinstance_(o, _dt.datetime):
        n = o.toordinal()
    else:
        return None
    return z3.IntVal(n), n


def conc_date(i):
    return _dt.date.fromordinal(max(1, min(3652059, i)))


def conc_uuid(i, version):
    return _uuid.UUID(int=(0xabc0 << 112) + i, version=version)


class SymOpaque(Sym):
    """A naive datetime (microseconds since its minimum), a date (its ordinal) or a UUID (a number)."""
    __slots__ = ("kind", "e", "i", "version")

    def __init__(self, kind, e, i, version=None):
        self.kind = kind
        self.e = e
        self.i = i
        self.version = version

    @property
    def __class__(self):
        return self.kind

    @property
    def c(self):
        if self.kind is _dt.datetime:
            return conc_datetime(self.i)
        if self.kind is _dt.date:
            return conc_date(self.i)
        return conc_uuid(self.i, self.version)

    def __eq__(self, o):
        o = deref(o)
        if isinstance_(o, SymOpaque):
            if o.kind is not self.kind or o.version != self.version:
                return False
            return mkbool(self.e == o.e, self.i == o.i)
        if isinstance_(o, self.kind):
            n = _number(o, self.kind)
            if n is not None:
                return mkbool(self.e == n[0], self.i == n[1])
            if self.kind is _dt.datetime:
                return False            # naive and aware
            return concretise(self) == o
        return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else mknot(r)

    def __hash__(self):
        return 17

    def __lt__(self, o):
        m = _number(deref(o), self.kind)
        if m is not None:
            return mkbool(self.e < m[0], self.i < m[1])
        return concretise(self) < concretise(o)

    def __le__(self, o):
        m = _number(deref(o), self.kind)
        if m is not None:
            return mkbool(self.e <= m[0], self.i <= m[1])
        return concretise(self) <= concretise(o)

    def __gt__(self, o):
        m = _number(deref(o), self.kind)
        if m is not None:
            return mkbool(self.e > m[0], self.i > m[1])
        return concretise(self) > concretise(o)

    def __ge__(self, o):
        m = _number(deref(o), self.kind)
        if m is not None:
            return mkbool(self.e >= m[0], self.i >= m[1])
        return concretise(self) >= concretise(o)

    def __sub__(self, o):
        o = deref(o)
        if self.kind is _dt.date and isinstance_(o, SymDelta):
            return mkdate(self.e - o.e, self.i - o.i)
        return concretise(self) - concretise(o)

    def __add__(self, o):
        o = deref(o)
        if self.kind is _dt.date and isinstance_(o, SymDelta):
            return mkdate(self.e + o.e, self.i + o.i)
        return concretise(self) + concretise(o)
    __radd__ = __add__

    def __repr__(self):
        return token(self)
    __str__ = __repr__

    def __format__(self, spec):
        return token(self) if spec == "" else format(concretise(self), spec)

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        if self.kind is _dt.datetime:
            part = _PARTS.get(name)
            if part is not None:
                return mkint((self.e / part[0]) % part[1], self.i // part[0] % part[1])
            if name == "date":
                return lambda: SymOpaque(_dt.date, self.e / _US + 1, self.i // _US + 1)
            if name == "toordinal":
                return lambda: mkint(self.e / _US + 1, self.i // _US + 1)
            if name == "weekday":
                return lambda: mkint((self.e / _US) % 7, self.i // _US % 7)
            if name == "replace":
                return self._replace
            if name == "tzinfo":
                return None
        elif self.kind is _dt.date:
            if name == "toordinal":
                return lambda: mkint(self.e, self.i)
            if name == "weekday":
                return lambda: mkint((self.e + 6) % 7, (self.i + 6) % 7)
        self._calendar()
        return getattr(concretise(self), name)

    def _calendar(self):
        """The calendar is outside the fragment: today is one of a few days."""
        if self.e.get_id() not in core.CUR.extra.get("clock", {}):
            return
        i = core.CUR.choose(len(DAYS) + 1, "day")
        if i:
            n = DAYS[i - 1].toordinal()
            if self.kind is _dt.date:
                core.CUR.assume(self.e == n, self.i == n)
            else:
                n = (n - 1) * _US
                core.CUR.assume(z3.And(self.e >= n, self.e < n + _US), n <= self.i < n + _US)
            # the shadow follows on a later path (or the value is that of the model)

    def _replace(self, *a, **k):
        if a or any(n not in _PARTS or type(v) is not int or not 0 <= v < _PARTS[n][1]
                    for n, v in k.items()):
            self._calendar()
            return concretise(self).replace(*a, **k)
        e, i = self.e, self.i
        for n, v in k.items():
            size, base = _PARTS[n]
            e, i = e + (v - (e / size) % base) * size, i + (v - i // size % base) * size
        return SymOpaque(_dt.datetime, e, i)


DAYS = [_dt.date(2024, 2, 29), _dt.date(2027, 12, 31), _dt.date(2026, 3, 31), _dt.date(2025, 2, 28)]
_PARTS = {"hour": (3600 * 10 ** 6, 24), "minute": (60 * 10 ** 6, 60), "second": (10 ** 6, 60),
          "microsecond": (1, 10 ** 6)}


class SymDelta(Sym):
    """timedelta of a symbolic number of days."""
    __slots__ = ("e", "i")

    def __init__(self, e, i):
        self.e = e
        self.i = i

    @property
    def __class__(self):
        return _dt.timedelta

    @property
    def c(self):
        return _dt.timedelta(days=self.i)

    def __neg__(self):
        return SymDelta(-self.e, -self.i)

    def __rsub__(self, o):
        o = deref(o)
        if type(o) is _dt.date:
            return mkdate(z3.IntVal(o.toordinal()) - self.e, o.toordinal() - self.i)
        return o - concretise(self)

    def __radd__(self, o):
        o = deref(o)
        if type(o) is _dt.date:
            return mkdate(z3.IntVal(o.toordinal()) + self.e, o.toordinal() + self.i)
        return o + concretise(self)

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return getattr(concretise(self), name)


def mkdate(e, i):
    ok = core.CUR.branch(z3.And(e >= 1, e <= 3652059), 1 <= i <= 3652059)
    if not ok:
        raise OverflowError("date value out of range")
    return SymOpaque(_dt.date, e, i)


# ---------------------------------------------------------------------------- any
class Kind:
    """A kind (type tag) a lazily typed value may turn out to have."""
    __slots__ = ("name", "cls", "make", "default")

    def __init__(self, name, cls, make, default=None):
        self.name = name
        self.cls = cls
        self.make = make        # (SymAny) -> payload
        self.default = default  # () -> concrete value used when never resolved

    def __repr__(self):
        return self.name


PLAIN_TEXT = {"none", "bool", "int", "float", "nfloat", "fspecial", "str", "bytes", "list", "dict", "tuple",
              "uuid4", "uuid1", "datetime", "date", "ellipsis", "nil"}


class SymAny(Sym):
    """A value whose kind and content are decided when the code looks at it."""
    __slots__ = ("name", "kinds", "payload", "orig", "done", "spec", "depth")

    def __init__(self, name, kinds, spec=None, depth=0):
        self.name = name
        self.orig = None
        self.kinds = kinds
        self.payload = None
        self.done = False
        self.spec = spec
        self.depth = depth

    def resolve(self):
        if not self.done:
            ks = self.kinds
            i = core.CUR.choose(len(ks), self.name) if len(ks) > 1 else 0
            self.kinds = [ks[i]]
            self.done = True
            p = self.payload = ks[i].make(self)
            # what it was, should the code change it
            self.orig = list(p) if type(p) is list else dict(p) if type(p) is dict else p
        return self.payload

    def narrow(self, pred):
        """Decide pred(kind); bool."""
        ks = self.kinds
        yes = [k for k in ks if pred(k)]
        if not yes:
            return False
        if len(yes) == len(ks):
            return True
        no = [k for k in ks if not pred(k)]
        if core.CUR.choose(2, self.name) == 0:
            self.kinds = yes
            return True
        self.kinds = no
        return False

    @property
    def __class__(self):
        return type_of(self.resolve())

    @property
    def c(self):
        return to_concrete(self)

    def __bool__(self):
        return bool(self.resolve())

    def __hash__(self):
        return hash(self.resolve())

    def __eq__(self, o):
        a, b = self.resolve(), deref_resolve(o)
        return a == b

    def __ne__(self, o):
        a, b = self.resolve(), deref_resolve(o)
        return a != b

    def __getattr__(self, name):
        if name.startswith("__") and name not in ("__d42_validate__", "__name__"):
            raise AttributeError(name)
        return getattr(self.resolve(), name)

    def __len__(self):
        r = self.resolve()
        return len(r)

    def __iter__(self):
        return iter(self.resolve())

    def __reversed__(self):
        return reversed(self.resolve())

    def __contains__(self, o):
        from . import rt
        return rt.in_(o, self.resolve())

    def __getitem__(self, i):
        from . import rt
        return rt.getitem(self.resolve(), i)

    def __setitem__(self, i, v):
        self.resolve()[deref(i)] = v

    def __delitem__(self, i):
        del self.resolve()[deref(i)]

    def opaque(self):
        """May the text of this value stay open?  (not for kinds with a repr of their own)"""
        return not self.done and len(self.kinds) > 1 and all(k.name in PLAIN_TEXT
                                                             for k in self.kinds)

    def __repr__(self):
        return token(self) if self.opaque() else repr(self.resolve())

    def __str__(self):
        return token(self, "s") if self.opaque() else str(self.resolve())

    def __format__(self, spec):
        if not spec and self.opaque():
            return token(self, "s")
        return format(self.resolve(), spec)

    def __index__(self):
        import operator
        return operator.index(self.resolve())

    def __int__(self):
        return int(self.resolve())

    def __float__(self):
        return float(self.resolve())


import operator as _operator

_FWD = {"round": round, "trunc": math.trunc, "floor": math.floor, "ceil": math.ceil,
        "divmod": divmod, "pow": pow, "and": _operator.and_, "or": _operator.or_}


def _fwd(op):
    n = op.strip("_")
    rev = n.startswith("r") and n not in ("round", "rshift")
    if n == "call":
        def f(self, *a, **k):
            return self.resolve()(*a, **k)
    else:
        g = _FWD.get(n[1:] if rev else n) or getattr(_operator, n[1:] if rev else n)

        def f(self, *a):
            a = [deref_resolve(x) for x in a]
            return g(a[0], self.resolve()) if rev else g(self.resolve(), *a)
    f.__name__ = op
    return f


for _op in ("add", "radd", "sub", "rsub", "mul", "rmul", "truediv", "rtruediv", "floordiv",
            "rfloordiv", "mod", "rmod", "pow", "rpow", "and", "rand", "or", "ror", "xor", "rxor",
            "lt", "le", "gt", "ge", "neg", "pos", "abs", "invert", "round", "trunc", "floor",
            "ceil", "lshift", "rshift", "divmod", "call"):
    setattr(SymAny, f"__{_op}__", _fwd(f"__{_op}__"))


# ---------------------------------------------------------------------------- helpers
def deref(x):
    if type(x) is SymAny and x.done:
        return x.payload
    return x


def deref_resolve(x):
    return x.resolve() if type(x) is SymAny else x


_PROXY_CLASS = {SymBool: bool, SymInt: int, SymFloat: float, SymStr: str, SymBytes: bytes,
                SymDelta: _dt.timedelta}


def type_of(x):
    t = type(x)
    if t is SymAny:
        return type_of(x.resolve())
    if t is SymOpaque:
        return x.kind
    return _PROXY_CLASS.get(t, t)


def concretise(x, why="operation outside the symbolic fragment"):
    """Fix a symbolic value to its shadow (recorded: the path is no longer exhaustive)."""
    t = type(x)
    if not issubclass(t, Sym):
        return x
    eng = core.CUR
    if t is SymAny:
        return concretise(x.resolve(), why)
    if t is SymBool:
        return bool(x)
    if eng is not None:
        eng.note_concretised(why)
        if t is SymInt or t is SymFloat:
            eng.constrain(x.e == (x.c if t is SymInt else x.m))
        elif t is SymStr:
            for ch in x.chars:
                if is_sym(ch):
                    eng.constrain(ch.e == ch.c)
        elif t is SymBytes:
            for ch in x.data:
                if is_sym(ch):
                    eng.constrain(ch.e == ch.c)
        elif t in (SymOpaque, SymDelta):
            eng.constrain(x.e == x.i)
    return x.c


def concretise_deep(x, why="operation outside the symbolic fragment"):
    t = type(x)
    if issubclass(t, Sym):
        return concretise_deep(concretise(x, why), why) if t is SymAny else concretise(x, why)
    if t is list:
        return [concretise_deep(y, why) for y in x]
    if t is tuple:
        return tuple(concretise_deep(y, why) for y in x)
    if t is dict:
        return {concretise_deep(k, why): concretise_deep(v, why) for k, v in x.items()}
    return x


def to_concrete(x, memo=None, orig=False):
    """Shadow of a (possibly nested) value, without constraining anything.
    orig: as it was made, before any change of it."""
    if memo is None:
        memo = {}
    t = type(x)
    if issubclass(t, Sym) or t in (list, dict, tuple, set):
        if id(x) in memo:
            return memo[id(x)][0]
    if t is SymAny:
        if x.done:
            r = to_concrete(x.orig if orig else x.payload, memo, orig)
        else:
            r = to_concrete(x.kinds[0].default(), memo, orig)
        memo[id(x)] = (r, x)
        return r
    if issubclass(t, Sym):
        r = x.c
    elif t is list:
        r = []
        memo[id(x)] = (r, x)
        r.extend(to_concrete(y, memo, orig) for y in x)
    elif t is dict:
        r = {}
        memo[id(x)] = (r, x)
        for k, v in x.items():
            r[to_concrete(k, memo, orig)] = to_concrete(v, memo, orig)
    elif t is tuple:
        r = tuple(to_concrete(y, memo, orig) for y in x)
    elif t is set:
        r = {to_concrete(y, memo, orig) for y in x}
    else:
        return x
    memo[id(x)] = (r, x)
    return r
