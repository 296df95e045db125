"""The harness-facing interface, symbolic version (see replay.ReplayCtx for the concrete one)."""
import datetime as _dt
import uuid as _uuid
from . import core, stubs
from .core import Infeasible, Violation
from .values import (Kind, datetime_us, SymAny, SymBool, SymBytes, SymFloat, SymInt, SymOpaque, SymStr, B,
                     concretise, deref, is_sym, mkbool, mkint, mkstr, to_concrete)

DEFAULT_CHARS = ((97, 100), (65, 66), (48, 50), (32, 32), (10, 10), (0x430, 0x432))


def mk_float(name, lo=-4000, hi=4000, exp=-2):
    v = stubs.var_int(name, lo, hi, 0)
    return SymFloat(v.e, exp, v.c)


NEAR = ((1 << 40) - 4000, (1 << 40) + 4000, -40)


def mk_str(name, n, ranges):
    return mkstr([stubs.var_char(name + "." + str(i), ranges) for i in range(n)])


_DT_LO = _dt.date(1990, 1, 1).toordinal()
_DT_HI = _dt.date(2060, 1, 1).toordinal()
DAY = 86400 * 10 ** 6
DT0 = datetime_us(_dt.datetime(2001, 2, 3, 4, 5, 6))


def mk_opaque(name, cls, version=None):
    if cls is _dt.date:
        v = stubs.var_int(name, _DT_LO, _DT_HI, _DT_LO)
    elif cls is _dt.datetime:
        v = stubs.var_int(name, _DT_LO * DAY, _DT_HI * DAY, DT0)
    else:
        v = stubs.var_int(name, 0, 10 ** 6, 0)
    return SymOpaque(cls, v.e, v.c, version)


def _mk_list(a):
    o = a.spec
    lo, hi = o.get("minlen", 0), o.get("maxlen", 2)
    if "shape" in o:
        hi = o["shape"].get("maxlen", hi)
        lo = min(lo, hi)
    n = lo + core.CUR.choose(hi - lo + 1, a.name + ".len")
    return [child(a, f"{a.name}[{i}]", i) for i in range(n)]


def _mk_tuple(a):
    return tuple(_mk_list(a))


def _mk_dict(a):
    o = a.spec
    out = {}
    keys = o["shape"].get("keys", {"zz": LEAF}) if "shape" in o else o.get("keys", ("a", "b"))
    for i, k in enumerate(keys):
        if core.CUR.choose(2, f"{a.name}.has{i}") == 0:
            out[k] = child(a, f"{a.name}.{i}", k)
    if o.get("order") and len(out) > 1:           # another order of the keys
        items, r = list(out.items()), core.CUR.choose(len(out), a.name + ".order")
        out = dict(items[r:] + items[:r])
    return out


LEAF = {"kinds": ["int", "none"]}


def child(a, name, where=None):
    """`shape` (see harness.spec.shape_of) says what to expect at this position."""
    o = a.spec
    if "shape" in o:
        sh = o["shape"]
        if a.kinds[0].name in ("list", "tuple"):
            elems = sh.get("elems") or [LEAF]
            sub = elems[min(where, len(elems) - 1)]
        else:
            sub = sh.get("keys", {}).get(where, LEAF)
        return make_any(name, sub["kinds"], dict(o, shape=sub), a.depth - 1)
    kinds = o.get("child_kinds") or o["kinds"]
    d = a.depth - 1
    if d <= 0:
        kinds = [k for k in kinds if k not in ("list", "dict", "tuple")]
    return make_any(name, kinds, o, d)


def _str(a):
    o = a.spec
    n = core.CUR.choose(o.get("strlen", 2) + 1, a.name + ".strlen")
    return mk_str(a.name + ".s", n, o.get("chars", DEFAULT_CHARS))


def _bytes(a):
    n = core.CUR.choose(a.spec.get("byteslen", 1) + 1, a.name + ".byteslen")
    b = [stubs.var_int(a.name + ".b", 0, 255, 0) for _ in range(n)]
    return SymBytes(b) if b else b""


FSPECIAL = [float("nan"), float("inf"), float("-inf"), 1e308, 5e-324, -0.0, 0.1, 1e22, -1e308,
            9007199254740993.0]


_TZ3 = _dt.timezone(_dt.timedelta(hours=3))
# the same wall clock, the same instant, another fold, the ends of the range
DTSPECIAL = [_dt.datetime(2020, 1, 1, 12, tzinfo=_dt.timezone.utc), _dt.datetime(2020, 1, 1, 12, tzinfo=_TZ3),
             _dt.datetime(2020, 1, 1, 15, tzinfo=_TZ3), _dt.datetime(2020, 1, 1, 12),
             _dt.datetime(2020, 1, 1, 12, 0, 0, 1), _dt.datetime(2020, 1, 1, 12, fold=1),
             _dt.datetime(2020, 1, 1), _dt.datetime.min, _dt.datetime.max]


def _dtspecial(a):
    return DTSPECIAL[core.CUR.choose(len(DTSPECIAL), a.name + ".dsp")]


# the nil and the all-ones UUID, every other version, the variants that have none
USPECIAL = [_uuid.UUID(int=0), _uuid.UUID(int=2 ** 128 - 1), _uuid.UUID(int=0xabc0 << 112, version=3),
            _uuid.UUID(int=0xabc0 << 112, version=5)] + \
    [_uuid.UUID(int=_uuid.UUID(int=0xabc0 << 112, version=4).int & ~(0xc000 << 48) | v << 48)
     for v in (0x0000, 0x4000, 0xc000, 0xe000)]


def _uspecial(a):
    return USPECIAL[core.CUR.choose(len(USPECIAL), a.name + ".usp")]


def _special(a):
    return FSPECIAL[core.CUR.choose(len(FSPECIAL), a.name + ".fsp")]


NIL = None


def _nil():
    from niltype import Nil
    return Nil


def _int_of(a):
    lo, hi = a.spec.get("int", (None, None))
    return stubs.var_int(a.name + ".i", lo, hi, 0)


def build_kinds():
    from niltype import Nil
    T = {
        "none": Kind("none", type(None), lambda a: None, lambda: None),
        "bool": Kind("bool", bool, lambda a: stubs.var_bool(a.name + ".t"), lambda: False),
        "int": Kind("int", int, _int_of, lambda: 0),
        "float": Kind("float", float, lambda a: mk_float(a.name + ".f"), lambda: 0.0),
        # around 1.0, some of them closer to each other than the tolerance of math.isclose()
        "nfloat": Kind("nfloat", float, lambda a: mk_float(a.name + ".nf", *NEAR), lambda: 1.0),
        "fspecial": Kind("fspecial", float, _special, lambda: float("nan")),
        "str": Kind("str", str, _str, lambda: ""),
        "bytes": Kind("bytes", bytes, _bytes, lambda: b""),
        "list": Kind("list", list, _mk_list, lambda: []),
        "tuple": Kind("tuple", tuple, _mk_tuple, lambda: ()),
        "dict": Kind("dict", dict, _mk_dict, lambda: {}),
        "uuid4": Kind("uuid4", _uuid.UUID, lambda a: mk_opaque(a.name + ".u", _uuid.UUID, 4),
                      lambda: _uuid.UUID(int=0xabc0 << 112, version=4)),
        "uuid1": Kind("uuid1", _uuid.UUID, lambda a: mk_opaque(a.name + ".u", _uuid.UUID, 1),
                      lambda: _uuid.UUID(int=0xabc0 << 112, version=1)),
        "uspecial": Kind("uspecial", _uuid.UUID, _uspecial, lambda: USPECIAL[0]),
        "datetime": Kind("datetime", _dt.datetime,
                         lambda a: mk_opaque(a.name + ".dt", _dt.datetime),
                         lambda: _dt.datetime(2001, 2, 3, 4, 5, 6)),
        "dtspecial": Kind("dtspecial", _dt.datetime, _dtspecial, lambda: DTSPECIAL[0]),
        "date": Kind("date", _dt.date, lambda a: mk_opaque(a.name + ".d", _dt.date),
                     lambda: _dt.date(1990, 1, 1)),
        "ellipsis": Kind("ellipsis", type(...), lambda a: ..., lambda: ...),
        "nil": Kind("nil", type(Nil), lambda a: Nil, lambda: Nil),
    }
    return T


KINDS = {}
PLAIN = ["int", "none", "str", "list", "dict", "bool", "float", "bytes", "uuid4", "datetime",
         "date"]


def make_any(name, kinds, opts, depth):
    if not KINDS:
        KINDS.update(build_kinds())
    ks = []
    for k in kinds:
        if isinstance(k, str):
            ks.append(KINDS[k])
        else:                      # ("zoo", label, type, object)
            _, label, cls, obj = k
            ks.append(Kind(label, cls, (lambda o: lambda a: o)(obj), (lambda o: lambda: o)(obj)))
    return SymAny(name, ks, dict(opts, kinds=kinds), depth)


class SymCtx:
    symbolic = True

    def __init__(self, eng):
        self.eng = eng
        self.checks = 0

    def _in(self, name, v):
        u = self.eng.fresh_name("in:" + name)
        self.eng.inputs[u] = v
        return v

    def choose(self, n, tag="choice"):
        return self._in(tag, self.eng.choose(n, tag))

    def pick(self, seq, tag="pick"):
        return seq[self.choose(len(seq), tag)]

    def flag(self, tag):
        return self.choose(2, tag) == 1

    def int(self, name, lo=None, hi=None, default=0):
        return self._in(name, stubs.var_int(name, lo, hi, default))

    def small(self, name, lo, hi):
        """A concrete small integer, one path per value."""
        return lo + self.choose(hi - lo + 1, name)

    def float(self, name, lo=-4000, hi=4000, exp=-2):
        """(integer in [lo, hi]) * 2**exp"""
        return self._in(name, mk_float(name, lo, hi, exp))

    def near(self, name):
        """1.0 and its neighbourhood, in steps of 2**-40"""
        return self._in(name, mk_float(name, *NEAR))

    def decimal(self, name, q, lo, hi):
        """The double nearest to k / 10**q for an integer k in [lo, hi]."""
        return self._in(name, stubs.var_int(name, lo, hi, 0) / 10 ** q)

    def bool(self, name):
        return self._in(name, stubs.var_bool(name))

    def str(self, name, maxlen=2, minlen=0, chars=DEFAULT_CHARS):
        n = minlen + self.eng.choose(maxlen - minlen + 1, name + ".len")
        return self._in(name, mk_str(name, n, chars))

    def bytes(self, name, maxlen=1):
        n = self.eng.choose(maxlen + 1, name + ".len")
        b = [stubs.var_int(name, 0, 255, 0) for _ in range(n)]
        return self._in(name, SymBytes(b) if b else b"")

    def uuid4(self, name):
        return self._in(name, mk_opaque(name, _uuid.UUID, 4))

    def uuid1(self, name):
        return self._in(name, mk_opaque(name, _uuid.UUID, 1))

    def datetime(self, name):
        return self._in(name, mk_opaque(name, _dt.datetime))

    def date(self, name):
        return self._in(name, mk_opaque(name, _dt.date))

    def any(self, name, kinds=None, depth=2, **opts):
        if "shape" in opts:
            kinds = opts["shape"]["kinds"]
        return self._in(name, make_any(name, kinds or PLAIN, opts, depth))

    # ---- verdicts
    def assume(self, cond):
        e, c = B(cond if isinstance(cond, bool) or is_sym(cond) else bool(cond))
        self.eng.assume(e, c)

    def reject(self):
        raise Infeasible()

    def check(self, cond, msg, *detail):
        self.checks += 1
        if not cond:
            self.fail(msg, *detail)

    def fail(self, msg, *detail):
        raise Violation(msg, [to_concrete(d) for d in detail])

    def show(self, x):
        return to_concrete(x)

    def text(self, s):
        """repr()-style text with the opaque names of symbolic values filled in."""
        return s

    @property
    def tokens(self):
        return self.eng.tokens

    def modes(self, *names):
        self.eng.modes = frozenset(names)

    def run_no(self, n):
        self.eng.extra["run"] = n

    def second(self, make, fresh=False):
        """make() in a newly imported copy of d42 (fresh: imported on this very path)."""
        from . import loader
        return loader.second_copy(make, fresh)
