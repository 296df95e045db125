"""C14: from_native(value) denotes exactly that value."""
import datetime as dt
import math
import uuid

from d42 import fake, optional, schema, validate
from d42.utils import from_native

from harness.snap import clone, same, same_leaf, snap
from harness.spec import places_of
from harness.zoo import CYCLE, values, zoo

PLAIN = ["none", "bool", "int", "float", "str", "bytes", "uuid4", "datetime", "date", "list", "dict"]
OTHER = ["ellipsis", "nil", "uuid1", "tuple"]
REFUSED = ["Plain", "Decimal", "DecNaN", "DecSNaN", "Fraction", "complex", "tuple", "etuple", "set",
           "frozenset", "bytearray", "range", "type", "func", "OPAQUE", "BAD_REPR", "NO_BOOL", "NO_EQ",
           "ODD", "uuid1", "uuid0", "time", "timedelta", "exception", "deque", "MyTuple", "Point",
           "ell2", "ellkey", "ellval", "elist", "CYCLE", "mix", "listbad", "dictbad", "objkey2"]
BOUNDS = {
    "values": "v and w independently lazily typed: every plain kind at every position, lists up to "
              "3 (quick: 2) elements, dicts over keys 'a', 'b', 1, None, ('x', 1), depth up to 3; ints "
              "unbounded, floats k/4 plus special ones, strings up to 2 characters, bytes up to 1",
    "large": "lists and dicts of 40 members and 40 (20 mixed) levels, one member symbolic",
    "other kinds": "the unsupported values of harness/zoo.py, alone and nested",
}
ASSUMPTIONS = [
    "True/False and 1/0 may be told apart or not; floats that math.isclose() finds close may be too",
    "equal datetimes (==) are the same datetime",
]


def differs(v, w):
    """True: w differs from v; False: the same; None: the statement leaves it open."""
    if isinstance(v, bool) and isinstance(w, int) or isinstance(v, int) and isinstance(w, bool):
        if isinstance(v, bool) and isinstance(w, bool):
            return bool(v != w)
        return None if v == w else True
    if isinstance(v, float):
        if not isinstance(w, float):
            return True
        if math.isnan(v) or math.isnan(w):
            return not (math.isnan(v) and math.isnan(w))
        if v == w:
            return False
        return None if math.isclose(v, w) else True
    if isinstance(v, list):
        if not isinstance(w, list) or len(v) != len(w):
            return True
        return first([differs(x, y) for x, y in zip(v, w)])
    if isinstance(v, dict):
        if not isinstance(w, dict) or len(v) != len(w):
            return True
        for k in v:
            if k not in w:
                return True
        return first([differs(v[k], w[k]) for k in v])
    if v is None:
        return w is not None
    for t in (int, str, bytes, uuid.UUID, dt.datetime, dt.date):
        if isinstance(v, t) != isinstance(w, t):
            return True
    return bool(v != w)


def first(ds):
    if any([d is True for d in ds]):
        return True
    if any([d is None for d in ds]):
        return None
    return False


def shape(kinds, depth, maxlen=1, keys=("a",), leaf=None):
    out = {"kinds": [k for k in kinds if depth > 0 or k not in ("list", "dict")], "maxlen": maxlen}
    if depth > 0:
        sub = shape(leaf or kinds, depth - 1, maxlen, keys, leaf)
        out["elems"] = [sub]
        out["keys"] = {k: sub for k in keys}
    return out


def value(ctx, name, cfg, extra=()):
    sh = shape(cfg.get("kinds", PLAIN) + list(extra), cfg["depth"], cfg.get("maxlen", 1),
               cfg.get("keys", ("a",)), cfg.get("leaf"))
    if "top" in cfg:
        sh["kinds"] = cfg["top"]
    return ctx.any(name, shape=sh, depth=9, strlen=cfg.get("strlen", 1), byteslen=cfg.get("byteslen", 1))


def h_exact(ctx, cfg):
    """Accepts v, generates v, rejects every other w."""
    v = value(ctx, "v", cfg)
    v = clone(v)
    before = snap(v)
    sch = from_native(v)
    ctx.check(not validate(sch, v).has_errors(), "from_native(v) rejects v", v)
    ctx.check(sch == v, "from_native(v) == v is false", v)
    g = fake(sch)
    ctx.check(same(snap(g), before), "from_native(v) generates another value", v, g)
    ctx.check(same(snap(v), before), "from_native changed its argument", v)
    cfg2 = dict(cfg, maxlen=cfg.get("maxlen", 1) + cfg.get("longer", 1),
                keys=tuple(cfg.get("keys", ("a",))) + ("zz",) * cfg.get("zz", 1))
    if cfg.get("w") == "top":
        cfg2.pop("top", None)
    w = value(ctx, "w", cfg2, cfg.get("wextra", ()))
    d = differs(v, w)
    if d is None:
        return "open"
    ok = not validate(sch, w).has_errors()
    ctx.check(ok == (not d), "from_native(v) judges another value wrongly", v, w, ok)
    return [ok]


def h_perturb(ctx, cfg):
    """A single-step change of v, anywhere."""
    v = clone(value(ctx, "v", cfg))
    sch = from_native(v)
    w = perturb(ctx, v, cfg, [cfg["depth"]])
    d = differs(v, w)
    if d is None:
        return "open"
    ok = not validate(sch, w).has_errors()
    ctx.check(ok == (not d), "from_native(v) judges a variation of v wrongly", v, w, ok)
    return [ok]


def perturb(ctx, v, cfg, depth):
    if isinstance(v, list):
        i = ctx.choose(len(v) + 4, "step")
        if i < len(v):
            return v[:i] + [perturb(ctx, v[i], cfg, depth)] + v[i + 1:]
        j = ctx.small("at", 0, len(v)) if len(v) else 0
        if i == len(v):
            return v[:j] + [new(ctx)] + v[j:]
        if i == len(v) + 1:
            return v[:j] + v[j + 1:]
        if i == len(v) + 2:
            return v[::-1]
        return new(ctx)
    if isinstance(v, dict):
        ks = list(v)
        i = ctx.choose(len(ks) + 4, "step")
        if i < len(ks):
            return {k: perturb(ctx, v[k], cfg, depth) if k is ks[i] else v[k] for k in ks}
        j = ctx.small("at", 0, len(ks) - 1) if ks else 0
        if i == len(ks):
            return dict(v, zz=new(ctx))
        if i == len(ks) + 1:
            return {k: v[k] for n, k in enumerate(ks) if n != j}
        if i == len(ks) + 2:
            return {k: v[k] for k in ks[::-1]}
        return {("yy" if n == j else k): v[k] for n, k in enumerate(ks)}
    return new(ctx)


def new(ctx):
    return ctx.any("new", shape=shape(["int", "bool", "float", "str", "none", "bytes", "list", "dict", "date",
                                       "datetime", "uuid4", "uuid1", "ellipsis"], 1, 1, ("a",), ["int"]),
                   depth=9, strlen=1)


def long_value(ctx, form, n, at, x):
    """A large value with x at one place."""
    if form == "ints":
        return [x if i == at else i for i in range(n)]
    if form == "same":
        return [x if i == at else 5 for i in range(n)]
    if form == "mixed":
        return [x if i == at else [i, "s", None, 2.5, b"", {"a": i}, [i]][i % 7] for i in range(n)]
    if form == "rows":
        return [{"a": x if i == at else 1, "b": "s"} for i in range(n)]
    if form == "dict":
        return {(i if i % 5 == 0 else f"k{i}"): x if i == at else i for i in range(n)}
    if form == "str":
        return ["b" * at + x + "b" * (n - at - 1)]
    v = x
    for i in range(n):
        v = [v] if form == "lists" or form == "chain" and i % 3 == 0 else \
            {"k": v} if i % 3 != 2 or form == "dicts" else [1, v, None]
    return v


def h_long(ctx, cfg):
    """Large values, and those that differ at one place."""
    form, n = cfg["form"], cfg["n"]
    places = [0] if form in ("lists", "dicts", "chain") else places_of(n)
    at = ctx.pick(places, "at")
    x = ctx.str("x", 1, 1) if form == "str" else ctx.any("x", ["int", "str", "none", "list"], strlen=1,
                                                       maxlen=1, child_kinds=["int"])
    v = clone(long_value(ctx, form, n, at, x))
    before = snap(v)
    sch = from_native(v)
    ctx.check(not validate(sch, v).has_errors(), "from_native(v) rejects v", v)
    ctx.check(sch == v, "from_native(v) == v is false", v)
    g = fake(sch)
    ctx.check(same(snap(g), before), "from_native(v) generates another value", v, g)
    how = ctx.pick(["value", "fewer", "more", "front", "swap", "deep"], "how")
    if how in ("value", "deep"):
        y = ctx.str("y", 1, 1) if form == "str" else ctx.any("y", ["int", "str", "none", "list", "float", "bool"],
                                                           strlen=1, maxlen=2, child_kinds=["int"])
        if how == "deep":
            y = [y] if form != "str" else y + y
        w = long_value(ctx, form, n, at, y)
    elif how == "fewer":
        ctx.assume(form != "str" or at < n - 1)
        w = long_value(ctx, form, n - 1, at, x)
    elif how == "more":
        w = long_value(ctx, form, n + 1, at, x)
    else:
        w = clone(v)
        ctx.assume(isinstance(w, list) and len(w) > 1)
        w = [w[-1]] + w[:-1] if how == "front" else w[:at] + w[at:][::-1]
    d = differs(v, w)
    if d is None:
        return "open"
    ok = not validate(sch, w).has_errors()
    ctx.check(ok == (not d), "from_native(v) judges another value wrongly", v, w, ok)
    ctx.check((sch == w) == ok, "schema == value and validate() differ", v, w, ok)
    return [ok]


def refused(ctx, v, *info):
    try:
        r = from_native(v)
    except ValueError:
        return True
    ctx.fail("from_native() accepts a value of another kind", v, *info)


def wrap(ctx, x, n):
    """x somewhere within lists and dicts."""
    for i in range(ctx.small("wraps", 0, n)):
        how = ctx.choose(6, "wrap")
        x = [lambda: [x], lambda: {"a": x}, lambda: [1, x], lambda: [x, None], lambda: {"a": 1, None: x},
             lambda: {1: x, "b": []}][how]()
    return x


def h_refuse(ctx, cfg):
    """Another kind of value, alone or within lists and dicts."""
    vs = values()
    vs["objkey2"] = {"a": {"b": [object]}}
    what = ctx.choose(len(REFUSED) + 8, "what")
    if what < len(REFUSED):
        x = vs[REFUSED[what]]
    else:
        x = [lambda: ctx.any("x", OTHER, child_kinds=["int"], depth=2), lambda: ..., lambda: schema.int,
             lambda: optional("a"), lambda: {...: 1}, lambda: {optional("a"): 1}, lambda: {...: ...},
             lambda: {"a": schema.int(1)}][what - len(REFUSED)]()
    return refused(ctx, wrap(ctx, x, cfg["n"]), REFUSED[what] if what < len(REFUSED) else what)


SUB = {"MyInt": int, "MyStr": str, "MyFloat": float, "MyBytes": bytes, "MyList": list, "MyDict": dict,
       "MyUUID": uuid.UUID, "MyDate": dt.date, "MyDatetime": dt.datetime, "Color": int, "Word": str,
       "odict": dict, "ddict": dict, "counter": dict}
VALID = ["nan", "inf", "ninf", "max", "tiny", "negzero", "1e308", "9007199254740993", "HUGE", "-HUGE",
         "2**64", "aware", "naive", "dtmin", "date", "surrogate", "nul", "keys", "hugekey", "objkey",
         "noeqkey"]


def h_special(ctx, cfg):
    """Extreme and unusual values of the plain kinds, compared with each other."""
    vs = values()
    x = vs[ctx.pick(VALID, "x")]
    v = wrap(ctx, x, 1)
    sch = from_native(v)
    ctx.check(not validate(sch, v).has_errors(), "from_native(v) rejects v", v)
    g = fake(sch)
    ctx.check(same(snap(g), snap(v)), "from_native(v) generates another value", v, g)
    y = vs[ctx.pick(VALID, "y")]
    w = clone(v) if y is x else y
    ctx.assume(not (isinstance(y, dict) and isinstance(v, dict) and y is not x))
    d = differs(v, w)
    if d is None:
        return "open"
    ok = not validate(sch, w).has_errors()
    ctx.check(ok == (not d), "from_native(v) judges another value wrongly", v, w, ok)
    return [ok]


def h_kinds(ctx, cfg):
    """Every other value against from_native(v)."""
    v = ctx.any("v", shape=shape(PLAIN, 1, 1, ("a",), ["int"]), depth=9, strlen=1)
    v = clone(v)
    sch = from_native(v)
    vs = values()
    w = vs[ctx.pick([n for n in REFUSED if n in vs] + [n for n in vs if n not in SUB and n not in REFUSED],
                    "w")]
    d = differs(v, w) if isinstance(w, (type(None), int, float, str, bytes, uuid.UUID, dt.date, list, dict)) \
        else True
    if d is None:
        return "open"
    ok = not validate(sch, w).has_errors()
    ctx.check(ok == (not d), "from_native(v) judges another value wrongly", v, w, ok)
    return [ok]


SCALAR = [k for k in PLAIN if k not in ("list", "dict")]


def TASKS(tier):
    q = tier == "quick"
    b = 25 if q else 400
    out = []

    def add(fn, **cfg):
        out.append({"fn": fn, "cfg": cfg, "budget": b})
    for k in SCALAR:
        kk = [k, "fspecial"] if k == "float" else [k]
        add("h_exact", depth=0, kinds=kk, strlen=3, byteslen=2, wextra=[x for x in PLAIN + OTHER if x != k])
    for k in SCALAR:                            # one kind in lists and dicts, against similar ones
        kk = {"bool": ["bool", "int"], "int": ["int", "float"], "datetime": ["datetime", "date"],
              "str": ["str", "bytes"], "uuid4": ["uuid4", "uuid1"], "float": ["float", "fspecial"],
              "date": ["date", "datetime"], "bytes": ["bytes"], "none": ["none", "bool"]}[k]
        if k == "uuid4":
            add("h_exact", depth=1, top=["list", "dict"], kinds=["uuid4"], wextra=["uuid1"], maxlen=1)
        else:
            add("h_exact", depth=1, top=["list", "dict"], kinds=kk, maxlen=1, strlen=1)
    add("h_exact", depth=0, kinds=["nfloat"])
    add("h_exact", depth=1, top=["list", "dict"], kinds=["nfloat"], maxlen=2)
    add("h_exact", depth=1, top=["list"], kinds=["int"], maxlen=3)
    add("h_exact", depth=1, top=["list", "dict"], kinds=["int", "str"], maxlen=2, w="top")
    add("h_exact", depth=1, top=["dict"], kinds=["int"], keys=("a", "b"))
    add("h_exact", depth=1, top=["dict"], kinds=["int", "none"], keys=("a", 1))
    add("h_exact", depth=1, top=["dict"], kinds=["int"], keys=(None, ("x", 1), True))
    add("h_exact", depth=2, top=["list"], kinds=["int", "list"], maxlen=1)
    add("h_exact", depth=2, top=["list"], kinds=["list", "none"], maxlen=1)
    add("h_exact", depth=2, top=["dict"], kinds=["int", "dict"], maxlen=1)
    add("h_exact", depth=2, top=["list", "dict"], kinds=["int", "list", "dict"], maxlen=1)
    add("h_exact", depth=3, top=["list", "dict"], kinds=["none", "list", "dict"], maxlen=1, longer=0, zz=0)
    add("h_perturb", depth=1, kinds=SCALAR + ["list", "dict"], keys=("a",))
    add("h_perturb", depth=2, kinds=["int", "list", "dict"], keys=("a",), top=["list"])
    add("h_perturb", depth=2, kinds=["int", "list", "dict"], keys=("a",), top=["dict"])
    add("h_perturb", depth=1, kinds=["int", "str", "list"], maxlen=3, top=["list"])
    add("h_perturb", depth=1, kinds=["int", "none", "dict"], keys=("a", "b", 1), top=["dict"])
    add("h_perturb", depth=3, kinds=["none", "list", "dict"], keys=("a",), top=["list"])
    for form in ("ints", "same", "mixed", "rows", "dict", "str", "lists", "dicts", "chain"):
        add("h_long", form=form, n=40 if form != "chain" else 20)
    add("h_refuse", n=0)
    add("h_refuse", n=1)
    add("h_refuse", n=2)
    add("h_special")
    add("h_kinds")
    return out
