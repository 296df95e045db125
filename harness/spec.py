"""Schema descriptions, their construction through the real DSL, and an independent oracle.

A template is a nested tuple (the configuration of a check); make() turns it into a Spec whose
parameters are symbolic; build() declares the schema with d42's DSL; conforms() states the
meaning of the schema without using any d42 code.
"""
import datetime as dt
import math
import re
import uuid

from d42 import optional, schema
from d42.declaration import DeclarationError

from harness.zoo import key_of

REGEXES = [r"^a\d*$", r"[a-c]+", r"^(a|b)0?$", r"x", r"^[^a]$", r"^\w\d{1,2}$",
           r"^a.$", r"\s", r"(?i)^a$", r"(?m)^a$", r"^$", r"a\Z", r"^\W", r"(?s)^.\Z", r"^a|b$", r"(?!a)b"]
ALPHA = ((97, 99), (48, 49))
CHARS = ((97, 100), (65, 66), (48, 50), (10, 10), (0x430, 0x431))


UTC, EAST = dt.timezone.utc, dt.timezone(dt.timedelta(hours=3))
SPECIAL_TIMES = [dt.datetime(2020, 1, 1, 12, tzinfo=UTC), dt.datetime(2020, 1, 1, 15, tzinfo=EAST),
                 dt.datetime(2020, 1, 1, 12), dt.datetime.max]


class Spec:
    many = 0                          # a size worth trying

    def __init__(self, kind, **p):
        self.kind = kind
        self.p = p

    def __repr__(self):
        return f"{self.kind}({', '.join(f'{k}={v!r}' for k, v in self.p.items())})"


class Params:
    """How the parameters of a template become values."""

    def __init__(self, ctx, small=False, strlen=2, int_range=(None, None), len_range=(0, 3),
                 chars=CHARS, floats="grid"):
        self.ctx = ctx
        self.small = small            # concrete small lengths instead of symbolic integers
        self.strlen = strlen
        self.int_range = int_range
        self.len_range = len_range
        self.chars = chars
        self.floats = floats

    def int(self, n):
        return self.ctx.int(n, *self.int_range)

    def flt(self, n):
        return self.ctx.near(n) if self.floats == "near" else self.ctx.float(n)

    def str(self, n, maxlen=None):
        return self.ctx.str(n, self.strlen if maxlen is None else maxlen, chars=self.chars)

    def length(self, n):
        if self.small:
            return self.ctx.small(n, *self.len_range)
        return self.ctx.int(n)


def make(P, t, n="s"):
    """Template -> Spec."""
    if t == "...":
        return "..."
    if isinstance(t, str):
        kind, _, props = t.partition(":")
        return make_scalar(P, kind, [x for x in props.split("+") if x], n)
    tag = t[0]
    if tag == "L":
        elems = [make(P, x, f"{n}.{i}") for i, x in enumerate(t[1])]
        return Spec("list", elems=elems, **make_len(P, t[2] if len(t) > 2 else "", n))
    if tag == "T":
        return Spec("list", type=make(P, t[1], n + ".t"),
                    **make_len(P, t[2] if len(t) > 2 else "", n))
    if tag == "U":
        return Spec("list", **make_len(P, t[1] if len(t) > 1 else "", n))
    if tag == "D":
        keys = [(key_of(k), bool(opt), make(P, x, f"{n}.{i}"))
                for i, (k, opt, x) in enumerate(t[1])]
        return Spec("dict", keys=keys, relaxed=len(t) > 2 and bool(t[2]),
                    first=len(t) > 2 and t[2] == "first")
    if tag == "A":
        return Spec("any", types=[make(P, x, f"{n}.{i}") for i, x in enumerate(t[1])])
    if tag == "AL":
        return Spec("alias", name="Alias", type=make(P, t[1], n + ".al"))
    if tag == "many":
        return make_many(P, t[1], t[2], n)
    raise AssertionError(t)


def make_many(P, form, many, n):
    """Sizes far above those of the other templates; most of the parts are constant."""
    def part(i):
        return make(P, "int:m", n) if i == many - 2 else [Spec("int", value=i), Spec("str"), Spec("none")][i % 3]
    if form == "T":
        s = Spec("list", type=make(P, "int:m", n))
    elif form == "TD":
        s = Spec("list", type=make(P, ("D", [("a", 0, "int:m"), ("b", 1, "str")]), n))
    elif form == "A":
        s = Spec("any", types=[make(P, "int:v", n)] + [Spec("int", value=i) for i in range(many)] +
                 [Spec("none")])
    elif form == "D":
        s = Spec("dict", keys=[("k%d" % i if i % 5 else i, i % 7 == 3, part(i)) for i in range(many)],
                 relaxed=False, first=False)
    elif form == "S":
        s = Spec("str", alphabet="a-b" + "".join([chr(0x100 + i) for i in range(many)]), min_len=many // 2)
    elif form.startswith("L"):
        s = Spec("list", elems=["..."] * ("t" in form) + [part(i) for i in range(many)] + ["..."] * ("h" in form))
    else:
        s = make(P, "int:m", n)
        for i in range(many):
            s = Spec("dict", keys=[("k%d" % i, False, s)], relaxed=i % 2 == 1, first=False) \
                if form == "chainD" or form == "chain" and i % 4 == 0 else \
                Spec("list", elems=[s]) if form == "chainL" or i % 4 == 1 else \
                Spec("list", type=s) if i % 4 == 2 else Spec("alias", name="Alias", type=s)
    s.many = many
    return s


def make_len(P, form, n):
    if form == "":
        return {}
    if form == "len":
        return {"len": P.length(n + ".len")}
    if form == "min":
        return {"min_len": P.length(n + ".min")}
    if form == "max":
        return {"max_len": P.length(n + ".max")}
    if form == "mm":
        return {"min_len": P.length(n + ".min"), "max_len": P.length(n + ".max")}
    raise AssertionError(form)


def make_scalar(P, kind, props, n):
    ctx = P.ctx
    out = {}
    for p in props:
        if kind == "int":
            out[{"v": "value", "m": "min", "M": "max"}[p]] = P.int(f"{n}.{p}")
        elif kind == "float":
            if p[0] == "p":
                out["precision"] = int(p[1:])
            elif p in ("nan", "inf", "ninf", "big"):
                out["value"] = {"nan": math.nan, "inf": math.inf, "ninf": -math.inf,
                                "big": 1e308}[p]
            elif p in ("minf", "Minf", "mninf", "Mninf"):
                out["min" if p[0] == "m" else "max"] = -math.inf if "n" in p[1:3] and \
                    p[1] == "n" else math.inf
            else:
                out[{"v": "value", "m": "min", "M": "max"}[p]] = P.flt(f"{n}.{p}")
        elif kind == "bool":
            out["value"] = ctx.bool(n + ".v")
        elif kind == "bytes":
            out["value"] = ctx.bytes(n + ".v")
        elif kind == "uuid4":
            out["value"] = ctx.uuid4(n + ".v")
        elif kind == "datetime":
            out["value"] = ctx.datetime(n + ".v") if p == "v" else ctx.pick(SPECIAL_TIMES, n + ".z")
        elif kind == "date":
            out["value"] = ctx.date(n + ".v")
        elif kind == "str":
            if p == "v":
                out["value"] = P.str(n + ".v")
            elif p == "a":
                out["alphabet"] = P.str(n + ".a", 2)
            elif p == "c":
                out["substr"] = P.str(n + ".c", 2)
            elif p[0] == "r":
                out["pattern"] = REGEXES[int(p[1:])]
            else:
                out.update(make_len(P, p, n))
    return Spec(kind, **out)


# ---------------------------------------------------------------- declaration
def build(s):
    """Declare the schema through the DSL; DeclarationError escapes."""
    p = s.p
    k = s.kind
    if k == "none":
        return schema.none
    if k in ("bool", "bytes", "uuid4", "datetime", "date"):
        base = getattr(schema, k)
        return base(p["value"]) if "value" in p else base
    if k in ("int", "float"):
        r = getattr(schema, k)
        for name, v in p.items():
            if name == "value":
                r = r(v)
            elif name == "min":
                r = r.min(v)
            elif name == "max":
                r = r.max(v)
            else:
                r = r.precision(v)
        return r
    if k == "str":
        r = schema.str
        done_len = False
        for name, v in p.items():
            if name == "value":
                r = r(v)
            elif name == "alphabet":
                r = r.alphabet(v)
            elif name == "substr":
                r = r.contains(v)
            elif name == "pattern":
                r = r.regex(v)
            elif not done_len:
                r = declare_len(r, p)
                done_len = True
        return r
    if k == "list":
        r = schema.list
        if "elems" in p:
            r = r([... if e == "..." else build(e) for e in p["elems"]])
        elif "type" in p:
            r = r(build(p["type"]))
        return declare_len(r, p)
    if k == "dict":
        if "keys" not in p:
            return schema.dict
        keys = {}
        if p.get("first"):
            keys[...] = ...
        for key, opt, sub in p["keys"]:
            keys[optional(key) if opt else key] = build(sub)
        if p["relaxed"] and not p.get("first"):
            keys[...] = ...
        return schema.dict(keys)
    if k == "any":
        if not p.get("types"):
            return schema.any
        return schema.any(*[build(x) for x in p["types"]])
    if k == "alias":
        return schema.alias(p["name"], build(p["type"]))
    raise AssertionError(k)


def declare_len(r, p):
    if "len" in p:
        return r.len(p["len"])
    if "min_len" in p and "max_len" in p:
        return r.len(p["min_len"], p["max_len"])
    if "min_len" in p:
        return r.len(p["min_len"], ...)
    if "max_len" in p:
        return r.len(..., p["max_len"])
    return r


def declare(ctx, s):
    """build(), where a rejected declaration ends the path as out of scope."""
    try:
        return build(s)
    except DeclarationError:
        ctx.reject()


# ---------------------------------------------------------------- meaning
def len_ok(p, n):
    if "len" in p and n != p["len"]:
        return False
    if "min_len" in p and n < p["min_len"]:
        return False
    if "max_len" in p and n > p["max_len"]:
        return False
    return True


def finite(x):
    return not (math.isnan(x) or math.isinf(x))


def float_value_ok(p, v):
    e = p["value"]
    if not finite(e) or not finite(v):
        return v == e or (math.isnan(e) and math.isnan(v))
    if "precision" in p:
        f = 10 ** p["precision"]
        a, b = v * f, e * f
        if not finite(a) or not finite(b):
            return v == e
        return round(a) == round(b)
    return math.isclose(v, e)


def conforms(s, v):
    """Does v conform to the meaning of the schema?"""
    k = s.kind
    p = s.p
    if k == "none":
        return v is None
    if k == "any":
        if not p.get("types"):
            return True
        for x in p["types"]:
            if conforms(x, v):
                return True
        return False
    if k == "alias":
        return conforms(p["type"], v)
    if k == "bool":
        return isinstance(v, bool) and ("value" not in p or bool(v == p["value"]))
    if k == "int":
        if not isinstance(v, int):
            return False
        if "value" in p and not v == p["value"]:
            return False
        if "min" in p and not v >= p["min"]:
            return False
        if "max" in p and not v <= p["max"]:
            return False
        return True
    if k == "float":
        if not isinstance(v, float):
            return False
        if "value" in p and not float_value_ok(p, v):
            return False
        if "min" in p and not v >= p["min"]:
            return False
        if "max" in p and not v <= p["max"]:
            return False
        return True
    if k == "str":
        if not isinstance(v, str):
            return False
        if "value" in p and not v == p["value"]:
            return False
        if not len_ok(p, len(v)):
            return False
        if "alphabet" in p:
            for ch in v:
                if ch not in p["alphabet"]:
                    return False
        if "substr" in p and p["substr"] not in v:
            return False
        if "pattern" in p and re.search(p["pattern"], v) is None:
            return False
        return True
    if k == "bytes":
        return isinstance(v, bytes) and ("value" not in p or bool(v == p["value"]))
    if k == "uuid4":
        return isinstance(v, uuid.UUID) and v.version == 4 and \
            ("value" not in p or bool(v == p["value"]))
    if k == "datetime":
        return isinstance(v, dt.datetime) and ("value" not in p or bool(v == p["value"]))
    if k == "date":
        return isinstance(v, dt.date) and ("value" not in p or bool(v == p["value"]))
    if k == "list":
        if not isinstance(v, list):
            return False
        n = len(v)
        if not len_ok(p, n):
            return False
        if "type" in p:
            for x in v:
                if not conforms(p["type"], x):
                    return False
            return True
        if "elems" not in p:
            return True
        return elements_ok(p["elems"], v)
    if k == "dict":
        if not isinstance(v, dict):
            return False
        if "keys" not in p:
            return True
        for key, opt, sub in p["keys"]:
            if key in v:
                if not conforms(sub, v[key]):
                    return False
            elif not opt:
                return False
        if not p["relaxed"]:
            names = [key for key, opt, sub in p["keys"]]
            for key in v:
                if key not in names:
                    return False
        return True
    raise AssertionError(k)


def window_ok(elems, v, start):
    if start < 0 or start + len(elems) > len(v):
        return False
    for i, e in enumerate(elems):
        if not conforms(e, v[start + i]):
            return False
    return True


def elements_ok(elems, v):
    n = len(v)
    head = bool(elems) and elems[-1] == "..." and len(elems) > 1
    tail = bool(elems) and elems[0] == "..."
    if head and tail:
        inner = elems[1:-1]
        for start in range(0, n - len(inner) + 1):
            if window_ok(inner, v, start):
                return True
        return False
    if tail:
        inner = elems[1:]
        return window_ok(inner, v, n - len(inner))
    if head:
        return window_ok(elems[:-1], v, 0)
    return n == len(elems) and window_ok(elems, v, 0)


# ---------------------------------------------------------------- helpers for harnesses
def kinds_for(s, extra=("none", "int", "str", "list", "dict")):
    """Kinds of value worth distinguishing for this schema, then unrelated ones."""
    out = []
    walk_kinds(s, out)
    for k in extra:
        if k not in out:
            out.append(k)
    return out


def walk_kinds(s, out):
    if s == "...":
        return
    k = s.kind
    p = s.p
    m = {"none": ["none"], "bool": ["bool"], "int": ["int", "bool"],
         "float": ["float", "fspecial", "int"], "str": ["str"], "bytes": ["bytes"],
         "uuid4": ["uuid4", "uuid1", "uspecial"], "datetime": ["datetime", "date", "dtspecial"],
         "date": ["date", "datetime"], "list": ["list"], "dict": ["dict"]}
    for x in m.get(k, []):
        if x not in out:
            out.append(x)
    for sub in list(p.get("types") or []) + [e for e in p.get("elems", []) if e != "..."]:
        walk_kinds(sub, out)
    if "type" in p:
        walk_kinds(p["type"], out)
    for key, opt, sub in p.get("keys", []):
        walk_kinds(sub, out)


def keys_of(s, out=None):
    """Every dict key mentioned anywhere, plus one that is not."""
    top = out is None
    if top:
        out = []
    if s != "...":
        p = s.p
        for key, opt, sub in p.get("keys", []):
            if key not in out:
                out.append(key)
            keys_of(sub, out)
        for sub in list(p.get("types") or []) + list(p.get("elems", [])):
            keys_of(sub, out)
        if "type" in p:
            keys_of(p["type"], out)
    if top:
        out.append("zz")
    return out


def depth_of(s):
    if s == "...":
        return 0
    p = s.p
    subs = list(p.get("types") or []) + list(p.get("elems", [])) + \
        [sub for _, _, sub in p.get("keys", [])]
    if "type" in p:
        subs.append(p["type"])
    d = max([depth_of(x) for x in subs] + [0])
    return d + (1 if s.kind in ("list", "dict") else 0)


def value_for(ctx, s, name="v", maxlen=None, extra=("none", "int", "str", "list", "dict"),
              strlen=2, **opts):
    """A lazily typed value deep enough to exercise every part of the schema."""
    return ctx.any(name, kinds_for(s, extra), depth=depth_of(s) + 1,
                   keys=tuple(keys_of(s)), strlen=strlen,
                   maxlen=3 if maxlen is None else maxlen, **opts)


# ---------------------------------------------------------------- values guided by the schema
OWN = {"none": ["none"], "bool": ["bool"], "int": ["int"], "float": ["float", "fspecial"],
       "str": ["str"], "bytes": ["bytes"], "uuid4": ["uuid4", "uspecial"], "datetime": ["datetime", "dtspecial"],
       "date": ["date"], "list": ["list"], "dict": ["dict"]}
LEAF = {"kinds": ["int", "none"]}
UNTYPED = {"kinds": ["int", "list", "dict"], "elems": [LEAF], "maxlen": 1, "keys": {"a": LEAF}}


def merge_shapes(shapes):
    out = {"kinds": []}
    for sh in shapes:
        for k in sh["kinds"]:
            if k not in out["kinds"]:
                out["kinds"].append(k)
        if "maxlen" in sh:
            out["maxlen"] = max(out.get("maxlen", 0), sh["maxlen"])
    if "list" in out["kinds"]:
        ls = [sh.get("elems") or [LEAF] for sh in shapes if "list" in sh["kinds"]]
        n = max([len(x) for x in ls])
        out["elems"] = [merge_shapes([x[min(i, len(x) - 1)] for x in ls]) for i in range(n)]
    if "dict" in out["kinds"]:
        keys = {}
        for sh in shapes:
            for k, sub in sh.get("keys", {}).items():
                keys.setdefault(k, []).append(sub)
        out["keys"] = {k: merge_shapes(v) for k, v in keys.items()}
    return out


def shape_of(s, other=True, zz=True, longer=1, maxlen=None):
    """Kinds, keys and lengths worth distinguishing at every position of a value of the schema,
    plus (other) an unrelated kind, (zz) an undeclared key, and (longer) elements too many."""
    opts = (other, zz, longer, maxlen)
    p = s.p
    if s.kind == "alias":
        return shape_of(p["type"], *opts)
    if s.kind == "any":
        if not p.get("types"):
            return UNTYPED
        return merge_shapes([shape_of(x, *opts) for x in p["types"]])
    out = {"kinds": list(OWN[s.kind])}
    if s.kind == "list":
        if "type" in p:
            out["elems"] = [shape_of(p["type"], *opts)]
            n = 1
        elif "elems" in p:
            inner = [e for e in p["elems"] if e != "..."]
            n = len(inner)
            subs = [shape_of(e, *opts) for e in inner]
            if len(inner) == len(p["elems"]):
                out["elems"] = (subs or [LEAF]) + [LEAF]
            elif p["elems"][0] != "..." :
                out["elems"] = subs + [LEAF]
            else:
                out["elems"] = [merge_shapes(subs + [LEAF])] if subs else [LEAF]
        else:
            out["elems"] = [LEAF]
            n = 1
        out["maxlen"] = n + longer if maxlen is None else max(n, maxlen)
    if s.kind == "dict":
        out["keys"] = {key: shape_of(sub, *opts) for key, opt, sub in p.get("keys", [])}
        if "keys" not in p:
            out["keys"]["a"] = LEAF
        if zz:
            out["keys"]["zz"] = {"kinds": ["int"]}
    if other is True:
        out["kinds"].append("none" if s.kind != "none" else "int")
    elif other:
        out["kinds"] += [k for k in other if k not in out["kinds"]]
    return out


def near(shape):
    """The floats of the values are close to each other."""
    out = dict(shape, kinds=[{"float": "nfloat"}.get(k, k) for k in shape["kinds"] if k != "fspecial"])
    if "elems" in out:
        out["elems"] = [near(x) for x in out["elems"]]
    if "keys" in out:
        out["keys"] = {k: near(x) for k, x in out["keys"].items()}
    return out


def guided(ctx, s, name, strlen=1, close=False, **opts):
    shape = shape_of(s, **opts)
    return ctx.any(name, shape=near(shape) if close else shape, depth=9, strlen=strlen)


# ---------------------------------------------------------------- values off in one place
def deviant(ctx, s, name, mode="dev"):
    """A value that follows the schema everywhere but in one place ("dev") or everywhere, with
    variety along one path ("full") or none ("lean")."""
    p = s.p
    if s.kind == "alias":
        return deviant(ctx, p["type"], name, mode)
    if s.kind == "any":
        types = p.get("types")
        if not types:
            return ctx.any(name, ["int"] if mode == "lean" else ["int", "none"])
        if s.many:
            i = ctx.pick([0, 1, len(types) - 2, len(types) - 1] + ["none"] * (mode == "dev"), "alt")
            return ctx.any(name, ["str", "list", "int"]) if i == "none" else deviant(ctx, types[i], name, mode)
        return deviant(ctx, types[0 if mode == "lean" else ctx.choose(len(types), "alt")], name, mode)
    if s.kind == "list":
        return deviant_list(ctx, s, name, mode)
    if s.kind == "dict":
        return deviant_dict(ctx, s, name, mode)
    if s.many:
        n = ctx.pick([s.many, s.many + 1, s.many // 2], "len")
        at = ctx.pick(places_of(n), "at")
        v = "a" * at + ctx.str(name, 1, 1) + "a" * (n - 1 - at)
        ctx.assume(mode == "dev" or conforms(s, v))
        return v
    if mode == "dev":
        return ctx.any(name, OWN[s.kind] + ["none" if s.kind != "none" else "int"], strlen=1)
    if mode == "lean" and "value" in p:
        return p["value"]
    v = ctx.any(name, OWN[s.kind][:1] if mode == "lean" else OWN[s.kind], strlen=1)
    ctx.assume(conforms(s, v))
    return v


def places_of(n):
    """Places in a long sequence."""
    return sorted({i for i in (0, 1, 9, 10, 16, 32, n // 2, n - 2, n - 1) if 0 <= i < n})


def inner_mode(mode, here):
    return mode if here else "lean"


def deviant_list(ctx, s, name, mode):
    p = s.p
    dev = mode == "dev"
    full = mode != "lean"
    if "type" in p or "elems" not in p:
        scalar = "type" in p and p["type"].kind not in ("list", "dict", "any", "alias")
        n = ctx.small("n", 0, 4 if scalar else 2) if full else 1
        parts = [p.get("type")] * n
        if s.many and full and p.get("type") is not None and p["type"].many == 0:
            parts = [p["type"]] * ctx.pick([s.many, s.many - 1, 11], "n")
    else:
        parts = [e for e in p["elems"] if e != "..."]
        if len(p["elems"]) > len(parts):
            more = ctx.choose(2, "more") if full else 0
            if more and p["elems"][0] == "...":
                parts = [None] + parts
            if more and p["elems"][-1] == "...":
                parts = parts + [None]
    places = [i for i in (places_of(len(parts)) if s.many else range(len(parts))) if parts[i] is not None]
    at = ctx.pick((["other", "short", "long"] if dev else ["none"] * (not places)) + places, "at") \
        if full else "none"
    if at == "other":
        return ctx.any(name, ["none", "int"])
    if at == "short":
        if not parts:
            ctx.reject()
        parts = parts[:-1]
    out = [ctx.any(f"{name}.{i}", ["int"]) if parts[i] is None
           else deviant(ctx, parts[i], f"{name}.{i}", inner_mode(mode, at == i))
           for i in range(len(parts))]
    if at == "long":
        out.append(ctx.any(f"{name}.x", ["int"]))
    if not dev:
        ctx.assume(len_ok(p, len(out)))
    return out


def deviant_dict(ctx, s, name, mode):
    keys = s.p.get("keys", [])
    dev = mode == "dev"
    full = mode != "lean"
    open_ = s.p.get("relaxed") or "keys" not in s.p
    at = "none"
    if full:
        here = ["other", "extra"] if dev else ["none"] + ["extra"] * bool(open_)
        some = places_of(len(keys)) if s.many else range(len(keys))
        at = ctx.pick(here + [("in", i) for i in some] + [("no", i) for i in some if keys[i][1] or dev], "at")
    if at == "other":
        return ctx.any(name, ["none", "int"])
    out = {}
    for i in range(len(keys)):
        key, opt, sub = keys[i]
        if at != ("no", i):
            out[key] = deviant(ctx, sub, f"{name}.{i}", inner_mode(mode, at == ("in", i)))
    if at == "extra":
        out["zz"] = ctx.any(f"{name}.x", ["int"])
    return out


# ---------------------------------------------------------------- structures chosen symbolically
FORMS = {
    "T": lambda x: ("T", x), "L2": lambda x: ("L", ["int:M", x]), "Lh": lambda x: ("L", [x, "..."]),
    "Lt": lambda x: ("L", ["...", x]), "Lb": lambda x: ("L", ["...", x, "..."]),
    "D2": lambda x: ("D", [("a", 0, "int:M"), ("b", 0, x)]), "DO": lambda x: ("D", [("a", 1, x)], 1),
    "AL": lambda x: ("AL", x), "A": lambda x: ("A", [x, "none"]),
}


LEAVES = ["int:m", "int:v+m", "float:M", "float:v+p1", "str:v", "str:len+a", "str:c", "str:r0", "bool:v",
          "none", "bytes:v", "uuid4", "datetime:v", "date", "any", "list", "dict", ("L", []), ("D", [])]


def deep_template(ctx, outer, leaves=("int:m",), depth=3):
    """outer(middle(inner(leaf))) with every container form in every place."""
    if outer[0] == "many":
        return (*outer, depth)
    if outer[0] == "wide":
        return wide_template(ctx, outer[1], depth)
    t = ctx.pick(leaves, "leaf") if len(leaves) > 1 else leaves[0]
    for _ in range(depth - len(outer)):
        t = FORMS[ctx.pick(list(FORMS), "form")](t)
    for f in reversed(outer):
        t = FORMS[f](t)
    return t


WIDE_KEYS = ["a", "b", "c", 1, None, ("x", 1), "d", "e"]
WIDE_LEAVES = ["int:v", "str", "int:m", "none", "bool", "int:v+m", "int:M", "str:v"]


def wide_template(ctx, form, most):
    """Up to `most` keys, elements or alternatives."""
    n = ctx.small("width", 4, most)
    if form == "A":
        return ("A", [WIDE_LEAVES[i] if i else "int:v" for i in range(n)])
    if form == "D":
        opt = ctx.pick(["none", "all"] + list(range(n)), "optional")
        return ("D", [(WIDE_KEYS[i], int(opt == "all" or opt == i), WIDE_LEAVES[i]) for i in range(n)],
                ctx.pick([0, 1, "first"], "relaxed"))
    elems = [WIDE_LEAVES[i] for i in range(n)]
    return ("L", ["..."] * ("t" in form) + elems + ["..."] * ("h" in form))


def deep_configs(depth=3, wide=5, many=40, chain=40, **more):
    """Configurations that cover every nesting of container forms, every kind of leaf in each,
    chains of five and of `many` containers, and containers with up to `wide` and with `many` members."""
    out = [dict(more, deep=(f, g) if depth > 2 else (f,), depth=depth) for f in FORMS
           for g in (FORMS if depth > 2 else ["T"])]
    out += [dict(more, deep=(f, g, f, g, f), depth=5)
            for f, g in [("D2", "D2"), ("DO", "DO"), ("D2", "L2"), ("T", "DO"), ("A", "D2"), ("AL", "Lh")]]
    out += [dict(more, deep=("wide", f), depth=wide) for f in ("D", "L", "Lh", "Lt", "Lht", "A")]
    out += [dict(more, deep=("many", f), depth=chain if f.startswith("chain") else many)
            for f in ("T", "TD", "D", "L", "Lh", "Lt", "A", "S", "chain", "chainD", "chainL") if many]
    return out + [dict(more, deep=(f,), depth=1, leaves=LEAVES) for f in FORMS]


def template_of(ctx, cfg):
    if "deep" in cfg:
        return deep_template(ctx, cfg["deep"], cfg.get("leaves", ("int:m",)), cfg["depth"])
    if cfg.get("inside"):
        return ctx.pick(INSIDE, "inside")(cfg["t"])
    return cfg["t"]


# what a template can be a part of
INSIDE = [lambda t: ("D", [("a", 0, ("D", [("b", 1, t)]))]), lambda t: ("L", [("D", [("a", 1, t)], 1), "..."]),
          lambda t: ("D", [("a", 1, ("L", ["...", t]))], 1), lambda t: ("T", ("T", t)),
          lambda t: ("D", [("a", 0, ("A", ["none", ("T", t)]))]), lambda t: ("A", [("L", [t, t]), ("D", [("a", 0, t)])]),
          lambda t: ("D", [("a", 0, ("D", [("b", 0, ("D", [("c", 0, t), ("d", 1, t)]))]))])]


def any_template(ctx, depth, leaves, width=1, lens=("",), keys=("a", "b"), alias=False):
    """Every template within these bounds, one path each."""
    E = "..."
    forms = list(leaves)
    if depth > 0:
        forms += ["T", "L", "D", "A"] + (["AL"] if alias else [])
    f = ctx.pick(forms, "form")
    if f not in ("T", "L", "D", "A", "AL"):
        return f
    args = (depth - 1, leaves, width, lens, keys, alias)
    if f == "AL":
        return ("AL", any_template(ctx, *args))
    if f == "T":
        return ("T", any_template(ctx, *args), ctx.pick(lens, "lens") if len(lens) > 1 else "")
    n = ctx.small("n", 1 if f == "A" else 0, width)
    if f == "A":
        return ("A", [any_template(ctx, *args) for _ in range(n)])
    if f == "D":
        relaxed = ctx.pick([0, 1, "first"] if n else [0, 1], "relaxed")
        ks = []
        for i in range(n):
            opt = ctx.choose(2, "opt")
            ks.append((keys[i], opt, any_template(ctx, *args)))
        return ("D", ks, relaxed)
    elems = [any_template(ctx, *args) for _ in range(n)]
    ell = ctx.pick(["", "h", "t", "ht"] if n else ["", "h"], "ell")
    if ell == "h" or ell == "ht":
        elems = elems + [E]
    if ell == "t" or ell == "ht":
        elems = [E] + elems
    return ("L", elems, ctx.pick(lens, "lens") if len(lens) > 1 else "")
