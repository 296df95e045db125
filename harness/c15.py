"""C15: schema equality is structural; schema == value means the value validates."""
from d42 import optional, schema, substitute, validate
from d42.custom_type import CustomSchema
from d42.declaration import Props, Schema
from d42.utils import from_native, make_required
from d42.validation import eq

from harness import templates as T
from harness.spec import (Params, Spec, any_template, conforms, declare, guided, keys_of, kinds_for, make,
                          merge_shapes, near, shape_of, value_for)
from harness.zoo import LABELS, MyInt, MyStr, values, zoo

BOUNDS = {
    "schemas": "pairs and triples out of all templates of harness/templates.py of one kind, all "
               "structures within the sizes of TASKS(), and their one-step changes",
    "large": "structures of 20 members and chains of 7 containers, with one-step changes anywhere",
    "parameters": "each symbolic and independent in each schema: unbounded ints, floats k/4, "
                  "strings up to 1 character (2 alone)",
    "values": "lazily typed, guided by both schemas; every value of harness/zoo.py",
}
ASSUMPTIONS = ["compared values have an == that answers with a truth value"]


def params(ctx, cfg):
    return Params(ctx, small=cfg.get("small", False), strlen=cfg.get("strlen", 1), floats=cfg.get("floats", "grid"))


def equal(ctx, a, b, *info):
    """a == b, checking ==, != in both directions against each other."""
    r = a == b
    ctx.check(isinstance(r, bool), "== does not answer with a bool", *info)
    ctx.check((b == a) == r, "== is not symmetric", *info)
    ctx.check((a != b) == (not r), "!= is not the negation of ==", *info)
    ctx.check((b != a) == (not r), "!= is not symmetric", *info)
    return r


def accepts(sch, v):
    return not validate(sch, v).has_errors()


def same_verdicts(ctx, a, b, sa, sb, v, alike):
    """Equal schemas judge v alike; where the meanings differ the schemas do too."""
    x, y = accepts(a, v), accepts(b, v)
    if alike:
        ctx.check(x == y, "equal schemas judge a value differently", sa, sb, v)
        ctx.check(conforms(sa, v) == conforms(sb, v), "schemas that mean different things are equal",
                  sa, sb, v)
    ctx.check((a == v) == x, "schema == value and validate() differ", sa, v)
    ctx.check((a != v) == (not x), "schema != value and validate() differ", sa, v)
    return [x, y]


def value_of(ctx, cfg, sa, sb):
    sh = merge_shapes([shape_of(sa, other=cfg.get("other", False)), shape_of(sb, other=False)])
    if cfg.get("floats") == "near":
        sh = near(sh)
    return ctx.any("v", shape=sh, depth=9, strlen=cfg.get("vstr", 1))


def h_same(ctx, cfg):
    """Reflexive; an independent build is equal and judges alike."""
    P = params(ctx, cfg)
    t = any_template(ctx, **cfg["any"]) if "any" in cfg else cfg["t"]
    s = make(P, t)
    a, b = declare(ctx, s), declare(ctx, s)
    ctx.check(equal(ctx, a, a, s), "a schema is not equal to itself", s)
    ctx.check(equal(ctx, a, b, s), "independent builds of one declaration are unequal", s)
    return True


def h_pair(ctx, cfg):
    """Two schemas out of a pool, every parameter independent."""
    P = params(ctx, cfg)
    pool = cfg["pool"]
    i = ctx.choose(len(pool), "i") if "i" not in cfg else cfg["i"]
    j = ctx.small("j", i, len(pool) - 1)
    sa, sb = make(P, pool[i], "s"), make(P, pool[j], "t")
    a, b = declare(ctx, sa), declare(ctx, sb)
    r = equal(ctx, a, b, sa, sb)
    if not r:
        return r
    v = value_of(ctx, cfg, sa, sb)
    return same_verdicts(ctx, a, b, sa, sb, v, r)


def h_any_pair(ctx, cfg):
    """Two structures chosen independently."""
    P = params(ctx, cfg)
    sa = make(P, any_template(ctx, **cfg["any"]), "s")
    sb = make(P, any_template(ctx, **cfg.get("any2", cfg["any"])), "t")
    a, b = declare(ctx, sa), declare(ctx, sb)
    r = equal(ctx, a, b, sa, sb)
    if not r:
        return r
    v = value_of(ctx, cfg, sa, sb)
    return same_verdicts(ctx, a, b, sa, sb, v, r)


def h_triple(ctx, cfg):
    """Transitive."""
    P = params(ctx, cfg)
    pool = cfg["pool"]
    ss = [make(P, ctx.pick(pool, n), n) for n in "stu"]
    a, b, c = [declare(ctx, s) for s in ss]
    x, y, z = a == b, b == c, a == c
    if x and y:
        ctx.check(z, "== is not transitive", *ss)
    if x and z:
        ctx.check(y, "== is not transitive", *ss)
    return [x, y, z]


class Odd(Schema[Props]):
    """A user-defined type with properties of its own."""

    def __accept__(self, visitor, **kwargs):
        raise NotImplementedError


class Odd2(Odd):
    pass


def h_props(ctx, cfg):
    """Properties of a user-defined type: missing, Nil, values, schemas and lists of them."""
    from niltype import Nil
    kinds = [None, lambda n: ctx.int(n), lambda n: ctx.near(n), lambda n: Nil, lambda n: schema.any, lambda n: schema.int,
             lambda n: [schema.any], lambda n: [...], lambda n: (schema.int, True), lambda n: ...,
             lambda n: {"a": schema.any}, lambda n: {"a": 1}, lambda n: schema.int(ctx.int(n + ".s"))]
    cls = [Odd, Odd2]

    def one(n):
        p = Props()
        for name in ("x", "y")[:cfg["n"]]:
            k = ctx.pick(kinds, n + name)
            if k is not None:
                p = p.update(**{name: k(n + name)})
        c = ctx.pick(cls, n + "cls")
        return c(p), c, {m: p.get(m) for m in ("x", "y")}
    a, ca, pa = one("a")
    b, cb, pb = one("b")
    want = same_props(pa, pb)
    if ca is cb:
        r = equal(ctx, a, b, pa, pb)
        ctx.check(r == want, "equality of properties is not structural", pa, pb)
    else:
        r = equal(ctx, a, b, pa, pb)
        ctx.check(eq(a, b) == eq(b, a), "eq() is not symmetric", pa, pb)
    return r


def same_props(x, y):
    """Structural equality without any fallback."""
    from niltype import Nil
    if isinstance(x, dict) or isinstance(y, dict):
        return isinstance(x, dict) and isinstance(y, dict) and sorted(x) == sorted(y) and \
            all([same_props(x[k], y[k]) for k in x])
    if isinstance(x, (list, tuple)) or isinstance(y, (list, tuple)):
        return type(x) is type(y) and len(x) == len(y) and \
            all([same_props(p, q) for p, q in zip(x, y)])
    if isinstance(x, Schema) or isinstance(y, Schema):
        return isinstance(x, Schema) and isinstance(y, Schema) and type(x) is type(y) and \
            same_props({n: x.props.get(n) for n in x.props}, {n: y.props.get(n) for n in y.props})
    if x is Nil or y is Nil or x is ... or y is ...:
        return x is y
    return bool(x == y)


def change(ctx, s, n):
    """A one-step change of the meaning of the schema: a parameter, a key, a flag, an element, an
    alternative, an ellipsis, a length; somewhere within it."""
    k, p = s.kind, dict(s.p)
    new = lambda: Spec("bytes")
    if k in ("any", "alias"):
        if k == "alias":
            return Spec(k, **dict(p, type=change(ctx, p["type"], n + ".t")))
        ts = list(p.get("types") or [])
        i = ctx.choose(len(ts) + 2, n + ".any")
        if i < len(ts):
            ts[i] = change(ctx, ts[i], f"{n}.{i}")
        elif i == len(ts):
            ts.append(new())
        elif ts:
            ts.pop(ctx.choose(len(ts), n + ".drop"))
        ctx.assume(len(ts) > 0)
        return Spec(k, types=ts)
    if k == "dict":
        if "keys" not in p:
            return Spec(k, keys=[], relaxed=ctx.flag(n + ".rel"))
        keys = list(p["keys"])
        i = ctx.choose(len(keys) * 4 + 2, n + ".dict")
        if i < len(keys) * 4:
            j, how = divmod(i, 4)
            key, opt, sub = keys[j]
            if how == 0:
                keys[j] = (key, not opt, sub)
            elif how == 1:
                keys[j] = (key, opt, change(ctx, sub, f"{n}.{j}"))
            elif how == 2:
                keys.pop(j)
            else:
                keys[j] = ("zz", opt, sub)
        elif i == len(keys) * 4:
            p["relaxed"] = not p["relaxed"]
            p.pop("first", None)
        else:
            keys.append(("zz", ctx.flag(n + ".opt"), new()))
        p["keys"] = keys
        return Spec(k, **p)
    if k == "list":
        if "type" in p and ctx.flag(n + ".type"):
            return Spec(k, **dict(p, type=change(ctx, p["type"], n + ".t")))
        if "elems" in p:
            es = list(p["elems"])
            i = ctx.choose(len(es) * 2 + 3, n + ".elems")
            if i < len(es):
                if es[i] == "...":
                    es[i] = new() if ctx.flag(n + ".e") else Spec("any")
                else:
                    es[i] = change(ctx, es[i], f"{n}.{i}")
            elif i < 2 * len(es):
                es.pop(i - len(es))
            elif i == 2 * len(es):
                es.append(new())
            elif i == 2 * len(es) + 1:
                es.append("...")
            else:
                es.insert(0, "...")
            return Spec(k, **dict(p, elems=es))
        if "type" not in p and ctx.flag(n + ".typed"):
            return Spec(k, **dict(p, type=Spec("any") if ctx.flag(n + ".tany") else new()))
        return Spec(k, **lens(ctx, p, n))
    names = {"int": ["value", "min", "max"], "float": ["value", "min", "max", "precision"],
             "str": ["value", "alphabet", "substr", "pattern", "len", "min_len", "max_len"],
             "none": []}.get(k, ["value"])
    i = ctx.choose(len(names) + 1, n + ".prop")
    if i == len(names):
        return new() if k != "bytes" else Spec("none")
    name = names[i]
    if name in p and ctx.flag(n + ".drop"):
        p.pop(name)
        return Spec(k, **p)
    P = params(ctx, {})
    vals = {("int", 0): P.int, ("int", 1): P.int, ("int", 2): P.int, ("float", 0): P.flt, ("float", 1): P.flt,
            ("float", 2): P.flt, ("float", 3): lambda m: ctx.small(m, 0, 3), ("str", 0): P.str,
            ("str", 1): P.str, ("str", 2): P.str, ("str", 3): lambda m: ctx.pick(["a", "[ab]", r"^\d$"], m),
            ("str", 4): P.length, ("str", 5): P.length, ("str", 6): P.length, ("bool", 0): ctx.bool,
            ("bytes", 0): ctx.bytes, ("uuid4", 0): ctx.uuid4, ("datetime", 0): ctx.datetime,
            ("date", 0): ctx.date}
    drop_lens(p, name)
    p[name] = vals[k, i](f"{n}.new")
    return Spec(k, **p)


def lens(ctx, p, n):
    p = {k: v for k, v in p.items()}
    name = ctx.pick(["len", "min_len", "max_len"], n + ".len")
    if name in p and ctx.flag(n + ".drop"):
        p.pop(name)
    else:
        drop_lens(p, name)
        p[name] = ctx.int(n + ".new")
    return p


def drop_lens(p, name):
    """An exact length excludes the others (only one of them is declared)."""
    if name == "len":
        p.pop("min_len", None)
        p.pop("max_len", None)
    elif name in ("min_len", "max_len"):
        p.pop("len", None)


def h_change(ctx, cfg):
    """A schema and its one-step change."""
    P = params(ctx, cfg)
    s = make(P, any_template(ctx, **cfg["any"]) if "any" in cfg else cfg["t"])
    t = change(ctx, s, "c")
    a, b = declare(ctx, s), declare(ctx, t)
    r = equal(ctx, a, b, s, t)
    if not r:
        return r
    v = value_of(ctx, cfg, s, t)
    return same_verdicts(ctx, a, b, s, t, v, r)


def h_value(ctx, cfg):
    """schema == value"""
    P = params(ctx, cfg)
    s = make(P, cfg["t"])
    sch = declare(ctx, s)
    if "zoo" in cfg:
        v = ctx.any("v", zoo() + ["ellipsis", "nil"])
    elif s.kind in ("list", "dict", "any", "alias"):
        v = guided(ctx, s, "v", other=["none", "ellipsis", "nil", "tuple"])
    else:
        v = ctx.any("v", kinds_for(s, ("none", "int", "str", "list", "dict", "ellipsis", "nil", "tuple",
                                       "bytes", "date", "bool", "float")),
                    depth=2, strlen=2, maxlen=1, child_kinds=["int"])
    ok = accepts(sch, v)
    ctx.check((sch == v) == ok, "schema == value and validate() differ", s, v)
    ctx.check((sch != v) == (not ok), "schema != value and validate() differ", s, v)
    if "zoo" not in cfg:
        ctx.check((v == sch) == ok, "value == schema and validate() differ", s, v)
        ctx.check((v != sch) == (not ok), "value != schema and validate() differ", s, v)
    return ok


def h_built(ctx, cfg):
    """The same declaration by other means is the same schema."""
    i, m, n = ctx.int("i"), ctx.int("m"), ctx.int("n")
    s1, rel = schema.str, ctx.choose(2, "rel")
    x = ctx.str("x", 1)
    r = {...: ...} if rel else {}
    cases = [
        lambda: (schema.int.min(m).max(n), schema.int.max(n).min(m)),
        lambda: (schema.int(i).min(m), schema.int.min(m)(i)),
        lambda: (schema.any(schema.any(schema.int(i), s1), schema.none), schema.int(i) | s1 | schema.none),
        lambda: (schema.dict({"a": schema.int(i), optional("b"): s1, **r}),
                 schema.dict({"a": schema.int(i)}) + schema.dict({optional("b"): s1, **r})),
        lambda: (schema.dict({"a": schema.int(i), optional("b"): s1, **r}),
                 schema.dict({optional("b"): s1, **r, "a": schema.int(i)})),
        lambda: (schema.dict({"a": schema.int(i), "b": s1, **r}),
                 make_required(schema.dict({optional("a"): schema.int(i), "b": s1, **r}))),
        lambda: (schema.list([schema.int(i), schema.dict({"a": schema.str(x)})]), from_native([i, {"a": x}])),
        lambda: (schema.int(i), from_native(i)),
        lambda: (schema.list.len(m, n), schema.list.len(m, n)),
        lambda: (schema.str.alphabet("ab").contains("a"), schema.str.contains("a").alphabet("ab")),
        lambda: (schema.float.precision(1).min(0.5), schema.float.min(0.5).precision(1)),
        lambda: (substitute(schema.int, i), schema.int(i)),
        lambda: (substitute(schema.dict({"a": schema.int, **r}), {"a": i}), schema.dict({"a": schema.int(i), **r})),
        lambda: (substitute(schema.list, [i]), schema.list([schema.int(i)])),
    ]
    try:
        a, b = ctx.pick(cases, "case")()
    except Exception as e:
        if type(e).__name__ != "DeclarationError":
            raise
        ctx.reject()
    ctx.check(equal(ctx, a, b), "the same declaration by other means is another schema", i, m, n, x, rel)
    return True


SAMPLE = ["none", "bool", "bool:v", "int", "int:v", "int:m", "float", "float:v", "float:nan", "str", "str:v", "str:len",
          "bytes", "bytes:v", "uuid4", "uuid4:v", "datetime", "datetime:v", "date", "date:v", "any",
          ("U",), ("L", []), ("L", ["..."]), ("L", ["any"]), ("T", "any"), ("T", "none"), ("L", ["none"]), "dict", ("D", []),
          ("D", [], 1), ("A", ["any"]), ("A", ["none"]), ("AL", "any"), ("AL", "none"), ("A", ["int:v"])]
FLT = [t for t in T.FLT]
ALL = T.SCALARS + T.CONTAINERS


def TASKS(tier):
    q = tier == "quick"
    b = 20 if q else 400
    out = []

    def add(fn, **cfg):
        out.append({"fn": fn, "cfg": cfg, "budget": b})
    for t in ALL:
        add("h_same", t=t)
        add("h_change", t=t)
        add("h_value", t=t, small=True)
    for t in SAMPLE + [("D", [("a", 0, "int")]), ("A", ["int", "none"]), ("T", "int")]:
        add("h_value", t=t, zoo=1)
    for pool in (T.NUM, T.FLT, [t for t in T.STR if ":r" not in t and "+r" not in t], ["str:r0", "str:r1", "str", "str:v+r1", "str:r5", "str:a"],
                 T.MISC, T.DICTS, T.ANYS):
        add("h_pair", pool=pool)
    for i in range(0, len(T.LISTS), 3):
        add("h_pair", pool=T.LISTS[i:] , i=0)
    add("h_pair", pool=T.NESTED)
    for i in range(0, len(SAMPLE), 6):
        add("h_pair", pool=SAMPLE[i:] , i=0)
    add("h_pair", pool=SAMPLE)
    tri = ["any", "none", "int", "int:v", ("A", ["none"]), ("A", ["any"]), ("T", "any"), ("L", ["any"]), ("L", ["..."]), ("U",)]
    add("h_triple", pool=tri)
    add("h_triple", pool=["float", "float:v", "float:nan", "float:inf", "float:m", "float:p1", "float:v+p1"])
    add("h_triple", pool=T.CLOSE[:6], floats="near")
    add("h_pair", pool=T.CLOSE, floats="near")
    add("h_pair", pool=T.FLOATS, floats="near")
    add("h_triple", pool=["int", "int:v", "int:m", "int:M", "int:m+M", "int:v+m+M"])
    add("h_triple", pool=["str", "str:v", "str:len", "str:min", "str:mm", "str:a", "str:c", "str:r0", "str:r1"])
    add("h_triple", pool=T.DICTS[:8])
    add("h_triple", pool=T.MISC)
    add("h_props", n=1)
    add("h_props", n=2)
    add("h_built")
    for form in ("T", "TD", "D", "L", "Lh", "Lt", "A", "S"):
        add("h_change", t=("many", form, 20))
    for form in ("chain", "chainD", "chainL"):
        add("h_change", t=("many", form, 7))
    add("h_same", any=dict(depth=2, leaves=["int:v"], width=2))
    add("h_any_pair", any=dict(depth=1, leaves=["none", "any"], width=1, alias=True))
    add("h_any_pair", any=dict(depth=1, leaves=["int:v"], width=2, keys=("a", "b")))
    add("h_any_pair", any=dict(depth=2, leaves=["any"], width=1))
    add("h_any_pair", any=dict(depth=1, leaves=["any"], width=2, lens=("", "len", "min", "max")))
    add("h_any_pair", any=dict(depth=1, leaves=["none"], width=2), any2=dict(depth=1, leaves=["any"], width=2))
    add("h_change", any=dict(depth=2, leaves=["int:v"], width=1, lens=("", "len", "min")))
    add("h_change", any=dict(depth=1, leaves=["any", "none"], width=2))
    return out
