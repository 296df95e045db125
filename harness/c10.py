"""C10: a declaration either fails cleanly or yields a self-consistent schema."""
import re

from d42 import optional, schema, validate
from d42.declaration import DeclarationError, Schema

from harness.snap import clone, same, snap
from harness.spec import CHARS, REGEXES, Spec, conforms
from harness.zoo import BAD_REPR, HUGE, K1, ODD, OPAQUE, Color, MyStr, values, zoo

BOUNDS = {
    "chains": "up to three calls (four for str in the thorough tier) on every built-in type",
    "arguments": "lazily typed: the fitting kinds (unbounded ints, floats k/4 and special, strings "
                 "up to 2 characters) and unfitting ones; every value of harness/zoo.py as a "
                 "single argument",
    "lists": "up to three elements out of schemas, `...` and foreign values, then a length",
    "dicts": "up to two entries out of ordinary, optional, ellipsis and unusual keys and values",
}
ASSUMPTIONS = ["the number of arguments fits the signature",
               "calls that exist for the type (schema.none takes none)"]

FIT = {"int": ["int", "bool"], "float": ["float", "fspecial"], "str": ["str"], "len": ["int", "bool"],
       "bytes": ["bytes"], "bool": ["bool"], "uuid4": ["uuid4", "uuid1"], "datetime": ["datetime"],
       "date": ["date", "datetime"]}
UNFIT = ["none", "ellipsis", "nil", "tuple"]
CALLS = {
    "int": [("value", "int"), ("min", "int"), ("max", "int")],
    "float": [("value", "float"), ("min", "float"), ("max", "float"), ("precision", "len")],
    "str": [("value", "str"), ("alphabet", "str"), ("substr", "str"), ("len", "len"), ("min_len", "len"),
            ("max_len", "len"), ("mm", "len"), ("pattern", "re")],
    "bytes": [("value", "bytes")], "bool": [("value", "bool")], "uuid4": [("value", "uuid4")],
    "datetime": [("value", "datetime")], "date": [("value", "date")],
}
PATTERNS = REGEXES + ["", "(", "[", "*", "a**", "\\", "(?P<n>", "a{2,1}", "(?<=a+)b", "(?(1)a|b)", "\\1",
                      "a{99999999999999999999}", "(" * 300 + ")" * 300, "[b-a]", "(?i)A", "\ud800",
                      MyStr("a+"), "(?P<a>x)(?P<a>y)", "x{1,3}", "$^"]


def call(sch, name, *args):
    if name == "value":
        return sch(*args)
    if name in ("min", "max", "precision", "alphabet"):
        return getattr(sch, name)(*args)
    if name == "substr":
        return sch.contains(*args)
    if name == "pattern":
        return sch.regex(*args)
    if name == "len":
        return sch.len(*args)
    if name == "min_len":
        return sch.len(args[0], ...)
    if name == "max_len":
        return sch.len(..., args[0])
    if name == "mm":
        return sch.len(args[0], args[1])
    raise AssertionError(name)


def attempt(ctx, sch, f, *info):
    """f(sch) -> schema or None (rejected); the receiver stays the same."""
    before = snap(sch)
    try:
        res = f(sch)
    except DeclarationError as e:
        ctx.check(same(snap(sch), before), "a rejected declaration changed the receiver", *info)
        return None
    ctx.check(same(snap(sch), before), "a declaration changed the receiver", *info)
    ctx.check(isinstance(res, Schema), "a declaration returned no schema", *info)
    ctx.check(type(res) is type(sch), "a declaration returned another kind of schema", *info)
    return res


LENS = ("len", "min_len", "max_len", "mm")


def declared_already(done, name):
    return name in done or name in LENS and any([x in LENS for x in done])


def h_chain(ctx, cfg):
    """Calls with lazily typed arguments, one after the other."""
    kind = cfg["kind"]
    sch = getattr(schema, kind)
    s = Spec(kind)
    done = []
    calls = CALLS[kind]
    for i in range(cfg["n"]):
        name, arg = ctx.pick(calls, "call") if i or "first" not in cfg else \
            [c for c in calls if c[0] == cfg["first"]][0]
        if arg == "re":
            args = [ctx.pick(PATTERNS if i == 0 or cfg.get("wide") else REGEXES[:3] + ["("], "pattern")]
        else:
            kinds = (["nfloat"] if arg == "float" and cfg.get("near") else FIT[arg]) + (UNFIT if i == cfg["n"] - 1 else [])
            n = 2 if name == "mm" else 1
            args = [ctx.any(f"{name}{j}", kinds, strlen=cfg.get("strlen", 1), maxlen=1, depth=2,
                            chars=CHARS) for j in range(n)]
        res = attempt(ctx, sch, lambda x: call(x, name, *args), kind, done, name, args)
        if declared_already(done, name):
            ctx.check(res is None, "a declared property was declared again", kind, done, name, args)
        if res is None:
            return [done, "rejected", name]
        done.append(name)
        sch = res
        if name == "mm":
            lo, hi = args
            if type(hi).__name__ == "NilType":       # one argument: the exact length
                s.p["len"] = lo
            else:                                    # `...`: no bound on that side
                if lo is not ...:
                    s.p["min_len"] = lo
                if hi is not ...:
                    s.p["max_len"] = hi
        elif args[0] is ... and name in LENS:
            pass                                     # a length without bounds
        else:
            s.p[name] = args[0]
        if "value" in s.p:
            v = s.p["value"]
            ctx.check(not validate(sch, v).has_errors(),
                      "the fixed value does not validate", s, [done])
            ctx.check(conforms(s, v), "the fixed value contradicts a constraint", s)
            ctx.check(sch == v, "schema == its own value is false", s)
    return done


def pre(kind, i):
    """Schemas of the kind with something declared already."""
    S = schema
    return {
        "int": [S.int, S.int(1), S.int.min(0), S.int.max(5), S.int(1).min(0)],
        "float": [S.float, S.float(1.0), S.float(float("nan")), S.float.min(0.5), S.float.precision(2),
                  S.float(float("inf")), S.float(1e308)],
        "str": [S.str, S.str("ab"), S.str(""), S.str.len(2), S.str.alphabet("ab"), S.str.contains("a"),
                S.str.regex("a"), S.str("\ud800")],
        "bytes": [S.bytes, S.bytes(b"")], "bool": [S.bool, S.bool(False)],
        "uuid4": [S.uuid4], "datetime": [S.datetime], "date": [S.date],
        "list": [S.list, S.list([]), S.list([S.int]), S.list(S.int), S.list([S.int(1), ...]), S.list.len(1),
                 S.list.len(1, ...), S.list([...])],
        "dict": [S.dict, S.dict({}), S.dict({...: ...}), S.dict({"a": S.int})],
        "any": [S.any, S.any(S.int)],
    }[kind][i]


CALLS2 = {"list": [("value", ""), ("len", ""), ("min_len", ""), ("max_len", ""), ("mm", "")],
          "dict": [("value", "")], "any": [("value", "")]}
PRE = {"int": 5, "float": 7, "str": 8, "bytes": 2, "bool": 2, "uuid4": 1, "datetime": 1, "date": 1,
       "list": 8, "dict": 4, "any": 2}


def h_zoo(ctx, cfg):
    """One argument (or both of len) of any type."""
    kind = cfg["kind"]
    sch = pre(kind, ctx.choose(PRE[kind], "pre"))
    calls = CALLS.get(kind, []) + CALLS2.get(kind, [])
    name = ctx.pick([c[0] for c in calls], "call")
    more = ["int", "float", "str", "bytes", "list", "dict", "none", "ellipsis", "nil", "uuid1", "date"]
    a = ctx.any("a", zoo() + more, strlen=1, depth=2, child_kinds=["int"], maxlen=1)
    args = [a]
    if name == "mm":
        args.append(ctx.any("b", ["int", "ellipsis", "nil", "none"] + zoo("HUGE", "BAD_REPR", "tuple")))
    res = attempt(ctx, sch, lambda x: call(x, name, *args), kind, name, args)
    if res is None:
        return "rejected"
    v = res.props.get("value")
    if kind not in ("list", "dict", "any") and type(v).__name__ != "NilType":
        ctx.check(not validate(res, v).has_errors(), "the fixed value does not validate", kind, v)
    return "declared"


def element(ctx, name):
    i = ctx.choose(6, name)
    if i == 0:
        return schema.int(ctx.int(name + ".v")), True
    if i == 1:
        return schema.str(ctx.str(name + ".s", 1)), True
    if i == 2:
        return schema.int.min(ctx.int(name + ".m")), False
    if i == 3:
        return ..., False
    if i == 4:
        return schema.list([schema.int(1)]), False
    return ctx.any(name + ".x", ["int", "none", "nil", "list", "dict"] + zoo("BAD_REPR", "type", "tuple", "ODD")), False


def h_list(ctx, cfg):
    """Elements and lengths of lists."""
    n = ctx.small("n", 0, cfg["n"])
    es = [element(ctx, f"e{i}") for i in range(n)]
    elems = [e for e, f in es]
    sch = attempt(ctx, schema.list, lambda x: x(elems), elems)
    if sch is None:
        return "rejected"
    for e in elems:
        ctx.check(isinstance(e, Schema) or e is ..., "a foreign element was accepted", elems)
    for i, e in enumerate(elems):
        if e is ...:
            ctx.check(i == 0 or i == n - 1, "`...` was accepted in the middle", elems)
    fixed = all([f for e, f in es])
    value = [e.props.value for e in elems] if fixed else None
    if fixed:
        ctx.check(not validate(sch, value).has_errors(), "the fixed elements do not validate", elems)
    name = ctx.pick(LENS, "len")
    args = [ctx.any(f"l{i}", ["int", "none", "ellipsis", "bool"]) for i in range(2 if name == "mm" else 1)]
    res = attempt(ctx, sch, lambda x: call(x, name, *args), elems, name, args)
    if res is not None and fixed:
        ctx.check(not validate(res, value).has_errors(),
                  "a length was accepted that contradicts the fixed elements", elems, name, args)
    if res is not None:
        again = attempt(ctx, res, lambda x: x.len(1), elems)
        ctx.check(again is None, "a length was declared twice", elems, name, args)
        again = attempt(ctx, res, lambda x: x([schema.int]), elems)
        ctx.check(again is None, "elements were declared twice", elems, name, args)
    again = attempt(ctx, sch, lambda x: x(schema.int), elems)
    ctx.check(again is None, "elements were declared twice", elems)
    return [n, res is None]


def h_dict(ctx, cfg):
    keys = ["a", optional("a"), "b", ..., 1, None, optional(K1), K1, BAD_REPR, HUGE, ("x", 1), OPAQUE,
            optional(optional("a"))]
    d = {}
    n = ctx.small("n", 0, 2)
    for i in range(n):
        k = ctx.pick(keys, "key")
        which = ctx.choose(4, "val")
        v = [lambda: schema.int(ctx.int("x")), lambda: ..., lambda: schema.dict({}),
             lambda: ctx.any(f"v{i}", ["int", "dict", "nil", "none"] + zoo("BAD_REPR", "type", "ODD"))][which]()
        d[k] = v
    before = list(d)
    sch = attempt(ctx, schema.dict, lambda x: x(d), before)
    if sch is None:
        return "rejected"
    for k in before:
        v = d[k]
        ctx.check(isinstance(v, Schema) or (k is ... and v is ...), "a foreign member was accepted", before)
    again = attempt(ctx, sch, lambda x: x({}), before)
    ctx.check(again is None, "keys were declared twice", before)
    return len(before)


def h_any(ctx, cfg):
    parts = [lambda n: schema.int(ctx.int(n)), lambda n: schema.any(schema.int, schema.none),
             lambda n: schema.any, lambda n: ctx.any(n, ["int", "none", "ellipsis", "nil", "list"] +
                                                     zoo("BAD_REPR", "type", "ODD"))]
    n = ctx.small("n", 1, 3)
    args = [ctx.pick(parts, "part")(f"p{i}") for i in range(n)]
    sch = attempt(ctx, schema.any, lambda x: x(*args), args)
    for a in args:
        if not isinstance(a, Schema):
            ctx.check(sch is None, "a foreign alternative was accepted", args)
    if sch is None:
        return "rejected"
    again = attempt(ctx, sch, lambda x: x(schema.int), args)
    ctx.check(again is None, "alternatives were declared twice", args)
    return n


def h_alias(ctx, cfg):
    a = ctx.any("a", ["str", "none", "int"] + zoo())
    b = ctx.pick([schema.int, schema.any, None, 5, BAD_REPR, ODD, int, ...], "b")
    try:
        sch = schema.alias(a, b)
    except DeclarationError:
        return "rejected"
    ctx.check(isinstance(a, str) and isinstance(b, Schema), "foreign arguments were accepted", a)
    return "declared"


def h_typed(ctx, cfg):
    """Lists of one type and untyped lists."""
    base = ctx.pick([schema.list, schema.list(schema.int), schema.list(schema.any)], "base")
    x = ctx.any("x", ["int", "none", "dict"] + zoo("ODD", "type", "BAD_REPR", "tuple"))
    ctx.check(attempt(ctx, schema.list, lambda s: s(x), x) is None, "a foreign type was accepted", x)
    sch = base
    done = []
    for i in range(2):
        name = ctx.pick(LENS, "len")
        args = [ctx.any(f"l{i}", ["int", "none", "ellipsis", "float"]) for i in range(2 if name == "mm" else 1)]
        res = attempt(ctx, sch, lambda x: call(x, name, *args), done, name, args)
        if done:
            ctx.check(res is None, "a length was declared twice", done, name, args)
        if res is None:
            return ["rejected", done]
        done.append(name)
        sch = res
    return done


def TASKS(tier):
    quick = tier == "quick"
    b = 20 if quick else 400
    out = []
    for kind in ("int", "float", "str"):
        for first, _ in CALLS[kind]:
            n = 3 if quick else 4
            out.append({"fn": "h_chain", "cfg": {"kind": kind, "n": n, "first": first}, "budget": b})
            out.append({"fn": "h_chain", "cfg": {"kind": kind, "n": 2, "first": first, "strlen": 2,
                                                 "wide": 1}, "budget": b})
    for first, _ in CALLS["float"]:
        out.append({"fn": "h_chain", "cfg": {"kind": "float", "n": 3, "first": first, "near": 1}, "budget": b})
    for kind in ("bytes", "bool", "uuid4", "datetime", "date"):
        out.append({"fn": "h_chain", "cfg": {"kind": kind, "n": 2}, "budget": b})
    for kind in PRE:
        out.append({"fn": "h_zoo", "cfg": {"kind": kind}, "budget": b})
    out.append({"fn": "h_list", "cfg": {"n": 2}, "budget": b})
    out.append({"fn": "h_list", "cfg": {"n": 3}, "budget": b})
    for fn in ("h_dict", "h_any", "h_alias", "h_typed"):
        out.append({"fn": fn, "budget": b})
    return out
