"""C08: validation is total, and failing is reporting."""
from d42 import ValidationException, optional, schema, validate, validate_or_fail
from d42.declaration import DeclarationError
from d42.validation import Formatter, ValidationResult, format_result
from d42.validation.errors import ValidationError

from harness import templates as T
from harness.spec import Params, build, declare, guided, kinds_for, make, shape_of
from harness.zoo import BAD_REPR, HUGE, K1, K2, NO_EQ, NO_BOOL, OPAQUE, LABELS, MyStr, values, zoo

BOUNDS = {
    "schemas": "all templates of harness/templates.py; schemas with parameters and keys of "
               "unusual types",
    "values": "every value of harness/zoo.py (non-finite floats, huge ints, Decimal, Fraction, "
              "tuples, sets, subclasses, non-v4 UUIDs, opaque and ill-behaved objects ...) alone "
              "and at every single position of an otherwise lazily typed value; unusual keys; "
              "lists nested up to 10**5 deep",
    "errors": "all of the errors of a result are rendered",
}
ASSUMPTIONS = ["values do not intercept isinstance() or attribute access (__class__, "
               "__getattr__ that raises)"]

_ZOO = zoo() + ["ellipsis"]


def judge(ctx, sch, v, *info):
    res = validate(sch, v)
    ctx.check(isinstance(res, ValidationResult), "validate() returned something else", *info)
    errors = res.get_errors()
    lines = []
    for e in errors:
        ctx.check(isinstance(e, ValidationError), "an error is no ValidationError", *info)
        text = e.format(Formatter())
        ctx.check(isinstance(text, str), "an error renders to something else", *info)
        ctx.check(len(text) > 0, "an error renders to nothing", *info)
        lines.append(text)
    ctx.check(res.has_errors() == (len(errors) > 0), "has_errors() is wrong", *info)
    try:
        r = validate_or_fail(sch, v)
    except ValidationException as e:
        ctx.check(len(errors) > 0, "validate_or_fail() raised without errors", *info)
        ctx.check(str(e) == "".join(["\n - " + x for x in lines]),
                  "the exception does not carry one line per error", *info)
    else:
        ctx.check(r is True, "validate_or_fail() returned something else", *info)
        ctx.check(len(errors) == 0, "validate_or_fail() did not raise", *info)
    out = format_result(res)
    ctx.check(len(out) == (len(errors) + 1 if errors else 0), "format_result() lines", *info)
    return len(errors)


def h_top(ctx, cfg):
    P = Params(ctx, small=True)
    s = make(P, cfg["t"])
    sch = declare(ctx, s)
    v = ctx.any("v", _ZOO, depth=1)
    return judge(ctx, sch, v, s, v)


def h_plain(ctx, cfg):
    """Lazily typed values of the ordinary kinds, with every message rendered."""
    P = Params(ctx, small=not isinstance(cfg["t"], str), len_range=(0, 2))
    s = make(P, cfg["t"])
    sch = declare(ctx, s)
    if isinstance(cfg["t"], str):
        v = ctx.any("v", kinds_for(s, ("none", "int", "float", "fspecial", "str", "bytes", "list", "tuple",
                                       "dict", "uuid1", "nil", "ellipsis")), depth=2, strlen=2,
                    child_kinds=["int"], maxlen=1)
    else:
        v = guided(ctx, s, "v")
    return judge(ctx, sch, v, s, v)


def positions(sh, out):
    """Every position below the top of a shape."""
    for sub in list(sh.get("elems", [])) + list(sh.get("keys", {}).values()):
        out.append(sub)
        positions(sub, out)
    return out


def own(sh):
    """The shape with dicts for its own use."""
    r = dict(sh)
    if "elems" in sh:
        n = max(len(sh["elems"]), sh.get("maxlen", 2))
        r["elems"] = [own(sh["elems"][min(i, len(sh["elems"]) - 1)]) for i in range(n)]
    if "keys" in sh:
        r["keys"] = {k: own(x) for k, x in sh["keys"].items()}
    return r


def h_member(ctx, cfg):
    """One unusual value somewhere in a value that follows the schema."""
    P = Params(ctx, small=True, len_range=(0, 2))
    s = make(P, cfg["t"])
    sch = declare(ctx, s)
    shape = own(shape_of(s, other=False, zz=cfg.get("zz", True)))
    at = positions(shape, [])
    if not at:
        ctx.reject()
    pos = ctx.pick(at, "position")
    pos["kinds"] = _ZOO
    v = ctx.any("v", shape=shape, depth=9, strlen=1)
    return judge(ctx, sch, v, s, v)


class Same:
    """Different objects that look the same."""
    def __repr__(self):
        return "<same>"


SAME = [Same(), Same()]
VALUES = values()
ODD_KEYS = [HUGE, OPAQUE, BAD_REPR, NO_EQ, NO_BOOL, K1, K2, None, 1, True, 1.5, float("nan"), float("inf"),
            MyStr("a"), "", "\ud800", "a.b", "\n", b"a", (1, "a"), (BAD_REPR,), (HUGE,), frozenset([1]),
            ..., int, optional("a"), -1, 0, SAME[0], SAME[1], float("nan")]


def h_keys(ctx, cfg):
    """Unusual keys, in the value and in the schema."""
    k1, k2 = ctx.pick(ODD_KEYS, "k1"), ctx.pick(ODD_KEYS, "k2")
    which = cfg["which"]
    x = ctx.int("x")
    if which == 0:
        sch = schema.dict({k1: schema.int.min(x)} if k1 is not ... else {...: ...})
        v = {k2: 1}
    elif which == 1:
        sch = schema.dict({"a": schema.dict, ...: ...})
        v = {"a": {k1: 1, k2: x}, k1: x}
    elif which == 2:
        sch = schema.list([schema.dict({"a": schema.int(x)}), ...])
        v = [{k1: 1, k2: 1}, 2]
    elif which == 3:
        ctx.assume(k1 is not ... and not isinstance(k1, optional))
        sch = schema.dict({optional(k1): schema.dict({"b": schema.str}) if k2 is ... else
                           schema.dict({k2: schema.str})})
        v = {k1: {k2: x}}
    elif which == 4:
        sch = schema.any(schema.dict({"a": schema.none}), schema.dict)
        v = {k1: k2}
    elif which == 5:
        sch = schema.dict({"a": schema.int.min(x)})
        v = {k1: 1, "a": x - 1, k2: 1}
    elif which == 6:
        ctx.assume(k1 is not ... and not isinstance(k1, optional) and k2 is not ... and
                   not isinstance(k2, optional))
        sch = schema.list([..., schema.dict({k1: schema.int.min(x), k2: schema.int.min(x)}), ...])
        v = ctx.pick([[{}], [{k1: x - 1, k2: x - 1}]], "value")
    else:
        ctx.assume(k1 is not ... and not isinstance(k1, optional))
        sch = schema.list(schema.dict({k1: schema.list([schema.none, ...])}))
        v = [{k1: [k2, k2]}, {k2: []}, k2]
    return judge(ctx, sch, v, which)


def h_params(ctx, cfg):
    """Unusual parameters in the schema."""
    label = ctx.pick(cfg["labels"], "param")
    p = VALUES[label]
    kind = cfg["k"]
    try:
        sch = {"int": lambda: schema.int(p), "imin": lambda: schema.int.min(p),
               "imax": lambda: schema.int.max(p), "float": lambda: schema.float(p),
               "fmin": lambda: schema.float.min(p), "fmax": lambda: schema.float.max(p),
               "fpv": lambda: schema.float(p).precision(2), "fvp": lambda: schema.float(1.5).precision(p),
               "fp": lambda: schema.float.precision(p), "str": lambda: schema.str(p),
               "alphabet": lambda: schema.str.alphabet(p), "contains": lambda: schema.str.contains(p),
               "regex": lambda: schema.str.regex(p), "slen": lambda: schema.str.len(p),
               "smin": lambda: schema.str.len(p, ...), "smax": lambda: schema.str.len(..., p),
               "llen": lambda: schema.list.len(p), "bytes": lambda: schema.bytes(p),
               "bool": lambda: schema.bool(p), "uuid4": lambda: schema.uuid4(p),
               "datetime": lambda: schema.datetime(p), "date": lambda: schema.date(p)}[kind]()
    except DeclarationError:
        ctx.reject()
    if ctx.flag("nest"):
        sch = schema.list([..., schema.dict({"k": sch}), ...])
        v = [{"k": ctx.any("v", zoo() + ["int", "str", "float"], strlen=1)}, 1]
    else:
        v = ctx.any("v", zoo() + ["int", "str", "float", "fspecial", "bytes", "bool", "date", "datetime",
                                  "uuid4"], strlen=1)
    return judge(ctx, sch, v, kind, label, v)


def nested(n, what):
    v = 1
    for _ in range(n):
        v = [v] if what == "list" else {"a": v} if what == "dict" else (v,)
    return v


def dismantle(v):
    while isinstance(v, (list, dict)) and v:
        v = v.pop() if isinstance(v, list) else v.popitem()[1]


def h_deep(ctx, cfg):
    """Nesting beyond the recursion limit."""
    n = ctx.pick([10, 500, 1500, 30000, 10 ** 5], "depth")
    v = nested(n, ctx.pick(["list", "dict"], "what"))
    sch = ctx.pick([schema.none, schema.int, schema.list, schema.any, schema.list([schema.int]),
                    schema.list(schema.list(schema.str)), schema.dict({"a": schema.int}), schema.dict,
                    schema.list([..., schema.none, ...]), schema.any(schema.int, schema.str),
                    schema.dict({"a": schema.list, "b": schema.int})], "schema")
    r = judge(ctx, sch, v, n)
    dismantle(v)
    return r


BIG = [10 ** 308, 10 ** 309, -10 ** 309, 2 ** 1024, 2 ** 1023, 2 ** 53 + 1, -2 ** 64]


def h_big(ctx, cfg):
    """Ints beyond the range of floats against float and int constraints."""
    p = ctx.pick([0.5, 1e308, float("inf"), float("-inf"), float("nan")], "p")
    sch = ctx.pick([schema.float(p), schema.float.min(p), schema.float.max(p), schema.float.precision(3),
                    schema.float(p).precision(1), schema.int.min(10 ** 400), schema.int(10 ** 5000),
                    schema.list([schema.float(p)]), schema.int.max(-10 ** 400)], "sch")
    v = ctx.pick(BIG, "v")
    v = ctx.pick([v, float("inf"), [v], {"a": v}, 1.7e308], "form")
    return judge(ctx, sch, v)


def TASKS(tier):
    b = 15 if tier == "quick" else 300
    out = []
    for t in T.SCALARS + T.CONTAINERS:
        out.append({"fn": "h_top", "cfg": {"t": t}, "budget": b})
        out.append({"fn": "h_plain", "cfg": {"t": t}, "budget": b})
    for t in T.CONTAINERS:
        if t not in ("any",):
            out.append({"fn": "h_member", "cfg": {"t": t}, "budget": b})
    for which in range(8):
        out.append({"fn": "h_keys", "cfg": {"which": which}, "budget": b})
    nums = ["nan", "inf", "ninf", "max", "tiny", "negzero", "1e308", "HUGE", "-HUGE", "2**64", "MyInt",
            "MyFloat", "Color"]
    strs = ["MyStr", "Word", "surrogate", "nul"]
    for k, labels in [("int", nums), ("imin", nums), ("imax", nums), ("float", nums), ("fmin", nums),
                      ("fmax", nums), ("fpv", nums), ("fp", nums), ("fvp", nums), ("str", strs),
                      ("alphabet", strs), ("contains", strs), ("regex", strs), ("slen", nums),
                      ("smin", nums), ("smax", nums), ("llen", nums), ("bytes", ["MyBytes"]),
                      ("uuid4", ["MyUUID"]), ("datetime", ["MyDatetime", "aware", "naive", "dtmin"]),
                      ("date", ["MyDate", "date", "aware", "naive"])]:
        out.append({"fn": "h_params", "cfg": {"k": k, "labels": labels}, "budget": b})
    out.append({"fn": "h_deep", "budget": b * 2})
    out.append({"fn": "h_big", "budget": b})
    return out
