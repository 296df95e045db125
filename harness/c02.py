"""C02: the verdict of validate() equals the declared constraints."""
from d42 import validate
from d42.validation import eq

from harness import templates as T
from harness.spec import (Params, conforms, declare, deep_configs, deviant, guided, make, template_of,
                          value_for)

BOUNDS = {
    "deep": "every triple of nested container forms, chains of 5 and 40, 2 to 5 members, 40 members; values that "
             "conform except at one place",
    "schemas": "templates of harness/templates.py: every subset of constraints per scalar type, "
               "all list forms x length forms, dicts up to 3 keys, any/alias, nesting up to 3",
    "parameters": "ints unbounded (mathematical integers), floats k/4 with |k| <= 4000 plus "
                  "nan, +-inf, 1e308 and similar constants, floats around 1.0 closer to each other than "
                  "the tolerance, strings up to 2-3 characters over a "
                  "mixed alphabet, lengths unbounded integers",
    "values": "any kind; lists up to 3 elements, dicts over the schema's keys plus one more, "
              "nesting one deeper than the schema",
}
ASSUMPTIONS = [
    "a float equals a fixed value when math.isclose holds (no precision) or when both round "
    "half-even to the same multiple of 10**-precision; non-finite floats equal only themselves",
    "isinstance decides 'has the schema's type' (bool is an int, datetime is a date)",
]


def h_verdict(ctx, cfg):
    close = cfg.get("floats") == "near"
    P = Params(ctx, strlen=cfg.get("strlen", 2), floats=cfg.get("floats", "grid"))
    s = make(P, template_of(ctx, cfg))
    sch = declare(ctx, s)
    if "deep" in cfg:
        v = deviant(ctx, s, "v")
    elif close:
        v = guided(ctx, s, "v", close=True)
    else:
        v = value_for(ctx, s, maxlen=cfg.get("maxlen"), strlen=cfg.get("vstr", 3))
    res = validate(sch, v)
    got = not res.has_errors()
    errs = len(res.get_errors()) == 0
    want = conforms(s, v)
    ctx.check(got == want, "validate() verdict differs from the declared constraints",
              s, v, got, want)
    ctx.check(errs == got, "has_errors() disagrees with get_errors()", s, v)
    if cfg.get("eq"):
        ctx.check((sch == v) == want, "schema == value differs from the constraints", s, v)
        ctx.check(eq(sch, v) == want, "eq(schema, value) differs from the constraints", s, v)
        ctx.check((sch != v) != want, "schema != value", s, v)
    return got, len(res.get_errors())


def TASKS(tier):
    out = []
    for t in T.SCALARS + T.PATTERNS:
        out.append({"fn": "h_verdict", "cfg": {"t": t, "eq": 1}})
    for t in T.CONTAINERS:
        out.append({"fn": "h_verdict", "cfg": {"t": t, "vstr": 1}})
    for t in T.CLOSE + T.FLOATS:
        out.append({"fn": "h_verdict", "cfg": {"t": t, "floats": "near", "eq": 1}})
    for cfg in deep_configs():
        out.append({"fn": "h_verdict", "cfg": cfg})
    return out
