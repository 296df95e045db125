"""C05: substitution only narrows a schema."""
from d42 import validate

from harness.spec import conforms
from harness.subst import TEMPLATES, close_configs, deep_configs, plain_value, scalar, start, substituted

BOUNDS = {
    "deep": "every pair of nested container forms, chains of 5 and 40, 2 to 5 members, 40 members; values that "
             "conform except at one place",
    "schemas": "as in C04",
    "values": "two lazily typed plain values as in C04: the substituted one and the one the "
              "result is asked about",
}
ASSUMPTIONS = []


def h_narrow(ctx, cfg):
    s, sch = start(ctx, cfg, small=not scalar(cfg.get("t", 0)))
    w = plain_value(ctx, cfg, s, "w")
    res = substituted(ctx, sch, w)
    x = plain_value(ctx, cfg, s, "x")
    if validate(res, x).has_errors():
        return False
    ctx.check(not validate(sch, x).has_errors(),
              "the result accepts a value the schema rejects", s, w, x)
    ctx.check(conforms(s, x), "the result accepts a value that does not conform", s, w, x)
    return True


def h_twice(ctx, cfg):
    """Substituting two values one after the other."""
    s, sch = start(ctx, cfg)
    w = plain_value(ctx, cfg, s, "w")
    res = substituted(ctx, sch, w)
    u = plain_value(ctx, cfg, s, "u")
    res2 = substituted(ctx, res, u)
    x = plain_value(ctx, cfg, s, "x")
    if validate(res2, x).has_errors():
        return False
    ctx.check(not validate(res, x).has_errors() and conforms(s, x),
              "the second result accepts a value the first one rejects", s, w, u, x)
    return True


TWICE = [("D", [("a", 0, "int:m"), ("b", 1, "int:M")]), ("D", [("a", 0, "int"), ("b", 1, "none")], 1),
         ("D", [("a", 0, ("D", [("b", 1, "int:m"), ("c", 1, "none")]))]),
         ("A", ["int:m", "int:M", "none"]), ("T", ("D", [("a", 1, "int:m"), ("b", 1, "none")])),
         ("AL", ("D", [("a", 1, "int:m"), ("b", 0, "int:M")])), "float:v+p1", "float:v"]


def TASKS(tier):
    out = []
    b = 20 if tier == "quick" else 400
    for t in TEMPLATES:
        cfg = {"t": t}
        if scalar(t):
            cfg.update(strlen=2, vstr=2)
        elif t[0] == "T" and t[1] in ("int:m", "int") or t[0] == "U":
            cfg.update(maxlen=3)
        out.append({"fn": "h_narrow", "cfg": cfg, "budget": b})
    for cfg in deep_configs(2):
        out.append({"fn": "h_narrow", "cfg": cfg, "budget": b})
    for cfg in close_configs():
        out.append({"fn": "h_narrow", "cfg": cfg, "budget": b})
    for t in TWICE:
        out.append({"fn": "h_twice", "cfg": {"t": t}, "budget": b})
    return out
