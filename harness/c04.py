"""C04: substitution pins the given value into the schema."""
from d42 import fake, substitute, validate

from harness.c01 import digest, satisfiable
from harness.spec import conforms
from harness.subst import TEMPLATES, carries, close_configs, deep_configs, plain_value, precision_of, scalar, start, substituted

BOUNDS = {
    "deep": "every pair of nested container forms, chains of 5 and 40, 2 to 5 members, 40 members; values that "
             "conform except at one place",
    "schemas": "the templates of harness/templates.py and harness/subst.py: every built-in type, "
               "list forms, dicts, unions, aliases, nested up to three levels",
    "values": "lazily typed plain values: lists up to 2 (lists of scalars 3) elements, dicts over "
              "the declared keys plus one unknown key, strings up to 1-2 characters, unbounded "
              "ints, floats k/4 plus special constants",
    "lengths": "declared lengths 0..2",
}
ASSUMPTIONS = ["every part of the schema admits a value (generation from the result)",
               "floats agree up to the documented tolerance or the declared precision"]


def h_gen(ctx, cfg):
    """The result accepts the value if it conforms; what it generates carries the value."""
    s, sch = start(ctx, cfg)
    w = plain_value(ctx, cfg, s, "w")
    res = substituted(ctx, sch, w)
    prec = precision_of(s)
    ok = conforms(s, w)
    if ok:
        errors = validate(res, w).get_errors()
        ctx.check(len(errors) == 0, "the result rejects the conforming value", s, w,
                  [type(e).__name__ for e in errors])
    if satisfiable(s):
        x = fake(res)
        ctx.check(carries(w, x, prec), "a generated value does not carry the value", s, w, x)
        ctx.check(not validate(res, x).has_errors(), "the result rejects what it generates",
                  s, w, x)
        return [ok, digest(x)]
    return ok


def h_accept(ctx, cfg):
    """What the result accepts carries the value."""
    s, sch = start(ctx, cfg)
    w = plain_value(ctx, cfg, s, "w")
    res = substituted(ctx, sch, w)
    x = plain_value(ctx, cfg, s, "x")
    if validate(res, x).has_errors():
        return False
    ctx.check(carries(w, x, precision_of(s)), "an accepted value does not carry the value",
              s, w, x)
    return True


def h_keys(ctx, cfg):
    """Keys that were not given keep schema and optionality."""
    s, sch = start(ctx, cfg)
    w = plain_value(ctx, cfg, s, "w")
    ctx.assume(isinstance(w, dict))
    res = substituted(ctx, sch, w)
    given = list(w)
    x = {k: w[k] for k in given}
    for key, opt, sub in s.p["keys"]:
        if key not in given and ctx.flag("has"):
            x[key] = plain_value(ctx, cfg, sub, "m")
    a = validate(sch, x).has_errors()
    b = validate(res, x).has_errors()
    ctx.check(a == b, "the result judges keys that were not given differently", s, w, x, a, b)
    for key, opt, sub in s.p["keys"]:
        if key not in given:
            ctx.check(res[key] == sch[key], "a key that was not given has another schema", s, w, key)
    return [a, b]


def TASKS(tier):
    out = []
    b = 20 if tier == "quick" else 400
    for t in TEMPLATES:
        cfg = {"t": t}
        if scalar(t):
            cfg.update(strlen=2, vstr=2)
        elif t[0] == "T" and t[1] in ("int:m", "int") or t[0] == "U":
            cfg.update(maxlen=3)
        out.append({"fn": "h_gen", "cfg": cfg, "budget": b})
        out.append({"fn": "h_accept", "cfg": cfg, "budget": b})
        if t[0] == "D" and t[1]:
            out.append({"fn": "h_keys", "cfg": cfg, "budget": b})
    for cfg in deep_configs(2):
        out.append({"fn": "h_gen", "cfg": cfg, "budget": b})
        out.append({"fn": "h_accept", "cfg": cfg, "budget": b})
    for cfg in close_configs():
        out.append({"fn": "h_gen", "cfg": cfg, "budget": b})
        out.append({"fn": "h_accept", "cfg": cfg, "budget": b})
    return out
