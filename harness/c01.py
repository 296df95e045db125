"""C01: generated data always validates against its own schema."""
import datetime as dt
import math
import uuid

from d42 import fake, substitute, validate
from d42.generation import generate
from d42.substitution.errors import SubstitutionError

from harness import templates as T
from harness.spec import Params, Spec, build, conforms, declare, deep_configs, make, template_of, value_for

BOUNDS = {
    "deep": "every pair of nested container forms, chains of 5 and 40, 2 to 5 members, 40 members; values that "
             "conform except at one place",
    "schemas": "all templates of harness/templates.py, dict + dict, a | b, and results of "
               "substituting lazily typed values (with ... placeholders too)",
    "draws": "every outcome of every random draw the generator makes is a variable limited only "
             "by the contract of the call",
    "lengths": "declared lengths 0..3, plus lengths around the default limits (32 / 16)",
    "bounds": "ints unbounded, floats k/4 or k/10**q, plus infinite and extreme constants",
    "regular expressions": "the six patterns of harness/spec.py (C09 covers patterns)",
}
ASSUMPTIONS = [
    "the schema admits a value: satisfiable() of this module, for the schema and for every "
    "sub-schema the generator has to fill",
    "today() lies between 2020 and 2100",
    "random.uniform(a, b) lies within [a, b] (documented up to rounding of the end point)",
]


def nan(x):
    return isinstance(x, float) and math.isnan(x)


def satisfiable(s):
    """Is there a conforming value, for this schema and (recursively) every part of it?"""
    if s == "...":
        return True
    k, p = s.kind, s.p
    if k in ("int", "float"):
        if "value" in p:
            return conforms(s, p["value"])
        if "min" in p and nan(p["min"]) or "max" in p and nan(p["max"]):
            return False
        return not ("min" in p and "max" in p) or p["min"] <= p["max"]
    if k == "str":
        return conforms(s, p["value"]) if "value" in p else str_satisfiable(p)
    if k == "list":
        if not len_range_ok(p):
            return False
        if "type" in p:
            return satisfiable(p["type"])
        if "elems" in p:
            n = len([e for e in p["elems"] if e != "..."])
            more = n != len(p["elems"])
            if "len" in p and (p["len"] < n or (p["len"] != n and not more)):
                return False
            if "min_len" in p and p["min_len"] > n and not more:
                return False
            if "max_len" in p and p["max_len"] < n:
                return False
            for e in p["elems"]:
                if not satisfiable(e):
                    return False
        return True
    if k == "dict":
        for key, opt, sub in p.get("keys", []):
            if not opt and not satisfiable(sub):
                return False
        return True
    if k == "any":
        for sub in p.get("types") or []:
            if not satisfiable(sub):
                return False
        return True
    if k == "alias":
        return satisfiable(p["type"])
    return True


def len_range_ok(p):
    lo = p.get("len", p.get("min_len", 0))
    hi = p.get("len", p.get("max_len", lo if lo > 0 else 0))
    return hi >= 0 and lo <= hi


def str_satisfiable(p):
    if not len_range_ok(p):
        return False
    sub = p.get("substr", "")
    n = len(sub)
    if "len" in p and p["len"] < n or "max_len" in p and p["max_len"] < n:
        return False
    if "alphabet" in p:
        for ch in sub:
            if ch not in p["alphabet"]:
                return False
        if len(p["alphabet"]) == 0 and (p.get("len", 0) > 0 or p.get("min_len", 0) > 0):
            return False
    return True


def digest(v):
    """The value, without what the clock and the OS contribute."""
    if isinstance(v, (uuid.UUID, dt.date)):
        return "env"
    if isinstance(v, list):
        return [digest(x) for x in v]
    if isinstance(v, dict):
        return {k: digest(x) for k, x in v.items()}
    return v


def verdict(ctx, sch, v, s=None):
    errors = validate(sch, v).get_errors()
    ctx.check(len(errors) == 0, "the generated value does not validate", s, v,
              [type(e).__name__ for e in errors])
    if s is not None:
        ctx.check(conforms(s, v), "the generated value does not conform", s, v)


def h_fake(ctx, cfg):
    """fake() of a declared schema."""
    P = Params(ctx, small=True, len_range=cfg.get("lens", (0, 3)),
               strlen=cfg.get("strlen", 2), int_range=cfg.get("ints", (None, None)))
    s = make(P, template_of(ctx, cfg))
    for name, x in cfg.get("set", {}).items():
        s.p[name] = x
    sch = declare(ctx, s)
    ctx.assume(satisfiable(s))
    v = [lambda: fake(sch), lambda: generate(sch), lambda: ~sch][cfg.get("via", 0)]()
    verdict(ctx, sch, v, s)
    return digest(v)


def h_decimal(ctx, cfg):
    """Float bounds on and between the points of the precision grid."""
    s = Spec("float")
    q = cfg["q"]
    dec = ctx.decimal if not cfg.get("grid") else \
        lambda n, q, lo, hi: ctx.small(n, lo, hi) / 10 ** q
    if "m" in cfg["b"]:
        s.p["min"] = dec("min", q, *cfg["r"])
    if "M" in cfg["b"]:
        s.p["max"] = dec("max", q, *cfg["r"])
    if cfg["p"] is not None:
        s.p["precision"] = cfg["p"]
    sch = declare(ctx, s)
    ctx.assume(satisfiable(s))
    v = fake(sch)
    verdict(ctx, sch, v, s)
    return digest(v)


def h_plus(ctx, cfg):
    P = Params(ctx, small=True)
    a, b = make(P, cfg["a"], "a"), make(P, cfg["b"], "b")
    sch = declare(ctx, a) + declare(ctx, b)
    ctx.assume(satisfiable(a) and satisfiable(b))
    v = fake(sch)
    verdict(ctx, sch, v)
    keys = {key: (opt, sub) for key, opt, sub in a.p.get("keys", [])}
    for key, opt, sub in b.p.get("keys", []):
        keys[key] = (opt, sub)
    for key, (opt, sub) in keys.items():
        ctx.check(opt or key in v, "a required key of d1 + d2 is not generated", a, b, v)
        if key in v:
            ctx.check(conforms(sub, v[key]), "a member of d1 + d2 does not conform", a, b, v)
    return digest(v)


def h_union(ctx, cfg):
    P = Params(ctx, small=True)
    parts = [make(P, t, f"u{i}") for i, t in enumerate(cfg["ts"])]
    sch = declare(ctx, parts[0])
    for x in parts[1:]:
        sch = sch | declare(ctx, x)
    ctx.assume(all([satisfiable(x) for x in parts]))
    v = fake(sch)
    verdict(ctx, sch, v, Spec("any", types=parts))
    return digest(v)


def h_sub(ctx, cfg):
    """fake() of a schema produced by substitution."""
    P = Params(ctx, small=True)
    s = make(P, cfg["t"])
    sch = declare(ctx, s)
    ctx.assume(satisfiable(s))
    keys = tuple(cfg.get("keys", ("a", "zz")))
    w = ctx.any("w", cfg.get("kinds", ["int", "str", "list", "dict"]), depth=cfg.get("depth", 2),
                child_kinds=cfg.get("child", ["int", "none", "ellipsis"]),
                keys=keys, maxlen=cfg.get("maxlen", 3), strlen=1)
    try:
        res = substitute(sch, w)
    except SubstitutionError:
        ctx.reject()
    v = fake(res)
    verdict(ctx, res, v)
    return digest(v)


def h_part(ctx, cfg):
    """A part of the schema admits no value although the schema does."""
    P = Params(ctx, small=True)
    s = make(P, cfg["t"])
    sch = declare(ctx, s)
    ctx.assume(s.kind == "any" and any([satisfiable(x) for x in s.p["types"]]) or
               s.kind == "list" and len_range_ok(s.p) and s.p.get("min_len", 0) <= 0 and
               "len" not in s.p)
    ctx.assume(not satisfiable(s))
    try:
        v = fake(sch)
    except ValueError as e:
        ctx.fail("generation failed on an unsatisfiable part of a satisfiable schema", s, str(e))
    ctx.check(not validate(sch, v).has_errors(),
              "generation filled an unsatisfiable part of a satisfiable schema", s, v)
    return v


INF = float("inf")
EXTRA = [
    {"t": "str:len", "lens": (30, 34)}, {"t": "str:min", "lens": (31, 36)},
    {"t": "str:max", "lens": (31, 34)}, {"t": "str:min+a+c", "lens": (33, 34)},
    {"t": "str:min+c", "lens": (32, 33)}, {"t": "str:a", "strlen": 3},
    {"t": ("T", "bool", "min"), "lens": (15, 18)}, {"t": ("U", "min"), "lens": (15, 18)},
    {"t": ("U", "max"), "lens": (15, 18)}, {"t": ("T", "none", "max"), "lens": (15, 18)},
    {"t": ("U", "len"), "lens": (15, 18)},
    {"t": ("L", ["int:m", "..."], "len"), "lens": (1, 18)},
    {"t": ("L", ["...", "int:m"], "len"), "lens": (1, 18)},
    {"t": ("L", ["...", "none", "int:m", "..."], "len"), "lens": (2, 18)},
    {"t": ("L", ["..."], "min"), "lens": (0, 1)}, {"t": ("L", ["..."], "len"), "lens": (0, 3)},
    {"t": ("L", ["any", "any"], "len"), "lens": (2, 2)},
    {"t": ("L", ["any"], "min"), "lens": (0, 1)},
    {"t": "float", "set": {"min": 1e300}}, {"t": "float", "set": {"max": -1e300}},
    {"t": "float", "set": {"min": -1e308, "max": 1e308}},
    {"t": "float", "set": {"min": -1e308, "max": 1e308, "precision": 2}},
    {"t": "float", "set": {"min": -INF, "max": INF}}, {"t": "float", "set": {"min": INF}},
    {"t": "float", "set": {"max": -INF}}, {"t": "float", "set": {"min": 1e300, "precision": 3}},
    {"t": "float", "set": {"min": 5e-324, "max": 5e-324, "precision": 3}},
    {"t": "float", "set": {"min": 0.05, "max": 0.06, "precision": 1}},
    {"t": "float", "set": {"min": -0.06, "max": -0.05, "precision": 1}},
    {"t": "float", "set": {"min": 0.1 + 0.2, "max": 0.4, "precision": 1}},
    {"t": "float", "set": {"min": 1.0, "max": 1.0, "precision": 400}},
    {"t": "int", "set": {"min": 2 ** 64}}, {"t": "int", "set": {"max": -2 ** 64}},
    {"t": "int", "set": {"min": 2 ** 63 - 1}}, {"t": "int", "set": {"max": -2 ** 63}},
    {"t": "int:m", "via": 1}, {"t": "str:a", "via": 2}, {"t": ("L", ["int:m"]), "via": 2},
]
PLUS = [
    (("D", [("a", 0, "int:m")]), ("D", [("b", 0, "int:M")])),
    (("D", [("a", 0, "int:m")]), ("D", [("a", 0, "int:M"), ("c", 1, "none")])),
    (("D", [("a", 1, "int:m")]), ("D", [("a", 0, "str:len")])),
    (("D", [("a", 0, "int:m")], 1), ("D", [("b", 0, "str:max")])),
    (("D", [("a", 0, "int:m")]), ("D", [("a", 1, "int:M")], 1)),
]
UNIONS = [["int:m", "int:M"], ["int:v", "str:len", "none"], [("A", ["int:m", "none"]), "str:v"],
          [("L", ["int:m"]), ("D", [("a", 0, "int:M")])], ["float:m+M", "bytes"],
          ["uuid4", "date", "datetime"]]
SUBS = ["any", ("U",), ("U", "len"), ("U", "min"), ("T", "int:m"), ("T", "any"),
        ("T", ("D", [("a", 0, "int"), ("b", 1, "none")])), ("L", ["...", "int:m", "..."]),
        ("L", ["int:m", "..."]), ("L", ["...", "int:m"]), ("L", ["...", "any", "int", "..."]),
        "dict", ("D", [], 1), ("D", [("a", 0, "int:m"), ("b", 0, "str:len")]),
        ("D", [("a", 1, ("U",))], 1), ("D", [("a", 0, "dict")]), ("D", [("a", 0, "any")]),
        ("A", ["int:m", ("U",)]), ("A", [("D", [("a", 0, "int")]), ("D", [], 1)]),
        ("AL", ("T", "int")), "str:a+c", "int:m+M", "float:m+M+p1"]
PARTS = [("A", ["int:m+M", "none"]), ("A", ["int", "str:a+c"]), ("T", "int:m+M"),
         ("T", "int:m+M", "min"), ("A", [("L", ["int:m+M"]), "none"])]


def TASKS(tier):
    out = []
    for t in T.SCALARS + T.CONTAINERS:
        out.append({"fn": "h_fake", "cfg": {"t": t}, "budget": 20 if tier == "quick" else 300})
    for c in deep_configs(2):
        out.append({"fn": "h_fake", "cfg": c, "budget": 20 if tier == "quick" else 300})
    for c in EXTRA:
        out.append({"fn": "h_fake", "cfg": c, "budget": 20 if tier == "quick" else 300})
    wide = tier != "quick"
    for p in (None, 0, 1, 2, 3) + ((4, 6, 9, 15) if wide else ()):
        for q in (1, 2, 3):
            for r in ((-9, 9), (997, 1003), (25, 33)):
                if p is not None or q == 1:
                    out.append({"fn": "h_decimal", "budget": 20 if not wide else 300,
                                "cfg": {"p": p, "q": q, "b": "mM", "r": r, "grid": 1}})
            if wide or (p, q) in ((1, 1), (1, 2), (2, 3), (None, 1)):
                out.append({"fn": "h_decimal", "budget": 20 if not wide else 600,
                            "cfg": {"p": p, "q": q, "b": "mM", "r": (-30, 30)}})
        for b in ("m", "M"):
            out.append({"fn": "h_decimal", "budget": 20 if not wide else 300,
                        "cfg": {"p": p, "q": 1, "b": b, "r": (-9, 9), "grid": 1}})
    for a, b in PLUS:
        out.append({"fn": "h_plus", "cfg": {"a": a, "b": b}})
    for u in UNIONS:
        out.append({"fn": "h_union", "cfg": {"ts": u}})
    for t in SUBS:
        out.append({"fn": "h_sub", "cfg": {"t": t}, "budget": 20})
        out.append({"fn": "h_sub", "cfg": {"t": t, "kinds": ["dict", "list", "float", "nil"],
                                           "child": ["int", "dict", "list", "ellipsis"],
                                           "maxlen": 2, "keys": ("a", ...)}, "budget": 20})
    for t in PARTS:
        out.append({"fn": "h_part", "cfg": {"t": t}})
    return out
