"""C12: substitution fails only with SubstitutionError and is idempotent."""
from d42 import fake, schema, substitute, validate
from d42.declaration import Schema
from d42.substitution.errors import SubstitutionError

from harness.c01 import digest, satisfiable
from harness.spec import keys_of, kinds_for, shape_of
from harness.subst import TEMPLATES, close_configs, deep_configs, plain_value, scalar, start
from harness.templates import has
from harness.zoo import LABELS, zoo

BOUNDS = {
    "deep": "every pair of nested container forms, 5 members, 40 members, chains of 9",
    "schemas": "as in C04",
    "values": "lazily typed values of every plain kind, `...`, Nil, non-v4 UUIDs and tuples at "
              "every position; every value of harness/zoo.py alone and as a member",
}
ASSUMPTIONS = ["every part of the schema admits a value",
               "substitution into a custom type is up to that type (C16)"]


def judge(ctx, s, sch, w, again):
    try:
        res = substitute(sch, w)
    except SubstitutionError as e:
        ctx.check(len(str(e)) > 0 or True, "")
        return "refused"
    ctx.check(isinstance(res, Schema), "substitute() does not return a schema", s, w, res)
    out = ["schema"]
    if satisfiable(s):
        x = fake(res)
        errors = validate(res, x).get_errors()
        ctx.check(len(errors) == 0, "the result rejects what it generates", s, w, x,
                  [type(e).__name__ for e in errors])
        out.append(digest(x))
    if again:
        try:
            res2 = substitute(res, w)
        except SubstitutionError as e:
            ctx.fail("substituting the same value again fails", s, w)
        ctx.check(res2 == res, "substituting the same value again gives another schema", s, w)
        ctx.check(not res2 != res, "res2 != res", s, w)
    return out


def h_plain(ctx, cfg):
    s, sch = start(ctx, cfg)
    w = plain_value(ctx, cfg, s, "w")
    return judge(ctx, s, sch, w, True)


def h_odd(ctx, cfg):
    """`...`, Nil, tuples, non-v4 UUIDs at any position."""
    s, sch = start(ctx, cfg)
    odd = cfg["odd"]
    if s.kind in ("list", "dict", "any", "alias"):
        shape = shape_of(s, other=odd)
        if cfg.get("ekey") and "dict" in shape["kinds"]:
            shape["keys"][...] = {"kinds": ["ellipsis", "int"]}
        w = ctx.any("w", shape=shape, depth=9, strlen=1)
    else:
        w = ctx.any("w", kinds_for(s, tuple(odd)), depth=2, maxlen=1, strlen=1)
    return judge(ctx, s, sch, w, False)


def h_zoo(ctx, cfg):
    """Every value of the zoo, alone and as a member."""
    s, sch = start(ctx, cfg)
    kinds = zoo(*cfg.get("labels", ())) + ["int"]
    if cfg.get("nest"):
        w = ctx.any("w", ["list", "dict"], child_kinds=kinds, depth=2,
                    keys=tuple([k for k in keys_of(s)][:2]), maxlen=2, minlen=1)
    else:
        w = ctx.any("w", kinds, depth=1)
    r = judge(ctx, s, sch, w, False)
    return r if r == "refused" else r[0]


NEST = ["any", ("U",), ("U", "len"), ("T", "any"), ("T", "int:m"), ("L", ["...", "int:v", "..."]),
        ("L", ["any", "..."]), ("L", ["...", "float"]), "dict", ("D", [("a", 0, "int:v")]),
        ("D", [("a", 1, "any")], 1), ("A", ["int", ("T", "str"), ("D", [("a", 0, "any")])]),
        ("AL", ("T", "float")), ("D", [], 1)]


def TASKS(tier):
    out = []
    b = 20 if tier == "quick" else 400
    for t in TEMPLATES:
        cfg = {"t": t}
        if scalar(t):
            cfg.update(strlen=2, vstr=2)
        elif t[0] == "T" and t[1] in ("int:m", "int") or t[0] == "U":
            cfg.update(maxlen=3)
        out.append({"fn": "h_plain", "cfg": cfg, "budget": b})
        if scalar(t):
            out.append({"fn": "h_odd", "budget": b, "cfg": {
                "t": t, "odd": ["none", "bool", "ellipsis", "nil", "tuple", "uuid1", "list",
                                "dict", "int", "bytes", "date", "str"]}})
        else:
            for odd in (["ellipsis"], ["nil"], ["list"], ["dict"], ["uuid1", "tuple"]):
                out.append({"fn": "h_odd", "cfg": {"t": t, "odd": odd}, "budget": b})
            if has(t, "D") or t in ("dict", "any"):
                out.append({"fn": "h_odd", "cfg": {"t": t, "odd": [], "ekey": 1}, "budget": b})
    for cfg in deep_configs(2, chain=9):
        out.append({"fn": "h_plain", "cfg": cfg, "budget": b})
    for cfg in close_configs():
        out.append({"fn": "h_plain", "cfg": cfg, "budget": b})
    for t in ["none", "bool", "bool:v", "int", "int:v", "int:m+M", "float", "float:v", "float:v+p1",
              "float:m+M", "str", "str:v", "str:mm+a+c", "str:r0", "bytes", "bytes:v", "uuid4",
              "uuid4:v", "datetime", "datetime:v", "date", "date:v"] + NEST:
        out.append({"fn": "h_zoo", "cfg": {"t": t}, "budget": b})
    for t in NEST:
        out.append({"fn": "h_zoo", "cfg": {"t": t, "nest": 1}, "budget": b})
    return out
