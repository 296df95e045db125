"""C11: constraint refinements can be declared in any order."""
import itertools

from d42 import schema, validate
from d42.declaration import DeclarationError

from harness.c10 import call
from harness.snap import same, snap
from harness.spec import CHARS, REGEXES, Params, Spec, conforms, make, build, shape_of
from harness.spec import len_ok

BOUNDS = {
    "sets": "every set of up to three (str: four) refinements of int, float, str and list, with "
            "duplicates, with and without a value (list elements) fixed first; every permutation",
    "parameters": "unbounded ints, floats k/4 and special, strings up to 2 characters",
}
ASSUMPTIONS = []

ITEMS = {"int": ["min", "max"], "float": ["min", "max", "precision"],
         "str": ["len", "min_len", "max_len", "mm", "alphabet", "substr", "pattern"],
         "list": ["len", "min_len", "max_len", "mm"]}


def floating(ctx, n, cfg):
    how = cfg.get("special")
    return ctx.near(n) if how == 2 else ctx.any(n, ["float", "fspecial"], depth=1) if how else ctx.float(n)


def param(ctx, kind, item, n, cfg):
    if item == "mm":
        return [ctx.int(n + "lo"), ctx.int(n + "hi")]
    if item in ("len", "min_len", "max_len", "precision"):
        return [ctx.int(n)]
    if item in ("min", "max"):
        return [ctx.int(n) if kind == "int" else
                floating(ctx, n, cfg)]
    if item == "pattern":
        return [ctx.pick(REGEXES, n)]
    return [ctx.str(n, cfg.get("strlen", 2), chars=CHARS)]


def apply(base, calls, order):
    sch = base
    for i in order:
        name, args = calls[i]
        try:
            sch = call(sch, name, *args)
        except DeclarationError:
            return None
    return sch


def h_order(ctx, cfg):
    kind = cfg["kind"]
    s = Spec(kind)
    base = getattr(schema, kind)
    if cfg.get("value"):
        if kind == "list":
            P = Params(ctx, small=True)
            s = make(P, cfg["value"], "s")
            base = build(s)
        else:
            v = {"int": lambda: ctx.int("v"), "str": lambda: ctx.str("v", 2, chars=CHARS),
                 "float": lambda: floating(ctx, "v", cfg)}[kind]()
            s.p["value"] = v
            base = base(v)
    items = cfg["items"]
    calls = [(x, param(ctx, kind, x, f"{x}{i}", cfg)) for i, x in enumerate(items)]
    orders = list(itertools.permutations(range(len(items))))
    first = apply(base, calls, orders[0])
    a = snap(first) if first is not None else None
    ctx.check(first is None or len(items) == len(set(items)), "a refinement was declared twice", s, calls)
    for o in orders[1:]:
        other = apply(base, calls, o)
        ctx.check((first is None) == (other is None), "one order is rejected, another is not",
                  s, calls, list(o))
        if first is None:
            continue
        ctx.check(first == other and other == first, "two orders give unequal schemas", s, calls, list(o))
        ctx.check(not first != other, "two orders give unequal schemas", s, calls, list(o))
        ctx.check(repr(first) == repr(other), "two orders give schemas with different texts", s, calls, list(o))
        ctx.check(same(snap(other), a), "two orders give different declarations", s, calls, list(o))
    if first is None:
        return False
    for x, args in calls:
        if x == "mm":
            s.p["min_len"], s.p["max_len"] = args
        else:
            s.p[x] = args[0]
    if cfg.get("probe"):
        w = ctx.any("w", {"int": ["int"], "float": ["float"], "str": ["str"], "list": ["list"]}[kind],
                    depth=2, strlen=2, maxlen=2, child_kinds=["int"], chars=CHARS)
        ctx.check((not validate(first, w).has_errors()) == conforms(s, w),
                  "a constraint was lost or added on the way", s, w)
    return True


def TASKS(tier):
    quick = tier == "quick"
    b = 20 if quick else 400
    out = []

    def add(kind, items, **k):
        out.append({"fn": "h_order", "cfg": dict(k, kind=kind, items=list(items)), "budget": b})
    for items in (["min", "max"], ["min", "min"], ["max", "max"], ["min", "max", "min"]):
        for v in (0, 1):
            add("int", items, value=v, probe=1)
    for items in (["min", "max"], ["min", "precision"], ["max", "precision"], ["min", "max", "precision"],
                  ["precision", "precision"], ["min", "min", "precision"]):
        for v in (0, 1):
            for sp in (0, 1, 2):
                add("float", items, value=v, special=sp, probe=not sp)
    I = ITEMS["str"]
    for n in (2, 3):
        for items in itertools.combinations(I, n):
            for v in (0, 1):
                add("str", items, value=v, strlen=1 if n == 3 else 2, probe=n == 2 or not v)
    for x in I:
        add("str", [x, x])
        add("str", [x, x], value=1)
    for items in itertools.combinations(I, 4):
        if not quick or len([x for x in items if x in I[:4]]) == 1:
            add("str", items, value=1, strlen=1)
            add("str", items, value=0, strlen=1)
    for items in itertools.combinations_with_replacement(ITEMS["list"], 2):
        for v in (0, ("L", ["int:v", "none"]), ("L", ["int:v", "..."]), ("T", "int"), ("L", ["..."]), ("L", [])):
            add("list", items, value=v)
    return out
