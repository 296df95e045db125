"""C07: schemas are immutable values and all operations on them are pure."""
import collections

from harness.snap import Api, clone, fresh_api, mutate, same, snap
from harness.spec import shape_of, Params, make
from harness.spec2 import build_in

BOUNDS = {
    "histories": "two operations (any of ~16 kinds) on the same or on related schemas, each "
                 "compared with the same operation in a freshly imported copy of the library, "
                 "where nothing else was executed",
    "schemas": "one of 14 templates, a container of it and an unrelated schema",
    "values": "lazily typed along the schema, plus 1 / True / 1.0 / 'a' / b'a' look-alikes",
    "mutation": "every list and dict reachable from an argument is extended, cleared or "
                "overwritten after the call, as are values handed out by the library",
}
ASSUMPTIONS = ["purity of fake() is limited to the schemas: its result is random",
               "the library is imported anew by removing its modules from sys.modules"]

TS = ["int:v", "int:m", "float:p1", "str:a", "str:c", "any", ("U",), ("T", "int:m"),
      ("L", ["int:v", "..."]), ("L", ["...", "int:m", "..."]), ("D", [("a", 0, "int:m"), ("b", 1, "none")]),
      ("D", [("a", 1, ("D", [("b", 0, "int:v")]))], 1), ("D", [("b", 1, "int:m"), ("a", 0, "none")], "first"),
      ("A", ["int:v", "none"]), ("AL", "int:m"),
      ("A", [("D", [("a", 0, "int:v")]), ("T", "int")])]


# ---------------------------------------------------------------- operations
def outcome(api, f):
    """Snapshot of the result or of the exception."""
    try:
        return snap(f())
    except (api.DeclarationError, api.SubstitutionError, api.ValidationException, TypeError,
            ValueError, KeyError) as e:
        return ["raised", type(e).__name__]


def errors_of(api, sch, v):
    return [x for x in api.validate(sch, v).get_errors()]


OPS = {
    "validate": lambda api, s, o, v: errors_of(api, s, v),
    "or_fail": lambda api, s, o, v: api.validate_or_fail(s, v),
    "eq": lambda api, s, o, v: [s == v, s == o, o != s],
    "mod": lambda api, s, o, v: s % v,
    "omod": lambda api, s, o, v: o % v,
    "invert": lambda api, s, o, v: [None, ~s][0],
    "repr": lambda api, s, o, v: repr(s),
    "or": lambda api, s, o, v: s | o,
    "ror": lambda api, s, o, v: (o | s) | o,
    "add": lambda api, s, o, v: s + o,
    "radd": lambda api, s, o, v: o + s,
    "required": lambda api, s, o, v: api.make_required(s),
    "native": lambda api, s, o, v: api.from_native(v),
    "call": lambda api, s, o, v: s(v),
    "min": lambda api, s, o, v: s.min(v),
    "len": lambda api, s, o, v: s.len(1) if v is None else s.len(v, ...),
    "contains": lambda api, s, o, v: s.contains(v),
    "iterate": lambda api, s, o, v: list(s),
    "index": lambda api, s, o, v: s["a"],
    "wrap": lambda api, s, o, v: api.schema.dict({"k": s, api.optional("o"): o, ...: ...}),
    "wraplist": lambda api, s, o, v: api.schema.list([s, o, ...]),
    "typed": lambda api, s, o, v: api.schema.list(s).len(0, 3),
    "alias": lambda api, s, o, v: api.schema.alias("n", s),
    "union": lambda api, s, o, v: api.schema.any(s, o, s),
}
HAS = {"min": ("int", "float"), "len": ("str", "list"), "contains": ("str",), "add": ("dict",),
       "radd": ("dict",), "required": ("dict",), "iterate": ("dict", "any", "list"), "index": ("dict",),
       "call": ("int", "float", "str", "list", "dict", "any")}


def applies(op, s):
    return op not in HAS or s.kind in HAS[op]


def run(api, op, s, o, v):
    try:
        return outcome(api, lambda: OPS[op](api, s, o, v))
    except AttributeError:
        return ["no such operation"]


def other_of(api, i):
    """A second schema: key sets apart from, within, around and equal to the templates'."""
    S, o = api.schema, api.optional
    return [lambda: S.dict({"a": S.str, o("z"): S.int(3)}), lambda: S.dict({"a": S.str}),
            lambda: S.dict({o("b"): S.dict({"c": S.int}), o("a"): S.none}),
            lambda: S.dict({"b": S.list(S.int), "a": S.any, "z": S.none}), lambda: S.dict({}),
            lambda: S.dict({"a": S.int(1), ...: ...}), lambda: S.dict({...: ...}), lambda: S.dict,
            lambda: S.any(S.int, S.dict({"a": S.none}))][i]()


def h_history(ctx, cfg):
    """op1; op2  ==  op2 alone, and nothing visible changes."""
    P = Params(ctx, small=True, strlen=1, len_range=(0, 2))
    s = make(P, cfg["t"], "s")
    shape = shape_of(s)
    v1 = ctx.any("v1", shape=shape, depth=9, strlen=1, order=True)
    v2 = v1 if cfg.get("samev") else ctx.any("v2", shape=shape, depth=9, strlen=1)
    ops = [x for x in OPS if applies(x, s)]
    op1 = ctx.pick([x for x in ops if x in cfg["ops1"]] or ops, "op1")
    op2 = ctx.pick([x for x in ops if x not in ("invert",) and x in cfg.get("ops2", ops)], "op2")
    api = Api()
    oi = ctx.choose(9, "other") if cfg.get("others") else 0
    sch, other = build_in(api, ctx, s), other_of(api, oi)
    box = api.schema.list([sch, other])
    pool = [sch, other, box]
    before = snap(pool)
    vals = snap([v1, v2]) if cfg.get("watch") else None
    run(api, op1, sch, other, v1)
    ctx.check(same(snap(pool), before), f"{op1} changed a schema", s, v1)
    r2 = run(api, op2, sch, other, v2)
    ctx.check(same(snap(pool), before), f"{op2} changed a schema", s, v1, v2)
    if vals is not None:
        ctx.check(same(snap([v1, v2]), vals), "an argument was changed", s, op1, op2, v1, v2)
    api2 = fresh_api(ctx)
    sch2 = build_in(api2, ctx, s)
    other2 = other_of(api2, oi)
    ctx.check(same(snap([sch2, other2]), snap([sch, other])), "declared differently", s)
    r = run(api2, op2, sch2, other2, v2)
    ctx.check(same(r, r2), f"{op2} after {op1} gives another result than alone", s, v1, v2, r2, r)
    return [op1, op2]


LOOK = [1, True, 1.0, 0, False, 0.0, -0.0, "a", b"a", None, [1], [True], [1.0], {"a": 1}, {"a": True},
        [], {}, [[]], {1: 1}, {True: 1}, "", b"", 2 ** 53, float(2 ** 53), float("nan"), float("inf")]
LOOK_OPS = {
    "native": lambda api, v: api.from_native(v),
    "any%": lambda api, v: api.schema.any % v,
    "list%": lambda api, v: api.schema.list % [v],
    "dict%": lambda api, v: api.schema.dict % {"k": v},
    "int%": lambda api, v: api.schema.int % v,
    "float%": lambda api, v: api.schema.float % v,
    "int()": lambda api, v: api.schema.int(v),
    "float()": lambda api, v: api.schema.float(v),
    "bool()": lambda api, v: api.schema.bool(v),
    "str()": lambda api, v: api.schema.str(v),
    "min": lambda api, v: api.schema.float.min(v),
    "imin": lambda api, v: api.schema.int.min(v),
    "len": lambda api, v: api.schema.str.len(v),
    "validate": lambda api, v: errors_of(api, api.schema.int, v),
    "validate2": lambda api, v: errors_of(api, api.schema.any(api.schema.bool, api.schema.str), v),
    "validate3": lambda api, v: errors_of(api, api.schema.list(api.schema.int), v),
    "validate4": lambda api, v: errors_of(api, api.schema.dict({"a": api.schema.bool}), v),
    "repr": lambda api, v: repr(api.from_native(v)),
    "reprkey": lambda api, v: repr(api.schema.dict({v: api.schema.int})),
    "key": lambda api, v: list(api.schema.dict({v: api.schema.int})),
    "rollout": lambda api, v: api.rollout({"a.b": v, "c": {"d": v}}),
    "eq": lambda api, v: [api.schema.bool == v, api.schema.int(1) == v],
    "message": lambda api, v: api.validate(api.schema.none, v).get_errors()[0].format(api.Formatter()),
}


def h_look(ctx, cfg):
    """Arguments that are equal or hash alike must not be confused over time."""
    op = ctx.pick(cfg["ops"], "op")
    x, y = ctx.pick(LOOK, "x"), ctx.pick(LOOK, "y")
    if cfg.get("sym"):
        x, y = [ctx.any(n, ["int", "bool", "float", "str", "list", "none"], child_kinds=["int", "bool"],
                        maxlen=1, strlen=1, depth=2) for n in "xy"]
    api = Api()
    f = LOOK_OPS[op]

    def go(a, v):
        try:
            return outcome(a, lambda: f(a, v))
        except IndexError:
            return ["none"]
    first = go(api, x)
    second = go(api, y)
    third = go(api, x)
    ctx.check(same(first, third), f"{op}: repeating it gives another result", x, y)
    alone = go(fresh_api(ctx), y)
    ctx.check(same(second, alone), f"{op}: an earlier call with another argument matters", x, y,
              second, alone)
    return op


def h_arg(ctx, cfg):
    """Changing an argument afterwards does not change the schema built from it."""
    api = Api()
    S = api.schema
    how = ctx.pick(["append", "clear", "replace"], "how")
    k = cfg["k"]
    leaf = {"kinds": ["int"]}
    deep = {"kinds": ["int", "list", "dict"], "elems": [leaf], "maxlen": 1, "keys": {"x": leaf}}
    shape = {"kinds": ["list", "dict"], "elems": [deep], "maxlen": 2, "keys": {"a": deep, "b": leaf}}
    if k == "native":
        arg = clone(ctx.any("w", shape=shape, depth=9))
        sch = api.from_native(arg)
    elif k in ("any", "list", "dict", "typed", "relaxed", "union", "alias", "nested", "contains"):
        base = {"any": lambda: S.any, "list": lambda: S.list, "dict": lambda: S.dict,
                "typed": lambda: S.list(S.any), "relaxed": lambda: S.dict({...: ...}),
                "union": lambda: S.any(S.list, S.dict), "alias": lambda: S.alias("x", S.any),
                "nested": lambda: S.dict({"a": S.any, api.optional("b"): S.list}),
                "contains": lambda: S.list([..., S.any, ...])}[k]()
        arg = clone(ctx.any("w", shape=shape, depth=9))
        before = snap(base)
        try:
            sch = api.substitute(base, arg)
        except api.SubstitutionError:
            ctx.reject()
        ctx.check(same(snap(base), before), "substitution changed the schema")
    elif k == "declare list":
        arg = [[S.int, S.list([S.str]), ...], [..., S.int(1)], [], [S.none], [..., S.int, ...], [...],
               [S.dict({"a": S.int})]][ctx.choose(7, "which")]
        sch = S.list(arg)
    elif k == "declare dict":
        arg = [{"a": S.int, "b": S.dict({"c": S.list([S.int])})}, {}, {...: ...},
               {api.optional("a"): S.int, ...: ...}][ctx.choose(4, "which")]
        sch = S.dict(arg)
    elif k == "required":
        arg = ["a"]
        sch = api.make_required(S.dict({api.optional("a"): S.int, api.optional("b"): S.int}), arg)
    probe = ctx.any("p", shape=shape, depth=9)
    b1 = snap(sch)
    r1 = repr(sch)
    v1 = [snap(e) for e in errors_of(api, sch, probe)] if cfg.get("probe") else None
    mutate(arg, how)
    ctx.check(same(snap(sch), b1), "changing the argument changed the schema", k, how)
    ctx.check(repr(sch) == r1, "changing the argument changed the text of the schema", k, how)
    if v1 is not None:
        v2 = [snap(e) for e in errors_of(api, sch, probe)]
        ctx.check(same(v1, v2), "changing the argument changed a verdict", k, how)
    return [k, how]


def layout(x):
    """What is in a container, in its order."""
    if isinstance(x, dict):
        return [y for k, v in x.items() for y in [k] + layout(v)] + [len(x)]
    if isinstance(x, (list, tuple)):
        return [y for v in x for y in layout(v)] + [len(x)]
    return [len(x)] + [k for k in "abc" if k in x] if isinstance(x, set) else [x]


def h_args(ctx, cfg):
    """No call changes the containers it is given, nor the order in them."""
    api = Api()
    S = api.schema
    names = ["b", "a", "c"]
    order = [names.pop(ctx.choose(len(names), f"o{i}")) for i in range(3)]
    order = order[:ctx.choose(3, "n") + 1]
    n = ctx.int("i")
    members = [S.int(n), S.str, S.list([S.int(n)]), S.none]
    dup = ctx.flag("dup")
    k = cfg["k"]
    if k == "required":
        d = S.dict({api.optional(x): S.int for x in "abc"})
        arg = [list, tuple, set][ctx.choose(3, "type")](order + order[:1] * dup)
        call = lambda: api.make_required(d, arg)
    elif k == "list":
        arg = [members[i % 2 if dup else i] for i in range(len(order))]
        arg = [arg, arg + [...], [...] + arg, [...] + arg + [...]][ctx.choose(4, "form")]
        call = lambda: S.list(arg)
    elif k == "dict":
        arg = {api.optional(x) if dup and x != "a" else x: members[i] for i, x in enumerate(order)}
        if ctx.flag("relaxed"):
            arg[...] = ...
        call = lambda: S.dict(arg)
    elif k == "rollout":
        arg = {x + ".k" if x != "a" else x: [n, {"d.e": n}, [n]][i] for i, x in enumerate(order)}
        if dup:
            arg[api.optional("z.y")] = {"q": n}
        if ctx.flag("relaxed"):
            arg[...] = ...
        call = lambda: api.rollout(arg)
    elif k == "native":
        arg = [{x: [n, {"y": [n]}, None][i] for i, x in enumerate(order)}, [n, "b", "a", n]]
        call = lambda: api.from_native(arg)
    else:
        arg = [{x: [n, {"y": [n]}, None][i] for i, x in enumerate(order)}, [n, "b", "a", n]]
        sch = [S.list, S.any, S.list([S.dict, ...]), S.list([S.dict({api.optional(x): S.any for x in "abc"}), S.list(S.any)]),
               S.list([..., S.list([..., S.str, S.str, ...])])][ctx.choose(5, "schema")]
        call = {"mod": lambda: sch % arg, "validate": lambda: errors_of(api, sch, arg), "eq": lambda: sch == arg}[k]
    before = layout(arg)
    try:
        call()
    except (api.DeclarationError, api.SubstitutionError, ValueError):
        pass
    after = layout(arg)
    ctx.check(len(after) == len(before) and all([x is y or type(x) is int and x == y for x, y in zip(after, before)]),
              "an argument is changed", k, order)
    return [k, order]


def h_out(ctx, cfg):
    """Changing what the library hands out does not change the schema."""
    api = Api()
    P = Params(ctx, small=True, strlen=1, len_range=(0, 2))
    s = make(P, cfg["t"], "s")
    sch = build_in(api, ctx, s)
    how = ctx.pick(["append", "clear", "replace"], "how")
    b1 = snap(sch)
    what = ctx.pick(["fake", "errors", "iter", "rollout", "value"], "what")
    v = ctx.any("v", shape=shape_of(s), depth=9, strlen=1)
    if what == "fake":
        try:
            out = api.fake(sch)
        except ValueError:
            ctx.reject()
    elif what == "errors":
        out = api.validate(sch, v).get_errors()
    elif what == "value":
        e1 = snap(api.validate(sch, v).get_errors())
        c = snap(v)
        e2 = snap(api.validate(sch, v).get_errors())
        ctx.check(same(e1, e2), "validating again gives other errors", s, v)
        ctx.check(same(snap(v), c), "validation changed the value", s, v)
        return what
    elif what == "iter":
        if s.kind not in ("dict", "any"):
            ctx.reject()
        out = list(sch)
    else:
        inner = {"a.b": {"c.d": 1}, "e": {"f": [1]}}
        c = snap(inner)
        out = api.rollout(inner)
        ctx.check(same(snap(inner), c), "rollout changed its argument")
    mutate(out, how)
    ctx.check(same(snap(sch), b1), "changing a returned value changed the schema", s, what, how)
    return what


def h_temps(ctx, cfg):
    """Schemas that come and go (their addresses are reused)."""
    api = Api()
    op = ctx.pick(["validate", "repr", "mod", "eq", "fake"], "op")
    a = ctx.int("a")
    v = ctx.any("v", ["int", "str", "none"], depth=1, strlen=1)

    def mk(a_, i):
        S = a_.schema
        return [lambda: S.int(a), lambda: S.int.min(a), lambda: S.none, lambda: S.str,
                lambda: S.list([S.int(a)]), lambda: S.dict({"a": S.int.min(a)}),
                lambda: S.dict({"a": S.int.max(a)}), lambda: S.list([S.int.min(a)])][i]()
    vals = [v, [v], {"a": v}]
    i, j = ctx.choose(8, "i"), ctx.choose(8, "j")

    def go(a_, sch, w):
        if op == "fake":
            x = a_.fake(sch)
            return snap([e for e in errors_of(a_, sch, x)])
        return outcome(a_, lambda: OPS[op](a_, sch, sch, w))
    for w in vals:
        go(api, mk(api, i), w)
    r = [go(api, mk(api, j), w) for w in vals]
    api2 = fresh_api(ctx)
    q = [go(api2, mk(api2, j), w) for w in vals]
    ctx.check(same(r, q), f"{op}: depends on schemas that existed before", a, v, r, q)
    return [op, i, j]


class Filling(dict):
    """Remembers every key that is asked for."""

    def __missing__(self, key):
        self[key] = None
        return None


class Counting(list):
    """Counts how it is changed."""
    changes = 0

    def _change(self, *args, **kwargs):
        self.changes += 1

    append = extend = insert = pop = remove = reverse = sort = clear = __setitem__ = __delitem__ = \
        __iadd__ = __imul__ = _change


def watched(ctx, x):
    """Values that show whether they were changed or consumed."""
    return [lambda: collections.defaultdict(int), lambda: collections.defaultdict(dict, b=x),
            lambda: collections.Counter({"b": x}), lambda: collections.OrderedDict([("b", x), ("c", 1)]),
            lambda: Filling({"b": x}), lambda: Filling(), lambda: Counting([x, "b", 0]), lambda: Counting(),
            lambda: iter([x, 1]), lambda: (y for y in [x]), lambda: collections.deque([x, 1]), lambda: {x, 0},
            lambda: bytearray(b"ab"), lambda: [x, None, 0], lambda: {"c": x, "b": 1}, lambda: {"z": x, "y": 1, "x": 2}]


def state(x):
    """Everything that can be observed without changing it; consumes nothing but iterators."""
    t = type(x)
    if isinstance(x, dict):
        return [t.__name__] + [[k, state(v)] for k, v in x.items()]
    if isinstance(x, (list, tuple, collections.deque)):
        return [t.__name__, getattr(x, "changes", 0)] + [state(v) for v in x]
    if hasattr(t, "__next__"):
        return ["iterator"] + [state(v) for v in x]
    if isinstance(x, (set, bytearray)):
        return [t.__name__] + sorted(x)
    return x


WATCH_TS = ["any", "none", "dict", ("D", []), ("D", [("a", 0, "any")]), ("D", [("a", 1, "int")]),
            ("D", [("a", 0, "int"), ("b", 1, "any"), ("c", 1, "int")]), ("D", [("a", 1, "none")], 1),
            ("D", [("a", 0, ("D", [("b", 0, "int"), ("a", 1, "int")]))]), ("U",), ("T", "any"), ("T", "int"),
            ("L", ["any", "int"]), ("L", ["...", "int"]), ("L", ["...", "any", "..."]), ("L", ["any", "..."]),
            ("A", [("T", "int"), ("D", [("a", 1, "int")]), "none"]), ("AL", ("D", [("a", 1, "int")])),
            ("T", ("D", [("a", 1, "int")]))]


def h_watch(ctx, cfg):
    """Values that show whether they were changed, alone and within others."""
    api = Api()
    s = make(Params(ctx, small=True), cfg["t"], "s")
    sch = build_in(api, ctx, s)
    x = ctx.int("x")
    ctx.assume(x > 5)
    make_v = watched(ctx, x)[ctx.choose(16, "which")]
    wrap = [lambda v: v, lambda v: {"a": v}, lambda v: [v, 1]][ctx.choose(3, "wrap")]
    v, w = wrap(make_v()), wrap(make_v())
    op = ctx.pick(["validate", "or_fail", "eq", "mod", "native", "call", "message"], "op")
    ctx.assume(op != "native" or cfg["t"] == "any")
    if op == "message":
        for e in api.validate(sch, v).get_errors():
            e.format(api.Formatter())
    elif op == "call":
        if s.kind not in ("dict", "list", "any"):
            ctx.reject()
        run(api, op, sch, sch, v)
    else:
        run(api, op, sch, sch, v)
    ctx.check(state(v) == state(w), f"{op} changed a value", s)
    return op


GROUPS = [["validate", "or_fail", "eq"], ["mod", "omod"], ["native", "call"], ["repr", "invert"],
          ["or", "ror", "union"], ["add", "radd", "required", "min", "len", "contains"],
          ["iterate", "index", "wrap", "wraplist", "typed", "alias"]]


ARGS = ["required", "list", "dict", "rollout", "native", "mod", "validate", "eq"]


def TASKS(tier):
    b = 15 if tier == "quick" else 300
    out = []
    for k in ARGS:
        out.append({"fn": "h_args", "budget": b, "cfg": {"k": k}})
    for t in TS:
        for g in GROUPS:
            out.append({"fn": "h_history", "budget": b, "cfg": {"t": t, "ops1": g, "samev": 1, "watch": 1}})
        out.append({"fn": "h_history", "budget": b,
                    "cfg": {"t": t, "ops1": ["validate", "mod", "native", "call"]}})
        if t[0] in ("D", "A"):
            g = ["add", "radd", "required"] if t[0] == "D" else ["or", "ror", "union"]
            for op in g:
                out.append({"fn": "h_history", "budget": b,
                            "cfg": {"t": t, "ops1": [op], "samev": 1, "others": 1,
                                    "ops2": ["validate", "eq", "repr"] + g}})
        out.append({"fn": "h_out", "cfg": {"t": t}, "budget": b})
    for op in LOOK_OPS:
        out.append({"fn": "h_look", "cfg": {"ops": [op]}, "budget": b})
    for op in ("native", "any%", "validate", "repr", "int%", "eq"):
        out.append({"fn": "h_look", "cfg": {"ops": [op], "sym": 1}, "budget": b})
    for k in ("native", "any", "list", "dict", "typed", "relaxed", "union", "alias", "nested",
              "contains", "declare list", "declare dict", "required"):
        out.append({"fn": "h_arg", "cfg": {"k": k}, "budget": b})
        if k in ("native", "any", "declare list", "declare dict"):
            out.append({"fn": "h_arg", "cfg": {"k": k, "probe": 1}, "budget": b})
    out.append({"fn": "h_temps", "budget": b})
    for t in WATCH_TS:
        out.append({"fn": "h_watch", "cfg": {"t": t}, "budget": b})
    return out
