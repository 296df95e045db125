"""C13: schema combinators mean what their parts mean."""
from d42 import fake, schema, validate
from d42.declaration import DeclarationError
from d42.utils import make_required

from harness.c01 import digest, satisfiable
from harness.snap import same, snap
from harness.spec import Params, Spec, conforms, declare, depth_of, make, merge_shapes, shape_of

BOUNDS = {
    "expressions": "every combination of |, schema.any, dict +, make_required, alias, list and "
                   "dict within the sizes of TASKS(); dict operands with up to three keys out of "
                   "'a', 'b', 'c', 1, True, None, ('x', 1), each required or optional, `...` first, "
                   "last or absent",
    "values": "lazily typed, guided by every operand and by the combination: each declared key "
              "present or absent, an undeclared key, each value of a fitting or an unrelated kind",
    "parameters": "unbounded ints, strings up to 1 character",
}
ASSUMPTIONS = [
    "the operands of + and make_required are declared dict schemas",
    "fake() is judged where every part of the schema admits a value (C01)",
]


def params(ctx):
    return Params(ctx, small=True, strlen=1)


def leaf(ctx, cfg, n):
    t = ctx.pick(cfg.get("leaves", ["int:m", "int:v", "str", "none"]), n)
    s = make(params(ctx), t, n)
    return declare(ctx, s), s


def members(ctx, cfg, n, size, depth, names=None):
    """A declared dict schema and its meaning."""
    from d42 import optional
    count = ctx.small(n + ".n", cfg.get("minkeys", 0), size)
    names = list(names or cfg.get("keys", ["a", "b"]))
    relaxed = ctx.pick(cfg.get("relaxed", [0, 1]), n + ".relaxed")
    decl, keys = {}, []
    if relaxed == "first":
        decl[...] = ...
    for i in range(count):
        j = ctx.choose(len(names), f"{n}.k{i}")
        k = names[j]
        names = names[j + 1:]                   # an increasing choice: no order but that of names
        opt = ctx.choose(2, f"{n}.o{i}")
        sub, s = expr(ctx, cfg, f"{n}.{i}", depth)
        decl[optional(k) if opt else k] = sub
        keys.append((k, bool(opt), s))
        if not names:
            break
    if relaxed and relaxed != "first":
        decl[...] = ...
    return schema.dict(decl), Spec("dict", keys=keys, relaxed=bool(relaxed))


def merged(a, b):
    keys = []
    for k, opt, s in a.p["keys"]:
        hit = [x for x in b.p["keys"] if x[0] == k]
        keys.append((k, hit[0][1], hit[0][2]) if hit else (k, opt, s))
    for k, opt, s in b.p["keys"]:
        if not [x for x in a.p["keys"] if x[0] == k]:
            keys.append((k, opt, s))
    return Spec("dict", keys=keys, relaxed=a.p["relaxed"] or b.p["relaxed"])


def required(ctx, n, sch, s, how=None):
    """make_required with every choice of keys."""
    how = ctx.choose(4, n + ".how") if how is None else how
    if how == 0:
        return make_required(sch), Spec("dict", relaxed=s.p["relaxed"],
                                        keys=[(k, False, x) for k, o, x in s.p["keys"]])
    names = [k for k, o, x in s.p["keys"] if ctx.flag(f"{n}.req.{k}")]
    arg = [None, list, tuple, set][how](names)
    return make_required(sch, arg), Spec("dict", relaxed=s.p["relaxed"], keys=[
        (k, o and k not in names, x) for k, o, x in s.p["keys"]])


def dict_expr(ctx, cfg, n, depth, form=None):
    forms = cfg.get("dforms", ["dict", "add", "req"]) if depth > 0 else ["dict"]
    f = ctx.pick(forms, n + ".df") if form is None else form
    size = cfg.get("size", 2)
    if f == "dict":
        return members(ctx, cfg, n, size, depth - 1)
    if f == "add":
        a, sa = dict_expr(ctx, cfg, n + ".l", depth - 1)
        b, sb = dict_expr(ctx, cfg, n + ".r", depth - 1)
        shapes(ctx, sa, sb)
        return a + b, merged(sa, sb)
    a, sa = dict_expr(ctx, cfg, n + ".q", depth - 1)
    return required(ctx, n, a, sa)


SEEN = []


def shapes(ctx, *specs):
    SEEN.extend(specs)


def expr(ctx, cfg, n, depth, form=None):
    if depth <= 0:
        return leaf(ctx, cfg, n)
    forms = cfg.get("forms", ["leaf", "or", "any", "alias", "dict", "list", "typed"])
    f = ctx.pick(forms, n + ".f") if form is None else form
    if f == "leaf":
        return leaf(ctx, cfg, n)
    if f == "or":
        a, sa = expr(ctx, cfg, n + ".l", depth - 1)
        b, sb = expr(ctx, cfg, n + ".r", depth - 1)
        return a | b, Spec("any", types=[sa, sb])
    if f == "any":
        k = ctx.small(n + ".n", 0, cfg.get("width", 2))
        if k == 0:
            return schema.any, Spec("any")
        subs = [expr(ctx, cfg, f"{n}.{i}", depth - 1) for i in range(k)]
        return schema.any(*[x for x, s in subs]), Spec("any", types=[s for x, s in subs])
    if f == "alias":
        a, sa = expr(ctx, cfg, n + ".t", depth - 1)
        return schema.alias("N", a), Spec("alias", name="N", type=sa)
    if f == "list":
        a, sa = expr(ctx, cfg, n + ".e", depth - 1)
        return schema.list([a]), Spec("list", elems=[sa])
    if f == "typed":
        a, sa = expr(ctx, cfg, n + ".e", depth - 1)
        return schema.list(a), Spec("list", type=sa)
    return dict_expr(ctx, cfg, n, depth, None if f == "dict" else f)


def judge(ctx, cfg, sch, s):
    """validate() and fake() against the meaning."""
    shape = merge_shapes([shape_of(x, other=cfg.get("other", True)) for x in [s] + SEEN])
    v = ctx.any("v", shape=shape, depth=9, strlen=1)
    ok = not validate(sch, v).has_errors()
    ctx.check(ok == conforms(s, v), "the combination judges a value unlike its parts", s, v, ok)
    ctx.check((sch == v) == ok, "schema == value and validate() differ", s, v)
    return ok


def h_expr(ctx, cfg):
    SEEN.clear()
    sch, s = expr(ctx, cfg, "e", cfg["depth"], cfg["form"])
    return judge(ctx, cfg, sch, s)


def h_fake(ctx, cfg):
    """fake() of the combination conforms to the meaning, on every outcome of the draws."""
    SEEN.clear()
    sch, s = expr(ctx, cfg, "e", cfg["depth"], cfg["form"])
    ctx.assume(satisfiable(s))
    v = fake(sch)
    ctx.check(conforms(s, v), "fake() of the combination does not conform to its parts", s, v)
    return digest(v)


def member_is(ctx, got, want, s, k):
    ctx.check(got == want, "a member is not the declared one", s, k)
    ctx.check(not got != want, "!= on members", s, k)


def h_members(ctx, cfg):
    """d[key], keys(), `in` and iteration."""
    from d42 import optional
    names = ["a", "b", 1, None, ("x", 1)]
    n = ctx.small("n", 0, cfg.get("size", 3))
    keys, decl = [], {}
    rel = ctx.choose(3, "relaxed")
    if rel == 1:
        decl[...] = ...
    for i in range(n):
        k = names[ctx.choose(len(names), f"k{i}")]
        ctx.assume(k not in [x for x, _, _ in keys])
        opt = ctx.choose(2, "opt")
        sub, s = leaf(ctx, {"leaves": cfg.get("leaves", ["int:v", "str"])}, f"m{i}")
        decl[optional(k) if opt else k] = sub
        keys.append((k, opt, sub))
    if rel == 2:
        decl[...] = ...
    d = schema.dict(decl)
    if cfg["via"] == "add":
        d = schema.dict({"a": schema.bytes, optional("b"): schema.none}) + d
        for k, s in (("a", schema.bytes), ("b", schema.none)):
            if k not in [x for x, _, _ in keys]:
                keys.append((k, k == "b", s))
    elif cfg["via"] == "req":
        d = make_required(d)
    got = [k for k in d if k is not ...]
    want = [k for k, _, _ in keys]
    ctx.check(len(got) == len(want) and all([k in want for k in got]),
              "iteration yields other keys than the declared ones", want, got)
    ctx.check([k for k in d.keys() if k is not ...] == got, "keys() and iteration differ", want, got)
    for k, opt, sub in keys:
        member_is(ctx, d[k], sub, d, k)
        ctx.check(same(snap(d[k]), snap(sub)), "a member is not the declared one", d, k)
        x = ctx.any(f"x{k}", ["int", "str", "none"], strlen=1)
        ctx.check((d[k] == x) == (sub == x), "d[key] judges a value unlike the member", k, x)
    for k in names + ["zz", ...]:
        if k not in want:
            try:
                d[k]
            except KeyError:
                pass
            else:
                ctx.fail("d[key] answers for an undeclared key", k, want)
    return want


def h_alternatives(ctx, cfg):
    """Iterating a union: an alternative of it accepts exactly when the union does."""
    cfg = dict(cfg, forms=["leaf", "or", "any", "alias"])
    sch, s = expr(ctx, cfg, "e", cfg["depth"], "any")
    alts = list(sch)
    ctx.check(list(sch) == alts, "iterating twice differs", s)
    v = ctx.any("v", shape=shape_of(s), depth=9, strlen=1)
    if not s.p.get("types"):
        ctx.check(alts == [], "schema.any has no alternatives", s)
        return 0
    ok = False
    for x in alts:
        if not validate(x, v).has_errors():
            ok = True
    ctx.check(ok == conforms(s, v), "the alternatives judge a value unlike the union", s, v)
    return len(alts)


def h_required_args(ctx, cfg):
    """Keys that do not exist, repeated keys, `...` and the empty selection."""
    from d42 import optional
    rel = ctx.choose(2, "relaxed")
    m = ctx.int("m")
    decl = {"a": schema.int.min(m), optional("b"): schema.str}
    keys = [("a", False, Spec("int", min=m)), ("b", True, Spec("str"))]
    if ctx.choose(2, "none"):
        decl[optional(None)] = schema.none
        keys.append((None, True, Spec("none")))
    if rel:
        decl[...] = ...
    n = ctx.small("n", 0, 3)
    arg = [ctx.pick(["a", "b", None, "zz", ...], f"r{i}") for i in range(n)]
    kind = ctx.choose(3, "kind")
    sel = [list, tuple, set][kind](arg)
    d = schema.dict(decl)
    known = [k for k, _, _ in keys] + ([...] if rel else [])
    try:
        r = make_required(d, sel)
    except DeclarationError:
        ctx.check(any([k not in known for k in arg]), "existing keys were refused", arg)
        return "refused"
    ctx.check(all([k in known for k in arg]), "a nonexisting key was accepted", arg)
    s = Spec("dict", relaxed=bool(rel), keys=[(k, o and k not in arg, x) for k, o, x in keys])
    v = ctx.any("v", shape=shape_of(s), depth=9, strlen=1)
    ctx.check((not validate(r, v).has_errors()) == conforms(s, v),
              "make_required() judges a value unlike its definition", s, arg, v)
    return "made"


NAMES = ["a", "b", 1, True, None, ("x", 1)]


def TASKS(tier):
    q = tier == "quick"
    b = 20 if q else 400
    out = []
    def add(fn, **cfg):
        out.append({"fn": fn, "cfg": cfg, "budget": b})
    L1 = ["int:m", "str"]
    for fn in ("h_expr", "h_fake"):
        # two dicts added: every shape of keys
        add(fn, form="add", depth=1, size=1, leaves=["int:m"], relaxed=[0, 1], other=False)
        add(fn, form="add", depth=1, size=2, minkeys=1, leaves=["int:m"], relaxed=[0], other=False)
        add(fn, form="add", depth=1, size=2, leaves=["int:m"], relaxed=[0, 1])
        add(fn, form="add", depth=1, size=1, leaves=["int:m", "str", "none"],
            relaxed=[0, 1, "first"])
        add(fn, form="add", depth=1, size=2, minkeys=1, leaves=["int:v"], keys=[1, None, ("x", 1)],
            relaxed=[0])
        add(fn, form="add", depth=1, size=2, minkeys=1, leaves=["int:v"], keys=[True, "c"], relaxed=[0, 1])
        # three operands
        add(fn, form="add", depth=2, size=1, leaves=["int:m"], minkeys=1, other=False, relaxed=[0],
            dforms=["add", "dict"])
        add(fn, form="add", depth=2, size=1, leaves=["int:m"], minkeys=1)
        add(fn, form="add", depth=2, size=1, leaves=["int:m"], minkeys=1, dforms=["dict", "req"])
        add(fn, form="add", depth=2, size=1, leaves=["int:m"], minkeys=1, dforms=["dict"],
            forms=["or", "alias", "typed", "dict"])
        # members that are combinations themselves
        add(fn, form="add", depth=3, size=1, leaves=["int:m"], minkeys=1, dforms=["dict"], relaxed=[0],
            forms=["dict"], other=False)
        add(fn, form="add", depth=3, size=1, leaves=["int:m"], minkeys=1, dforms=["dict"], relaxed=[0],
            forms=["leaf", "or", "alias", "list", "typed", "dict"], other=False)
        add(fn, form="req", depth=1, size=2, keys=["a", "b"], leaves=["int:m"], other=False)
        add(fn, form="req", depth=1, size=3, keys=["a", "b", "c"], leaves=["int:m"])
        add(fn, form="req", depth=1, size=2, keys=[1, None, ("x", 1)], leaves=["int:m", "none"])
        add(fn, form="req", depth=2, size=2, leaves=["int:m"], dforms=["dict", "req"], minkeys=1)
        add(fn, form="req", depth=2, size=1, leaves=["int:m"], dforms=["add"])
        for form in ("or", "any", "alias"):
            add(fn, form=form, depth=1, leaves=["int:m", "str", "none", "bool:v"], width=2)
            add(fn, form=form, depth=1, leaves=["int:m", "int:v", "str"], width=3, other=False)
            add(fn, form=form, depth=2, leaves=L1, width=2, forms=["leaf", "or", "any", "alias"])
            add(fn, form=form, depth=2, leaves=["int:m"], width=2, forms=["dict", "list", "typed", "leaf"],
                size=1)
            add(fn, form=form, depth=3, leaves=["int:m"], width=1, forms=["or", "any", "alias"])
        add(fn, form="or", depth=3, leaves=["int:v"], width=2, forms=["leaf", "any", "alias"])
        add(fn, form="list", depth=3, leaves=["int:m"], forms=["or", "alias", "leaf"])
        add(fn, form="typed", depth=2, leaves=["int:m", "none"], forms=["or", "alias", "any"])
        add(fn, form="dict", depth=2, leaves=["int:m"], forms=["or", "alias"], dforms=["dict", "add"], size=1)
    for via in ("plain", "add", "req"):
        add("h_members", via=via)
        add("h_members", via=via, size=1, leaves=[("AL", "int:v"), ("AL", ("AL", "str")), ("A", ["int:v"]),
                                                 ("A", ["none", "str"]), ("U",), ("T", ("AL", "int:m")),
                                                 ("L", ["int:v", "..."]), ("D", [("a", 1, ("AL", "int:v"))])])
    add("h_alternatives", depth=1, width=3, leaves=["int:m", "str", "none"])
    add("h_alternatives", depth=2, width=2, leaves=["int:m", "str"])
    add("h_required_args")
    return out
