"""C16: custom schema types behave like built-ins in every position."""
from d42 import fake, represent, schema, substitute, validate, validate_or_fail
from d42.custom_type import CustomSchema, register_type
from d42.declaration import Props
from d42.representation import Representor
from d42.substitution.errors import SubstitutionError
from d42.validation import Formatter, ValidationException

from harness import templates as T
from harness.c01 import digest, satisfiable
from harness.snap import Api, same, snap
from harness.spec import Params, any_template, conforms, deep_configs, deviant, guided, make, template_of
from harness.spec2 import build, build_in

BOUNDS = {
    "deep": "every pair of nested container forms, chains of 5 and 40, 2 to 5 members, 40 members; values that "
             "conform except at one place",
    "schemas": "all container templates of harness/templates.py and every structure within the "
               "sizes of TASKS(); every sub-schema (also the whole) replaced or not, by a custom type "
               "whose __substitute__ wraps its result again or does not",
    "values": "lazily typed, guided by the schema; for substitution also with `...`",
    "parameters": "unbounded ints, strings up to 1 character",
}
ASSUMPTIONS = ["a union that is an alternative of a union is not replaced (it is declared flat)",
               "a fixed seed is not compared: generated values are judged, not equated"]

CALLS = []


class Fwd(CustomSchema[Props]):
    """Forwards everything to props.target."""
    again = True

    def snap_as(self):
        return self.props.get("target")

    def __validate__(self, visitor, *, value, path, **kwargs):
        CALLS.append(("validate", kwargs))
        return self.props.get("target").__accept__(visitor, value=value, path=path, **kwargs)

    def __generate__(self, visitor, **kwargs):
        CALLS.append(("generate", kwargs))
        return self.props.get("target").__accept__(visitor, **kwargs)

    def __represent__(self, visitor, *, indent=0, **kwargs):
        CALLS.append(("represent", kwargs))
        return self.props.get("target").__accept__(visitor, indent=indent, **kwargs)

    def __substitute__(self, visitor, *, value, **kwargs):
        CALLS.append(("substitute", kwargs))
        res = self.props.get("target").__accept__(visitor, value=value, **kwargs)
        return self.__class__(self.props.update(target=res)) if self.again else res


class Fwd2(Fwd):
    again = False


def wrap(sch, cls=Fwd):
    return cls(Props({"target": sch}))


def two(ctx, cfg):
    """The schema with built-in types only, and with some parts replaced."""
    P = Params(ctx, small=True, strlen=1)
    s = make(P, any_template(ctx, **cfg["any"]) if "any" in cfg else template_of(ctx, cfg))
    api = Api()
    a = build_in(api, ctx, s)
    cls = [Fwd, Fwd2][ctx.choose(2, "class")] if cfg.get("two") else Fwd
    n = [0]

    def hook(x, sub, parent):
        if parent is not None and parent.kind == "any" and sub.kind == "any":
            return x
        if ctx.flag("custom"):
            n[0] += 1
            return wrap(x, cls)
        return x
    b = build(api, s, hook)
    ctx.assume(n[0] > 0)
    CALLS.clear()
    return s, a, b


def forwarded(ctx, hook, kw, *info):
    for name, got in CALLS:
        if name == hook:
            ctx.check(got == kw, "a container does not forward the keyword arguments", hook, got, *info)
    CALLS.clear()


def h_validate(ctx, cfg):
    s, a, b = two(ctx, cfg)
    v = deviant(ctx, s, "v") if "deep" in cfg else guided(ctx, s, "v", other=cfg.get("other", True))
    ea = validate(a, v, tag=1, other="x").get_errors()
    eb = validate(b, v, tag=1, other="x").get_errors()
    forwarded(ctx, "validate", {"tag": 1, "other": "x"}, s)
    ctx.check(len(ea) == len(eb), "another number of errors", s, v, [snap(e) for e in ea], [snap(e) for e in eb])
    ctx.check(same([snap(e) for e in ea], [snap(e) for e in eb]), "other errors", s, v)
    ctx.check((a == v) == (b == v), "schema == value differs", s, v)
    out = []
    for x in (a, b):
        try:
            out.append(validate_or_fail(x, v))
        except ValidationException as e:
            out.append(str(e))
    ctx.check(out[0] == out[1], "another message", s, v)
    return len(ea)


def h_generate(ctx, cfg):
    s, a, b = two(ctx, cfg)
    ctx.assume(satisfiable(s))
    v = fake(b, tag=1)
    forwarded(ctx, "generate", {"tag": 1}, s)
    ctx.check(conforms(s, v), "the generated value does not conform", s, v)
    ctx.check(not validate(b, v).has_errors(), "the generated value does not validate", s, v)
    return digest(v)


def h_represent(ctx, cfg):
    s, a, b = two(ctx, cfg)
    ra, rb = represent(a), represent(b, tag=1)
    forwarded(ctx, "represent", {"tag": 1}, s)
    ctx.check(ra == rb, "another printed form", s, ra, rb)
    ctx.check(repr(a) == repr(b), "another repr()", s)
    ctx.check(represent(a, indent=3) == represent(b, indent=3), "another printed form (indent)", s)
    rep = Representor("S", 2)
    ctx.check(a.__accept__(rep) == b.__accept__(rep), "another printed form (representor)", s)
    return True


def outcome(sch, w):
    try:
        return substitute(sch, w, tag=1), None
    except SubstitutionError as e:
        return None, str(e)


def h_substitute(ctx, cfg):
    s, a, b = two(ctx, cfg)
    other = [["none"], ["ellipsis"]][cfg.get("ell", 0)]
    w = deviant(ctx, s, "w") if "deep" in cfg else guided(ctx, s, "w", other=other)
    ra, ta = outcome(a, w)
    rb, tb = outcome(b, w)
    forwarded(ctx, "substitute", {"tag": 1}, s)
    ctx.check((ra is None) == (rb is None), "substitution succeeds with one only", s, w, ta, tb)
    if ra is None:
        ctx.check(ta == tb, "substitution fails with another message", s, w, ta, tb)
        return ["failed"]
    ctx.check(same(snap(ra), snap(rb)), "substitution gives another schema", s, w)
    ctx.check(repr(ra) == repr(rb), "substitution gives a schema printed another way", s, w)
    x = deviant(ctx, s, "x", "full") if "deep" in cfg else guided(ctx, s, "x", other=False)
    ctx.check(validate(ra, x).has_errors() == validate(rb, x).has_errors(),
              "the results of substitution judge a value differently", s, w, x)
    return ["schema"]


def h_operators(ctx, cfg):
    """|, %, dict +, make_required and from within registered types."""
    from d42 import optional
    from d42.utils import make_required
    i, m = ctx.int("i"), ctx.int("m")
    inner = schema.int.min(m)
    c = wrap(inner)
    if cfg["op"] == "register":
        x = register_type("fwd_for_c16", Named)
        ctx.check(type(x) is Named and type(schema.fwd_for_c16) is Named, "register_type() does not expose the type")
        c = schema.fwd_for_c16
        inner = schema.int.min(0)
    pairs = [
        lambda y: y | schema.none, lambda y: schema.none | y, lambda y: y | y,
        lambda y: schema.any(schema.str, y), lambda y: schema.dict({"a": y}) + schema.dict({optional("b"): y}),
        lambda y: make_required(schema.dict({optional("a"): y})), lambda y: schema.alias("N", y),
        lambda y: schema.list([..., y]), lambda y: schema.list(y).len(1), lambda y: schema.dict({optional("a"): y})["a"],
        lambda y: list(schema.any(y, schema.none))[0], lambda y: y,
    ]
    f = ctx.pick(pairs, "f")
    a, b = f(inner), f(c)
    ctx.check(repr(a) == repr(b), "another printed form", i)
    v = ctx.any("v", ["int", "none", "list", "dict"], child_kinds=["int", "none"], depth=2, maxlen=2)
    ea, eb = validate(a, v).get_errors(), validate(b, v).get_errors()
    ctx.check(same([snap(e) for e in ea], [snap(e) for e in eb]), "other errors", v)
    ra, ta = outcome(a, v)
    rb, tb = outcome(b, v)
    ctx.check((ra is None) == (rb is None) and ta == tb, "substitution differs", v, ta, tb)
    if ra is not None:
        ctx.check(same(snap(ra), snap(rb)), "substitution gives another schema", v)
    return len(ea)


class Named(Fwd):
    def __init__(self, props=None):
        super().__init__(Props({"target": schema.int.min(0)}) if props is None else props)


def h_equal(ctx, cfg):
    """Two custom schemas are equal exactly when their targets are."""
    P = Params(ctx, small=True, strlen=1)
    pool = ["int:v", "int:m", "any", "none", ("T", "any"), ("U",), ("L", ["int:v"]), ("D", [("a", 1, "int:v")])]
    api = Api()
    s, t = make(P, ctx.pick(pool, "s"), "s"), make(P, ctx.pick(pool, "t"), "t")
    a, b = build_in(api, ctx, s), build_in(api, ctx, t)
    f = ctx.pick([lambda x: x, lambda x: schema.list([x]), lambda x: schema.dict({"k": x}),
                  lambda x: schema.any(schema.bytes, x), lambda x: schema.list(x)], "f")
    ctx.assume(not (s.kind == "any"))
    ctx.check((f(wrap(a)) == f(wrap(b))) == (a == b), "equality of custom schemas is not that of their targets", s, t)
    ctx.check((f(wrap(a)) != f(wrap(b))) == (a != b), "!= of custom schemas is not that of their targets", s, t)
    return True


SC = ["none", "bool:v", "int:v+m", "float:v+p1", "float:m+M", "str:v", "str:mm+a+c", "str:r0", "bytes:v", "uuid4:v",
      "datetime:v", "date:v"]


def TASKS(tier):
    q = tier == "quick"
    b = 7 if q else 300
    out = []

    def add(fn, **cfg):
        if fn == "h_substitute":
            cfg["two"] = 1
        out.append({"fn": fn, "cfg": cfg, "budget": b})
    for fn in ("h_validate", "h_generate", "h_represent", "h_substitute"):
        for t in SC + T.CONTAINERS:
            add(fn, t=t)
        for cfg in deep_configs(2):
            add(fn, **cfg)
    for t in T.CONTAINERS:
        if T.has(t, "int") or T.has(t, "any"):
            add("h_substitute", t=t, ell=1)
    add("h_represent", any=dict(depth=3, leaves=["int:v"], width=1))
    add("h_represent", any=dict(depth=2, leaves=["int:v"], width=2))
    for fn in ("h_validate", "h_generate", "h_substitute"):
        add(fn, any=dict(depth=2, leaves=["int:m"], width=1, alias=True))
        add(fn, any=dict(depth=1, leaves=["int:m", "str"], width=2))
    add("h_operators", op="plain")
    add("h_operators", op="register")
    add("h_equal")
    return out
