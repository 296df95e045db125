"""C06: repr(schema) is DSL source that rebuilds an equal schema."""
import datetime
import math
from uuid import UUID

from d42 import optional, represent, schema
from d42.declaration import DeclarationError, Schema
from d42.representation import Representor

from harness import templates as T
from harness.spec import Params, any_template, declare, deep_configs, make, template_of
from harness.templates import has
from harness.zoo import Color, MyBytes, MyDate, MyFloat, MyInt, MyStr, Word

BOUNDS = {
    "deep": "every pair of nested container forms, 2 to 7 members, 40 members",
    "schemas": "all templates of harness/templates.py without aliases (lengths symbolic), every "
               "structure of depth 2 with up to two members per level and of depth 3 with one, "
               "|, + and schemas with parameters of unusual types",
    "parameters": "ints unbounded, floats k/4 and special constants, strings up to 2 characters "
                  "symbolic plus fixed strings with quotes, escapes, newlines and surrogates",
    "keys": "symbolic strings, and fixed unusual hashables",
}
ASSUMPTIONS = ["the text of a value of a built-in type is Python's own repr of it (evaluates "
               "back to the value); datetime means the module, as in datetime.datetime(2020, 1, 1)"]


def rebuild(ctx, text, name="schema"):
    env = {name: schema, "optional": optional, "UUID": UUID, "datetime": datetime}
    env.update(ctx.tokens)
    try:
        return eval(text, env)
    except (SyntaxError, NameError, DeclarationError, TypeError, AttributeError, ValueError) as e:
        ctx.fail("the text does not evaluate", type(e).__name__, text)


def same(a, b):
    """Equality of declarations, independent of Schema.__eq__."""
    if isinstance(a, Schema) or isinstance(b, Schema):
        if not (isinstance(a, Schema) and isinstance(b, Schema)) or type(a) is not type(b):
            return False
        pa, pb = list(a.props), list(b.props)
        for n in pa:
            if n not in pb:
                return False
        for n in pb:
            if n not in pa:
                return False
        for n in pa:
            if not same(a.props.get(n), b.props.get(n)):
                return False
        return True
    if isinstance(a, (list, tuple)):
        if not isinstance(b, (list, tuple)) or len(a) != len(b):
            return False
        for i in range(len(a)):
            if not same(a[i], b[i]):
                return False
        return True
    if isinstance(a, dict):
        if not isinstance(b, dict) or len(a) != len(b):
            return False
        ka, kb = list(a), list(b)
        for i in range(len(ka)):
            if not same(ka[i], kb[i]) or not same(a[ka[i]], b[kb[i]]):
                return False
        return True
    if isinstance(a, float) and isinstance(b, float):
        if math.isnan(a) or math.isnan(b):
            return math.isnan(a) and math.isnan(b)
        return a == b and math.copysign(1.0, a) == math.copysign(1.0, b)
    if isinstance(a, bool) != isinstance(b, bool):
        return False
    return a is b or bool(a == b)


def judge(ctx, sch, again, what):
    text = repr(sch)
    ctx.check(isinstance(text, str), "repr is no text", what)
    ctx.check(repr(sch) == text and represent(sch) == text, "repr is not deterministic", what)
    ctx.check(repr(again) == text, "equal declarations have different reprs", what, text)
    back = rebuild(ctx, text)
    ctx.check(isinstance(back, Schema), "the text is no schema", what, text)
    ctx.check(same(back, sch), "the rebuilt schema has other declarations", what, text)
    ctx.check(back == sch and sch == back, "the rebuilt schema is not equal", what, text)
    ctx.check(not back != sch, "the rebuilt schema is unequal", what, text)
    ctx.check(repr(back) == text, "the rebuilt schema has another repr", what, text)
    return text if not ctx.tokens else None


def h_repr(ctx, cfg):
    P = Params(ctx)
    s = make(P, template_of(ctx, cfg))
    sch = declare(ctx, s)
    judge(ctx, sch, declare(ctx, s), s)
    return True


def h_struct(ctx, cfg):
    t = any_template(ctx, cfg["depth"], cfg["leaves"], cfg["width"], cfg.get("lens", ("",)))
    P = Params(ctx)
    s = make(P, t)
    sch = declare(ctx, s)
    judge(ctx, sch, declare(ctx, s), s)
    return str(t)


def h_style(ctx, cfg):
    """Other names and indentations."""
    P = Params(ctx)
    s = make(P, any_template(ctx, 2, ("int:m", "str:v"), 1), "s")
    sch = declare(ctx, s)
    ind = ctx.pick([0, 1, 2, 4, 8], "indent")
    text = sch.__accept__(Representor("d42", ind))
    back = rebuild(ctx, text, "d42")
    ctx.check(same(back, sch), "the rebuilt schema has other declarations", s, text)
    text = represent(sch, indent=ctx.pick([0, 3, 4], "base"))
    back = rebuild(ctx, text)
    ctx.check(same(back, sch), "the rebuilt schema has other declarations", s, text)
    return True


def h_combined(ctx, cfg):
    P = Params(ctx)
    leaves = ("int:v", "none", "str")
    if cfg["op"] == "|":
        a, b = [declare(ctx, make(P, any_template(ctx, 1, leaves, 1), n)) for n in "ab"]
        sch, again = a | b, a | b
    else:
        ts = [("D", [], 1), ("D", [("a", 0, "int:v")]), ("D", [("a", 1, "int:m"), ("b", 0, "none")], 1),
              ("D", [("b", 1, ("D", [("a", 1, "str:v")], 1))], "first"), "dict"]
        a, b = [declare(ctx, make(P, ctx.pick(ts, n), n)) for n in "ab"]
        sch, again = a + b, a + b
    judge(ctx, sch, again, [a, b])
    return True


INTS = [0, -1, 2 ** 70, -2 ** 70, 10 ** 4299, 10 ** 5000, -10 ** 5000, True, False, MyInt(5),
        MyInt(-5), Color.RED]
FLOATS = [0.0, -0.0, 1.5, -1.5, 1e22, 1e-7, 1e308, 5e-324, 0.1, 1 / 3, float("nan"), float("inf"),
          float("-inf"), MyFloat(1.5), MyFloat("nan"), MyFloat("-inf")]
STRS = ["", "a", "'", '"', "'\"", "\\", "\\n", "\n", "\r\n\t", "\0", "\x7f", "\x85", "{", "{}",
        "%s", "\u2028", "\u00e9", "\ud800", "\U0001f600", " ", "...", "schema.int", "#", "a\nb",
        "  x\n    y", MyStr("a"), Word.A, "'''", '"""', "\\'", "optional('a')", "\x1b"]
BYTES = [b"", b"a", b"'", b'"', b"'\"", b"\\", b"\n", b"\0\xff", MyBytes(b"a")]
PATTERNS = ["", "a", r"\d+", r"\"'", "'", "\\\\", "\n", r"^\w\.$", "[\\]]", "(?i)a", "é", "{", "%",
            MyStr("a"), Word.A]
KEYS = STRS + INTS[:6] + [True, 1.5, float("inf"), None, b"a", b"'", (), (1,), (1, "a"), ("a", (None,)),
                          -1, 2 ** 70, datetime.date(2020, 1, 1), datetime.datetime(2020, 1, 1, 2),
                          UUID("12345678-1234-4234-8234-123456789012"), MyInt(1), (MyStr("a"), 1),
                          (1e999, "x"), (10 ** 5000,)]
UTC = datetime.timezone.utc
DTS = [datetime.datetime(2020, 1, 2), datetime.datetime(2020, 1, 2, 3, 4, 5, 6),
       datetime.datetime.min, datetime.datetime.max, datetime.datetime(2020, 1, 2, fold=1),
       datetime.datetime(2020, 1, 2, tzinfo=UTC),
       datetime.datetime(2020, 1, 2, tzinfo=datetime.timezone(datetime.timedelta(hours=-3))),
       datetime.datetime(2020, 1, 2, tzinfo=datetime.timezone(datetime.timedelta(1, -1), "x'y"))]
DATES = [datetime.date(2020, 1, 2), datetime.date.min, datetime.date.max]
UUIDS = [UUID(int=0xabc0 << 112, version=4), UUID(int=1, version=4)]
LENS = [0, 1, True, 2 ** 70, 10 ** 5000, MyInt(2), Color.RED]


def h_values(ctx, cfg):
    """Parameters of every type that isinstance() admits; nested in containers, too."""
    def mk():
        k = cfg["k"]
        v = ctx_pick
        if k == "key":
            d = {optional(v) if opt else v: schema.int(1)}
            return schema.dict(d)
        if k == "pattern":
            return schema.str.regex(v)
        if k == "alphabet":
            return schema.str.alphabet(v)
        if k == "substr":
            return schema.str.contains(v)
        if k == "imin":
            return schema.int.min(v)
        if k == "imax":
            return schema.int.max(v)
        if k == "fmin":
            return schema.float.min(v)
        if k == "fmax":
            return schema.float.max(v)
        if k == "precision":
            return schema.float.precision(v)
        if k == "slen":
            return schema.str.len(v)
        if k == "smin":
            return schema.str.len(v, ...)
        if k == "smax":
            return schema.str.len(..., v)
        if k == "smm":
            return schema.str.len(v, v)
        if k == "llen":
            return schema.list.len(v)
        if k == "lmin":
            return schema.list(schema.int).len(v, ...)
        if k == "lmax":
            return schema.list.len(..., v)
        return getattr(schema, k)(v)
    ctx_pick = ctx.pick(VALUES[cfg["k"]], "value")
    opt = ctx.flag("optional") if cfg["k"] == "key" else False
    try:
        sch, again = mk(), mk()
    except DeclarationError:
        return "rejected"
    wrap = ctx.choose(5, "wrap")
    if wrap == 1:
        sch, again = [schema.list([..., x, ...]) for x in (sch, again)]
    elif wrap == 2:
        sch, again = [schema.dict({optional("k'"): schema.any(x, schema.none)}) for x in (sch, again)]
    elif wrap == 3:
        sch, again = [schema.list(schema.dict({"a": x, ...: ...})).len(1, 3) for x in (sch, again)]
    elif wrap == 4:
        sch, again = [schema.dict({"a": schema.dict({"b": schema.list([x])})}) for x in (sch, again)]
    judge(ctx, sch, again, [cfg["k"]])
    return repr(sch)[:60] if not isinstance(ctx_pick, int) else True


VALUES = {"int": INTS, "imin": INTS, "imax": INTS, "float": FLOATS, "fmin": FLOATS, "fmax": FLOATS,
          "precision": [1, 2, 15, 400, True, MyInt(3), Color.RED, 10 ** 5000], "str": STRS,
          "alphabet": STRS, "substr": STRS, "pattern": PATTERNS, "bytes": BYTES, "key": KEYS,
          "bool": [True, False], "datetime": DTS, "date": DATES + DTS[:2], "uuid4": UUIDS,
          "slen": LENS, "smin": LENS, "smax": LENS, "smm": LENS, "llen": LENS, "lmin": LENS,
          "lmax": LENS}


def h_keys(ctx, cfg):
    """Symbolic string keys."""
    ks = [ctx.str(f"k{i}", 2) for i in range(2)]
    ctx.assume(ks[0] != ks[1])
    opts = [ctx.flag("o0"), ctx.flag("o1")]
    relaxed = ctx.flag("relaxed")

    def mk():
        d = {}
        for k, o in zip(ks, opts):
            d[optional(k) if o else k] = schema.dict({k: schema.int(1)}) if o else schema.str
        if relaxed:
            d[...] = ...
        return schema.dict(d)
    judge(ctx, mk(), mk(), [ks, opts, relaxed])
    return True


def h_props(ctx, cfg):
    """Every subset of the constraints of a type, in one order."""
    P = Params(ctx)
    ps = [p for p in cfg["props"] if ctx.flag(p)]
    lf = ctx.pick(["", "len", "min", "max", "mm"], "lf") if cfg["lf"] else ""
    t = cfg["kind"] + ":" + "+".join(ps + ([lf] if lf else []))
    s = make(P, t)
    judge(ctx, declare(ctx, s), declare(ctx, s), s)
    return t


def h_order(ctx, cfg):
    """The refinements of a type in any order, those that are accepted."""
    n = ctx.int("n", 0, 2) if cfg["kind"] == "str" else ctx.int("n", -1, 1)
    steps = {
        "str": {"v": lambda x: x("ab"), "len": lambda x: x.len(n), "min": lambda x: x.len(n, ...),
                "max": lambda x: x.len(..., n), "mm": lambda x: x.len(n, 3), "a": lambda x: x.alphabet("abc"),
                "c": lambda x: x.contains("a"), "r": lambda x: x.regex("ab?")},
        "int": {"v": lambda x: x(n), "m": lambda x: x.min(n - 1), "M": lambda x: x.max(n + 1)},
        "float": {"v": lambda x: x(0.5), "m": lambda x: x.min(-1.25), "M": lambda x: x.max(2.5),
                  "p": lambda x: x.precision(2)},
        "list": {"t": lambda x: x(schema.int(n)), "e": lambda x: x([schema.int(n), ...]), "len": lambda x: x.len(n),
                 "min": lambda x: x.len(n, ...), "max": lambda x: x.len(..., n), "mm": lambda x: x.len(n, 3)},
    }[cfg["kind"]]
    done, sch = [], getattr(schema, cfg["kind"])
    again = sch
    for i in range(cfg["n"]):
        left = [k for k in steps if k not in done]
        k = ctx.choose(len(left) + 1, f"step{i}")
        if k == len(left):
            break
        try:
            sch, again = steps[left[k]](sch), steps[left[k]](again)
        except DeclarationError:
            return "rejected"
        done.append(left[k])
    judge(ctx, sch, again, [cfg["kind"]] + done)
    return done


TYPED = [("T", t, n) for t in (("U",), ("T", "int:m"), ("D", [], 1), ("D", [("a", 0, "none")]), ("A", ["none", "int:m"]))
         for n in ("len", "min", "max", "mm")]


def TASKS(tier):
    quick = tier == "quick"
    b = 20 if quick else 300
    out = []
    for t in T.SCALARS + T.PATTERNS + T.CONTAINERS:
        if not has(t, "AL"):
            out.append({"fn": "h_repr", "cfg": {"t": t}, "budget": b})
            out.append({"fn": "h_repr", "cfg": {"t": t, "inside": 1}, "budget": b})
    for t in TYPED:
        out.append({"fn": "h_repr", "cfg": {"t": t}, "budget": b})
        out.append({"fn": "h_repr", "cfg": {"t": t, "inside": 1}, "budget": b})
    for cfg in deep_configs(2, 7, chain=9):
        if (cfg["deep"][0] in ("wide", "many") or cfg["depth"] == 5) and "AL" not in cfg["deep"] and \
                cfg["deep"] != ("many", "chain"):                # the text of an alias is not code
            out.append({"fn": "h_repr", "cfg": cfg, "budget": b})
    for k in VALUES:
        out.append({"fn": "h_values", "cfg": {"k": k}, "budget": b})
    leaves = ("none", "int:m", "str:v")
    out.append({"fn": "h_struct", "budget": b * 2,
                "cfg": {"depth": 2, "leaves": leaves[1:], "width": 1, "lens": ("", "len", "mm")}})
    out.append({"fn": "h_struct", "budget": b * 2,
                "cfg": {"depth": 1, "leaves": leaves, "width": 2, "lens": ("", "min", "max")}})
    out.append({"fn": "h_struct", "budget": b * 2, "cfg": {"depth": 3, "leaves": ("int:m",), "width": 1}})
    out.append({"fn": "h_struct", "budget": b * 2, "cfg": {"depth": 2, "leaves": ("int:v",), "width": 2}})
    out.append({"fn": "h_style", "budget": b})
    for kind, n in (("str", 4), ("int", 3), ("float", 4), ("list", 3)):
        out.append({"fn": "h_order", "cfg": {"kind": kind, "n": n}, "budget": b})
    for op in "|+":
        out.append({"fn": "h_combined", "cfg": {"op": op}, "budget": b})
    out.append({"fn": "h_keys", "budget": b})
    out.append({"fn": "h_props", "cfg": {"kind": "str", "props": ["v", "a", "c", "r1"], "lf": 1}, "budget": b})
    out.append({"fn": "h_props", "cfg": {"kind": "float", "props": ["v", "m", "M", "p1"], "lf": 0}, "budget": b})
    out.append({"fn": "h_props", "cfg": {"kind": "int", "props": ["v", "m", "M"], "lf": 0}, "budget": b})
    return out
