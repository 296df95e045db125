"""C03: every validation error is true and points at the offending sub-value."""
import math

from d42 import validate
from d42.substitution import SubstitutorValidator
from d42.validation import Formatter

from harness import templates as T
from harness.spec import (Params, conforms, declare, deep_configs, deviant, float_value_ok, guided,
                          make, template_of, value_for)

BOUNDS = {
    "deep": "every triple of nested container forms, chains of 5 and 40, 2 to 5 members, 40 members; values that "
             "conform except at one place",
    "schemas": "the templates of C02 plus wide/deep containers (at least two siblings at two "
               "levels) and dict keys of unusual types",
    "values": "as in C02",
    "validators": "validate() and, for the same facts, SubstitutorValidator",
}
ASSUMPTIONS = [
    "the facts of an error are checked against the parameters declared at the position the path "
    "leads to; for [..., x, ...] any element of the window may be the one an error refers to",
]


def same(a, b):
    return a is b or a == b


def reached(a, b):
    """The same value, not just an equal one: [1] and [1.0] differ."""
    if a is b:
        return True
    if type(a) is not type(b):
        return False
    if isinstance(a, list):
        return len(a) == len(b) and all([reached(x, y) for x, y in zip(a, b)])
    if isinstance(a, dict):
        return list(a) == list(b) and all([reached(a[k], b[k]) for k in a])
    return a == b or (a != a and b != b)


def step(specs, op, v):
    """Spec nodes an item access may lead to."""
    out = []
    for s in specs:
        if s == "...":
            continue
        p = s.p
        if s.kind == "alias":
            out.extend(step([p["type"]], op, v))
        elif s.kind == "list":
            if "type" in p:
                out.append(p["type"])
            elif "elems" in p:
                out.extend(element_at(p["elems"], op, len(v)))
        elif s.kind == "dict":
            for key, opt, sub in p.get("keys", []):
                if key is op or key == op:
                    out.append(sub)
    return out


def element_at(elems, i, n):
    head = len(elems) > 1 and elems[-1] == "..."
    tail = bool(elems) and elems[0] == "..."
    if head and tail:
        return elems[1:-1]
    if tail:
        inner = elems[1:]
        start = n - len(inner) if n > len(inner) else 0
        return inner[i - start:i - start + 1] if i >= start else []
    if head:
        elems = elems[:-1]
    return elems[i:i + 1]


def unalias(specs):
    out = []
    for s in specs:
        while s != "..." and s.kind == "alias":
            s = s.p["type"]
        out.append(s)
    return out


def declared(specs, kinds, name, val):
    for s in specs:
        if s != "..." and s.kind in kinds and name in s.p and same(s.p[name], val):
            return True
    return False


TYPES = {"none": type(None), "bool": bool, "int": int, "float": float, "str": str,
         "bytes": bytes, "list": list, "dict": dict}


def expected_types(specs):
    import datetime
    import uuid
    out = []
    for s in specs:
        if s == "...":
            continue
        t = TYPES.get(s.kind)
        if t is None:
            t = {"uuid4": uuid.UUID, "datetime": datetime.datetime,
                 "date": datetime.date}.get(s.kind)
        out.append(t)
    return out


def fact(e, sub, specs, root_spec):
    """(is the stated fact true, does the schema say so)"""
    k = type(e).__name__
    if k == "TypeValidationError":
        return not isinstance(sub, e.expected_type), e.expected_type in expected_types(specs)
    if k == "ValueValidationError":
        for s in specs:
            if s.kind == "float" and "value" in s.p and same(s.p["value"], e.expected_value):
                return not float_value_ok(s.p, sub), True
        ex = e.expected_value
        return not sub == ex, declared(specs, list(TYPES) + ["uuid4", "datetime", "date"],
                                       "value", ex)
    if k == "MinValueValidationError":
        return not sub >= e.min_value, declared(specs, ("int", "float"), "min", e.min_value)
    if k == "MaxValueValidationError":
        return not sub <= e.max_value, declared(specs, ("int", "float"), "max", e.max_value)
    if k == "LengthValidationError":
        return len(sub) != e.length, declared(specs, ("str", "list"), "len", e.length)
    if k == "MinLengthValidationError":
        return len(sub) < e.min_length, declared(specs, ("str", "list"), "min_len", e.min_length)
    if k == "MaxLengthValidationError":
        return len(sub) > e.max_length, declared(specs, ("str", "list"), "max_len", e.max_length)
    if k == "AlphabetValidationError":
        out = False
        for ch in sub:
            if ch not in e.alphabet:
                out = True
        return out, declared(specs, ("str",), "alphabet", e.alphabet)
    if k == "SubstrValidationError":
        return e.substr not in sub, declared(specs, ("str",), "substr", e.substr)
    if k == "RegexValidationError":
        import re
        return re.search(e.pattern, sub) is None, declared(specs, ("str",), "pattern", e.pattern)
    if k == "MissingElementValidationError":
        return e.index >= len(sub), any([s.kind == "list" and "elems" in s.p for s in specs])
    if k == "ExtraElementValidationError":
        return 0 <= e.index < len(sub), any([
            s.kind == "list" and "elems" in s.p and "..." not in s.p["elems"] and
            e.index >= len(s.p["elems"]) for s in specs])
    if k == "MissingKeyValidationError":
        return e.missing_key not in sub, any([
            s.kind == "dict" and any([same(key, e.missing_key) and not opt
                                      for key, opt, _ in s.p.get("keys", [])]) for s in specs])
    if k == "ExtraKeyValidationError":
        return e.extra_key in sub, any([
            s.kind == "dict" and "keys" in s.p and not s.p["relaxed"] and
            e.extra_key not in [key for key, _, _ in s.p["keys"]] for s in specs])
    if k == "SchemaMismatchValidationError":
        anys = [s for s in specs if s.kind == "any" and s.p.get("types")]
        return not any([conforms(s, sub) for s in anys]), bool(anys) and \
            any([len(e.expected_schemas) >= 1 for s in anys])
    if k == "InvalidUUIDVersionValidationError":
        return (sub.version == e.actual_version and sub.version != e.expected_version,
                e.expected_version == 4)
    return None, None


def h_errors(ctx, cfg):
    P = Params(ctx, strlen=cfg.get("strlen", 2), floats=cfg.get("floats", "grid"))
    s = make(P, template_of(ctx, cfg))
    sch = declare(ctx, s)
    if "deep" in cfg:
        v = deviant(ctx, s, "v")
    elif cfg.get("floats") == "near":
        v = guided(ctx, s, "v", close=True)
    else:
        v = value_for(ctx, s, maxlen=cfg.get("maxlen"), strlen=cfg.get("vstr", 3),
                      **({"extra": cfg["extra"]} if "extra" in cfg else {}))
    if cfg.get("sub"):
        errors = sch.__accept__(SubstitutorValidator(), value=v).get_errors()
    else:
        errors = validate(sch, v).get_errors()
    out = []
    for e in errors:
        sub, specs, text = v, [s], "_"
        for op in e.path:
            k = op.operand
            nxt = step(specs, k, sub)
            try:
                sub = sub[k]
            except (KeyError, IndexError, TypeError, AttributeError):
                ctx.fail("the path of an error does not exist in the value", s, v, e.path)
            specs = nxt
            text += f"[{k!r}]"
        specs = unalias(specs)
        ctx.check(len(specs) > 0, "the path leads where the schema declares nothing",
                  s, v, text, type(e).__name__)
        ctx.check(reached(sub, e.actual_value), "the path does not lead to the reported value",
                  s, v, text, e.actual_value)
        true, stated = fact(e, sub, specs, s)
        ctx.check(true is not None, "unknown kind of error: " + type(e).__name__)
        ctx.check(true, "the stated fact is not true of the value: " + type(e).__name__,
                  s, v, text, vars(e))
        ctx.check(stated, "the stated requirement is not one of the schema: " + type(e).__name__,
                  s, v, text, vars(e))
        if cfg.get("fmt", 1):
            named = text
            if type(e).__name__ == "MissingElementValidationError":
                named = text + f"[{e.index!r}]"
            elif type(e).__name__ == "MissingKeyValidationError":
                named = text + f"[{e.missing_key!r}]"
            msg = e.format(Formatter())
            if named != "_":
                ctx.check(names(msg, named), "the message does not name the path", s, v, named, msg)
            else:
                ctx.check(" at _" not in msg, "the message names a path for the root", s, v, msg)
        out.append((type(e).__name__, text))
    return out


def names(msg, named):
    return (" " + named + " ") in (" " + msg + " ")


WIDE = [
    ("D", [("a", 0, ("D", [("x", 0, "int:m"), ("y", 0, "str:max")])),
           ("b", 0, ("D", [("x", 1, "int:M"), ("y", 1, ("T", "int:v"))]))]),
    ("L", [("L", ["int:m", "int:M"]), ("L", ["int:v", "str"]), "..."]),
    ("L", ["...", ("L", ["int:m"]), ("L", ["int:M"])]),
    ("L", ["...", ("D", [("a", 0, "int:m")]), ("D", [("a", 0, "int:M")]), "..."]),
    ("T", ("L", ["int:m", "..."])), ("T", ("D", [("a", 0, "int:v"), ("b", 0, "none")])),
    ("D", [("a", 0, ("L", ["str:a+c", "str:len+c"])), ("b", 0, "str:v")], 1),
    ("D", [("@K1", 0, ("D", [("@K1", 0, "int:m"), ("a", 0, "int:v")])), ("a", 1, "int:M")]),
    ("D", [("@K2", 0, ("T", "int:m")), ("@K1", 1, "none")], 1),
    ("D", [(("x", 1), 0, ("L", ["int:v", "int:m"])), (None, 1, "bool:v")]),
    ("L", [("AL", ("D", [("a", 0, "int:m"), ("b", 0, "int:M")])), ("A", ["int:v", "none"])]),
    ("D", [("a", 0, ("D", [("b", 0, ("D", [("c", 0, "int:m"), ("d", 0, "int:M")])),
                           ("e", 1, "int:v")]))]),
    ("T", ("T", ("D", [("a", 0, "int:m")]))),
    ("D", [("a", 0, "uuid4:v"), ("b", 0, "datetime:v"), ("c", 1, "bytes:v")]),
    ("D", [("a", 0, "float:m+M"), ("b", 0, "float:v+p1")]),
    ("D", [("a", 0, "str:r0"), ("b", 1, "str:mm+a")]),
]


# siblings that are equal and yet different values (1, 1.0, True)
TWINS = [("T", "int:m"), ("T", "float:m"), ("T", "bool"), ("L", ["int", "int:v", "..."]), ("L", ["...", "int:m", "int"]),
         ("L", ["...", "int", "int:m", "..."]), ("T", ("T", "int")), ("D", [("a", 0, "int"), ("b", 0, "float:m")]),
         ("T", ("D", [("a", 0, "int:m")])), ("L", ["bool:v", "bool:v"])]


def TASKS(tier):
    out = []
    for t in T.SCALARS + T.PATTERNS:
        out.append({"fn": "h_errors", "cfg": {"t": t}})
    for t in WIDE:
        out.append({"fn": "h_errors", "cfg": {"t": t, "vstr": 1, "maxlen": 2, "extra": ("none",)}})
        out.append({"fn": "h_errors", "cfg": {"t": t, "vstr": 1, "sub": 1, "maxlen": 2,
                                              "extra": ("none",), "fmt": 0}})
    for cfg in deep_configs():
        out.append({"fn": "h_errors", "cfg": cfg})
    for t in [("L", []), ("L", ["int"]), ("L", ["int", "int:v"]), ("L", [("L", [])]), ("D", [("a", 0, ("L", ["str"]))])]:
        out.append({"fn": "h_errors", "cfg": {"t": t, "vstr": 0, "maxlen": 6, "extra": ("none",)}})
    for t in TWINS:
        out.append({"fn": "h_errors", "cfg": {"t": t, "vstr": 0, "maxlen": 2, "extra": ("int", "float")}})
    for t in T.CLOSE + T.FLOATS:
        out.append({"fn": "h_errors", "cfg": {"t": t, "floats": "near"}})
    for t in T.CONTAINERS:
        out.append({"fn": "h_errors", "cfg": {"t": t, "vstr": 1, "fmt": 0}})
        out.append({"fn": "h_errors", "cfg": {"t": t, "vstr": 1, "maxlen": 2, "extra": ("none",)}})
    return out
