"""What the substitution properties share."""
import datetime as dt
import math
import uuid

from d42 import substitute
from d42.substitution.errors import SubstitutionError

from harness import templates as T
from harness.spec import OWN, Params, declare, deep_configs, deviant, guided, make, template_of

E = "..."
# what substitution has to look into
NESTED = [
    ("D", [("a", 0, "int:m"), ("b", 1, ("D", [("c", 1, "int:M"), ("d", 0, "none")]))]),
    ("D", [("a", 1, ("T", "int:m")), ("b", 0, "any")], 1),
    ("T", ("D", [("a", 0, "int"), ("b", 1, "int:m")])),
    ("L", [("D", [("a", 0, "int:m"), ("b", 1, "none")]), E]),
    ("L", [E, ("D", [("a", 1, "int:v")]), E]), ("L", [E, ("T", "int:m"), E]),
    ("A", [("D", [("a", 0, "int:m")]), ("D", [("a", 0, "int:M"), ("b", 1, "none")])]),
    ("A", [("T", "int:m"), ("L", ["int:M", E])]), ("AL", ("D", [("a", 1, "int:m"), ("b", 0, "none")])),
    ("D", [("a", 0, ("A", ["int:m", ("L", [E, "int"])])), ("b", 1, ("AL", "int:M"))]),
    ("L", [("A", ["int:m", "none"]), ("T", "int:M", "max")]),
    ("T", ("A", ["int:m", "none"]), "mm"), ("L", [E, "any", E]), ("L", ["any", E]),
    ("L", [E, "int:m", "int:M"], "min"), ("D", [("a", 0, "dict")]), ("D", [("a", 1, ("U",))]),
]
TEMPLATES = T.SCALARS + T.PATTERNS + T.LISTS + T.DICTS + T.ANYS + T.NESTED + NESTED


def close_configs():
    return [{"t": t, "floats": "near", "other": False, "maxlen": 1, "zz": False} for t in T.CLOSE + T.FLOATS]


def scalar(t):
    return isinstance(t, str)


def precision_of(s):
    """The coarsest precision declared anywhere in the schema, or None."""
    if s == "...":
        return None
    p = s.p
    found = [p["precision"]] if "precision" in p else []
    subs = list(p.get("types") or []) + list(p.get("elems", [])) + \
        [sub for _, _, sub in p.get("keys", [])]
    if "type" in p:
        subs.append(p["type"])
    found += [x for x in [precision_of(y) for y in subs] if x is not None]
    return min(found) if found else None


def carries(w, x, prec=None):
    """Does x carry the data w?"""
    if isinstance(w, bool) or isinstance(w, int):
        return isinstance(x, int) and bool(w == x)
    if isinstance(w, float):
        if not isinstance(x, float):
            return False
        if math.isnan(w) or math.isnan(x):
            return math.isnan(w) and math.isnan(x)
        if w == x:
            return True
        if math.isinf(w) or math.isinf(x):
            return False
        if prec is not None:
            return abs(w - x) <= 2 * 10.0 ** -prec
        return math.isclose(w, x, rel_tol=3e-9)
    if isinstance(w, list):
        if not isinstance(x, list) or len(w) != len(x):
            return False
        for i in range(len(w)):
            if not carries(w[i], x[i], prec):
                return False
        return True
    if isinstance(w, dict):
        if not isinstance(x, dict):
            return False
        for k in w:
            if k not in x or not carries(w[k], x[k], prec):
                return False
        return True
    if w is None:
        return x is None
    if isinstance(w, str):
        return isinstance(x, str) and bool(w == x)
    if isinstance(w, bytes):
        return isinstance(x, bytes) and bool(w == x)
    if isinstance(w, uuid.UUID):
        return isinstance(x, uuid.UUID) and bool(w == x)
    if isinstance(w, dt.datetime):
        return isinstance(x, dt.datetime) and bool(w == x)
    if isinstance(w, dt.date):
        return isinstance(x, dt.date) and bool(w == x)
    raise AssertionError("not a plain value")


def start(ctx, cfg, small=True):
    """Schema, its meaning, the value, and the result of substituting it."""
    P = Params(ctx, small=small, strlen=cfg.get("strlen", 1), len_range=cfg.get("lens", (0, 2)),
               floats=cfg.get("floats", "grid"))
    s = make(P, template_of(ctx, cfg), "s")
    sch = declare(ctx, s)
    return s, sch


def plain_value(ctx, cfg, s, name, other=True, zz=True):
    """A lazily typed plain value that follows the structure of the schema, or not."""
    if "deep" in cfg:
        return deviant(ctx, s, name, "dev" if name != "w" or ctx.choose(2, "mode") else "full")
    if s.kind in ("list", "dict", "any", "alias"):
        return guided(ctx, s, name, strlen=cfg.get("vstr", 1), other=other and
                      cfg.get("other", True), zz=zz and cfg.get("zz", True), maxlen=cfg.get("maxlen"),
                      close=cfg.get("floats") == "near")
    kinds = OWN[s.kind] + (["none" if s.kind != "none" else "str"] if other else [])
    if s.kind in ("int", "float", "bool"):
        kinds = kinds + [k for k in ("bool", "int", "float") if k not in kinds]
    if s.kind in ("date", "datetime"):
        kinds = kinds + [k for k in ("date", "datetime") if k not in kinds]
    if cfg.get("floats") == "near":
        kinds = [{"float": "nfloat"}.get(k, k) for k in kinds if k != "fspecial"]
    return ctx.any(name, kinds, strlen=cfg.get("vstr", 1), depth=1)


def substituted(ctx, sch, w):
    try:
        return substitute(sch, w)
    except SubstitutionError:
        ctx.reject()
