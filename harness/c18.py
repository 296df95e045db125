"""C18: rollout is the inverse of flattening dotted keys.

A tree is a tuple of children, each "L" (a leaf) or a tuple.  The characters of the keys and of the
separator are symbolic; their lengths, the order of the flat keys, the placement of optional and the
payloads are choices.
"""
import itertools

from d42 import optional, schema
from d42.utils import rollout

from harness.snap import clone, same, snap
from harness.spec import places_of

BOUNDS = {
    "trees": "every tree of depth <= 4 with up to 4 leaves (quick: 3, and some of 4 and 5), each also with a "
             "top-level `...: ...` at any position",
    "keys": "any strings over CHARS of 0..2 characters (0..1, or 1, in the bigger trees), siblings distinct",
    "large": "six trees of up to 27 keys and 13 levels (MANY), one key symbolic",
    "separators": "any strings over CHARS of 1..3 characters, and those of SEPS; default and given",
    "order": "every order of the flat keys of trees up to 4 leaves",
    "optional": "every placement at the leaves of trees with up to 3 leaves, including an optional and a "
                "required key of one name; in bigger trees none, all or one",
}
ASSUMPTIONS = ["keys contain no separator and the joined key contains the separator only where two keys are "
               "joined (otherwise two nested mappings flatten to one mapping)"]

CHARS = ((32, 126), (0x430, 0x432), (10, 10), (0x1F600, 0x1F601))
SEPS = [".", "::", "/", "->", "a", "__", " ", "aa", "aba", "|", "$", "[.]", "\\", "..", "{}", "%s", "\n", "\u0431"]


def payloads(ctx, sep):
    def deep():
        return [{"k" + sep + "x": {"y" + sep: 1}}, (sep, ...)]
    return [lambda: ctx.int("p"), lambda: sep, lambda: {}, lambda: ..., deep, lambda: None,
            lambda: schema.dict({"a" + sep + "b": schema.int}), lambda: []]


def is_prefix_free(ctx, parts, sep):
    """The separator occurs in the joined key exactly where two parts meet."""
    joined = sep.join(parts)
    ok, at = [], 0
    for p in parts:
        ok.append(at + len(p))
        at += len(p) + len(sep)
    n = len(sep)
    for i in range(len(joined) - n + 1):
        if i not in ok[:-1]:
            ctx.assume(joined[i:i + n] != sep)
    return joined


class Keys:
    def __init__(self, ctx, cfg):
        self.ctx, self.cfg, self.n = ctx, cfg, 0
        sep = cfg.get("sep")
        if isinstance(sep, int):
            sep = ctx.str("sep", sep, sep, CHARS)
        self.sep = "." if sep is None else sep
        self.leaves = 0
        if "sym" in cfg:
            self.sym = ctx.pick(places_of(cfg["sym"] + 1)[1:], "sym")
        self.odd = ctx.choose(cfg["nleaves"], "odd") if cfg.get("payloads") else None
        opts = cfg.get("opts", "all")
        self.optmode = None if opts == "all" else ctx.choose(cfg["nleaves"] + 2, "opts")

    def key(self):
        lo, hi = self.cfg.get("klen", (1, 1))
        self.n += 1
        if "sym" in self.cfg and self.sym != self.n:
            return f"k{self.n}"
        return self.ctx.str(f"k{self.n}", hi, lo, CHARS)

    def payload(self):
        if self.odd is None or self.leaves - 1 != self.odd:
            return self.leaves
        return self.ctx.pick(payloads(self.ctx, self.sep), "payload")()

    def is_optional(self):
        if self.optmode is None:
            return self.ctx.flag(f"o{self.leaves}")
        return self.optmode in (self.leaves - 1, self.cfg["nleaves"])


def nest(g, tree, path, flat):
    """The nested mapping as [(key, optional, leaf or list)], and the flat items."""
    out, used = [], []
    for child in tree:
        k = g.key()
        if child == "L":
            g.leaves += 1
            opt = g.is_optional()
        else:
            opt = False
        for k2, o2 in used:
            if o2 == opt:
                g.ctx.assume(k != k2)
        used.append((k, opt))
        if child == "L":
            v = g.payload()
            flat.append((path + [k], opt, v))
            out.append((k, opt, "leaf", v))
        else:
            out.append((k, opt, "node", nest(g, child, path + [k], flat)))
    return out


def as_dict(items, rev=False):
    d = {}
    for k, opt, kind, v in (list(reversed(items)) if rev else items):
        d[optional(k) if opt else k] = clone(v) if kind == "leaf" else as_dict(v, rev)
    return d


def equals(d, items):
    """The mapping d has exactly these items."""
    if type(d) is not dict or len(d) != len(items):
        return "not the same number of keys"
    for k, opt, kind, v in items:
        found = False
        for k2, v2 in d.items():
            if isinstance(k2, optional) != opt:
                continue
            name = k2.key if opt else k2
            if name == k:
                found = True
                if kind == "leaf":
                    if type(v2) is not type(v) or not same(snap(v2), snap(v)):
                        return "a leaf has another value"
                else:
                    why = equals(v2, v)
                    if why:
                        return why
        if not found:
            return "a key is missing"
    return ""


def h_tree(ctx, cfg):
    g = Keys(ctx, cfg)
    flat = []
    items = nest(g, cfg["tree"], [], flat)
    relaxed = cfg.get("relaxed") and ctx.flag("relaxed")
    rest = [(is_prefix_free(ctx, path, g.sep), opt, v) for path, opt, v in flat]
    if relaxed:
        rest.append((..., False, ...))
    keys = {}
    if cfg.get("perm") == "many":
        k = ctx.pick([1, 2, 3, 7], "stride")
        rest = [x for i in range(k) for x in rest[i::k]]
        if ctx.flag("reversed"):
            rest.reverse()
        for key, opt, v in rest:
            keys[optional(key) if opt else key] = v
    elif cfg.get("perm", 1):
        while rest:
            key, opt, v = rest.pop(ctx.choose(len(rest), "next"))
            keys[optional(key) if opt else key] = v
    else:
        if ctx.flag("reversed"):
            rest.reverse()
        for key, opt, v in rest:
            keys[optional(key) if opt else key] = v
    if len(keys) != len(flat) + (1 if relaxed else 0):
        ctx.reject()
    before = snap(keys)
    more = {} if cfg.get("sep") is None else {"separator": g.sep}
    res = rollout(keys, **more)
    expect = items + [(..., False, "leaf", ...)] if relaxed else items
    if relaxed:
        ctx.check(... in res and res[...] is ..., "the relaxed marker is lost", keys, res)
        body = {k: v for k, v in res.items() if k is not ...}
    else:
        body = res
    why = equals(body, items)
    ctx.check(why == "", "rollout of the flat keys is not the nested mapping: " + why, keys, g.sep, res)
    ctx.check(same(before, snap(keys)), "rollout changed its argument", keys)
    return len(res)


def h_identity(ctx, cfg):
    g = Keys(ctx, cfg)
    flat = []
    items = nest(g, cfg["tree"], [], flat)
    for path, _, _ in flat:
        for k in path:
            ctx.assume(g.sep not in k)
    d = as_dict(items, ctx.flag("reversed"))
    relaxed = cfg.get("relaxed") and ctx.flag("relaxed")
    if relaxed:
        d[...] = ...
    before = snap(d)
    more = {} if cfg.get("sep") is None else {"separator": g.sep}
    res = rollout(d, **more)
    if relaxed:
        ctx.check(... in res and res[...] is ..., "the relaxed marker is lost", d, res)
        body = {k: v for k, v in res.items() if k is not ...}
    else:
        body = res
    why = equals(body, items)
    ctx.check(why == "", "rollout of a nested mapping is not the identity: " + why, d, g.sep, res)
    ctx.check(same(before, snap(d)), "rollout changed its argument", d)
    return len(res)


def trees(depth, leaves):
    """All multisets of children with this number of leaves in all."""
    if leaves == 0:
        return [()]
    out = []
    for child in subtrees(depth, leaves):
        n = count(child)
        for rest in trees(depth, leaves - n):
            if not rest or order(child) <= order(rest[0]):
                out.append((child,) + rest)
    return out


def subtrees(depth, upto):
    out = ["L"]
    if depth > 1:
        for n in range(1, upto + 1):
            out += trees(depth - 1, n)
    return out


def count(t):
    return 1 if t == "L" else sum(count(c) for c in t)


def order(t):
    return (count(t), repr(t))


WIDE = [("L", ("L", "L", "L"), "L"), (("L", "L"), ("L", "L"), "L"), (("L", ("L", ("L", "L"))), "L"),
        ((("L", "L"), "L"), ("L", "L"))]


def chain(n, *beside):
    return "L" if n == 0 else (chain(n - 1, *beside),) + beside


# (tree, its number of keys)
MANY = [(("L",) * 25, 25), ((("L",) * 20, "L", ("L", "L")), 25), (tuple(("L", "L") for _ in range(9)), 27),
        ((chain(12),), 13), ((chain(8, "L"), "L"), 18), (("L", chain(4, "L"), ("L",) * 4, chain(5)), 24)]


def TASKS(tier):
    q = tier == "quick"
    b = 6 if q else 300
    out = []

    def add(fn, tree, **cfg):
        out.append({"fn": fn, "cfg": dict(cfg, tree=tree, nleaves=max(1, count(tree))), "budget": b,
                    "validate": 12})
    for n in range(1, 4 if q else 5):
        for t in trees(4, n):
            kl = (0, 2) if n == 1 else (0, 1) if n == 2 else (1, 1)
            for sep in (None, 1, 2) if n <= 2 or not q else (1,):
                add("h_tree", t, sep=sep, klen=kl, relaxed=1, opts="all" if n <= 3 else "one")
            add("h_identity", t, sep=1, klen=kl, relaxed=1)
    for t in (("L",), (("L",),), ("L", ("L",)), (("L", "L"),), ((("L",), "L"),)):
        add("h_tree", t, sep=None, klen=(1, 1), payloads=1)
        add("h_tree", t, sep=3, klen=(0, 2), opts="one")
        add("h_identity", t, sep=None, klen=(1, 1), payloads=1, relaxed=1)
        add("h_identity", t, sep=2, klen=(0, 2))
    for s in SEPS:
        add("h_tree", (("L", ("L",)),), sep=s, klen=(0, 1 if q else 2), relaxed=1)
        add("h_tree", (("L",),), sep=s, klen=(0, 2))
    if q:
        for t in trees(4, 4):
            add("h_tree", t, sep=1, klen=(1, 1), opts="one", perm=0)
    for t, n in MANY:
        for sep in (None, 1, 2):
            add("h_tree", t, sep=sep, klen=(0, 2), opts="one", perm="many", relaxed=1, sym=n)
        add("h_identity", t, sep=1, klen=(0, 2), opts="one", sym=n)
    for t in WIDE:
        add("h_tree", t, sep=1, klen=(1, 1), opts="one")
    return out
