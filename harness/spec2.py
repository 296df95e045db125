"""build() of spec.py for a given copy of the library."""


def build_in(api, ctx, s):
    try:
        return build(api, s)
    except api.DeclarationError:
        ctx.reject()


def build(api, s, hook=None, parent=None):
    """hook(schema, spec, parent spec) may replace every part as it is built."""
    r = build_one(api, s, hook)
    return r if hook is None else hook(r, s, parent)


def build_one(api, s, hook):
    S, p, k = api.schema, s.p, s.kind
    if k == "none":
        return S.none
    if k in ("bool", "bytes", "uuid4", "datetime", "date"):
        base = getattr(S, k)
        return base(p["value"]) if "value" in p else base
    if k in ("int", "float"):
        r = getattr(S, k)
        for name, v in p.items():
            r = r(v) if name == "value" else getattr(r, name)(v)
        return r
    if k == "str":
        r = S.str
        for name, v in p.items():
            if name == "value":
                r = r(v)
            elif name == "alphabet":
                r = r.alphabet(v)
            elif name == "substr":
                r = r.contains(v)
            elif name == "pattern":
                r = r.regex(v)
        return length(r, p)
    if k == "list":
        r = S.list
        if "elems" in p:
            r = r([... if e == "..." else build(api, e, hook, s) for e in p["elems"]])
        elif "type" in p:
            r = r(build(api, p["type"], hook, s))
        return length(r, p)
    if k == "dict":
        if "keys" not in p:
            return S.dict
        keys = {}
        if p.get("first"):
            keys[...] = ...
        for key, opt, sub in p["keys"]:
            keys[api.optional(key) if opt else key] = build(api, sub, hook, s)
        if p["relaxed"] and not p.get("first"):
            keys[...] = ...
        return S.dict(keys)
    if k == "any":
        return S.any(*[build(api, x, hook, s) for x in p["types"]]) if p.get("types") else S.any
    if k == "alias":
        return S.alias(p["name"], build(api, p["type"], hook, s))
    raise AssertionError(k)


def length(r, p):
    if "len" in p:
        return r.len(p["len"])
    if "min_len" in p and "max_len" in p:
        return r.len(p["min_len"], p["max_len"])
    if "min_len" in p:
        return r.len(p["min_len"], ...)
    if "max_len" in p:
        return r.len(..., p["max_len"])
    return r
