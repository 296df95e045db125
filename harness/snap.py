"""Snapshots of observable behaviour, and a second copy of the library."""
import importlib
import math

import d42.custom_type
import d42.declaration
import d42.substitution.errors
import d42.utils
import d42.validation


class Api:
    """The public entry points of one loaded copy of d42."""

    def __init__(self):
        im = importlib.import_module
        d = im("d42")
        self.schema, self.optional = d.schema, d.optional
        self.fake, self.validate = d.fake, d.validate
        self.validate_or_fail, self.substitute = d.validate_or_fail, d.substitute
        self.ValidationException, self.represent = d.ValidationException, d.represent
        u = im("d42.utils")
        self.from_native, self.make_required, self.rollout = u.from_native, u.make_required, u.rollout
        self.DeclarationError = im("d42.declaration").DeclarationError
        self.Schema = im("d42.declaration").Schema
        self.SubstitutionError = im("d42.substitution.errors").SubstitutionError
        self.CustomSchema = im("d42.custom_type").CustomSchema
        self.Formatter = im("d42.validation").Formatter


def fresh_api(ctx):
    """A newly imported copy of d42 that shares nothing with the one in use."""
    return ctx.second(Api)


def clone(x):
    """The same data in new containers."""
    if isinstance(x, list):
        return [clone(y) for y in x]
    if isinstance(x, dict):
        return {k: clone(v) for k, v in x.items()}
    return x


def is_schema(x):
    return hasattr(type(x), "__accept__") and hasattr(type(x), "props")


def snap(x, depth=12):
    """Structure of a value, schema or error, made of fresh containers."""
    if depth == 0:
        return ["..."]
    t = type(x)
    if t is list or t is tuple:
        return [t.__name__] + [snap(y, depth - 1) for y in x]
    if t is dict:
        return ["dict"] + [[snap(k, depth - 1), snap(v, depth - 1)] for k, v in x.items()]
    if is_schema(x):
        if hasattr(t, "snap_as"):          # a type that stands for another schema
            return snap(x.snap_as(), depth)
        names = sorted(x.props)
        return ["schema", t.__name__] + [[n, snap(x.props.get(n), depth - 1)] for n in names]
    if t.__name__ == "optional":
        return ["optional", snap(x.key, depth - 1)]
    if t.__name__ == "PathHolder":
        return ["path", repr(x)]
    if t.__name__.endswith("ValidationError"):
        return ["error", t.__name__] + [[n, snap(v, depth - 1)] for n, v in sorted(x.__dict__.items())]
    if isinstance(x, type):
        return ["type", x.__name__]
    return ["leaf", x]


def same(a, b):
    """Equality of snapshots."""
    if isinstance(a, list):
        if not isinstance(b, list) or len(a) != len(b):
            return False
        if a and a[0] == "leaf":
            return b[0] == "leaf" and same_leaf(a[1], b[1])
        for i in range(len(a)):
            if not same(a[i], b[i]):
                return False
        return True
    return a == b


def same_leaf(x, y):
    if x is y:
        return True
    if type(x).__name__ == "NilType" or type(y).__name__ == "NilType":
        return type(x).__name__ == type(y).__name__
    if isinstance(x, float) and isinstance(y, float):
        if math.isnan(x) or math.isnan(y):
            return math.isnan(x) and math.isnan(y)
        return x == y and math.copysign(1.0, x) == math.copysign(1.0, y)
    for t in (bool, int, float, str, bytes):
        if isinstance(x, t) != isinstance(y, t):
            return False
    return bool(x == y)


def mutate(x, how, done=None):
    """Change every list and dict reachable from x; how: append, clear or replace."""
    done = [] if done is None else done
    for y in done:
        if y is x:
            return 0
    n = 0
    if isinstance(x, list):
        done.append(x)
        for y in list(x):
            n += mutate(y, how, done)
        if how == "append":
            x.append("added")
        elif how == "clear":
            x.clear()
        else:
            for i in range(len(x)):
                x[i] = "changed"
        return n + 1
    if isinstance(x, dict):
        done.append(x)
        for y in list(x.values()):
            n += mutate(y, how, done)
        if how == "append":
            x["added"] = "added"
        elif how == "clear":
            x.clear()
        else:
            for k in list(x):
                x[k] = "changed"
        return n + 1
    return n
