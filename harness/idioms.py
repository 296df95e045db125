"""Ways of writing things that a refactoring of d42 may use.  Not a property: `run.py check IDIOMS`
executes each function symbolically and compares every path's result with plain Python's."""
import collections
import contextlib
import datetime
import dataclasses
import functools
import itertools
import operator
import re
import string
from enum import Enum
from typing import Any, NamedTuple

BOUNDS = {}
ASSUMPTIONS = []
Nil = object()


class Box:
    __match_args__ = ("x", "y")

    def __init__(self, x, y):
        self.x, self.y = x, y


class Point(NamedTuple):
    x: Any
    y: Any


@dataclasses.dataclass(frozen=True)
class Data:
    x: Any
    y: Any = None


class Kind(Enum):
    A = 1
    B = 2


def match_types(v, i, s):
    match v:
        case None:
            return "none"
        case True:
            return "true"
        case bool():
            return "bool"
        case int(n) if n > 3:
            return ["big", n]
        case int() | float():
            return "num"
        case "a":
            return "letter"
        case str() as t:
            return ["str", t]
        case []:
            return "empty"
        case [x]:
            return ["one", x]
        case [int() as x, *rest]:
            return ["many", x, rest]
        case {"a": int(n), **rest}:
            return ["a", n, sorted(map(str, rest))]
        case {"b": _}:
            return "b"
        case dict():
            return "dict"
        case _:
            return "other"


def match_class(v, i, s):
    match Box(i, v):
        case Box(0, y):
            return ["zero", y]
        case Box(x=1, y=None):
            return "one none"
        case Box(x, [y, _]):
            return [x, y]
        case Box(x=int() as x):
            return x
    return None


def match_value(v, i, s):
    match s:
        case "":
            return 0
        case "a" | "b":
            return 1
        case x if len(x) > 1:
            return x
    match i, s:
        case 1, "c":
            return "1c"
        case (2 | 3) as n, str(t):
            return [n, t]
        case n, _:
            return n


def chained(v, i, s):
    return [0 <= i < 5, 0 < i <= len(s) < 3, s == s == "a", v is None is None, "a" in s in ("a", "ab")]


def chained_in(v, i, s):
    return [s in "ab" != "c", i in [1, 2] in [[1, 2]], None is not v is not True]


def aug(v, i, s):
    d = {"n": 1}
    d["n"] += i
    d.setdefault("l", []).append(s)
    d["l"] += [i]
    xs = [0, 0]
    xs[1] -= i
    n = 0
    n += i
    t = "x"
    t += s
    t *= 2
    return [d, xs, n, t]


def delete(v, i, s):
    d = {"a": 1, "b": 2}
    if s in d:
        del d[s]
    xs = [1, 2, 3]
    if 0 <= i < 3:
        del xs[i]
    return [sorted(d), xs]


def targets(v, i, s):
    d = {}
    d["a"], d["b"] = i, s
    d[s] = e = 5
    (x, *y), z = [i, s, s], 1
    for d["k"] in [1, i]:
        pass
    return [sorted(d.items(), key=lambda kv: kv[0]), e, x, y, z]


def symkeys(v, i, s):
    d = {s: 1, "a": 2, "b": 3}
    e = {k: j for j, k in enumerate([s, "a", s, "c"])}
    f = dict([(s, 1), ("a", 2)])
    g = dict(zip([s, "b"], [1, 2]))
    h = dict(d, **{"a": 7})
    d.update({s: 9})
    d.update(b=10)
    m = {**f, "a": 5, **g}
    return [sorted(x.items()) for x in (d, e, f, g, h, m)] + [list(x) for x in (d, e, f, g, h, m)]


def symkeys2(v, i, s):
    d = collections.OrderedDict()
    d[s] = 1
    d["a"] = 2
    c = collections.Counter([s, "a", s])
    dd = collections.defaultdict(list)
    for k in (s, "a", "b"):
        dd[k].append(i)
    u = list(dict.fromkeys([s, "a", s, "b"]))
    w = {s: 1} | {"a": 2}
    return [list(d.items()), sorted(c.items()), sorted(dd.items()), u, list(w.items())]


def symkeys3(v, i, s):
    d = {"a": 1, "b": 2}
    try:
        x = d[s]
    except KeyError:
        x = None
    return [x, d.get(s), d.get(s, 7), d.pop(s, 8), sorted(d), s in d.keys(), s in list(d), s in {"a"},
            d.keys() & {s}, "a" in {s}, len({s, "a"}), sorted({s, "a", "b"})]


def ops(v, i, s):
    return [operator.is_(v, None), operator.is_not(v, None), operator.contains("abc", s), operator.eq(i, 1),
            operator.getitem({"a": 1, "b": 2, s: 3}, s), operator.lt(i, 2), operator.not_(i), operator.truth(s),
            operator.itemgetter(0)([i]), operator.attrgetter("x")(Box(i, s)), operator.methodcaller("upper")(s),
            operator.add(s, "x"), operator.concat("x", s), operator.mul(2, s), operator.indexOf(["a", s], s)]


def formats(v, i, s):
    return ["%s" % s, "%r" % (s,), "%s=%d" % (s, i), "{}".format(s), "{0!r}:{1}".format(s, i), f"{s!r}{i}{s}",
            "{a[0]} {b}".format(a=[s], b=i), "a" + s + "b", s.join(["x", "y"]), "%(k)s" % {"k": s}, str(s), repr(s),
            "<" + str(i) + ">", "{:>4}".format(s), f"{s:<3}|", f"{i:3}", "%5s" % s, "{s}".format_map({"s": s})]


def strings(v, i, s):
    return [s.startswith("a"), s.endswith(("a", "b")), s.partition("."), s.rpartition("."), s.split("."),
            s.split(".", 1), s.replace("a", "b"), s.find("b"), s.count("a"), s.strip("a"), s.lstrip("."), s.upper(),
            s[::-1], s[1:], s[-1:], list(s), "".join(reversed(s)), sorted(s), len(s), s * 2, bool(s), not s,
            s.removeprefix("a"), s.removesuffix("b"), s.isdigit(), s.isidentifier(), s > "a", max(s, "b"), s.index("")]


def strings2(v, i, s):
    return [s.splitlines(), s.rsplit(".", 1), s.center(4), s.zfill(3), s.casefold(), s.title(), s.isalpha(),
            s.encode(), s.translate({97: "z"}), set(s) <= set("ab"), set(s).issubset("ab."), all(c in "ab" for c in s),
            any(map("ab".__contains__, s)), [c for c in s if c not in "a"], s.swapcase(), s.expandtabs(), s.isspace(),
            frozenset(s) - frozenset("a") == frozenset(), set("ab").issuperset(s), not set(s).difference("ab")]


def descriptors(v, i, s):
    return [str.upper(s), str.startswith(s, "a"), str.join("-", [s, "x"]), list(map(str.strip, [s])), int.__add__(i, 1),
            dict.get({"a": 1}, s, 0), str.__len__(s), list(map(len, [s, "x"])), list(map(str, [i, s])),
            list(map(repr, [i])), str.__eq__(s, "a"), list(filter(str.isalpha, [s, "1"])), str.__contains__(s, "a"),
            list.__len__([s]), dict.__contains__({"a": 1}, s), "a".__eq__(s), i.__lt__(3), (3).__gt__(i)]


def numbers(v, i, s):
    return [i // 2, i % 3, -i, +i, abs(i), i * 2 - 1, divmod(i, 2), i ** 2, i / 2, round(i), int(i), float(i), min(i, 2),
            max(i, 2, 3), sum([i, 1]), i == 1.0, i != 2, bool(i), i.real, int.__mul__(i, 2), i.is_integer() if
            hasattr(i, "is_integer") else None, pow(i, 2), sorted([i, 2, 1]), i if i > 0 else -i, min([i, 1], key=abs)]


def numbers2(v, i, s):
    if not 0 <= i <= 4:
        return None
    return [range(i)[-1:] if False else list(range(i)), [0] * i, "ab"[i % 2], list(range(10))[i], s[:i], "x" * i,
            list(itertools.repeat(1, i)), i << 1, i & 1, i | 2, i ^ 1, i.bit_length(), [1, 2, 3, 4, 5].index(i + 1),
            list(itertools.islice("abcdef", i)), bin(i), hex(i), chr(97 + i), list(range(5, i, -1)), i in range(3)]


def functional(v, i, s):
    return [functools.reduce(lambda a, b: a + b, [i, 1, 2]), list(itertools.chain([i], [s])), list(zip([i], [s])),
            list(enumerate([i, s], start=1)), list(map(lambda x: x == i, [1, 2])), any([i > 1, i < 0]), all(x > i for x in [5]),
            next((x for x in [1, 2, 3] if x > i), None), functools.partial(max, i)(2), sorted([s, "b"], key=len),
            list(itertools.takewhile(lambda x: x < i, range(4))), list(reversed([i, s])), list(filter(None, [i, s])),
            functools.reduce(operator.or_, [i == 1, i == 2]), sum(x == i for x in range(3)), [*([i] * 2), s],
            list(itertools.zip_longest([1], [i, s])), [k for k, g in itertools.groupby([i, 1, 1])],
            list(itertools.starmap(lambda a, b: (b, a), [(i, s)])), functools.reduce(operator.add, [[i], [s]], [])]


def anyval(v, i, s):
    out = [v is None, v is True, type(v) is int, type(v) in (int, str), isinstance(v, (int, str)), type(v).__name__,
           v.__class__.__name__, not v, v == 1, v != "a", v in (None, 1, "a"), [v] == [1], isinstance(v, int | str),
           issubclass(type(v), int), callable(v), hasattr(v, "keys"), getattr(v, "keys", None) is None, (v or 5) == 5]
    return out


def anywalk(v, i, s):
    if isinstance(v, dict):
        return [sorted(v.keys()), {k: type(x).__name__ for k, x in v.items()}, "a" in v, v.get("a", Nil) is Nil,
                v.keys() - {"a"}, set(v) == {"a"}, v.keys() == {"a"}, len(v), dict(v) == v, {**v, "z": 1}.keys() >= {"z"},
                list(v), [*v.values()] == list(v.values()), bool(v), v.keys() <= {"a", "b"}, sorted(set(v) ^ {"a"}),
                v | {"q": 1} == {**v, "q": 1}, v.copy() == v, list(reversed(v))]
    if isinstance(v, list):
        first, *rest = v or [None]
        return [len(v), [type(x).__name__ for x in v], v[:1] == v[0:1], v[::-1] == list(reversed(v)), first is None, len(rest),
                v + [1] == [*v, 1], any(x is None for x in v), v.count(None), v == v[:], None in v, v[-1:] == [], tuple(v) == (),
                [a is b for a, b in zip(v, v)], v * 2 == v + v, bool(v), sum(1 for _ in v), list(v) is v, v.copy() == v]
    return "leaf"


def control(v, i, s):
    out = []
    for x in (1, 2, 3):
        if x == i:
            break
        out.append(x)
    else:
        out.append("all")
    n = 0
    while n < i and n < 4:
        n += 1
    try:
        if i == 2:
            raise ValueError(s)
        out.append("fine")
    except (KeyError, ValueError) as e:
        out.append(e.args[0])
    finally:
        out.append("end")
    with contextlib.suppress(KeyError):
        out.append({"a": 1}[s])
    if (m := i * 2) > 4:
        out.append(m)
    return out + [n]


def generators(v, i, s):
    def gen():
        yield i
        r = yield from inner()
        yield r

    def inner():
        for c in s:
            yield c
        return len(s)
    return [list(gen()), dict(a=i, **{"b": s}), (lambda *a, k=i, **kw: [a, k, kw])(s, *[1], z=2), [*gen()][:2],
            {x for x in (1, 2) if x != i} == {1, 2}, tuple(x for x in (i, s)), max((len(x) for x in [s]), default=0)]


@functools.singledispatch
def kind_of(x):
    return "object"


@kind_of.register(int)
def _(x):
    return ["int", x]


@kind_of.register(str)
def _(x):
    return ["str", x]


@kind_of.register(list)
@kind_of.register(dict)
def _(x):
    return ["sized", len(x)]


@functools.lru_cache(maxsize=None)
def cached(x):
    return [x]


TABLE = {type(None): "n", bool: "b", int: "i", str: "s", list: "l", dict: "d"}


def dispatch(v, i, s):
    return [kind_of(v), kind_of(i), TABLE.get(type(v)), TABLE[type(i)], {int: 1, str: 2}.get(v.__class__, 0),
            next((n for t, n in TABLE.items() if isinstance(v, t)), "?"), next((n for t, n in TABLE.items() if type(v) is t), "?"),
            {True: "t", False: "f"}[i > 1], ("no", "yes")[i > 1], [lambda: 1, lambda: 2][bool(s)](), (i > 1 and "y") or "n"]


def records(v, i, s):
    p, d = Point(i, s), Data(i, s)
    a, b = p
    return [p.x == i, p._replace(x=1).x, p == (i, s), d == Data(i, s), dataclasses.replace(d, x=3).x, a, b, p[0],
            dataclasses.asdict(d) == {"x": i, "y": s}, Kind(1) is Kind.A, d != Data(1, s), Point(1, "a") == p, vars(Box(i, s)),
            collections.namedtuple("Q", "u v")(i, s).v]


def regexes(v, i, s):
    m = re.match(r"(a+)(\.?)", s)
    return [bool(re.search("a|b", s)), m and m.group(1), m and m.span(), re.sub("a", "x", s), re.split(r"\.", s),
            re.compile("[ab]+").fullmatch(s) is not None, re.findall("[ab]", s), bool(re.search("A", s, re.I))]


def other(v, i, s):
    q = collections.deque([i])
    q.appendleft(s)
    c = collections.ChainMap({"a": i}, {"b": s})
    return [list(q), c["a"], c.get("b"), string.ascii_letters.find(s), isinstance(s, collections.abc.Sized), isinstance(v, collections.abc.Mapping),
            isinstance(v, collections.abc.Sequence), s if isinstance(s, str) else None, [s, i].index(i), sorted([(i, s), (1, "a")])[0][0],
            all([]), any([s == "a", i == 1]), str(s) == s, (i, s) == (1, "a"), (i, s) < (1, "a"), [i, s] in [[1, "a"]], hash(s) == hash(s)]


def dates(v, i, s, d, e):
    x = datetime.datetime(2020, 5, 17, 13, 45, 1, 5)
    y = datetime.date(2020, 5, 17)
    return [d == x, d.date() == y, d.hour == 0, d.replace(microsecond=0) == d, d.replace(hour=0, minute=0, second=0, microsecond=0) == d,
            d < x, d >= x, d.date() > y, e == y, e <= y, x == d, y > e, isinstance(d, datetime.date), d.microsecond > 5, d.tzinfo is None,
            d.weekday() == 2, e.weekday() == 2, d == e, e == d, d.time() == datetime.time(0) if i == 7 else None,
            d.year if i == 8 else 0, d == datetime.datetime(2020, 5, 17, tzinfo=datetime.timezone.utc),
            d.isoformat() > "2020" if i == 9 else 1, e.toordinal() > 737000, d.timetuple()[0] > 1 if i == 10 else 0]


FUNCS = [match_types, match_class, match_value, chained, chained_in, aug, delete, targets, symkeys, symkeys2, symkeys3, ops, formats,
         strings, strings2, descriptors, numbers, numbers2, functional, anyval, anywalk, control, generators, dispatch, records,
         regexes, other, dates]


def clean(x):
    if isinstance(x, (set, frozenset)) or isinstance(x, (type({}.keys()), type({}.values()))):
        return ["set"] + sorted([clean(y) for y in x], key=repr)
    if isinstance(x, (list, tuple)):
        return [clean(y) for y in x]
    if isinstance(x, dict):
        return [[clean(k), clean(y)] for k, y in x.items()]
    return x


def h_idiom(ctx, cfg):
    i = ctx.int("i")
    s = ctx.str("s", 2)
    v = ctx.any("v", ["none", "bool", "int", "str", "list", "dict"], child_kinds=["int", "none"], depth=1, maxlen=2,
                keys=("a", "b"), strlen=1)
    f = [g for g in FUNCS if g.__name__ == cfg["f"]][0]
    more = (ctx.datetime("d"), ctx.date("e")) if f is dates else ()
    try:
        return clean(f(v, i, s, *more))
    except (ValueError, KeyError, IndexError, AttributeError, TypeError) as e:
        if cfg.get("raises"):
            return type(e).__name__
        raise


def TASKS(tier):
    return [{"fn": "h_idiom", "cfg": {"f": f.__name__}, "budget": 8} for f in FUNCS]
