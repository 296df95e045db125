"""Unusual keys and values (importable, so that counterexamples can be pickled)."""
import collections
import datetime as dt
import decimal
import enum
import fractions
import uuid


class Key:
    """Compared by identity; a deep copy is another key."""

    def __init__(self, name):
        self.name = name

    def __reduce__(self):
        return self.name

    def __deepcopy__(self, memo):
        return Key(self.name + "'")

    def __repr__(self):
        return f"<{self.name}>"


class UncopyableKey(Key):
    def __deepcopy__(self, memo):
        raise TypeError("cannot be copied")


K1 = Key("K1")
K2 = UncopyableKey("K2")
KEYS = {"K1": K1, "K2": K2}


def key_of(k):
    if isinstance(k, str) and k.startswith("@"):
        return KEYS[k[1:]]
    return k


class MyInt(int):
    pass


class MyStr(str):
    pass


class MyFloat(float):
    pass


class MyBytes(bytes):
    pass


class MyList(list):
    pass


class MyDict(dict):
    pass


class MyTuple(tuple):
    pass


class MyUUID(uuid.UUID):
    pass


class MyDate(dt.date):
    pass


class MyDatetime(dt.datetime):
    pass


class Color(enum.IntEnum):
    RED = 1


class Word(str, enum.Enum):
    A = "a"


class Plain(enum.Enum):
    X = 1


Point = collections.namedtuple("Point", "x y", module=__name__)


class Opaque:
    """Nothing but identity."""

    def __init__(self, name):
        self.name = name

    def __reduce__(self):
        return self.name


class BadRepr(Opaque):
    def __repr__(self):
        raise ValueError("no text")


class NoBool(Opaque):
    def __bool__(self):
        raise TypeError("no truth value")


class NoEq(Opaque):
    __hash__ = object.__hash__

    def __eq__(self, other):
        raise TypeError("not comparable")


class Odd(Opaque):
    """A value with attributes of every kind of thing."""

    def __len__(self):
        return 1

    def __getitem__(self, i):
        return i

    def __iter__(self):
        return iter("ab")

    def __contains__(self, x):
        return True

    version = 4
    props = types = elements = type = min = max = len = None
    hex = "4" * 32

    def __accept__(self, visitor, **kwargs):
        return visitor

    def keys(self):
        return iter("ab")

    def items(self):
        return iter([("a", 1)])

    def get(self, key, default=None):
        return default


OPAQUE = Opaque("OPAQUE")
BAD_REPR = BadRepr("BAD_REPR")
NO_BOOL = NoBool("NO_BOOL")
NO_EQ = NoEq("NO_EQ")
ODD = Odd("ODD")
TZ = dt.timezone(dt.timedelta(hours=3))
CYCLE = []
CYCLE.append(CYCLE)
HUGE = 10 ** 5000


def values():
    """label -> value"""
    nan, inf = float("nan"), float("inf")
    return {
        "nan": nan, "inf": inf, "ninf": -inf, "max": 1.7976931348623157e308, "tiny": 5e-324,
        "negzero": -0.0, "1e308": 1e308, "9007199254740993": float(2 ** 53 + 1),
        "HUGE": HUGE, "-HUGE": -HUGE, "2**64": 2 ** 64,
        "MyInt": MyInt(1), "MyStr": MyStr("a"), "MyFloat": MyFloat(1.5), "MyBytes": MyBytes(b"a"),
        "MyList": MyList([1]), "MyDict": MyDict(a=1), "MyTuple": MyTuple((1,)),
        "MyUUID": MyUUID(int=0xabc0 << 112, version=4), "MyDate": MyDate(2001, 2, 3),
        "MyDatetime": MyDatetime(2001, 2, 3), "Color": Color.RED, "Word": Word.A,
        "Plain": Plain.X, "Point": Point(1, 2),
        "Decimal": decimal.Decimal("1.5"), "DecNaN": decimal.Decimal("NaN"),
        "DecSNaN": decimal.Decimal("sNaN"), "Fraction": fractions.Fraction(1, 3),
        "complex": 1 + 2j, "tuple": (1, "a"), "etuple": (), "set": {1}, "frozenset": frozenset("a"),
        "bytearray": bytearray(b"a"), "range": range(2), "type": int, "func": len,
        "OPAQUE": OPAQUE, "BAD_REPR": BAD_REPR, "NO_BOOL": NO_BOOL, "NO_EQ": NO_EQ, "ODD": ODD,
        "uuid1": uuid.UUID("6a204bd8-89f7-11ee-b9d1-0242ac120002"), "uuid0": uuid.UUID(int=0),
        "aware": dt.datetime(2020, 1, 1, tzinfo=TZ), "naive": dt.datetime(2020, 1, 1),
        "dtmin": dt.datetime.min, "date": dt.date(2020, 1, 1), "time": dt.time(1),
        "timedelta": dt.timedelta(1), "exception": KeyError("a"),
        "odict": collections.OrderedDict(a=1), "ddict": collections.defaultdict(list, a=1),
        "counter": collections.Counter("a"), "deque": collections.deque([1]),
        "surrogate": "\ud800", "nul": "\0a", "CYCLE": CYCLE,
        "keys": {(1, 2): 1, None: 2, 1.5: 3, nan: 4, frozenset(): 5, b"x": 6, True: 7},
        "hugekey": {HUGE: 1}, "objkey": {OPAQUE: 1}, "badkey": {BAD_REPR: 1}, "noeqkey": {NO_EQ: 1},
        "ellkey": {...: 1}, "ell2": {...: ...}, "ellval": {"a": ...}, "elist": [...],
        "mix": [1, "a", None, 1.5, b"", {}, [], (), {1}],
        "listbad": [BAD_REPR, HUGE], "dictbad": {"a": BAD_REPR, "b": HUGE},
    }


LABELS = list(values())


def zoo(*labels):
    """Kinds for ctx.any()."""
    vs = values()
    return [("zoo", n, type(vs[n]), vs[n]) for n in (labels or LABELS)]
