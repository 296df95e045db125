"""Schema templates shared by the checks."""

NUM = ["int", "int:v", "int:m", "int:M", "int:m+M", "int:v+m", "int:v+M", "int:v+m+M"]
FLT = ["float", "float:v", "float:m", "float:M", "float:m+M", "float:v+m+M", "float:p1",
       "float:v+p1", "float:v+p2", "float:m+M+p1", "float:v+m+M+p1", "float:inf", "float:ninf",
       "float:nan", "float:big", "float:big+p2", "float:minf", "float:Mninf", "float:mninf+Minf"]
STR = ["str", "str:v", "str:len", "str:min", "str:max", "str:mm", "str:a", "str:c", "str:a+c",
       "str:len+a", "str:len+c", "str:mm+a", "str:mm+c", "str:min+a+c", "str:max+a+c",
       "str:len+a+c", "str:v+len", "str:v+mm", "str:v+a", "str:v+c", "str:v+mm+a+c",
       "str:r0", "str:r1", "str:r2", "str:r3", "str:r4", "str:r5", "str:v+r1"]
MISC = ["none", "bool", "bool:v", "bytes", "bytes:v", "uuid4", "uuid4:v", "datetime",
        "datetime:v", "datetime:z", "date", "date:v"]
PATTERNS = [f"str:r{i}" for i in range(6, 16)] + ["str:v+r6", "str:v+r9"]   # some can't be generated
SCALARS = NUM + FLT + STR + MISC

E = "..."
I, IV, IM = "int", "int:v", "int:m"
LISTS = [
    ("U",), ("U", "len"), ("U", "min"), ("U", "max"), ("U", "mm"),
    ("L", []), ("L", [E]), ("L", [IV]), ("L", [IV, "str"]), ("L", [IV, IM, "none"]),
    ("L", [IV, E]), ("L", [IM, "str", E]), ("L", [E, IV]), ("L", [E, IM, "str"]),
    ("L", [E, IV, E]), ("L", [E, IM, IV, E]), ("L", [E, "none", "str", "int", E]),
    ("L", [E, IV], "len"), ("L", [E, IV], "min"), ("L", [E, IV], "max"), ("L", [IV, E], "mm"),
    ("L", [IV, E], "len"), ("L", [E, IV, E], "len"), ("L", [E, IM, IV, E], "mm"),
    ("L", [E], "len"), ("L", [E], "max"), ("L", [IM, IM], "len"), ("L", [IV, E], "max"),
    ("T", IM), ("T", "str:len"), ("T", IM, "len"), ("T", IM, "min"), ("T", IM, "max"),
    ("T", "int", "mm"), ("T", "any"),
]
DICTS = [
    ("D", []), ("D", [], 1), ("D", [("a", 0, IV)]), ("D", [("a", 1, IM)]),
    ("D", [("a", 0, IM)], 1), ("D", [("a", 1, IV)], 1), ("D", [("a", 0, IV), ("b", 0, "str")]),
    ("D", [("a", 0, IM), ("b", 1, IV)]), ("D", [("a", 1, IM), ("b", 1, "none")]),
    ("D", [("a", 0, IV), ("b", 1, "str")], 1), ("D", [("a", 1, IV), ("b", 0, "none")], "first"),
    ("D", [("a", 0, "none"), ("b", 1, "int"), ("c", 0, IM)]),
    ("D", [(1, 0, IV), (None, 1, "str")]), ("D", [(("x", 1), 0, IV), ("a", 0, "any")], 1),
    ("D", [(True, 0, IV), (2, 1, IM)]),
]
ANYS = [
    "any", ("A", [IV, "str"]), ("A", ["int:m", "int:M"]), ("A", [IV, IV, "none"]),
    ("A", [("L", [IV, E]), ("D", [("a", 0, IM)])]), ("A", [("T", IM), "none"]),
    ("A", [("D", [("a", 0, IV)]), ("D", [("a", 0, "str"), ("b", 1, IM)])]),
    ("A", [("A", [IV, "none"]), "str"]), ("AL", IM), ("AL", ("L", [IV, E])),
    ("AL", ("A", [IV, "none"])), ("A", [("AL", IV), ("AL", "str")]),
]
NESTED = [
    ("L", [("D", [("a", 0, IM)]), E]), ("L", [E, ("D", [("a", 1, IM)], 1), E]),
    ("L", [("L", [IV, E]), ("L", [E, IV])]), ("T", ("T", IM)), ("T", ("D", [("a", 0, IM)])),
    ("T", ("A", [IM, "none"])), ("T", ("L", [E, IV])),
    ("D", [("a", 0, ("D", [("b", 1, IM)]))]), ("D", [("a", 1, ("L", [IM, E]))]),
    ("D", [("a", 0, ("T", IM)), ("b", 1, ("A", [IV, "none"]))], 1),
    ("D", [("a", 0, ("D", [("a", 0, ("D", [("a", 0, IM)]))]))]),
    ("A", [("D", [("a", 0, ("L", [E, IM]))]), ("T", ("A", [IV, "none"]))]),
    ("L", [E, ("A", [IV, ("L", [IM])]), E]), ("L", [("AL", ("D", [("a", 0, IM)])), IV]),
    ("L", [("A", [IV, "str"]), ("A", [("D", [("a", 0, IM)]), "none"]), E]),
]
CONTAINERS = LISTS + DICTS + ANYS + NESTED


def has(t, what):
    if isinstance(t, str):
        return what in t
    if isinstance(t, (tuple, list)):
        return any(has(x, what) for x in t)
    return False

# with floats so close to each other that the tolerance matters
CLOSE = ["float", "float:v", "float:m", "float:M", "float:m+M", "float:v+m", "float:v+M", "float:v+p2",
         "float:m+p1", "float:v+m+M+p1"]
FLOATS = [("T", "float:m"), ("L", ["float:m+M", "..."]), ("D", [("a", 0, "float:M"), ("b", 1, "float:m")]),
          ("A", ["float:m", "float:M"]), ("AL", "float:m"), ("L", ["...", "float:m", "..."]), ("T", ("A", ["float:M", "none"]))]
