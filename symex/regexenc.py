"""Regular expression matching on symbolic strings of fixed length, from the sre parse tree."""
import re as _re
import re._parser as sre
import re._constants as K
import z3
from .values import (SymStr, chars_of, ch_eq, ch_in_ranges, ch_term, ch_c, concretise, deref, is_sym,
                     isinstance_, mkand,
                     mkbool, mkint, mknot, mkor, mkstr, SymInt)


class Unsupported(Exception):
    pass


# \d, \w, \s on text patterns cover the whole of Unicode
def _category_ranges(pred):
    out = []
    for c in range(0x110000):
        if pred(chr(c)):
            if out and out[-1][1] == c - 1:
                out[-1][1] = c
            else:
                out.append([c, c])
    return [tuple(x) for x in out]


_CAT = {}


def cat_ranges(name, ascii_only):
    key = (str(name), ascii_only)
    if key not in _CAT:
        pred = {"CATEGORY_DIGIT": str.isdecimal, "CATEGORY_WORD":
                lambda c: c.isalnum() or c == "_", "CATEGORY_SPACE": str.isspace}[str(name)]
        if ascii_only:
            p0 = pred
            pred = lambda c: ord(c) < 128 and p0(c)
        if str(name) == "CATEGORY_SPACE" and ascii_only:
            pred = lambda c: c in " \t\n\r\f\v"
        _CAT[key] = _category_ranges(pred)
    return _CAT[key]


def cat_cond(ch, name, flags):
    neg = "NOT_" in str(name)
    base = str(name).replace("NOT_", "")
    asc = bool(flags & _re.A)
    # interval tables of \w have ~770 entries: restrict the encoding to what the table needs
    r = ch_in_ranges(ch, cat_ranges(base, asc))
    return mknot(r) if neg else r


def lit_cond(ch, av):
    return ch_eq(ch, av) if is_sym(av) else ch_in_ranges(ch, [(av, av)])


def range_cond(ch, lo, hi):
    if not is_sym(lo) and not is_sym(hi):
        return ch_in_ranges(ch, [(lo, hi)])
    t = ch_term(ch)
    return mkbool(z3.And(t >= ch_term(lo), t <= ch_term(hi)), ch_c(lo) <= ch_c(ch) <= ch_c(hi))


# ---------------------------------------------------------------- patterns with symbolic literals
def _codes(tree, out):
    for op, av in tree:
        if op in (K.LITERAL, K.NOT_LITERAL):
            out.add(av)
        elif op is K.IN:
            for o, v in av:
                if o is K.LITERAL:
                    out.add(v)
                elif o is K.RANGE:
                    out.update(v)
        else:
            for sub in _subs(op, av):
                _codes(sub, out)
    return out


def _subs(op, av):
    if op is K.SUBPATTERN:
        return [av[3]]
    if op is K.BRANCH:
        return av[1]
    if op in (K.MAX_REPEAT, K.MIN_REPEAT, K.POSSESSIVE_REPEAT):
        return [av[2]]
    if op in (K.ASSERT, K.ASSERT_NOT):
        return [av[1]]
    if op is K.ATOMIC_GROUP:
        return [av]
    if op is K.GROUPREF_EXISTS:
        return [x for x in av[1:] if x is not None]
    return []


def _back(tree, m):
    data = tree.data
    for i, (op, av) in enumerate(data):
        if op in (K.LITERAL, K.NOT_LITERAL):
            data[i] = (op, m.get(av, av))
        elif op is K.IN:
            data[i] = (op, [(o, m.get(v, v)) if o is K.LITERAL else
                            (o, (m.get(v[0], v[0]), m.get(v[1], v[1]))) if o is K.RANGE else (o, v)
                            for o, v in av])
        else:
            for sub in _subs(op, av):
                _back(sub, m)
    return tree


PLAIN = [(48, 57), (65, 90), (97, 122)]
HOLD = 0xF0000                                      # stand-ins for symbolic characters (private use)


def _special(cs, i):
    """Position i is one where the parser does not read just any alphanumeric character as a literal."""
    n = 0
    while i - n > 0 and cs[i - n - 1] == 92 and not is_sym(cs[i - n - 1]):
        n += 1
    if n % 2:
        return True
    for j in range(i - 1, -1, -1):
        c = cs[j]
        if is_sym(c):
            continue
        c = chr(c)
        if c in "{<" or c == "?" and j and not is_sym(cs[j - 1]) and cs[j - 1] == 40:
            return True
        if c in "\\":
            e = cs[j + 1]                           # a symbolic digit of \\x.., \\u...., \\0..
            return i - j <= 9 and (is_sym(e) or chr(e) in "xuU0123456789N")
        if not (c.isalnum() or c in "_,"):
            return False
    return False


def sym_parse(pattern, flags=0, *a):
    """re._parser.parse of a pattern some of whose literal characters are symbolic."""
    pattern = deref(pattern)
    if not isinstance_(pattern, SymStr):
        return sre.parse(pattern, flags, *a)
    cs = pattern.chars
    if flags & (_re.I | _re.X | _re.L) or any(not is_sym(c) and c >= HOLD for c in cs):
        return sre.parse(concretise(pattern, "flags of a symbolic pattern"), flags, *a)
    fixed = {}                                      # id of a character -> its code point on this path
    syms = []
    for i, ch in enumerate(cs):
        if not is_sym(ch) or id(ch) in fixed:
            continue
        if _special(cs, i):
            fixed[id(ch)] = ord(concretise(mkstr([ch]), "special position in a pattern"))
        elif not any(ch is y for y in syms):
            if bool(ch_in_ranges(ch, [(0, 127)])) and not bool(ch_in_ranges(ch, PLAIN)):
                fixed[id(ch)] = ord(concretise(mkstr([ch]), "ASCII punctuation in a pattern"))
            else:
                syms.append(ch)
    for i in range(1, len(cs) - 1):
        if cs[i] == 45 and not is_sym(cs[i]):
            lo, hi = cs[i - 1], cs[i + 1]
            if is_sym(lo) and is_sym(hi):
                if bool(mkbool(ch_term(hi) < ch_term(lo), ch_c(hi) < ch_c(lo))):
                    return sre.parse(concretise(pattern, "a range upside down"), flags, *a)
            else:
                for ch in (lo, hi):
                    if is_sym(ch) and id(ch) not in fixed:
                        fixed[id(ch)] = ord(concretise(mkstr([ch]), "range with one symbolic end"))
    syms = [ch for ch in syms if id(ch) not in fixed]
    same = {}
    if any(not is_sym(c) and c in (124, 91) for c in cs):
        # the parser compares the literals of branches and sets
        for i, ch in enumerate(syms):
            for y in syms[:i]:
                if id(y) not in same and bool(ch_eq(ch, y)):
                    same[id(ch)] = y
                    break
    order = sorted((ch for ch in syms if id(ch) not in same), key=ch_c)
    hold = {id(ch): HOLD + k for k, ch in enumerate(order)}

    def code(ch):
        if not is_sym(ch):
            return ch
        if id(ch) in fixed:
            return fixed[id(ch)]
        return hold[id(same.get(id(ch), ch))]

    def parsed():
        return sre.parse("".join(chr(code(ch)) for ch in cs), flags, *a)
    tree = parsed()
    if any(not is_sym(c) and c in (124, 91) for c in cs):
        known = sorted(c for c in _codes(tree, set()) if c < HOLD)
        for ch in [x for x in syms if id(x) not in same]:
            for c in known:
                if bool(ch_eq(ch, c)):
                    hold[id(ch)] = c
                    break
        tree = parsed()
    return _back(tree, {hold[id(ch)]: ch for ch in order if hold[id(ch)] >= HOLD})


def in_cond(ch, items, flags):
    neg = False
    parts = []
    for op, av in items:
        if op is K.NEGATE:
            neg = True
        elif op is K.LITERAL:
            parts.append(lit_cond(ch, av))
        elif op is K.RANGE:
            parts.append(range_cond(ch, *av))
        elif op is K.CATEGORY:
            parts.append(cat_cond(ch, av, flags))
        else:
            raise Unsupported(str(op))
    r = mkor(*parts)
    return mknot(r) if neg else r


def ends(node, chars, starts, flags):
    """starts: {position: condition} -> {position: condition} after matching the sequence."""
    cur = starts
    for op, av in node:
        if not cur:
            return {}
        cur = step(op, av, chars, cur, flags)
    return cur


def merge(out, pos, cond):
    if cond is False:
        return
    out[pos] = mkor(out[pos], cond) if pos in out else cond


def step(op, av, chars, cur, flags):
    n = len(chars)
    out = {}
    if op in (K.LITERAL, K.NOT_LITERAL, K.ANY, K.IN):
        for p, c in cur.items():
            if p >= n:
                continue
            ch = chars[p]
            if op is K.LITERAL:
                t = lit_cond(ch, av)
            elif op is K.NOT_LITERAL:
                t = mknot(lit_cond(ch, av))
            elif op is K.ANY:
                t = True if flags & _re.S else mknot(ch_in_ranges(ch, [(10, 10)]))
            else:
                t = in_cond(ch, av, flags)
            merge(out, p + 1, mkand(c, t))
        return out
    if op is K.SUBPATTERN:
        group, add, dele, p = av
        if (add | dele) & ~_re.U:
            if (add | dele) & (_re.I | _re.L | _re.X):
                raise Unsupported("inline flags")
        return ends(p, chars, cur, (flags | add) & ~dele)
    if op is K.BRANCH:
        for alt in av[1]:
            for p, c in ends(alt, chars, cur, flags).items():
                merge(out, p, c)
        return out
    if op in (K.MAX_REPEAT, K.MIN_REPEAT):
        lo, hi, p = av
        k = 0
        layer = cur
        while True:
            if k >= lo:
                for q, c in layer.items():
                    merge(out, q, c)
            if k >= hi or not layer or k > n + lo:
                return out
            nxt = ends(p, chars, layer, flags)
            if k >= lo:
                # empty iterations add nothing
                nxt = {q: c for q, c in nxt.items() if q not in layer or c is not layer[q]}
                if set(nxt) <= set(layer) and all(q in out for q in nxt) and k > lo + n:
                    return out
            layer = nxt
            k += 1
    if op is K.AT:
        for p, c in cur.items():
            if av in (K.AT_BEGINNING, K.AT_BEGINNING_STRING):
                if flags & _re.M and av is K.AT_BEGINNING:
                    raise Unsupported("multiline")
                if p == 0:
                    merge(out, p, c)
            elif av is K.AT_END:
                if flags & _re.M:
                    raise Unsupported("multiline")
                if p == n:
                    merge(out, p, c)
                elif p == n - 1:
                    merge(out, p, mkand(c, ch_in_ranges(chars[p], [(10, 10)])))
            elif av is K.AT_END_STRING:
                if p == n:
                    merge(out, p, c)
            else:
                raise Unsupported(str(av))
        return out
    raise Unsupported(str(op))


def match_cond(tree, chars, mode, flags):
    n = len(chars)
    if mode == "search":
        starts = {i: True for i in range(n + 1)}
    else:
        starts = {0: True}
    e = ends(list(tree), chars, starts, flags)
    if mode == "fullmatch":
        return e.get(n, False)
    return mkor(*e.values()) if e else False


def atoms(tree, flags, out):
    """The character predicates of a pattern; raises Unsupported where a shadow does not do."""
    for op, av in tree:
        if op in (K.LITERAL, K.NOT_LITERAL):
            out.append(("r", [(av, av)]))
        elif op is K.ANY:
            if not flags & _re.S:
                out.append(("r", [(10, 10)]))
        elif op is K.IN:
            for o, v in av:
                if o is K.LITERAL:
                    out.append(("r", [(v, v)]))
                elif o is K.RANGE:
                    out.append(("r", [v]))
                elif o is K.CATEGORY:
                    out.append(("c", v))
                elif o is not K.NEGATE:
                    raise Unsupported(str(o))
        elif op is K.SUBPATTERN:
            if (av[1] | av[2]) & (_re.I | _re.L | _re.X):
                raise Unsupported("inline flags")
            atoms(av[3], (flags | av[1]) & ~av[2], out)
        elif op is K.BRANCH:
            for alt in av[1]:
                atoms(alt, flags, out)
        elif op in (K.MAX_REPEAT, K.MIN_REPEAT, K.POSSESSIVE_REPEAT):
            atoms(av[2], flags, out)
        elif op in (K.ASSERT, K.ASSERT_NOT):
            atoms(av[1], flags, out)
        elif op is K.ATOMIC_GROUP:
            atoms(av, flags, out)
        elif op is K.AT:
            if av in (K.AT_BOUNDARY, K.AT_NON_BOUNDARY):
                out.append(("c", "CATEGORY_WORD"))
            elif av in (K.AT_END,) or flags & _re.M:
                out.append(("r", [(10, 10)]))
        else:
            raise Unsupported(str(op))
    return out


def settle(pattern, string, flags=0):
    """Decide every character predicate of the pattern on every symbolic character, so that the
    shadow of the string behaves like all strings of the path.  The shadow is returned."""
    compiled = _re.compile(pattern, flags)
    try:
        if compiled.flags & (_re.I | _re.L):
            raise Unsupported("flags")
        preds = atoms(sre.parse(pattern, flags), compiled.flags, [])
    except Unsupported as e:
        return concretise(string, f"regex: {e}")
    for ch in string.chars:
        if not is_sym(ch):
            continue
        for kind, p in preds:
            bool(ch_in_ranges(ch, p) if kind == "r" else cat_cond(ch, p, compiled.flags))
    return string.c


class SymMatch:
    """Result of a successful symbolic match."""

    def __init__(self, kind, pattern, string, flags, match=None):
        self._a = (kind, pattern, string, flags)
        self._m = match

    def __bool__(self):
        return True

    def _match(self):
        if self._m is None:
            kind, pattern, string, flags = self._a
            self._m = getattr(_re, kind)(pattern, settle(pattern, string, flags), flags)
        return self._m

    def _part(self, i, default=None):
        a, b = self._match().span(i)
        return default if a < 0 else mkstr(self._a[2].chars[a:b])

    def group(self, *ids):
        ids = ids or (0,)
        r = tuple(self._part(i) for i in ids)
        return r[0] if len(r) == 1 else r

    def __getitem__(self, i):
        return self._part(i)

    def groups(self, default=None):
        return tuple(self._part(i + 1, default) for i in range(self._match().re.groups))

    def groupdict(self, default=None):
        return {n: self._part(n, default) for n in self._match().re.groupindex}

    @property
    def string(self):
        return self._a[2]

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return getattr(self._match(), name)


def find_all(kind, pattern, string, flags=0, repl=None, count=0):
    """findall, finditer, split, sub and subn."""
    text = settle(pattern, string, flags)
    ms = [SymMatch("search", pattern, string, flags, m) for m in _re.finditer(pattern, text, flags)]
    if kind == "finditer":
        return iter(ms)
    if kind == "findall":
        return [m.group() if not m.re.groups else m.group(1) if m.re.groups == 1 else
                tuple(x if x is not None else "" for x in m.groups()) for m in ms]
    if count:
        ms = ms[:count]
    out, at = [], 0
    for m in ms:
        a, b = m.span()
        out.append(mkstr(string.chars[at:a]))
        if kind == "split":
            out.extend(m.groups())
        elif callable(repl):
            out.append(repl(m))
        else:
            out.append(m._match().expand(repl) if "\\" in repl else repl)
        at = b
    out.append(mkstr(string.chars[at:]))
    if kind == "split":
        return out
    from .values import sym_join
    res = sym_join("", out)
    return (res, len(ms)) if kind == "subn" else res


def run_sym(kind, pattern, string, flags=0):
    """A pattern with symbolic literals."""
    string = deref(string)
    try:
        if flags & (_re.I | _re.L | _re.M | _re.X):
            raise Unsupported("flags")
        tree = sym_parse(pattern, flags)
        cond = match_cond(tree, chars_of(string), kind, flags | tree.state.flags)
    except Unsupported as e:
        pattern = concretise(pattern, f"regex: {e}")
        if isinstance_(string, SymStr):
            return run(kind, pattern, string, flags)
        return getattr(_re, kind)(pattern, string, flags)
    return SymMatch2(kind, pattern, string, flags) if cond else None


class SymMatch2:
    """A match of a symbolic pattern; only the extent of a full match is known."""

    def __init__(self, kind, pattern, string, flags):
        self._a = (kind, pattern, string, flags)

    def __bool__(self):
        return True

    def group(self, i=0):
        if i == 0 and self._a[0] == "fullmatch":
            return self._a[2]
        return self.__getattr__("group")(i)

    def span(self, i=0):
        if i == 0 and self._a[0] == "fullmatch":
            return 0, len(self._a[2])
        return self.__getattr__("span")(i)

    def start(self, i=0):
        return self.span(i)[0]

    def end(self, i=0):
        return self.span(i)[1]

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        kind, pattern, string, flags = self._a
        return getattr(getattr(_re, kind)(concretise(pattern), concretise(string), flags), name)


class SymPattern:
    """re.compile of a pattern with symbolic literals."""

    def __init__(self, pattern, flags=0):
        self.pattern = pattern
        tree = sym_parse(pattern, flags)
        self._own = flags
        self.flags = flags | tree.state.flags | _re.U
        self.groups = tree.state.groups - 1
        self.groupindex = dict(tree.state.groupdict)

    def __eq__(self, o):
        return self is o or (isinstance(o, (SymPattern, _re.Pattern)) and self.flags == o.flags
                             and bool(self.pattern == o.pattern))

    def __hash__(self):
        return 19

    def search(self, s):
        return run_sym("search", self.pattern, s, self._own)

    def match(self, s):
        return run_sym("match", self.pattern, s, self._own)

    def fullmatch(self, s):
        return run_sym("fullmatch", self.pattern, s, self._own)

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return getattr(_re.compile(concretise(self.pattern), self._own), name)


def run(kind, pattern, string, flags=0):
    compiled = _re.compile(pattern, flags)
    try:
        if compiled.flags & (_re.I | _re.L | _re.M):
            raise Unsupported("flags")
        tree = sre.parse(pattern, flags)
        cond = match_cond(tree, string.chars, kind, compiled.flags)
    except Unsupported as e:
        m = getattr(_re, kind)(pattern, settle(pattern, string, flags), flags)
        return m and SymMatch(kind, pattern, string, flags, m)
    if cond:
        return SymMatch(kind, pattern, string, flags)
    return None
