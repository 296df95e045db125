"""C09: generation from a regular expression yields a full match or refuses loudly.

Patterns are built from skeletons of concatenation, alternation, groups and quantifiers; the atoms,
quantifiers and group kinds are choices and the literal characters are symbolic (also as ends of
ranges and members of classes).  Every random draw is symbolic.
"""
import re

from d42 import fake, schema, validate
from d42.generation import Random, RegexGenerator

BOUNDS = {
    "skeletons": "every skeleton of up to two (quick) or three (thorough) operators out of concatenation, "
                 "alternation, group and quantifier, and those of MORE",
    "atoms": "a symbolic literal, `.`, \\d, \\w, ESCAPES and CLASSES (with symbolic members and ends)",
    "quantifiers": "those of QUANT, greedy and lazy; max_repeat 1, 2, 7, 50 and the default; all repeat counts in between",
    "literals": "the characters of LIT (ends of ranges within four characters of each other in a negated class)",
    "anchors": "^ \\A $ \\Z at the ends of the pattern",
    "unsupported": "the constructs of UNSUPPORTED in every position of a skeleton",
}
ASSUMPTIONS = ["a pattern with an unsupported construct may also yield a string that does match"]

LIT = ((97, 100), (48, 50), (65, 66), (0x430, 0x432))
NEAR = ((97, 100), (0x430, 0x431))
ESCAPES = ["\\.", "\\\\", "\\[", "\\]", "\\n", "\\t", "\\-", "\\x41", "\\u0430", "\\$", "\\^", "\\(", "\\)", "\\|",
           "\\*", "\\?", "\\+", "\\{", "\\}", "\\ ", "\\#", "\\/", "\\0", "\\r", "\\f", "\\v", "\\a", "\\U0001F600",
           "-", "]", "}", "{", "{x}", "#", " ", "~", "\n", "\\101", "\\N{DIGIT ONE}", ",", "{,x"]
QUANT = ["?", "*", "+", "{0}", "{1}", "{2}", "{0,1}", "{1,2}", "{2,}", "{,2}", "{0,}", "{,}", "{0,0}"]
BIG = ["{33,}", "{45}", "{31,33}", "{32,}", "{34,36}", "{,33}", "{40,}"]
UNDER = ["{0,2}", "{1,3}", "{,5}", "{40,44}", "{44,46}", "{,44}", "{43,45}", "{1,}", "{2,}?"]      # with max_repeat above
UNSUPPORTED = ["(?=a)", "(?!b)", "(?<=a)", "(?<!b)", "\\s", "\\S", "\\D", "\\W", "[\\s]", "[^\\S]", "[\\sa]",
               "[^\\s]", "[^\\Wa]", "[\\D]", "(?>a)", "a*+", "a?+", "a++", "a{1,2}+", "\\b", "\\B", "(?(1)a|b)",
               "\\1", "(?P=g)", "(a)\\1", "(?P<h>a)(?P=h)", "(a)?(?(1)b|c)", "(?=.)(?:)", "(?>a|ab)", "[^\\da\\S]"]


def lit(ctx, tag, chars=LIT):
    return ctx.str(tag, 1, 1, chars)


def rng(ctx, tag, chars):
    a, b = lit(ctx, tag + "lo", chars), lit(ctx, tag + "hi", chars)
    ctx.assume(a <= b)
    return a + "-" + b


CLASSES = [
    lambda c, t, n: lit(c, t, n), lambda c, t, n: lit(c, t, n) + lit(c, t + "2", n),
    lambda c, t, n: rng(c, t, n), lambda c, t, n: rng(c, t, n) + "_" + lit(c, t + "2", n),
    lambda c, t, n: "\\d" + lit(c, t, n), lambda c, t, n: lit(c, t, n) + "\\w",
    lambda c, t, n: "." + lit(c, t, n), lambda c, t, n: "]" + lit(c, t, n),
    lambda c, t, n: lit(c, t, n) + "-", lambda c, t, n: "-" + lit(c, t, n), lambda c, t, n: "\\d\\w",
    lambda c, t, n: "\\\\" + lit(c, t, n), lambda c, t, n: "\\n\\t" + lit(c, t, n), lambda c, t, n: "0-9a-f",
    lambda c, t, n: "\\x20-\\x24", lambda c, t, n: "a-zA-Z0-9_", lambda c, t, n: "$^|" if t else "",
    lambda c, t, n: "\u0430-\u0432", lambda c, t, n: "()[{*+?", lambda c, t, n: "!-~", lambda c, t, n: "\\d ",
    lambda c, t, n: "!-~ ", lambda c, t, n: "\\w!-/:-@", lambda c, t, n: "\\x00-\\xff", lambda c, t, n: "\\b" + lit(c, t, n),
]


class Build:
    def __init__(self, ctx, cfg):
        self.ctx, self.cfg, self.n = ctx, cfg, 0

    def tag(self, what):
        self.n += 1
        return f"{what}{self.n}"

    def atom(self, kind):
        """(text, may be quantified)"""
        ctx = self.ctx
        kinds = self.cfg.get("atoms", "ldw.ecn")
        if kind == "x":
            kind = ctx.pick(kinds, self.tag("atom"))
        if kind == "u":
            return ctx.pick(UNSUPPORTED, self.tag("unsupported"))
        if kind == "0":
            return ""
        if kind == "l":
            return lit(ctx, self.tag("lit"))
        if kind == "d":
            return "\\d"
        if kind == "w":
            return "\\w"
        if kind == ".":
            return "."
        if kind == "e":
            return ctx.pick(ESCAPES, self.tag("esc"))
        cs = CLASSES[:6] if self.cfg.get("few") else CLASSES
        if kind == "c":
            return "[" + ctx.pick(cs, self.tag("cls"))(ctx, self.tag("c"), LIT) + "]"
        if kind == "n":
            return "[^" + ctx.pick(cs, self.tag("cls"))(ctx, self.tag("n"), NEAR) + "]"
        raise AssertionError(kind)

    def group(self, text):
        k = self.ctx.choose(3, self.tag("group"))
        return ["(", "(?:", f"(?P<g{self.n}>"][k] + text + ")"

    def pattern(self, t, single=False):
        """single: as an operand of a quantifier"""
        if isinstance(t, str):
            s = self.atom(t)
            if single and (t in "0u" or len(s) == 3 and s[0] == "{"):
                return "(?:" + s + ")"
            return s
        op, subs = t[0], t[1:]
        if op == "g":
            return self.group(self.pattern(subs[0]))
        if op == "q":
            qs = {None: QUANT, 1: BIG, 2: UNDER}[self.cfg.get("big")]
            q = self.ctx.pick(qs, self.tag("quant"))
            if self.cfg.get("lazy", 1) and self.ctx.flag(self.tag("lazy")):
                q += "?"
            r = self.pattern(subs[0], True) + q
        elif op == "b":
            r = self.pattern(subs[0])
            for x in subs[1:]:
                r = r + "|" + self.pattern(x)
        else:
            r = ""
            for x in subs:
                y = self.pattern(x)
                r = r + ("(?:" + y + ")" if not isinstance(x, str) and x[0] == "b" else y)
        return "(?:" + r + ")" if single else r


def has(t, what):
    return t == what if isinstance(t, str) else any(has(x, what) for x in t[1:])


def whole(ctx, cfg):
    b = Build(ctx, cfg)
    p = b.pattern(cfg["t"])
    if cfg.get("anchors"):
        p = ctx.pick(["", "^", "\\A"], "start") + p + ctx.pick(["$", "\\Z", ""], "end")
    try:
        re.compile(p)
    except re.error:
        ctx.reject()
    return p


def h_gen(ctx, cfg):
    p = whole(ctx, cfg)
    opts = {}
    if cfg.get("max") is not None:
        opts["max_repeat"] = cfg["max"]
    if cfg.get("letters"):
        opts["alphabet"] = {"letters": cfg["letters"]}
    g = RegexGenerator(Random(), **opts)
    try:
        s = g.generate(p)
    except Exception as e:
        ctx.check(has(cfg["t"], "u"), "a supported pattern is refused", p, f"{type(e).__name__}: {e}")
        return "refused"
    ctx.check(isinstance(s, str), "not a string", p, s)
    ctx.check(re.fullmatch(p, s) is not None, "the generated string does not match the pattern", p, s)
    return len(s)


def h_fake(ctx, cfg):
    p = whole(ctx, cfg)
    sch = schema.str.regex(p)
    try:
        s = fake(sch)
    except Exception as e:
        ctx.check(has(cfg["t"], "u"), "a supported pattern is refused", p, f"{type(e).__name__}: {e}")
        return "refused"
    ctx.check(isinstance(s, str), "not a string", p, s)
    ctx.check(re.fullmatch(p, s) is not None, "the generated string does not match the pattern", p, s)
    ctx.check(not validate(sch, s).has_errors(), "the generated string is not valid", p, s)
    return len(s)


def skeletons(n):
    """All skeletons of exactly n operators."""
    if n == 0:
        return ["x"]
    out = []
    for a in skeletons(n - 1):
        if isinstance(a, str) or a[0] != "g":
            out.append(("g", a))
        out.append(("q", a))
    for i in range(n):
        for a in skeletons(i):
            for b in skeletons(n - 1 - i):
                out += [("s", a, b), ("b", a, b)]
    return out


def with_one(t, what):
    """t with one of its leaves replaced."""
    if isinstance(t, str):
        return [what]
    out = []
    for i in range(1, len(t)):
        out += [t[:i] + (x,) + t[i + 1:] for x in with_one(t[i], what)]
    return out


MORE = [("q", ("g", ("b", "l", "0"))), ("b", "0", "x"), ("s", "l", ("q", ("g", ("s", "l", ("q", "l"))))),
        ("g", ("b", "l", ("s", "l", "l"))), ("b", ("s", "l", "l"), ("s", "l", "l")), ("b", "l", "l", "l"),
        ("q", ("b", "c", "n")), ("s", ("g", ("b", "l", ("q", "d"))), ("q", "n")), ("g", ("g", ("q", "x"))),
        ("s", ("q", ("g", ("b", "l", "d"))), ("q", "w"), "n"), ("q", ("q", ("q", "l"))), ("q", ("g", "0"))]


def TASKS(tier):
    q = tier == "quick"
    b = 5 if q else 300
    out = []

    def add(t, fn="h_gen", **cfg):
        out.append({"fn": fn, "cfg": dict(cfg, t=t), "budget": b, "validate": 8 if q else 60})
    add("u", anchors=1)
    add("u", fn="h_fake")
    for k in "ldw.e":
        add(k, anchors=1)
    for k in "cn":
        add(k, anchors=1)
        add(k, letters="ab")
        add(k, letters="a")
        add(("s", k, k), few=1)
    add("x", fn="h_fake", anchors=1)
    for k in "ldw.ecn":
        add(("q", k), max=2, few=1)
        add(("q", k), max=1, few=1, anchors=1)
        add(("q", k), few=1, lazy=0)
        add(("q", k), few=1, big=1)
        add(("q", k), few=1, big=1, max=1)
        if k in "ld":
            add(("q", k), few=1, big=2, max=50, lazy=0)
            add(("q", k), few=1, big=2, max=7, lazy=0)
    for n in ((2,) if q else (2, 3)):
        for t in skeletons(n):
            add(t, max=2, atoms="ldn", few=1)
            if n == 2:
                add(t, max=1, atoms="lwc", few=1, anchors=1)
    for t in skeletons(1):
        add(t, max=2, atoms="ldw.ecn")
        add(t, fn="h_fake", max=2, atoms="ln.", few=1, anchors=1)
    for t in MORE:
        add(t, max=1, few=1, atoms="ldc")
        if not q:
            add(t, fn="h_fake", few=1, atoms="ldc")
    for n in (1, 2):
        for t in skeletons(n):
            for u in with_one(t, "u"):
                add(u, max=2, atoms="ld", lazy=0)
    return out
