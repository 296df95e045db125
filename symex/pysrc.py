"""Python's parser on source text with symbolic characters.

The symbolic characters are replaced by fresh placeholders, the real parser runs on that text, and
the placeholders in the tree are replaced back.  Characters that are word characters (ASCII) are
replaced a whole word at a time by a word of that length; any other non-ASCII character by one of
the same number of UTF-8 bytes.  ASCII punctuation decides the syntax and is fixed to its shadow.
"""
import ast
import itertools
import keyword
import re as _re
from . import core
from .values import (SymStr, chars_of, ch_in_ranges, concretise, deref, is_sym, isinstance_, mkstr,
                     utf8_width)

WORD = [(48, 57), (65, 90), (95, 95), (97, 122)]
_ID = "qxzjkvw"
FIELD_WORD = _re.compile(r"[A-Za-z0-9_]+")


def _char_key(c):
    return ("s", c.e.get_id()) if is_sym(c) else c


def _fresh_word(n, taken, st):
    for w in itertools.product(_ID, repeat=n):
        w = "".join(w)
        if w not in taken and w not in st["words"] and not keyword.iskeyword(w) \
                and not keyword.issoftkeyword(w):
            return w
    return None


_POOL = {1: [chr(i) for i in list(range(1, 9)) + list(range(14, 26))],
         2: [chr(0x7A0 + i) for i in range(60)], 3: [chr(0xE000 + i) for i in range(400)],
         4: [chr(0xF0000 + i) for i in range(400)]}


def shadow(chars):
    """(source text, {word: SymStr}, {char: symbolic character})"""
    eng = core.CUR
    st = eng.extra.setdefault("pysrc", {"keys": {}, "words": {}, "chars": {}, "n": {}})
    concrete = "".join(chr(c) if not is_sym(c) else "\n" for c in chars)
    taken = set(FIELD_WORD.findall(concrete))
    out, i, n = [], 0, len(chars)

    def wordy(c):
        return bool(ch_in_ranges(c, WORD))
    while i < n:
        c = chars[i]
        if not is_sym(c) and not wordy(c):
            out.append(chr(c))
            i += 1
            continue
        if wordy(c):
            j = i
            while j < n and wordy(chars[j]):
                j += 1
            run = chars[i:j]
            if not any(is_sym(x) for x in run):
                out.append("".join(map(chr, run)))
            else:
                key = tuple(_char_key(x) for x in run)
                w = st["keys"].get(key)
                if w is None:
                    w = _fresh_word(len(run), taken, st)
                    if w is None:
                        w = concretise(mkstr(run), "no placeholder word")
                    else:
                        st["keys"][key] = w
                        st["words"][w] = mkstr(run)
                out.append(w)
            i = j
            continue
        if bool(ch_in_ranges(c, [(0, 0), (9, 10), (12, 13), (32, 126)])):
            out.append(concretise(mkstr([c]), "ASCII punctuation of source text"))
        else:
            key = _char_key(c)
            w = st["keys"].get(key)
            if w is None:
                k = utf8_width(c)
                w = _POOL[k][st["n"].setdefault(k, 0)]
                st["n"][k] += 1
                st["keys"][key] = w
                st["chars"][w] = c
            out.append(w)
        i += 1
    return "".join(out), st


def back(text, st):
    """The text with the placeholders replaced back."""
    out, changed, i = [], False, 0
    for m in FIELD_WORD.finditer(text):
        if m.group() in st["words"]:
            out.extend(_chars(text[i:m.start()], st))
            out.extend(chars_of(st["words"][m.group()]))
            i = m.end()
    out.extend(_chars(text[i:], st))
    return mkstr(out)


def _chars(s, st):
    return [st["chars"].get(x, ord(x)) for x in s]


def _map(tree, f):
    for node in ast.walk(tree):
        for name, v in ast.iter_fields(node):
            if type(v) is str or isinstance_(v, SymStr):
                setattr(node, name, f(v))
            elif type(v) is list and v and any(type(x) is str or isinstance_(x, SymStr) for x in v):
                setattr(node, name, [f(x) if type(x) is str or isinstance_(x, SymStr) else x for x in v])
    return tree


def parse(source, *a, **k):
    source = deref(source)
    if not isinstance_(source, SymStr):
        return ast.parse(source, *a, **k)
    text, st = shadow(source.chars)
    return _map(ast.parse(text, *a, **k), lambda s: back(s, st))


def unparse(tree):
    import copy
    t = copy.deepcopy(tree)
    st = [None]

    def f(s):
        if not isinstance_(s, SymStr):
            return s
        text, st[0] = shadow(s.chars)
        return text
    text = ast.unparse(_map(t, f))
    return back(text, st[0]) if st[0] else text
