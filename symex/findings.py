"""The committed list of known findings (never written by a check)."""
import os
import re

PATH = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),
                    "known_findings.txt")


def load():
    out = []
    if not os.path.exists(PATH):
        return out
    with open(PATH) as f:
        for line in f:
            m = re.match(r"known: property=(\S+) match=/(.*?)/ :: (.*)$", line.rstrip("\n"))
            if m:
                out.append((m.group(1), re.compile(m.group(2), re.S), m.group(3)))
    return out


def describe(info):
    r = info["replay"]
    return "|".join([info["harness"], r.get("message", ""), " ".join(r.get("detail", []))])


def known_for(prop, info):
    text = describe(info)
    for p, rx, what in load():
        if p == prop and rx.search(text):
            return what
    return None
