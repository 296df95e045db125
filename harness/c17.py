"""C17: seeded generation is reproducible.

Self-composition: the same sequence of fake() calls runs three times on one path - twice in one
process with other activity in between, once in a newly imported copy of d42 that stands for
another interpreter.  A seeded generator of the random module is an unknown function of its seed
and its history of calls; everything else a program can draw from (other generators, the OS, the
clock, string hashes, the order of sets, id()) is unconstrained in each run.
"""
import json
import os
import pickle
import subprocess
import sys
import tempfile

from d42.generation import Random

from harness import templates as T
from harness.snap import Api, same, snap
from harness.spec import Params, make
from harness.spec2 import build, build_in

BOUNDS = {
    "schemas": "sequences of up to three schemas out of the templates of harness/templates.py "
               "without unfixed uuid4, datetime and date, and the patterns of PATTERNS",
    "seeds": "ints (any), and one each of str, bytes, bytearray, float",
    "processes": "one process twice with other calls of fake() in between, and another process "
                 "with its own hash seed, set order (sorted or reversed), clock and entropy",
    "lengths": "declared lengths 0..3, and 33, 40, 70, 130; default ranges as they are",
}
ASSUMPTIONS = ["a generator of `random` is a function of its seed and its history of calls",
               "unequal values of a counterexample show in one of SEEDS runs of real interpreters"]

PATTERNS = [r"[^a]", r"[^0-9a-z]", r"[^\d]x", r"[^\w]", r"[^\x20-\x7e]", r"\w", r".", r"\d{1,2}", r"(a|b|c)",
            r"[ab0-9]", r"[^abc]{2}", r"(?:[^x]|\d)", r"[\dx-z]*?", r"a[^b]c", r"x{0,2}", r"[^ -~\d]"]
SEEDS = 24


class Api17(Api):
    def __init__(self):
        super().__init__()
        import importlib
        self.Random = importlib.import_module("d42.generation").Random
        self.rnd = None


def specs(ctx, cfg):
    P = Params(ctx, small=True, strlen=1)
    out = []
    for i, t in enumerate(cfg["ts"]):
        if isinstance(t, str) and t.startswith("re:"):
            from harness.spec import Spec
            out.append(Spec("str", pattern=t[3:]))
        elif isinstance(t, str) and t.startswith("ln:"):      # many draws
            from harness.spec import Spec
            out.append(Spec("str", len=int(t[3:])))
        elif isinstance(t, str) and t.startswith("tl:"):
            from harness.spec import Spec
            out.append(Spec("list", type=Spec("bool"), len=int(t[3:])))
        elif isinstance(t, str) and t.startswith("al:"):      # characters that occur more than once
            from harness.spec import Spec
            out.append(Spec("str", alphabet=t[3:], len=2))
        else:
            out.append(make(P, t, f"s{i}"))
    return out


def seed_of(ctx, cfg):
    return ctx.pick([lambda: ctx.int("k"), lambda: "abc", lambda: b"x", lambda: bytearray(b"x"), lambda: 1.5]
                    if cfg.get("seeds") else [lambda: ctx.int("k")], "seed")()


def values_of(api, ctx, ss, k, noise=0, one=False):
    schemas = [build_in(api, ctx, s) for s in ss]
    for i in range(noise):                    # whatever the process did before
        for x in schemas:
            api.fake(x)
    if not one or api.rnd is None:
        api.rnd = api.Random()
    api.rnd.set_seed(k)
    return [api.fake(x) for x in schemas]


def h_seq(ctx, cfg):
    ctx.modes("streams", "ndset")
    ctx.run_no(0)
    ss = specs(ctx, cfg)
    k = seed_of(ctx, cfg)
    api = Api17()
    try:
        a = values_of(api, ctx, ss, k)
    except ValueError:
        ctx.reject()                              # not satisfiable: C01
    except IndexError:
        ctx.reject()
    b = values_of(api, ctx, ss, k, noise=cfg.get("noise", 1), one=cfg.get("one", False))
    ctx.check(same(snap(a), snap(b)), "another sequence of values in the same process", ss, k, a, b)
    ctx.run_no(1)
    other = ctx.second(Api17, fresh=True)
    c = values_of(other, ctx, ss, k)
    ctx.check(same(snap(a), snap(c)), "another sequence of values in another process", ss, k, a, c)
    return "same"


# ---------------------------------------------------------------- on real interpreters
RUNNER = '''
import json, os, sys
sys.dont_write_bytecode = True
sys.path[:0] = [sys.argv[2], sys.argv[3], sys.argv[4]]
from pick import loads
import replay
from harness import c17
with open(sys.argv[1], "rb") as f:
    case = loads(f.read())
print(json.dumps(c17.real(case, replay)))
'''


def real(case, replay):
    """Digests of the sequences of values for several seeds, and whether repeating them agrees."""
    ctx = replay.ReplayCtx(case["inputs"], [])
    ss = specs(ctx, case["cfg"])
    k = seed_of(ctx, case["cfg"])
    api = Api17()
    out, again = [], True
    for j in range(SEEDS):
        key = k if j == 0 else j
        try:
            a = repr(values_of(api, ctx, ss, key))
            b = repr(values_of(api, ctx, ss, key, noise=1 + j % 2, one=case["cfg"].get("one", False)))
        except (ValueError, IndexError):
            a = b = "refused"
        out.append(a)
        again = again and a == b
    return {"values": out, "again": again}


def confirm(task, blob):
    from symex.task import PRISTINE
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    repo = os.environ.get("D42_REPO", "/repo")
    got = []
    with tempfile.TemporaryDirectory(prefix="c17") as d:
        with open(os.path.join(d, "case"), "wb") as f:
            f.write(blob)
        for hs in ("0", "1", "2", "3", "4", "random"):
            env = dict(os.environ, PYTHONHASHSEED=hs, PYTHONDONTWRITEBYTECODE="1",
                       PYTHONPYCACHEPREFIX="/nonexistent/pycache")
            py = PRISTINE if os.path.exists(PRISTINE) else sys.executable
            p = subprocess.run([py, "-c", RUNNER, os.path.join(d, "case"), repo, here,
                                os.path.join(here, "symex")], env=env, cwd=d, timeout=120,
                               stdout=subprocess.PIPE, stderr=subprocess.PIPE)
            if p.returncode:
                err = p.stderr.decode(errors="replace")
                return {"status": "crash" if "/d42/" in err else "error", "in_d42": "/d42/" in err,
                        "message": err.strip().splitlines()[-1:][0] if err.strip() else "", "trace": err[-2000:]}
            got.append(json.loads(p.stdout))
    for g in got:
        if not g["again"]:
            return {"status": "violation", "message": "a seeded sequence is not repeated in one process",
                    "detail": []}
        if g["values"] != got[0]["values"]:
            i = [x != y for x, y in zip(g["values"], got[0]["values"])].index(True)
            return {"status": "violation", "message": "a seeded sequence differs between interpreters",
                    "detail": [g["values"][i][:300], got[0]["values"][i][:300]]}
    return {"status": "ok", "checks": 1}


BAD = ("uuid4", "datetime", "date")


def TASKS(tier):
    q = tier == "quick"
    b = 10 if q else 300
    out = []

    def add(*ts, **cfg):
        cfg["one"] = len(out) % 2 == 0            # set_seed() again on the same object
        out.append({"fn": "h_seq", "cfg": dict(cfg, ts=list(ts)), "budget": b, "confirm": "harness.c17.confirm",
                    "validate": 1 if q else 3})
    for t in T.NUM + T.FLT + [t for t in T.STR if t not in ("str", "str:r1", "str:r0")] + ["bool", "none", "bytes:v", "uuid4:v",
                                                                         "datetime:v", "date:v"]:
        add(t)
    for p in PATTERNS:
        add("re:" + p)
    for t in T.CONTAINERS:
        add(t)
    for a in ("abca", "aab", "\u0430a\u0430", "ba"):
        add("al:" + a)
    for t in ("ln:33", "ln:70", "ln:130", "tl:40", "re:[ab]{70}", "re:a[^b]{20}"):
        add(t)
    add("int", seeds=1)
    add("str:len", seeds=1)
    add("bool", "int:m", "bool", seeds=1)
    add("int", "float:p1", "re:[^a]")
    add("re:[^a]", "re:[^a]", "bool")
    add("re:[^ab]", "re:[^abc]")
    add(("A", ["int", "str:len"]), "re:\\w[^\\d]", ("T", "bool", "len"))
    add(("D", [("a", 0, "bool"), ("b", 0, "int")]), ("T", "int", "len"), "float")
    add("str", noise=1)
    add("bytes")
    add("re:" + r"a\d+")
    add("re:" + r"[^a]+")
    return out
