"""Replays recorded inputs and random draws against unmodified d42 (no symbolic machinery).

Usage: python replay.py CASES.pickle OUT.json        (a list of cases)
       python replay.py --show CASE.pickle           (one counterexample, human readable)
"""
import importlib
import json
import os
import pickle
import random
import sys
import traceback


class Reject(BaseException):
    pass


class Fail(BaseException):
    def __init__(self, msg, detail):
        super().__init__(msg)
        self.msg = msg
        self.detail = detail


class Mismatch(BaseException):
    pass


class ReplayCtx:
    symbolic = False
    tokens = {}

    def __init__(self, inputs, draws):
        self.inputs = inputs
        self.clock = []
        self.draws = list(draws)
        self.pos = 0
        self.names = {}
        self.checks = 0

    def _in(self, name, *a, **k):
        name = "in:" + name
        n = self.names.get(name, 0)
        self.names[name] = n + 1
        u = name if n == 0 else f"{name}#{n}"
        if u not in self.inputs:
            raise Mismatch(f"input {u} was not recorded")
        return self.inputs[u]

    def choose(self, n, tag="choice"):
        return self._in(tag)

    def pick(self, seq, tag="pick"):
        return seq[self._in(tag)]

    def flag(self, tag):
        return self._in(tag) == 1

    def small(self, name, lo, hi):
        return lo + self._in(name)

    int = float = near = decimal = bool = str = bytes = uuid4 = uuid1 = datetime = date = any = \
        lambda self, name, *a, **k: self._in(name)

    def assume(self, cond):
        if not cond:
            raise Reject()

    def reject(self):
        raise Reject()

    def check(self, cond, msg, *detail):
        self.checks += 1
        if not cond:
            raise Fail(msg, detail)

    def fail(self, msg, *detail):
        raise Fail(msg, detail)

    def show(self, x):
        return x

    def text(self, s):
        return s

    def modes(self, *names):
        pass

    def run_no(self, n):
        pass

    def second(self, make, fresh=False):
        """make() in a newly imported copy of d42."""
        old = {n: m for n, m in sys.modules.items() if n == "d42" or n.startswith("d42.")}
        for n in old:
            del sys.modules[n]
        try:
            return make()
        finally:
            for n in [n for n in sys.modules if n == "d42" or n.startswith("d42.")]:
                del sys.modules[n]
            sys.modules.update(old)


CTX = None


def _draw(kinds):
    c = CTX
    while c.pos < len(c.draws) and c.draws[c.pos][0] == "seed":
        c.pos += 1
    if c.pos >= len(c.draws):
        raise Mismatch("more random draws than recorded")
    k, v = c.draws[c.pos]
    c.pos += 1
    if k not in kinds:
        raise Mismatch(f"draw {kinds} but {k} recorded")
    return v


def patch_random():
    R = random.Random
    real = {n: getattr(R, n) for n in ("randint", "randrange", "choice", "uniform", "shuffle",
                                       "random", "getrandbits", "sample", "choices")}

    def active(f, n):
        def g(self, *a, **k):
            if CTX is None or isinstance(self, random.SystemRandom):
                return real[n](self, *a, **k)
            return f(self, *a, **k)
        return g

    def randint(self, a, b):
        if a > b:
            raise ValueError("empty range for randrange()")
        if isinstance(a, float) or isinstance(b, float):
            raise TypeError("'float' object cannot be interpreted as an integer")
        v = _draw(("randint",))
        if not a <= v <= b:
            raise Mismatch(f"randint({a},{b}) recorded {v}")
        return v

    def randrange(self, start, stop=None, step=1):
        if stop is None:
            start, stop = 0, start
        if len(range(start, stop, step)) == 0:
            raise ValueError("empty range in randrange()")
        v = _draw(("randrange",))
        if v not in range(start, stop, step):
            raise Mismatch("randrange")
        return v

    def choice(self, seq):
        if len(seq) == 0:
            raise IndexError("Cannot choose from an empty sequence")
        c = CTX
        v = _draw(("choice_value", "choice_index"))
        if c.draws[c.pos - 1][0] == "choice_index":
            if v >= len(seq):
                raise Mismatch("choice index")
            return seq[v]
        if v not in seq:
            raise Mismatch("choice value")
        return v

    def choices(self, population, weights=None, *, cum_weights=None, k=1):
        return [choice(self, population) for _ in range(k)]

    def uniform(self, a, b):
        return _draw(("uniform",))

    def rnd(self):
        return _draw(("random",))

    def getrandbits(self, k):
        return _draw(("getrandbits",))

    def shuffle(self, x):
        items, out = list(x), []
        while items:
            out.append(items.pop(_draw(("shuffle",))))
        x[:] = out

    def sample(self, pop, k):
        items, out = list(pop), []
        if not 0 <= k <= len(items):
            raise ValueError("Sample larger than population or is negative")
        for _ in range(k):
            out.append(items.pop(_draw(("sample",))))
        return out

    for n, f in dict(randint=randint, randrange=randrange, choice=choice, uniform=uniform,
                     shuffle=shuffle, random=rnd, getrandbits=getrandbits, sample=sample,
                     choices=choices).items():
        g = active(f, n)
        g.__name__ = n
        setattr(R, n, g)
        setattr(random, n, getattr(random._inst, n))


def patch_clock():
    """date.today() etc. answer what the counterexample says (once per recorded call)."""
    import ctypes
    import datetime as dt
    import gc

    def reading(cls, real, kind):
        def f(c, *a, **k):
            if CTX is None or not CTX.clock or type(CTX.clock[0]) is not kind or a or k:
                return real.__get__(None, c)(*a, **k)
            v = CTX.clock.pop(0)
            return v if c in (dt.date, dt.datetime) else c(*v.timetuple()[:3 if kind is dt.date else 6])
        return classmethod(f)
    for cls, names, kind in ((dt.date, ("today",), dt.date), (dt.datetime, ("now", "utcnow", "today"), dt.datetime)):
        d = gc.get_referents(cls.__dict__)[0]
        for n in names:
            d[n] = reading(cls, d[n] if n in d else dt.date.__dict__[n], kind)
        ctypes.pythonapi.PyType_Modified(ctypes.py_object(cls))


def run_case(case):
    global CTX
    mod = importlib.import_module(case["module"])
    fn = getattr(mod, case["fn"])
    CTX = ctx = ReplayCtx(case["inputs"], case["draws"])
    ctx.clock = list(case.get("clock", []))
    out = {}
    try:
        val = fn(ctx, case["cfg"])
        out = {"status": "ok", "digest": repr(val)}
    except Fail as e:
        out = {"status": "violation", "message": e.msg, "detail": [srepr(d) for d in e.detail]}
    except Reject:
        out = {"status": "reject"}
    except Mismatch as e:
        out = {"status": "mismatch", "message": str(e)}
    except RecursionError as e:
        tb, n, own = e.__traceback__, 0, 0
        while tb is not None:
            n, own = n + 1, own + ("/d42/" in tb.tb_frame.f_code.co_filename)
            tb = tb.tb_next
        out = {"status": "crash", "message": "RecursionError", "in_d42": own * 3 > n,
               "trace": traceback.format_exc()[-3000:]}
    except Exception as e:
        tb = e.__traceback__
        in_d42 = False
        while tb is not None:
            if "/d42/" in tb.tb_frame.f_code.co_filename:
                in_d42 = True
            tb = tb.tb_next
        out = {"status": "crash", "message": f"{type(e).__name__}: {e}"[:500],
               "in_d42": in_d42, "trace": traceback.format_exc()[-3000:]}
    finally:
        CTX = None
    out["checks"] = ctx.checks
    return out


def srepr(x):
    try:
        return repr(x)[:2000]
    except Exception as e:
        return f"<{type(x).__name__}: repr failed: {type(e).__name__}>"


def main():
    from pick import loads
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    sys.dont_write_bytecode = True
    sys.path.insert(0, here)
    sys.path.insert(0, os.environ.get("D42_REPO", "/repo"))
    patch_random()
    patch_clock()
    if sys.argv[1] == "--show":
        with open(sys.argv[2], "rb") as f:
            case = loads(f.read())
        print("harness :", case["module"], case["fn"])
        print("config  :", case["cfg"])
        print("inputs  :")
        for k, v in case["inputs"].items():
            print("   ", k, "=", srepr(v))
        print("draws   :", srepr(case["draws"]))
        out = run_case(case)
        print("outcome :", json.dumps(out, indent=1))
        return 1 if out["status"] in ("violation", "crash") else 0
    with open(sys.argv[1], "rb") as f:
        blobs = pickle.load(f)
    outs = []
    for b in blobs:
        try:
            outs.append(run_case(loads(b)))
        except BaseException as e:
            outs.append({"status": "error", "message": f"{type(e).__name__}: {e}"})
    with open(sys.argv[2], "w") as f:
        json.dump(outs, f)
    return 0


if __name__ == "__main__":
    sys.exit(main())
