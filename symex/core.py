"""Concolic engine: depth-first exploration of all feasible paths of a harness.

Every symbolic value carries a z3 term and a concrete shadow computed from the model the
current path runs under.  A branch on a symbolic condition follows the shadow; the other
side is decided by z3 when the search backtracks to it.
"""
import random
import sys
import time
import z3



def _unlimited(f):
    """Numerals of any size, whatever limit the process has on int <-> str."""
    def g(*a):
        lim = sys.get_int_max_str_digits()
        sys.set_int_max_str_digits(0)
        try:
            return f(*a)
        finally:
            sys.set_int_max_str_digits(lim)
    return g


z3.z3._to_int_str = _unlimited(z3.z3._to_int_str)
z3.IntNumRef.as_long = _unlimited(z3.IntNumRef.as_long)
MISSING = object()


class PathControl(BaseException):
    """Control flow of the engine; never an Exception, so code under test cannot swallow it."""


class Infeasible(PathControl):
    pass


class Restart(PathControl):
    pass


class Budget(PathControl):
    pass


class Violation(PathControl):
    def __init__(self, message, detail=None):
        super().__init__(message)
        self.message = message
        self.detail = detail


class EngineMismatch(PathControl):
    pass


class D:
    """One entry of the decision log."""
    __slots__ = ("kind", "cond", "taken", "n", "payload", "flipped", "tag")

    def __init__(self, kind, cond=None, taken=None, n=0, payload=None, tag=None):
        self.kind = kind
        self.cond = cond
        self.taken = taken
        self.n = n
        self.payload = payload
        self.flipped = False
        self.tag = tag


class Stats:
    def __init__(self):
        self.paths = 0
        self.completed = 0
        self.infeasible = 0
        self.restarts = 0
        self.queries = 0
        self.sat = 0
        self.unsat = 0
        self.unknown = 0
        self.solver_s = 0.0
        self.branches = 0
        self.choices = 0
        self.concretised = {}
        self.truncated = False
        self.mismatch = 0
        self.state_resets = 0
        self.max_depth = 0
        self.walked = 0

    def as_dict(self):
        return dict(self.__dict__)


CUR = None  # the running engine


def engine():
    return CUR


class Engine:
    def __init__(self, max_paths=10 ** 9, deadline=None, solver_timeout_ms=10000,
                 max_decisions=4000, seed=0):
        self.solver = z3.SolverFor("QF_UFLIA") if False else z3.Solver()
        self.solver.set("timeout", solver_timeout_ms)
        self.solver.set("random_seed", seed % 1000)
        self.max_paths = max_paths
        self.deadline = deadline
        self.max_decisions = max_decisions
        self.stats = Stats()
        self.log = []
        self.pos = 0
        self.model = {}
        self.asserted = 0        # how many log entries are on the solver stack
        self.known = {}
        self.names = {}
        self.vars = {}
        self.inputs = {}
        self.draws = []
        self.tokens = {}
        self.path_concretised = False
        self.extra = {}
        self.modes = frozenset()
        self.walking = False
        self.rnd = random.Random(seed)

    # ---------------------------------------------------------------- variables
    def fresh_name(self, name):
        k = self.names.get(name, 0)
        self.names[name] = k + 1
        return name if k == 0 else f"{name}#{k}"

    def shadow_for(self, uname, default):
        return self.model.get(uname, default)

    # ---------------------------------------------------------------- decisions
    def _next(self):
        if self.pos < len(self.log):
            d = self.log[self.pos]
            self.pos += 1
            return d
        if len(self.log) >= self.max_decisions:
            self.stats.truncated = True
            raise Budget()
        return None

    def choose(self, n, tag=None):
        """A nondeterministic choice among n alternatives (no constraint attached)."""
        if n <= 1:
            return 0
        d = self._next()
        if d is None:
            d = D("c", taken=0, n=n, tag=tag)
            self.log.append(d)
            self.pos += 1
            self.stats.choices += 1
        elif d.kind != "c" or d.n != n:
            raise EngineMismatch(f"choose({n},{tag}) vs {d.kind},{d.n},{d.tag}")
        return d.taken

    def branch(self, expr, shadow):
        """Follow `shadow`; the negation is explored later if z3 finds it satisfiable."""
        if z3.is_true(expr):
            return True
        if z3.is_false(expr):
            return False
        key = expr.get_id()
        hit = self.known.get(key)
        if hit is not None:
            return hit[0]
        d = self._next()
        if d is None:
            d = D("b", cond=expr, taken=bool(shadow))
            self.log.append(d)
            self.pos += 1
            self.stats.branches += 1
        else:
            if d.kind != "b":
                raise EngineMismatch(f"branch vs {d.kind}")
            if not d.cond.eq(expr):
                raise EngineMismatch("branch condition differs on re-execution")
            if d.taken != bool(shadow):
                raise EngineMismatch("shadow disagrees with the recorded side")
        self.known[key] = (d.taken, expr)
        return d.taken

    def pick_case(self, cond_of, shadow, cap=64, what="case split"):
        """Split on mutually exclusive cases named by a payload; returns the payload.

        The case of the shadow is tried first; z3 finds the remaining ones.
        """
        count = 0
        while True:
            if self.pos < len(self.log):
                d = self.log[self.pos]
                if d.payload is None or d.kind not in "ba":
                    raise EngineMismatch("pick_case")
                self.pos += 1
                if d.kind == "a":
                    return d.payload[0]
                self.known[d.cond.get_id()] = (d.taken, d.cond)
                if d.taken:
                    return d.payload[0]
            else:
                if len(self.log) >= self.max_decisions:
                    self.stats.truncated = True
                    raise Budget()
                cond = cond_of(shadow)
                if z3.is_true(cond):
                    return shadow
                if count >= cap:
                    self.note_concretised("%s with more than %d cases" % (what, cap))
                    self.log.append(D("a", cond=cond, payload=(shadow,)))
                    self.pos += 1
                    return shadow
                d = D("b", cond=cond, taken=True, payload=(shadow,))
                self.log.append(d)
                self.pos += 1
                self.stats.branches += 1
                self.known[cond.get_id()] = (True, cond)
                return shadow
            count += 1

    def pick_value(self, expr, shadow, cap=64):
        """Enumerate the feasible values of an integer term, one per path."""
        return self.pick_case(lambda v: expr == v, shadow, cap, "integer")

    def note_concretised(self, why):
        self.path_concretised = True
        self.stats.concretised[why] = self.stats.concretised.get(why, 0) + 1

    def constrain(self, expr):
        """A condition known to hold for the shadow (definition of a new variable)."""
        if z3.is_true(expr):
            return
        d = self._next()
        if d is None:
            self.log.append(D("a", cond=expr))
            self.pos += 1
        elif d.kind != "a" or not d.cond.eq(expr):
            raise EngineMismatch("constrain")

    def assume(self, expr, shadow):
        if z3.is_true(expr):
            return
        if z3.is_false(expr):
            raise Infeasible()
        if self.pos < len(self.log):
            d = self.log[self.pos]
            if d.kind != "a" or not d.cond.eq(expr):
                raise EngineMismatch("assume")
            self.pos += 1
            return
        if shadow:
            self.log.append(D("a", cond=expr))
            self.pos += 1
            return
        self.sync(len(self.log))
        r = self.check(expr)
        if r != z3.sat:
            raise Infeasible()
        self.log.append(D("a", cond=expr))
        raise Restart()

    # ---------------------------------------------------------------- solver
    def sync(self, upto):
        """Bring the solver stack to exactly the first `upto` log entries."""
        s = self.solver
        if self.asserted > upto:
            s.pop(self.asserted - upto)
            self.asserted = upto
        while self.asserted < upto:
            d = self.log[self.asserted]
            s.push()
            if d.kind == "b":
                s.add(d.cond if d.taken else z3.Not(d.cond))
            elif d.kind == "a":
                s.add(d.cond)
            self.asserted += 1

    def check(self, extra):
        s = self.solver
        s.push()
        s.add(extra)
        t = time.perf_counter()
        r = s.check()
        self.stats.solver_s += time.perf_counter() - t
        self.stats.queries += 1
        if r == z3.sat:
            self.stats.sat += 1
            self.model = self.read_model(s.model())
        elif r == z3.unsat:
            self.stats.unsat += 1
        else:
            self.stats.unknown += 1
        s.pop()
        return r

    def read_model(self, m):
        out = {}
        for decl in m.decls():
            if decl.arity() != 0:
                continue
            v = m[decl]
            c = const_of(v)
            if c is not MISSING:
                out[decl.name()] = c
        return out

    # ---------------------------------------------------------------- search
    def backtrack(self):
        """Move to the next unexplored side; False when the tree is exhausted."""
        while self.log:
            i = len(self.log) - 1
            d = self.log[i]
            if d.kind == "c":
                if d.taken + 1 < d.n:
                    if self.asserted > i:
                        self.sync(i)
                    d.taken += 1
                    # values for the variables of the prefix keep the current model when
                    # it is still the model of the prefix
                    return True
            elif d.kind == "b" and not d.flipped:
                self.sync(i)
                neg = z3.Not(d.cond) if d.taken else d.cond
                if self.deadline is not None and time.time() > self.deadline:
                    self.stats.truncated = True
                    return False
                r = self.check(neg)
                if r == z3.sat:
                    d.taken = not d.taken
                    d.flipped = True
                    return True
                if r == z3.unknown:
                    self.stats.truncated = True
            self.log.pop()
            if self.asserted > len(self.log):
                self.sync(len(self.log))
        return False

    def jump(self):
        """Leave the current path at a random decision (used once the depth-first search has
        run out of its share of the time: nothing is marked as exhausted by this)."""
        for _ in range(20):
            idx = [i for i, d in enumerate(self.log) if d.kind == "c" or d.kind == "b"]
            if not idx:
                return False
            i = self.rnd.choice(idx)
            d = self.log[i]
            self.sync(i)
            if d.kind == "c":
                d.taken = (d.taken + 1 + self.rnd.randrange(d.n - 1)) % d.n
            else:
                neg = z3.Not(d.cond) if d.taken else d.cond
                if self.check(neg) != z3.sat:
                    continue
                d.taken = not d.taken
            del self.log[i + 1:]
            return True
        return False

    def begin_path(self):
        self.pos = 0
        self.known = {}
        self.names = {}
        self.inputs = {}
        self.draws = []
        self.tokens = {}
        self.path_concretised = False
        self.extra = {}

    def explore(self, fn, on_path, walk_s=0):
        """Exhaustive search up to the deadline, then, if that did not finish, `walk_s` seconds
        of jumping between paths."""
        if self._search(fn, on_path) or not self.stats.truncated or walk_s <= 0:
            return
        self.deadline = time.time() + walk_s
        self.walking = True
        self.log = []
        self.sync(0)
        self._search(fn, on_path)

    def _search(self, fn, on_path):
        """Run fn() on every feasible path.  on_path(outcome, value) may return True to stop.

        outcome: 'ok' | 'violation' | 'reject' | 'crash'
        """
        global CUR
        prev, CUR = CUR, self
        try:
            self.model = {}
            consecutive_mismatch = 0
            while True:
                if self.stats.paths >= self.max_paths or (
                        self.deadline is not None and time.time() > self.deadline):
                    self.stats.truncated = True
                    return
                self.begin_path()
                outcome, value = "ok", None
                try:
                    value = fn()
                except Restart:
                    self.stats.restarts += 1
                    continue
                except Infeasible:
                    outcome = "infeasible"
                except Budget:
                    outcome = "budget"
                except Violation as e:
                    outcome, value = "violation", e
                except EngineMismatch as e:
                    self.stats.mismatch += 1
                    consecutive_mismatch += 1
                    if not self.extra.get("no_truncate"):
                        self.stats.truncated = True
                    outcome, value = "mismatch", e
                    # drop what lies behind the point of disagreement
                    del self.log[max(self.pos, 0):]
                    if consecutive_mismatch > 50:
                        return
                if outcome != "mismatch":
                    consecutive_mismatch = 0
                self.stats.paths += 1
                self.stats.max_depth = max(self.stats.max_depth, len(self.log))
                if outcome == "infeasible":
                    self.stats.infeasible += 1
                elif outcome == "ok":
                    self.stats.completed += 1
                if on_path(outcome, value):
                    return True
                if self.walking:
                    self.stats.walked += 1
                    if not self.jump():
                        return
                elif not self.backtrack():
                    return
        finally:
            CUR = prev


def const_of(v):
    """z3 value -> Python value."""
    if z3.is_int_value(v):
        return v.as_long()
    if z3.is_true(v):
        return True
    if z3.is_false(v):
        return False
    if z3.is_fp_value(v):
        return fp_to_py(v)
    if z3.is_bv_value(v):
        return v.as_long()
    if z3.is_rational_value(v):
        return v.as_fraction()
    return MISSING


def fp_to_py(v):
    if v.isNaN():
        return float("nan")
    if v.isInf():
        return float("-inf") if v.isNegative() else float("inf")
    if v.isZero():
        return -0.0 if v.isNegative() else 0.0
    import struct
    bits = z3.simplify(z3.fpToIEEEBV(v)).as_long()
    return struct.unpack(">d", struct.pack(">Q", bits))[0]
