"""Path exploration engine: depth-first re-execution with an incremental SMT solver.

Every symbolic value lives in z3 terms.  Whenever real code branches on a
symbolic condition, Engine.branch() decides with the solver which outcomes are
possible under the current path condition, follows one and remembers the other.
The same code is re-executed from the start for each remaining outcome; the
solver's assertion stack is kept in step with the decision trail, so the shared
prefix of two paths costs no solver time.
"""
import time
from fractions import Fraction

import z3
import z3.z3 as _z3m

_z3m.Z3_DEBUG = False  # argument sanity checks of the bindings cost a third of the time


class Control(BaseException):
    """Steering exceptions of the engine (never caught by 'except Exception')."""


class PathAbort(Control):
    """The path condition became infeasible / the harness abandoned the path."""


class Unsupported(Control):
    """The path needs an operation the encoding does not model."""


class BudgetExceeded(Control):
    """Too many decisions on one path."""


class Nondeterminism(Control):
    """Re-execution diverged from the recorded trail (an engine error)."""


class Ent:
    __slots__ = ("kind", "val", "alt", "alt_model", "pushed", "cond", "cand", "fresh", "raw")

    def __init__(self, kind, val, alt=False, alt_model=None, pushed=False, cond=None, cand=None, fresh=False, raw=None):
        self.raw = raw
        self.kind = kind
        self.val = val
        self.alt = alt
        self.alt_model = alt_model
        self.pushed = pushed
        self.cond = cond
        self.cand = cand
        self.fresh = fresh  # restored from a prefix, not yet in the solver


class Engine:
    def __init__(self, timeout_ms=4000, hard_timeout_ms=8000, max_decisions=6000):
        self.solver = z3.Solver()
        self.solver.set("timeout", timeout_ms)
        self.hard_timeout_ms = hard_timeout_ms
        self.max_decisions = max_decisions
        self.trail = []
        self.pos = 0
        self.model = None
        self.prefix_len = 0
        self.queries = 0
        self.solver_s = 0.0
        self.unknowns = 0
        self.decisions = 0
        self.conc_limit = 400
        self.path_incomplete = None

    # ---------------------------------------------------------------- solver
    def _timed_check(self, extra):
        s = self.solver
        t = time.perf_counter()
        s.push()
        try:
            if extra is not None:
                s.add(extra)
            r = s.check()
            m = s.model() if r == z3.sat else None
            self.queries += 1
            if r == z3.unknown:
                r, m = self._hard_check()
        finally:
            s.pop()
            self.solver_s += time.perf_counter() - t
        return r, m

    def _hard_check(self):
        """Second attempt for queries the incremental solver gives up on."""
        asserts = list(self.solver.assertions())
        for tac in ("qfnra-nlsat", "smt"):
            try:
                s2 = z3.Then("simplify", "solve-eqs", tac).solver() if tac != "smt" else z3.SolverFor("AUFNIRA")
                s2.set("timeout", self.hard_timeout_ms)
                s2.add(*asserts)
                self.queries += 1
                r = s2.check()
                if r == z3.sat:
                    m = self._whole(asserts, s2.model())
                    if m is not None:
                        return r, m
                if r == z3.unsat:
                    return r, None
            except z3.Z3Exception:
                pass
        self.unknowns += 1
        return z3.unknown, None

    def _whole(self, asserts, m):
        """Models of tactics may lack variables the tactic eliminated."""
        if not any(z3.is_false(m.eval(a, model_completion=True)) for a in asserts):
            return m
        s3 = z3.Solver()
        s3.set("timeout", self.hard_timeout_ms)
        s3.add(*asserts)
        for d in m.decls():
            if d.arity() == 0 and m[d] is not None and not z3.is_algebraic_value(m[d]):
                s3.add(d() == m[d])
        self.queries += 1
        return s3.model() if s3.check() == z3.sat else None

    def current_model(self):
        if self.model is None:
            r, m = self._timed_check(None)
            if r == z3.unsat:
                raise PathAbort()
            if r == z3.unknown:
                self.path_incomplete = "solver unknown on path condition"
                raise PathAbort()
            self.model = m
        return self.model

    def _push(self, cond):
        self.solver.push()
        self.solver.add(cond)

    # ------------------------------------------------------------- decisions
    def _next(self, kind):
        """Entry to be replayed at the current position, or None at the frontier."""
        if self.pos < len(self.trail):
            e = self.trail[self.pos]
            if e.kind != kind:
                raise Nondeterminism("expected %s at %d, trail has %s" % (kind, self.pos, e.kind))
            self.pos += 1
            return e
        self.decisions += 1
        if len(self.trail) > self.max_decisions:
            raise BudgetExceeded()
        return None

    def _append(self, e):
        self.trail.append(e)
        self.pos += 1

    def branch(self, cond):
        raw = cond
        if self.pos < len(self.trail):
            e = self.trail[self.pos]
            if e.kind == "b" and e.raw is not None and e.raw.eq(raw):
                self.pos += 1
                return e.val
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        e = self._next("b")
        if e is not None:
            if e.fresh:
                e.cond = cond
                e.raw = raw
                self._push(cond if e.val else z3.Not(cond))
                e.pushed, e.fresh = True, False
                self.model = None
            elif not self._same(e.cond, cond):
                raise Nondeterminism("branch condition changed: %.200s / %.200s" % (e.cond, cond))
            return e.val
        m = self.current_model()
        v = z3.is_true(m.eval(cond, model_completion=True))
        other = z3.Not(cond) if v else cond
        r, om = self._timed_check(other)
        if r == z3.unsat:
            self._append(Ent("b", v, cond=cond, raw=raw))
            return v
        if r == z3.unknown:
            self.path_incomplete = "solver unknown on a branch"
            self._push(cond if v else z3.Not(cond))
            self._append(Ent("b", v, pushed=True, cond=cond, raw=raw))
            return v
        self._push(cond if v else z3.Not(cond))
        self._append(Ent("b", v, alt=True, alt_model=om, pushed=True, cond=cond, raw=raw))
        return v

    def _same(self, a, b):
        """The two conditions are equivalent (simplification may reorder arguments)."""
        if a.eq(b):
            return True
        s = z3.Solver()
        s.set("timeout", 2000)
        s.add(z3.Xor(a, b))
        return s.check() != z3.sat

    def concretise(self, expr, to_py):
        """Enumerate (by forking) the values expr can take on this path."""
        expr = z3.simplify(expr)
        if z3.is_int_value(expr) or z3.is_rational_value(expr):
            return to_py(expr)
        n = 0
        while True:
            n += 1
            e = self._next("v")
            if e is None:
                if n > self.conc_limit:
                    self.path_incomplete = "concretisation limit"
                    raise PathAbort()
                m = self.current_model()
                c = m.eval(expr, model_completion=True)
                if z3.is_algebraic_value(c):
                    raise Unsupported("algebraic value concretised")
                cond = expr == c
                r, om = self._timed_check(z3.Not(cond))
                if r == z3.unsat:
                    self._append(Ent("v", True, cond=cond, cand=str(c)))
                    return to_py(c)
                if r == z3.unknown:
                    self.path_incomplete = "solver unknown on a branch"
                self._push(cond)
                self._append(Ent("v", True, alt=r == z3.sat, alt_model=om, pushed=True, cond=cond, cand=str(c)))
                return to_py(c)
            c = z3.RealVal(e.cand) if expr.is_real() else z3.IntVal(e.cand)
            if e.fresh:
                e.cond = expr == c
                self._push(e.cond if e.val else z3.Not(e.cond))
                e.pushed, e.fresh = True, False
                self.model = None
            if e.val:
                return to_py(c)

    def assume(self, cond):
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return
        if z3.is_false(cond):
            raise PathAbort()
        e = self._next("a")
        if e is not None:
            if e.fresh:
                self._push(cond)
                e.pushed, e.fresh = True, False
                self.model = None
            return
        if self.model is not None and z3.is_true(self.model.eval(cond, model_completion=True)):
            self._push(cond)
            self._append(Ent("a", True, pushed=True))
            return
        r, m = self._timed_check(cond)
        if r == z3.unsat:
            raise PathAbort()
        if r == z3.unknown:
            self.path_incomplete = "solver unknown on an assumption"
            raise PathAbort()
        self._push(cond)
        self._append(Ent("a", True, pushed=True))
        self.model = m

    def prove(self, cond):
        """Decide cond on this path.  Returns (verdict, model): verdict in
        'proved' / 'refuted' / 'unknown' / 'old' (already decided on re-execution)."""
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return "proved", None
        if z3.is_false(cond):
            return "refuted-all", self.current_model()
        e = self._next("c")
        if e is not None:
            if e.fresh:
                self._push(cond)
                e.pushed, e.fresh = True, False
                self.model = None
            return "old", None
        r, m = self._timed_check(z3.Not(cond))
        if r == z3.unsat:
            self._append(Ent("c", True))
            return "proved", None
        if r == z3.unknown:
            self._append(Ent("c", True))
            return "unknown", None
        # continue with the part of the path where the assertion holds
        r2, m2 = self._timed_check(cond)
        if r2 == z3.sat:
            self._push(cond)
            self._append(Ent("c", True, pushed=True))
            self.model = m2
            return "refuted", m
        return "refuted-all", m

    # --------------------------------------------------------------- driving
    def start(self, prefix):
        while self.solver.num_scopes() > 0:
            self.solver.pop()
        self.trail = [Ent(k, v, cand=c, fresh=True) for (k, v, c) in prefix]
        self.model = None
        self.pos = 0

    def begin_path(self):
        self.pos = 0
        self.path_incomplete = None

    def backtrack(self, floor):
        """Move to the next unexplored decision; False when the subtree is done."""
        # drop never-reached fresh entries (path ended inside the prefix)
        while len(self.trail) > floor:
            e = self.trail[-1]
            if e.pushed:
                self.solver.pop()
                e.pushed = False
            if e.alt:
                e.alt = False
                e.val = not e.val
                self._push(e.cond if e.val else z3.Not(e.cond))
                e.pushed = True
                self.model = e.alt_model
                e.alt_model = None
                return True
            self.trail.pop()
        return False

    def pending(self, floor):
        """Unexplored alternatives as prefixes (for handing work to other processes)."""
        out = []
        base = [(e.kind, e.val, e.cand) for e in self.trail]
        for i in range(floor, len(self.trail)):
            e = self.trail[i]
            if e.alt:
                out.append(base[:i] + [(e.kind, not e.val, e.cand)])
        return out


ENG = None


def set_engine(e):
    global ENG
    ENG = e


def engine():
    return ENG


def z3_to_fraction(v):
    if z3.is_int_value(v):
        return Fraction(v.as_long())
    if z3.is_rational_value(v):
        return Fraction(v.numerator_as_long(), v.denominator_as_long())
    if z3.is_algebraic_value(v):
        a = v.approx(20)
        return Fraction(a.numerator_as_long(), a.denominator_as_long())
    raise Unsupported("model value %s" % v)
