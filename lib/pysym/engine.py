"""Path-exploring symbolic execution of Python code with z3.

Every branch on symbolic data is decided by the solver: the branch condition and
its negation are checked against the path condition and each feasible side is
explored (depth first, by re-execution with the recorded decisions).  Assertions
are solver queries over all values that satisfy the path condition.
"""
import re
import time
from fractions import Fraction
import z3

z3.set_param('model.completion', True)


class PathAbort(BaseException):
    """Ends the current path (assumption unsatisfiable, path cut)."""


class Inconclusive(Exception):
    """The solver gave no answer, or exploration did not complete."""


class Nondeterminism(Exception):
    pass


class _Entry:
    __slots__ = ('cond', 'taken', 'alt', 'pushed', 'aux')

    def __init__(self, cond, taken, alt, pushed, aux=None):
        self.cond, self.taken, self.alt, self.pushed, self.aux = cond, taken, alt, pushed, aux


class Violation:
    def __init__(self, label, values, detail=''):
        self.label, self.values, self.detail = label, values, detail

    def __repr__(self):
        return f'Violation({self.label}: {self.detail} values={self.values})'


class Engine:
    current = None

    def __init__(self, timeout_ms=120000):
        self.solver = z3.Solver()
        self.solver.set('timeout', timeout_ms)
        self.trace = []
        self.pos = 0
        self.model = None
        self.vars = {}
        self.texts = {}
        self.stats = dict(paths=0, forks=0, branch_queries=0, assert_queries=0, asserts=0, solver_s=0.0,
                          aborted=0, reached=0)
        self.violations = []
        self.known_hits = {}
        self.labels = {}
        self._path_violated = False

    # -- solver ------------------------------------------------------
    def _check(self, *assumptions):
        t = time.perf_counter()
        r = self.solver.check(*assumptions)
        self.stats['solver_s'] += time.perf_counter() - t
        if r == z3.unknown:
            raise Inconclusive('solver: ' + self.solver.reason_unknown())
        return r == z3.sat

    def _sat_side(self, lit):
        self.stats['branch_queries'] += 1
        return self._check(lit)

    def fork(self, c, aux=None):
        if self.pos < len(self.trace):
            e = self.trace[self.pos]
            if e.cond is not c and not e.cond.eq(c):
                raise Nondeterminism(f'replayed decision differs: {e.cond} / {c}')
            self.pos += 1
            return e.taken
        sc = z3.simplify(c)
        if z3.is_true(sc) or z3.is_false(sc):
            taken = z3.is_true(sc)
            self.trace.append(_Entry(c, taken, False, False, aux))
            self.pos += 1
            return taken
        nc = z3.Not(c)
        if self.model is not None:
            mv = z3.is_true(self.model.eval(c, model_completion=True))
            if mv:
                sat_t, m_t = True, self.model
                sat_f = self._sat_side(nc)
                m_f = self.solver.model() if sat_f else None
            else:
                sat_f, m_f = True, self.model
                sat_t = self._sat_side(c)
                m_t = self.solver.model() if sat_t else None
        else:
            sat_t = self._sat_side(c)
            m_t = self.solver.model() if sat_t else None
            sat_f = self._sat_side(nc)
            m_f = self.solver.model() if sat_f else None
        if not sat_t and not sat_f:
            raise PathAbort('infeasible')
        taken = sat_t
        both = sat_t and sat_f
        if both:
            self.stats['forks'] += 1
            self.solver.push()
            self.solver.add(c)
        self.model = m_t if taken else m_f
        self.trace.append(_Entry(c, taken, both, both, aux))
        self.pos += 1
        return taken

    def assume(self, c):
        c = getattr(c, 'z', c)
        if isinstance(c, bool):
            if c:
                return
            raise PathAbort('assume')
        if self.pos < len(self.trace):
            e = self.trace[self.pos]
            if not e.cond.eq(c):
                raise Nondeterminism(f'replayed assumption differs: {e.cond} / {c}')
            self.pos += 1
            if not e.taken:
                raise PathAbort('assume')
            return
        self.solver.push()
        self.solver.add(c)
        ok = self.model is not None and z3.is_true(self.model.eval(c, model_completion=True))
        if not ok:
            self.stats['branch_queries'] += 1
            ok = self._check()
            self.model = self.solver.model() if ok else None
        self.trace.append(_Entry(c, ok, False, True))
        self.pos += 1
        if not ok:
            raise PathAbort('assume')

    def concretize(self, zint):
        """Forks over all feasible values of an integer term."""
        zint = z3.simplify(zint)
        if z3.is_int_value(zint):
            return zint.as_long()
        while True:
            if self.pos < len(self.trace):
                v = self.trace[self.pos].aux
                if v is None:
                    raise Nondeterminism('concretize')
            else:
                if self.model is None:
                    self.stats['branch_queries'] += 1
                    if not self._check():
                        raise PathAbort('infeasible')
                    self.model = self.solver.model()
                v = self.model.eval(zint, model_completion=True).as_long()
            if self.fork(zint == v, aux=v):
                return v

    # -- variables ---------------------------------------------------
    def var(self, name, make, constraint=None):
        if name not in self.vars:
            self.vars[name] = make(name)
        v = self.vars[name]
        if name not in self._declared:
            self._declared.add(name)
            if constraint is not None:
                self.assume(constraint(v))
        return v

    def values(self, model):
        out = {}
        for n in self._declared:
            out[n] = to_py(model.eval(self.vars[n], model_completion=True))
        return out

    # -- assertions ----------------------------------------------------
    def check(self, cond, label, detail=None, known=None):
        """Asserts cond for every value satisfying the path condition."""
        if self.pos < len(self.trace):
            # replayed prefix: decided on the path that recorded it, for all of its values
            return True
        self.stats['asserts'] += 1
        self.labels[label] = self.labels.get(label, 0) + 1
        if callable(cond):
            cond = cond()
        cond = getattr(cond, 'z', cond)
        if isinstance(cond, z3.BoolRef):
            cond = z3.simplify(cond)
            if z3.is_true(cond):
                cond = True
            elif z3.is_false(cond):
                cond = False
        if not isinstance(cond, z3.BoolRef):
            if cond:
                return True
            neg = z3.BoolVal(True)
        else:
            neg = z3.Not(cond)
        self.stats['assert_queries'] += 1
        kn = [(k, getattr(p, 'z', p)) for k, p in (known or {}).items()]
        kn = [(k, z3.BoolVal(p) if isinstance(p, bool) else p) for k, p in kn]
        extra = [z3.Not(p) for _, p in kn]
        if self._check(neg, *extra):
            self._report(label, self.solver.model(), detail)
            return False
        for k, p in kn:
            if self._check(neg, p) and k not in self.known_hits:
                self.known_hits[k] = self.values(self.solver.model())
        return True

    def _report(self, label, model, detail):
        vals = self.values(model)
        d = detail() if callable(detail) else (detail or '')
        def sub(m):
            x = self.texts.get(m.group(0))
            return m.group(0) if x is None else str(to_py(model.eval(x.z, model_completion=True)))
        d = re.sub('\u27e6\\d+\u27e7', sub, str(d))
        self.violations.append(Violation(label, vals, d[:2000]))
        self._path_violated = True

    @property
    def replaying(self):
        return self.pos < len(self.trace)

    def fail(self, label, detail=None):
        return self.check(False, label, detail)

    # -- exploration ---------------------------------------------------
    def _backtrack(self):
        while self.trace:
            e = self.trace[-1]
            if e.pushed:
                self.solver.pop()
            if e.alt:
                e.taken = not e.taken
                e.alt = False
                self.solver.push()
                self.solver.add(e.cond if e.taken else z3.Not(e.cond))
                self.model = None
                return True
            self.trace.pop()
        return False

    def explore(self, body, max_paths=None, deadline=None, stop_on_violation=True, on_path=None):
        """Runs body() on every feasible path."""
        prev, Engine.current = Engine.current, self
        try:
            while True:
                self.pos = 0
                self._declared = set()
                self._path_violated = False
                aborted = False
                try:
                    body()
                except PathAbort:
                    aborted = True
                self.stats['paths'] += 1
                if aborted:
                    self.stats['aborted'] += 1
                else:
                    self.stats['reached'] += 1
                    if on_path is not None:
                        on_path(self)
                if self.violations and stop_on_violation:
                    return False
                if self.pos < len(self.trace):
                    raise Nondeterminism('path shorter than its recorded decisions')
                if not self._backtrack():
                    return True
                if max_paths is not None and self.stats['paths'] >= max_paths:
                    raise Inconclusive(f'path budget {max_paths} exhausted')
                if deadline is not None and time.time() > deadline:
                    raise Inconclusive('time budget exhausted')
        finally:
            Engine.current = prev

    def path_model(self):
        if self.model is None:
            if not self._check():
                raise PathAbort('infeasible')
            self.model = self.solver.model()
        return self.values(self.model)


def to_py(v):
    if z3.is_int_value(v):
        return v.as_long()
    if z3.is_rational_value(v):
        f = Fraction(v.numerator_as_long(), v.denominator_as_long())
        return int(f) if f.denominator == 1 else float(f)
    if z3.is_true(v):
        return True
    if z3.is_false(v):
        return False
    if z3.is_algebraic_value(v):
        a = v.approx(20)
        return float(Fraction(a.numerator_as_long(), a.denominator_as_long()))
    return str(v)
