"""Symbolic execution of a Harness over the instrumented extension modules.

Each run executes concrete inputs; its trace (expression nodes, decisions, checks) becomes z3 terms. All decisions are expanded
depth first: the negation of each one is solved under the path condition before it, until no feasible alternative is left. Each
check is decided for all inputs of its path: path condition and not(check) must be unsatisfiable."""
import json
import os
import random
import select
import subprocess
import time
from fractions import Fraction
import struct
import z3
from .. import realbuild
from . import build
from .instr import OPS

HERE = os.path.dirname(os.path.abspath(__file__))
NAMES = {v: k for k, v in OPS.items()}
NODE = struct.Struct('<6I4Q')
EVENT = struct.Struct('<2I2Q')
RUN_TIMEOUT = 30


class Inconclusive(Exception):
    pass


class Crash(Exception):
    pass


class Worker:
    def __init__(self, h, modname):
        self.src, self.env, self.rt = build.build()
        self.h, self.modname = h, modname
        self.p = None
        self.scratch = os.path.join(realbuild.work(), f'llw{os.getpid()}')
        os.makedirs(self.scratch, exist_ok=True)

    def start(self):
        env = dict(self.env)
        lib = os.path.dirname(os.path.dirname(HERE))
        env['PYTHONPATH'] = self.src + ':' + lib
        env['PYTHONDONTWRITEBYTECODE'] = '1'
        env['TMPDIR'] = self.scratch
        self.err = open(os.path.join(self.scratch, 'err.txt'), 'w+')
        self.p = subprocess.Popen(['/opt/venv/bin/python', os.path.join(HERE, 'worker.py'), lib, self.src], stdin=subprocess.PIPE,
                                  stdout=subprocess.PIPE, stderr=self.err, env=env, cwd=self.scratch)
        self.buf = b''
        self.send(dict(module=self.modname, cls=type(self.h).__name__, params=self.h.params, pin=self.h.pin, scratch=self.scratch))

    def send(self, d):
        self.p.stdin.write(json.dumps(d).encode() + b'\n')
        self.p.stdin.flush()

    def read(self, n=None):
        """n bytes, or a line"""
        end = time.time() + RUN_TIMEOUT
        while True:
            if n is None:
                i = self.buf.find(b'\n')
                if i >= 0:
                    r, self.buf = self.buf[:i], self.buf[i + 1:]
                    return r
            elif len(self.buf) >= n:
                r, self.buf = self.buf[:n], self.buf[n:]
                return r
            r, _, _ = select.select([self.p.stdout], [], [], max(0, end - time.time()))
            if not r:
                raise Crash('hang')
            d = os.read(self.p.stdout.fileno(), 1 << 20)
            if not d:
                raise Crash('crash')
            self.buf += d

    def run(self, values):
        if self.p is None:
            self.start()
        try:
            self.send(dict(values=values))
            rep = json.loads(self.read())
            nodes = self.read(rep['nn'])
            events = self.read(rep['ne'])
        except (Crash, BrokenPipeError) as e:
            kind = str(e) if isinstance(e, Crash) else 'crash'
            self.stop()
            try:
                self.err.seek(0)
                txt = self.err.read()[-1200:]
            except Exception:
                txt = ''
            raise Crash(f'{kind}: {txt}')
        return rep, list(NODE.iter_unpack(nodes)), list(EVENT.iter_unpack(events))

    def stop(self):
        if self.p:
            self.p.kill()
            self.p.wait()
            self.p = None


# ---- expressions ----------------------------------------------------------------------------------------
def sx(v, w):
    v &= (1 << w) - 1
    return v - (1 << w) if v >> (w - 1) else v


def dconst(bits):
    """(E, k): the double E / 2^k"""
    x = struct.unpack('<d', struct.pack('<Q', bits))[0]
    if x != x or x in (float('inf'), float('-inf')):
        raise Concretize()
    n, d = x.as_integer_ratio()
    k = d.bit_length() - 1
    return n, k


class Concretize(Exception):
    """no exact encoding of this operation: its operands are enumerated"""


class I:
    """An integer term (machine integer as mathematical integer), or a double E/2^k (k not None)."""
    __slots__ = ('e', 'lo', 'hi', 'k')

    def __init__(self, e, lo, hi, k=None):
        self.e, self.lo, self.hi, self.k = e, lo, hi, k

    @property
    def const(self):
        return self.lo == self.hi


def cst(v, k=None):
    return I(z3.IntVal(v), v, v, k)


def zmod(e, m):
    return e % m


class Exprs:
    """z3 terms of a trace. decide(cond, what): adds a multiway decision to the path (cond holds in this run)."""

    def __init__(self, nodes, inputs, var, decide):
        self.nodes, self.inputs, self.var, self.decide = nodes, inputs, var, decide
        self.memo = {}

    def get(self, n):
        r = self.memo.get(n)
        if r is None:
            # operands first, without deep recursion
            stack = [n]
            while stack:
                m = stack[-1]
                if m in self.memo:
                    stack.pop()
                    continue
                nd = self.nodes[m - 1]
                todo = [x for x in nd[3:6] if x and x not in self.memo]
                if todo:
                    stack += todo
                    continue
                self.memo[m] = self.build(nd)
                stack.pop()
            r = self.memo[n]
        return r

    def concrete(self, nd):
        op, w, w0, a, b, c, av, bv, cv, res = nd
        if w & 256:
            n, k = dconst(res)
            return cst(n, k)
        if w == 1:
            return z3.BoolVal(bool(res & 1))
        return cst(sx(res, w))

    def build(self, nd):
        op, w, w0, a, b, c, av, bv, cv, res = nd
        name = NAMES[op]
        if name in ('input', 'inputf'):
            nm, lo, hi, k = self.inputs[av]
            return I(self.var(nm, lo, hi), lo, hi, k if name == 'inputf' else None)
        try:
            return self.build_(nd, name)
        except Concretize:
            for x, v in ((a, av), (b, bv), (c, cv)):
                if x:
                    self.fix(x, v)
            return self.concrete(nd)

    def fix(self, x, v):
        """Enumerates the values of node x: this run's is v."""
        t = self.memo[x]
        if isinstance(t, I):
            if t.const:
                return
            if t.k is None:
                self.decide(t.e == sx(v, self.nodes[x - 1][1] & 255 or 64))
            else:
                E, k = dconst(v)
                A, B = self.align(t, cst(E, k))
                self.decide(A.e == B.e)
        else:
            self.decide(t if v & 1 else z3.Not(t))

    def operand(self, x, v, w, fl):
        if x:
            t = self.memo[x]
            if fl != (isinstance(t, I) and t.k is not None) or (not fl and (w == 1) == isinstance(t, I)):
                # value used with another type
                raise Concretize()
            return t
        if fl:
            return cst(*dconst(v))
        if w == 1:
            return z3.BoolVal(bool(v & 1))
        return cst(sx(v, w))

    def align(self, a, b):
        k = max(a.k, b.k)
        return self.scale(a, k), self.scale(b, k)

    def scale(self, a, k):
        f = 1 << (k - a.k)
        if f == 1:
            return a
        return I(a.e * f, a.lo * f, a.hi * f, k) if not a.const else cst(a.lo * f, k)

    def wrap(self, e, lo, hi, w):
        if lo == hi:
            return cst(sx(lo, w))
        h = 1 << (w - 1)
        if -h <= lo and hi < h:
            return I(e, lo, hi)
        return I((e + h) % (1 << w) - h, -h, h - 1)

    def unsigned(self, a, w):
        if a.lo >= 0:
            return a
        if a.hi < 0:
            return I(a.e + (1 << w), a.lo + (1 << w), a.hi + (1 << w))
        return I(z3.If(a.e < 0, a.e + (1 << w), a.e), 0, (1 << w) - 1)

    def rnd(self, a, res):
        """rounds the exact value a to a double; res: bits of this run's result"""
        m = max(abs(a.lo), abs(a.hi))
        if m < 1 << 53:
            return a
        E, k = dconst(res)
        # this run's binade (of the exact value; the rounded one may be its upper end)
        if a.const:
            if abs(Fraction(E, 1 << k) - Fraction(a.lo, 1 << a.k)) > 0:
                return cst(E, k)
            return a
        v = abs(Fraction(E * (1 << a.k), 1 << k))
        n = int(v)
        ab = z3.If(a.e < 0, -a.e, a.e)
        if n < 1 << 53 and self.model_abs_small(a, n):
            self.decide(ab < (1 << 53))
            return I(a.e, max(a.lo, -(1 << 53)), min(a.hi, 1 << 53), a.k)
        bl = max(n.bit_length(), 54)
        if n == 1 << (bl - 1) and bl > 54 and self.exact_below(a, bl):
            bl -= 1
        self.decide(z3.And(ab >= (1 << (bl - 1)), ab < (1 << bl)))
        u = 1 << (bl - 53)
        q, r = a.e / u, a.e % u
        e = u * z3.If(z3.Or(2 * r > u, z3.And(2 * r == u, q % 2 == 1)), q + 1, q)
        return I(e, -(1 << bl), 1 << bl, a.k)

    # the binade of the exact value is decided from the inputs of the run
    def model_abs_small(self, a, n):
        return abs(self.evalc(a.e)) < 1 << 53

    def exact_below(self, a, bl):
        return abs(self.evalc(a.e)) < 1 << (bl - 1)

    def evalc(self, e):
        return self.ev(e)

    def tdiv(self, a, d):
        """C division of integer term by constant d"""
        if d == 0:
            raise Concretize()
        ad = abs(d)
        if a.lo >= 0:
            e, lo, hi = a.e / ad, a.lo // ad, a.hi // ad
        else:
            e = z3.If(a.e >= 0, a.e / ad, -((-a.e) / ad))
            lo, hi = -((-a.lo) // ad), (a.hi // ad if a.hi >= 0 else -((-a.hi) // ad))
        if d < 0:
            e, lo, hi = -e, -hi, -lo
        return I(e, lo, hi)

    def trem(self, a, d, k=None):
        if d == 0:
            raise Concretize()
        ad = abs(d)
        if a.lo >= 0:
            return I(a.e % ad, 0, min(ad - 1, a.hi), k)
        if a.hi <= 0:
            return I(-((-a.e) % ad), max(-(ad - 1), a.lo), 0, k)
        return I(z3.If(a.e >= 0, a.e % ad, -((-a.e) % ad)), max(-(ad - 1), a.lo), min(ad - 1, a.hi), k)

    def cmp(self, rel, a, b):
        if rel == 'lt':
            if a.hi < b.lo:
                return z3.BoolVal(True)
            if a.lo >= b.hi:
                return z3.BoolVal(False)
            return a.e < b.e
        if rel == 'le':
            if a.hi <= b.lo:
                return z3.BoolVal(True)
            if a.lo > b.hi:
                return z3.BoolVal(False)
            return a.e <= b.e
        if rel == 'eq':
            if a.hi < b.lo or b.hi < a.lo:
                return z3.BoolVal(False)
            return a.e == b.e
        if rel == 'gt':
            return self.cmp('lt', b, a)
        if rel == 'ge':
            return self.cmp('le', b, a)
        return z3.Not(self.cmp('eq', a, b))

    def ite(self, c, a, b):
        if z3.is_true(c):
            return a
        if z3.is_false(c):
            return b
        return I(z3.If(c, a.e, b.e), min(a.lo, b.lo), max(a.hi, b.hi), a.k)

    def build_(self, nd, name):
        op, w, w0, a, b, c, av, bv, cv, res = nd
        fl = bool(w & 256)
        w &= 255
        if fl and w == 32:
            raise Concretize()
        if name in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'sdiv', 'udiv', 'srem', 'urem'):
            if w == 1:
                A, B = self.operand(a, av, 1, False), self.operand(b, bv, 1, False)
                if name == 'and':
                    return z3.And(A, B)
                if name == 'or':
                    return z3.Or(A, B)
                if name in ('xor', 'add', 'sub'):
                    return z3.Xor(A, B)
                raise Concretize()
            A, B = self.operand(a, av, w, False), self.operand(b, bv, w, False)
            if name == 'add':
                return self.wrap(A.e + B.e, A.lo + B.lo, A.hi + B.hi, w)
            if name == 'sub':
                return self.wrap(A.e - B.e, A.lo - B.hi, A.hi - B.lo, w)
            if name == 'mul':
                if not (A.const or B.const):
                    # products of two symbolic terms: enumerate the smaller one
                    x, v = (a, av) if A.hi - A.lo < B.hi - B.lo else (b, bv)
                    self.fix(x, v)
                    s = cst(sx(v, w))
                    A, B = (s, B) if x == a else (A, s)
                ps = [p * q for p in (A.lo, A.hi) for q in (B.lo, B.hi)]
                return self.wrap(A.e * B.e, min(ps), max(ps), w)
            if not B.const:
                self.fix(b, bv)
                B = cst(sx(bv, w))
            d = B.lo
            if name == 'shl' and 0 <= d < w:
                f = 1 << d
                return self.wrap(A.e * f, A.lo * f, A.hi * f, w)
            if name == 'ashr' and 0 <= d < w:
                return I(A.e / (1 << d), A.lo >> d, A.hi >> d)
            if name == 'lshr' and 0 <= d < w:
                U = self.unsigned(A, w)
                return self.wrap(U.e / (1 << d), U.lo >> d, U.hi >> d, w)
            if name == 'sdiv':
                r = self.tdiv(A, d)
                return self.wrap(r.e, r.lo, r.hi, w)
            if name == 'srem':
                return self.trem(A, d)
            if name in ('udiv', 'urem'):
                d %= 1 << w
                U = self.unsigned(A, w)
                r = self.tdiv(U, d) if name == 'udiv' else self.trem(U, d)
                return self.wrap(r.e, r.lo, r.hi, w)
            if name == 'and':
                m = d & ((1 << w) - 1)
                if m & (m + 1) == 0:
                    return I(A.e % (m + 1), 0, m) if m < 1 << (w - 1) else A
                inv = ~m & ((1 << w) - 1)
                if inv & (inv + 1) == 0:         # clears the low bits
                    return I(A.e - A.e % (inv + 1), A.lo - inv, A.hi)
            if name == 'xor' and d == -1:
                return I(-1 - A.e, -1 - A.hi, -1 - A.lo)
            raise Concretize()
        if name in ('fadd', 'fsub', 'fmul', 'frem', 'fdiv'):
            A, B = self.operand(a, av, 64, True), self.operand(b, bv, 64, True)
            if name in ('fadd', 'fsub'):
                A, B = self.align(A, B)
                r = I(A.e + B.e, A.lo + B.lo, A.hi + B.hi, A.k) if name == 'fadd' else I(A.e - B.e, A.lo - B.hi, A.hi - B.lo, A.k)
                return self.rnd(r, res)
            if name == 'fmul':
                if not (A.const or B.const):
                    raise Concretize()
                ps = [p * q for p in (A.lo, A.hi) for q in (B.lo, B.hi)]
                return self.rnd(I(A.e * B.e, min(ps), max(ps), A.k + B.k), res)
            if name == 'frem':
                if not B.const:
                    self.fix(b, bv)
                    B = cst(*dconst(bv))
                A, B = self.align(A, B)
                return self.trem(A, B.lo, A.k)
            if B.const and B.lo and abs(B.lo) & (abs(B.lo) - 1) == 0:
                s = 1 if B.lo > 0 else -1
                j = abs(B.lo).bit_length() - 1 - B.k      # divide by 2^j
                lo, hi = sorted((s * A.lo, s * A.hi))
                if j >= 0:
                    return I(s * A.e, lo, hi, A.k + j)
                return I(s * A.e * (1 << -j), lo << -j, hi << -j, A.k)
            raise Concretize()
        if name == 'fneg':
            A = self.operand(a, av, 64, True)
            return I(-A.e, -A.hi, -A.lo, A.k)
        if name in ('eq', 'ne', 'slt', 'sle', 'sgt', 'sge', 'ult', 'ule', 'ugt', 'uge'):
            if w0 == 1:
                A, B = self.operand(a, av, 1, False), self.operand(b, bv, 1, False)
                if name == 'eq':
                    return A == B
                if name == 'ne':
                    return z3.Xor(A, B)
                raise Concretize()
            A, B = self.operand(a, av, w0, False), self.operand(b, bv, w0, False)
            if name[0] == 'u':
                A, B = self.unsigned(A, w0), self.unsigned(B, w0)
            return self.cmp(name if name in ('eq', 'ne') else name[1:], A, B)
        if name[0] in 'of' and name[1:] in ('eq', 'ne', 'lt', 'le', 'gt', 'ge') or name in ('fult', 'fule', 'fugt', 'fuge', 'ueq', 'une'):
            A, B = self.align(self.operand(a, av, 64, True), self.operand(b, bv, 64, True))
            return self.cmp(name[-2:], A, B)
        if name in ('ord', 'uno'):
            self.operand(a, av, 64, True)
            return z3.BoolVal(name == 'ord')
        if name == 'select':
            C = self.operand(a, av, 1, False)
            if fl:
                return self.ite(C, *self.align(self.operand(b, bv, 64, True), self.operand(c, cv, 64, True)))
            if w == 1:
                return z3.If(C, self.operand(b, bv, 1, False), self.operand(c, cv, 1, False))
            return self.ite(C, self.operand(b, bv, w, False), self.operand(c, cv, w, False))
        if name in ('trunc', 'zext', 'sext'):
            if w0 == 1:
                A = self.operand(a, av, 1, False)
                return I(z3.If(A, z3.IntVal(1 if name == 'zext' else -1), z3.IntVal(0)), *((0, 1) if name == 'zext' else (-1, 0)))
            A = self.operand(a, av, w0, False)
            if name == 'sext':
                return A
            if name == 'zext':
                return self.unsigned(A, w0)
            if w == 1:
                return A.e % 2 == 1
            return self.wrap(A.e, A.lo, A.hi, w)
        if name in ('sitofp', 'uitofp'):
            A = self.operand(a, av, w0, False)
            if not isinstance(A, I):
                raise Concretize()
            if name == 'uitofp':
                A = self.unsigned(A, w0)
            return self.rnd(I(A.e, A.lo, A.hi, 0), res)
        if name in ('fptosi', 'fptoui'):
            A = self.operand(a, av, 64, True)
            r = self.tdiv(I(A.e, A.lo, A.hi), 1 << A.k)
            if r.lo < -(1 << (w - 1)) or r.hi >= 1 << (w - 1):
                raise Concretize()
            return r
        if name in ('smax', 'smin', 'umax', 'umin'):
            A, B = self.operand(a, av, w, False), self.operand(b, bv, w, False)
            UA, UB = (self.unsigned(A, w), self.unsigned(B, w)) if name[0] == 'u' else (A, B)
            cc = self.cmp('ge' if name.endswith('max') else 'le', UA, UB)
            if z3.is_true(cc):
                return A
            if z3.is_false(cc):
                return B
            f = max if name.endswith('max') else min
            return I(z3.If(cc, A.e, B.e), f(A.lo, B.lo), f(A.hi, B.hi)) if name[0] == 's' else self.ite(cc, A, B)
        if name == 'abs':
            A = self.operand(a, av, w, False)
            return self.wrap(z3.If(A.e < 0, -A.e, A.e), 0, max(abs(A.lo), abs(A.hi)), w)
        if name == 'fabs':
            A = self.operand(a, av, 64, True)
            return I(z3.If(A.e < 0, -A.e, A.e), 0, max(abs(A.lo), abs(A.hi)), A.k)
        if name in ('floor', 'ceil', 'ftrunc', 'round', 'rint'):
            A = self.operand(a, av, 64, True)
            u = 1 << A.k
            if name == 'floor':
                return I(A.e / u, A.lo // u, A.hi // u, 0)
            if name == 'ceil':
                return I(-((-A.e) / u), -(-A.lo // u), -(-A.hi // u), 0)
            if name == 'ftrunc':
                r = self.tdiv(I(A.e, A.lo, A.hi), u)
                return I(r.e, r.lo, r.hi, 0)
            raise Concretize()
        if name in ('fminnum', 'fmaxnum'):
            A, B = self.align(self.operand(a, av, 64, True), self.operand(b, bv, 64, True))
            return self.ite(self.cmp('le' if name == 'fminnum' else 'ge', A, B), A, B)
        raise Concretize()


# ---- exploration ----------------------------------------------------------------------------------------
class Violation(Exception):
    pass


def run(h, modname, deadline=None, max_paths=None, want_traces=3, seed=1):
    st = dict(paths=0, reached=0, forks=0, branch_queries=0, assert_queries=0, asserts=0, solver_s=0.0, aborted=0, nodes=0)
    res = dict(harness=h.name if h.name != 'harness' else type(h).__name__, params=h.params, pin=h.pin, ok=True, inconclusive=None, violations=[], known={}, stats=st, labels={}, traces=[])
    t0 = time.time()
    rnd = random.Random(seed)
    zvars, doms = {}, {}
    w = Worker(h, modname)
    keep.clear()
    work = [({}, 0, [], [])]         # values, bound, prefix of decisions, exclusions at the bound

    def var(nm, lo, hi):
        if nm not in zvars:
            zvars[nm] = z3.Int(nm)
            doms[nm] = (lo, hi)
        return zvars[nm]

    def query(solver, *cs):
        t = time.time()
        r = solver.check(*cs)
        st['solver_s'] += time.time() - t
        if r == z3.unknown:
            raise Inconclusive('solver: unknown ' + solver.reason_unknown())
        return r == z3.sat

    def model_values(solver, cur):
        m = solver.model()
        out = {k: v for k, v in cur.items() if k not in zvars}
        for nm, zv in zvars.items():
            v = m.eval(zv)
            if z3.is_int_value(v):
                out[nm] = v.as_long()
            elif nm in cur:
                out[nm] = cur[nm]
        return out

    def violation(label, values, detail):
        if sum(1 for v in res['violations'] if v[0] == label) < 2:
            res['violations'].append((label, values, detail))

    try:
        while work:
            if deadline and time.time() > deadline:
                raise Inconclusive(f'budget exhausted after {st["paths"]} paths ({len(work)} open)')
            if max_paths and st['paths'] >= max_paths:
                raise Inconclusive('path limit')
            if len(res['violations']) >= 3:
                break
            values, bound, prefix, excl = work.pop()
            st['paths'] += 1
            try:
                rep, nodes, events = w.run(values)
            except Crash as e:
                violation('hang' if str(e).startswith('hang') else 'crash', values, str(e))
                # other paths of this prefix stay unexplored: the job cannot be complete
                continue
            st['nodes'] += len(nodes)
            full = {nm: values.get(nm, lo) for nm, lo, hi, k in rep['inputs']}
            solver = z3.Solver()
            solver.set('timeout', 60000)
            seen = set()
            new = []
            state = dict(i=0)
            declared = set()
            consts = {}

            def ev(e):
                sub = [(zvars[nm], z3.IntVal(v)) for nm, v in full.items() if nm in zvars]
                return z3.simplify(z3.substitute(e, *sub)).as_long()

            dec = []

            def add_domains():
                for nm in list(zvars):
                    if nm not in declared:
                        declared.add(nm)
                        lo, hi = doms[nm]
                        if lo is not None:
                            solver.add(zvars[nm] >= lo)
                        if hi is not None:
                            solver.add(zvars[nm] <= hi)

            def decide(lit, multi=True, key=None):
                lit = z3.simplify(lit)
                if z3.is_true(lit):
                    return
                if z3.is_false(lit):
                    raise Inconclusive('the encoding contradicts the run')
                add_domains()
                if lit.get_id() in seen:
                    return
                seen.add(lit.get_id())
                keep.append(lit)
                i = state['i']
                state['i'] += 1
                d = (multi, lit.get_id())
                if i < len(prefix) and prefix[i] != lit.get_id():
                    raise Inconclusive('a repeated run took another path (nondeterminism)')
                if i >= bound:
                    st['branch_queries'] += 1
                    ex = (excl if i == bound else []) + [z3.Not(lit)]
                    if query(solver, *ex):
                        st['forks'] += 1
                        mv = model_values(solver, full)
                        if multi:
                            new.append((mv, i, list(dec), ex))
                        else:
                            new.append((mv, i + 1, list(dec), []))
                dec.append(lit.get_id())
                solver.add(lit)

            X = Exprs(nodes, rep['inputs'], var, decide)
            X.ev = ev
            knowns = []
            checks = 0
            try:
                for kind, n, val, aux in events:
                    if kind == 1:
                        c = X.get(n)
                        if isinstance(c, I):
                            c = c.e % 2 == 1
                        decide(c if val else z3.Not(c), False)
                    elif kind == 2:
                        c = X.get(n)
                        decide(c, True)
                    elif kind == 5:
                        c = X.get(n)
                        if val:
                            # only the assumed side is explored
                            add_domains()
                            solver.add(c)
                    elif kind == 4:
                        knowns.append((aux, X.get(n) if n else z3.BoolVal(bool(val)), val))
                    elif kind == 3:
                        label = rep['labels'][aux]
                        res['labels'][label] = res['labels'].get(label, 0) + 1
                        st['asserts'] += 1
                        checks += 1
                        ks, knowns = knowns, []
                        if n:
                            c = z3.simplify(X.get(n))
                            if not z3.is_true(c) and state['i'] >= bound:
                                add_domains()
                                st['assert_queries'] += 1
                                neg = [z3.Not(c)] + [z3.Not(k) for _, k, _ in ks]
                                if query(solver, *neg):
                                    mv = model_values(solver, full)
                                    try:
                                        r2 = w.run(mv)[0]
                                        f = [x for x in r2['failed'] if not x[0].startswith('known:')]
                                        if not f:
                                            raise Inconclusive(f'counterexample of {label} does not fail when run: {mv}')
                                        violation(f[0][0], mv, f[0][1])
                                    except Crash as e:
                                        violation('crash', mv, str(e))
                                for ki, k, kv in ks:
                                    key = rep['known_keys'][ki]
                                    if key not in res['known'] and query(solver, z3.Not(c), k):
                                        res['known'][key] = model_values(solver, full)
                        if not val:
                            hit = [rep['known_keys'][ki] for ki, k, kv in ks if kv]
                            for key in hit:
                                res['known'].setdefault(key, dict(full))
            finally:
                pass
            for f in rep['failed']:
                if not f[0].startswith('known:'):
                    violation(f[0], full, f[1])
            work += new
            if rep['aborted']:
                st['aborted'] += 1
                # an assumption failed in this run: find inputs on the same path prefix that satisfy it
                a = [(n, val) for kind, n, val, aux in events if kind == 5 and not val]
                if a:
                    c = X.get(a[-1][0])
                    if query(solver, c):
                        work.append((model_values(solver, full), state['i'], list(dec), []))
                continue
            if checks:
                st['reached'] += 1
                if rep['outs'] is not None and not rep['failed'] and want_traces:
                    n = st['reached']
                    if len(res['traces']) < want_traces:
                        res['traces'].append((dict(full), rep['outs']))
                    else:
                        k = rnd.randrange(n)
                        if k < want_traces:
                            res['traces'][k] = (dict(full), rep['outs'])
    except Inconclusive as e:
        res['ok'] = False
        res['inconclusive'] = str(e)
    finally:
        w.stop()
    res['wall'] = time.time() - t0
    return res


keep = []      # literals stay alive so that their ids stay unique
