"""Discharging obligations: translation of terms to z3 (second back end: cvc5)."""
import os
import subprocess
import tempfile
import time
import z3
from . import terms as tm
from .terms import T

STATS = {'queries': 0, 'time': 0.0, 'oblig_time': 0.0, 'cvc5': 0}
F32 = z3.DeclareSort('F32')
F64 = z3.DeclareSort('F64')
OPQ = z3.DeclareSort('Opaque')


def _axioms_fcmp(apps):
    out = []
    for t in apps:
        n = t.args[0]
        a, b = t.args[1], t.args[2]
        if n == 'flt':
            out.append(tm.Implies(t, tm.fop('fle', (a, b), 'B')))
            out.append(tm.Implies(t, tm.Not(tm.fop('fle', (b, a), 'B'))))
            out.append(tm.Implies(t, tm.Not(tm.fop('feq', (a, b), 'B'))))
        elif n == 'feq':
            out.append(tm.Implies(t, tm.fop('fle', (a, b), 'B')))
            out.append(tm.Implies(t, tm.fop('fle', (b, a), 'B')))
        elif n == 'fle':
            # fle & not flt => feq
            out.append(tm.Implies(tm.And(t, tm.Not(tm.fop('flt', (a, b), 'B'))), tm.fop('feq', (a, b), 'B')))
    return out


class Conv:
    def __init__(self, mode='uf', nia=False):
        self.mode = mode
        self.nia = nia
        self.memo = {}
        self.mons = {}
        self.sqrts = []
        self.side = []
        self.vars = {}

    def sort(self, s):
        if s == 'I':
            return z3.IntSort()
        if s == 'B':
            return z3.BoolSort()
        if s in ('f', 'd'):
            if self.mode == 'real':
                return z3.RealSort()
            if self.mode == 'fp':
                return z3.FPSort(8, 24) if s == 'f' else z3.FPSort(11, 53)
            return F32 if s == 'f' else F64
        return OPQ

    def mono(self, m):
        """z3 term for monomial"""
        if len(m) == 1:
            return self.c(m[0])
        if self.nia:
            r = self.c(m[0])
            for a in m[1:]:
                r = r * self.c(a)
            return r
        key = tuple(a.id for a in m)
        if key not in self.mons:
            self.mons[key] = (m, z3.Int('mul!' + '_'.join(map(str, key))))
            for a in m:
                self.c(a)
        return self.mons[key][1]

    def c(self, t):
        r = self.memo.get(t.id)
        if r is None:
            r = self._c(t)
            self.memo[t.id] = r
        return r

    def _c(self, t):
        op = t.op
        if op == 'true':
            return z3.BoolVal(True)
        if op == 'false':
            return z3.BoolVal(False)
        if op == 'int':
            return z3.IntVal(t.args[0])
        if op == 'var':
            v = z3.Const(t.args[0], self.sort(t.sort))
            self.vars[t.args[0]] = v
            return v
        if op == 'poly':
            parts = []
            for m, c in t.args:
                if m == ():
                    parts.append(z3.IntVal(c))
                else:
                    x = self.mono(m)
                    parts.append(x if c == 1 else c * x)
            return z3.Sum(parts) if len(parts) > 1 else parts[0]
        if op == 'ge0':
            return self.c(t.args[0]) >= 0
        if op == 'eq0':
            return self.c(t.args[0]) == 0
        if op == 'eq':
            a, b = self.c(t.args[0]), self.c(t.args[1])
            if self.mode == 'fp' and t.args[0].sort in ('f', 'd'):
                return a == b
            return a == b
        if op == 'not':
            return z3.Not(self.c(t.args[0]))
        if op == 'and':
            return z3.And([self.c(a) for a in t.args])
        if op == 'or':
            return z3.Or([self.c(a) for a in t.args])
        if op == 'ite':
            return z3.If(self.c(t.args[0]), self.c(t.args[1]), self.c(t.args[2]))
        if op in ('div', 'mod'):
            a, b = t.args
            if b.op == 'int' and b.args[0] > 0:
                return self.c(a) / self.c(b) if op == 'div' else self.c(a) % self.c(b)
            # symbolic divisor: defining axioms through the monomial machinery
            v = z3.Int('%s!%d' % (op, t.id))
            self.memo[t.id] = v
            q = tm.mk('div', (a, b), 'I')
            r = tm.mk('mod', (a, b), 'I')
            ax = tm.Implies(tm.ge(b, tm.ONE), tm.And(tm.eq(a, tm.add(tm.mul(b, q), r)), tm.ge(r, tm.ZERO), tm.lt(r, b)))
            ax2 = tm.Implies(tm.And(tm.ge(b, tm.ONE), tm.ge(a, tm.ZERO)), tm.And(tm.ge(q, tm.ZERO), tm.le(q, a), tm.le(r, a)))
            self.side.append(ax)
            self.side.append(ax2)
            return v
        if op == 'fconst':
            if self.mode == 'real':
                x = tm.fval(t)
                if x != x or x in (float('inf'), float('-inf')):
                    return z3.Const('fc_%s_%x' % (t.sort, t.args[0]), z3.RealSort())
                from fractions import Fraction
                fr = Fraction(x)
                return z3.RealVal(str(fr.numerator)) / z3.RealVal(str(fr.denominator))
            if self.mode == 'fp':
                bv = z3.BitVecVal(t.args[0], 32 if t.sort == 'f' else 64)
                return z3.fpBVToFP(bv, self.sort(t.sort))
            return z3.Const('fc_%s_%x' % (t.sort, t.args[0]), self.sort(t.sort))
        if op == 'fop':
            return self.fop(t)
        if op == 'uf':
            args = [self.c(a) for a in t.args[1:]]
            if not args:
                return z3.Const(t.args[0], self.sort(t.sort))
            f = z3.Function(t.args[0] + '/' + t.sort, *([a.sort() for a in args] + [self.sort(t.sort)]))
            return f(*args)
        if op == 'fold':
            K, dep, ni, nb = tm.fold_parts(t)
            f = z3.Function('fold!%s' % '_'.join(str(x.id) for x in ni + nb), z3.IntSort(), self.sort(t.sort))
            return f(self.c(K))
        raise NotImplementedError(op)

    def fop(self, t):
        n = t.args[0]
        ar = t.args[1:]
        a = [self.c(x) for x in ar]
        if self.mode == 'real':
            if n == 'fadd':
                return a[0] + a[1]
            if n == 'fsub':
                return a[0] - a[1]
            if n == 'fmul':
                return a[0] * a[1]
            if n == 'fdiv':
                return a[0] / a[1]
            if n == 'fneg':
                return -a[0]
            if n == 'fma':
                return a[0] * a[1] + a[2]
            if n == 'flt':
                return a[0] < a[1]
            if n == 'fle':
                return a[0] <= a[1]
            if n == 'feq':
                return a[0] == a[1]
            if n == 'fnan':
                return z3.BoolVal(False)
            if n in ('fpext', 'fptrunc'):
                return a[0]
            if n == 'fabs':
                return z3.If(a[0] >= 0, a[0], -a[0])
            if n == 'fmin':
                return z3.If(a[0] <= a[1], a[0], a[1])
            if n == 'fmax':
                return z3.If(a[0] >= a[1], a[0], a[1])
            if n in ('uitofp', 'sitofp'):
                return z3.ToReal(a[0])
            if n in ('fptoui', 'fptosi'):
                return z3.If(a[0] >= 0, z3.ToInt(a[0]), -z3.ToInt(-a[0]))
            if n == 'floor':
                return z3.ToReal(z3.ToInt(a[0]))
            if n == 'ceil':
                return -z3.ToReal(z3.ToInt(-a[0]))
            if n == 'round':
                return z3.If(a[0] >= 0, z3.ToReal(z3.ToInt(a[0] + z3.Q(1, 2))), -z3.ToReal(z3.ToInt(-a[0] + z3.Q(1, 2))))
            if n == 'trunc':
                return z3.If(a[0] >= 0, z3.ToReal(z3.ToInt(a[0])), -z3.ToReal(z3.ToInt(-a[0])))
            if n == 'sqrt':
                v = z3.Real('sqrt!%d' % t.id)
                self.sqrts.append(z3.Implies(a[0] >= 0, z3.And(v >= 0, v * v == a[0])))
                return v
        if self.mode == 'fp':
            rm = z3.RNE()
            if n == 'fadd':
                return z3.fpAdd(rm, a[0], a[1])
            if n == 'fsub':
                return z3.fpSub(rm, a[0], a[1])
            if n == 'fmul':
                return z3.fpMul(rm, a[0], a[1])
            if n == 'fdiv':
                return z3.fpDiv(rm, a[0], a[1])
            if n == 'fneg':
                return z3.fpNeg(a[0])
            if n == 'fma':
                return z3.fpFMA(rm, a[0], a[1], a[2])
            if n == 'flt':
                return z3.fpLT(a[0], a[1])
            if n == 'fle':
                return z3.fpLEQ(a[0], a[1])
            if n == 'feq':
                return z3.fpEQ(a[0], a[1])
            if n == 'fnan':
                return z3.fpIsNaN(a[0])
            if n == 'fabs':
                return z3.fpAbs(a[0])
            if n == 'fmin':
                return z3.fpMin(a[0], a[1])
            if n == 'fmax':
                return z3.fpMax(a[0], a[1])
            if n == 'sqrt':
                return z3.fpSqrt(rm, a[0])
            if n in ('fpext', 'fptrunc'):
                return z3.fpFPToFP(rm, a[0], self.sort(t.sort))
            if n == 'floor':
                return z3.fpRoundToIntegral(z3.RTN(), a[0])
            if n == 'ceil':
                return z3.fpRoundToIntegral(z3.RTP(), a[0])
            if n == 'round':
                return z3.fpRoundToIntegral(z3.RNA(), a[0])
            if n in ('uitofp', 'sitofp'):
                return z3.fpRealToFP(rm, z3.ToReal(a[0]), self.sort(t.sort))
            if n in ('fptoui', 'fptosi'):
                return z3.ToInt(z3.fpToReal(z3.fpRoundToIntegral(z3.RTZ(), a[0])))
        f = z3.Function('%s/%s' % (n, ''.join(x.sort for x in ar)) + '/' + t.sort, *([x.sort() for x in a] + [self.sort(t.sort)]))
        if n in tm.COMM and ar[0] is not ar[1]:
            # operands are ordered by term id, which may differ between equal terms
            self.sqrts.append(f(*a) == f(a[1], a[0]))
        return f(*a)

    def lemmas(self):
        """linear consequences for the abstracted monomials"""
        out = []
        items = list(self.mons.values())
        # split each monomial into (s, rest) in every way with s a single atom
        by = {}
        for m, v in items:
            for i, s in enumerate(m):
                if i and m[i - 1] is s:
                    continue
                rest = m[:i] + m[i + 1:]
                by.setdefault(s, []).append((rest, v))
        for s, lst in by.items():
            zs = self.c(s)
            zr = [(self.mono(r) if len(r) > 1 else self.c(r[0]), v) for r, v in lst]
            for a, v in zr:
                for c in (-1, 0, 1, 2):
                    out.append(z3.Implies(z3.And(zs >= 0, a <= c), v <= c * zs))
                    out.append(z3.Implies(z3.And(zs >= 0, a >= c), v >= c * zs))
                out.append(z3.Implies(zs == 0, v == 0))
                out.append(z3.Implies(zs == 1, v == a))
            for i in range(len(zr)):
                for j in range(len(zr)):
                    if i == j:
                        continue
                    a, v = zr[i]
                    b, w = zr[j]
                    out.append(z3.Implies(z3.And(zs >= 0, a <= b), v <= w))
                    out.append(z3.Implies(z3.And(zs >= 0, a < b), v + zs <= w))
                    if i < j:
                        out.append(z3.Implies(a == b, v == w))
        return out


class Fact:
    """universally quantified fact, instantiated at every application of the
    trigger symbol: fn(args) -> Bool term"""

    def __init__(self, trigger, fn, rounds=2, name=''):
        self.trigger = trigger
        self.fn = fn
        self.rounds = rounds
        self.name = name


def instantiate(ts, facts, maxrounds=3):
    if not facts:
        return []
    out = []
    done = set()
    seen = {}
    work = list(ts)
    for rnd in range(maxrounds):
        new = []
        for t in work:
            s2 = {}
            st = [t]
            while st:
                x = st.pop()
                if x.id in seen:
                    continue
                seen[x.id] = x
                st.extend(tm.kids(x))
                if x.op == 'uf':
                    bound = any(v.args[0].startswith('#') for v in tm.fvs(x))
                    if bound:
                        continue
                    for fi, f in enumerate(facts):
                        if f.trigger == x.args[0] and rnd < f.rounds and (fi, x.id) not in done:
                            done.add((fi, x.id))
                            r = f.fn(*x.args[1:])
                            if r is not tm.TRUE:
                                new.append(r)
        if not new:
            break
        out.extend(new)
        work = new
    return out


def _gather(ts):
    seen = {}
    for t in ts:
        tm.subterms(t, seen)
    return seen


def build(pc, goal, facts, mode, nia, extra=()):
    cv = Conv(mode, nia)
    asserts = list(pc) + list(extra)
    ng = tm.Not(goal)
    inst = instantiate(asserts + [ng], facts)
    allt = asserts + inst + [ng]
    seen = _gather(allt)
    if mode == 'uf':
        fc = [t for t in seen.values() if t.op == 'fop' and t.args[0] in ('flt', 'fle', 'feq') and not any(v.args[0].startswith('#') for v in tm.fvs(t))]
        allt = allt + _axioms_fcmp(fc)
    zs = [cv.c(t) for t in allt]
    k = 0
    while k < len(cv.side):
        zs.append(cv.c(cv.side[k]))
        k += 1
    if not nia:
        n = -1
        while n != len(cv.mons):
            n = len(cv.mons)
            lem = cv.lemmas()
        zs += lem
    zs += cv.sqrts
    return cv, zs


def check(pc, goal, facts=(), mode='uf', timeout=4000, extra=(), want_model=False):
    """-> ('proved', None) / ('cex', model dict) / ('unknown', reason)"""
    if goal is tm.TRUE:
        return ('proved', None)
    if goal in pc:
        return ('proved', None)
    for p in pc:
        if p is tm.FALSE:
            return ('proved', None)
    t0 = time.time()
    STATS['queries'] += 1
    try:
        cv, zs = build(pc, goal, facts, mode, False, extra)
        s = z3.SolverFor('QF_UFNIRA') if False else z3.Solver()
        s.set('timeout', timeout)
        s.add(*zs)
        r = s.check()
        if r == z3.unsat:
            return ('proved', None)
        mdl = None
        if r == z3.sat:
            if not cv.mons and not (mode == 'uf' and False):
                return ('cex', getmodel(cv, s.model()) if want_model else {})
            mdl = getmodel(cv, s.model()) if want_model else {}
        if cv.mons:
            # refine with true multiplication
            cv2, zs2 = build(pc, goal, facts, mode, True, extra)
            s2 = z3.Solver()
            s2.set('timeout', timeout)
            s2.add(*zs2)
            # keep the linear lemmas as well: they are valid consequences
            r2 = s2.check()
            if r2 == z3.unsat:
                return ('proved', None)
            if r2 == z3.sat:
                return ('cex', getmodel(cv2, s2.model()) if want_model else {})
            if r == z3.sat:
                return ('unknown', 'nonlinear: linear abstraction sat, nia unknown')
        return ('unknown', str(s.reason_unknown()) if r == z3.unknown else 'nonlinear')
    finally:
        STATS['time'] += time.time() - t0


def cvc5_check(pc, goal, facts=(), mode='uf', timeout=10, extra=()):
    cv, zs = build(pc, goal, facts, mode, False, extra)
    s = z3.Solver()
    s.add(*zs)
    txt = '(set-logic ALL)\n' + s.to_smt2()
    with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
        f.write(txt)
        fn = f.name
    try:
        r = subprocess.run(['cvc5', '--tlimit=%d' % (timeout * 1000), fn], capture_output=True, text=True, timeout=timeout + 5)
        o = r.stdout.strip().split('\n')[0]
    except Exception as e:
        o = 'error ' + str(e)
    finally:
        os.unlink(fn)
    STATS['cvc5'] += 1
    return {'unsat': 'proved', 'sat': 'cex'}.get(o, 'unknown')


def getmodel(cv, m):
    out = {}
    for n, v in cv.vars.items():
        if v.sort().kind() in (z3.Z3_INT_SORT, z3.Z3_BOOL_SORT, z3.Z3_REAL_SORT):
            x = m.eval(v, model_completion=True)
            out[n] = str(x)
    return out


def satisfiable(pc, facts=(), mode='uf', timeout=4000):
    r, m = check(pc, tm.FALSE, facts, mode, timeout, want_model=True)
    return r, m
