"""Identities of real arithmetic decided by normal forms (polynomials over the
rationals; reciprocals, comparisons and other functions are atoms of normalised arguments)."""
from fractions import Fraction
from . import terms as tm

LIMIT = 40000


class TooBig(Exception):
    pass


def padd(a, b, s=1):
    r = dict(a)
    for m, c in b.items():
        x = r.get(m, 0) + s * c
        if x:
            r[m] = x
        else:
            r.pop(m, None)
    return r


def pmul(a, b):
    if len(a) * len(b) > LIMIT:
        raise TooBig
    r = {}
    for m, c in a.items():
        for n, d in b.items():
            k = tuple(sorted(m + n))
            x = r.get(k, 0) + c * d
            if x:
                r[k] = x
            else:
                r.pop(k, None)
    return r


def freeze(p):
    return tuple(sorted(p.items()))


class Norm:
    def __init__(self):
        self.atoms = {}
        self.memo = {}

    def atom(self, key):
        i = self.atoms.get(key)
        if i is None:
            i = self.atoms[key] = len(self.atoms)
        return {(i,): Fraction(1)}

    def n(self, t):
        r = self.memo.get(t.id)
        if r is None:
            r = self.memo[t.id] = self._n(t)
        return r

    def _n(self, t):
        op = t.op
        if op == 'fconst':
            v = tm.fval(t)
            if v != v or v in (float('inf'), float('-inf')):
                return self.atom(('t', t.id))
            return {(): Fraction(v)} if v else {}
        if op == 'int':
            return {(): Fraction(t.args[0])} if t.args[0] else {}
        if op == 'poly':
            r = {}
            for mono, c in t.args:
                y = {(): Fraction(c)}
                for a in mono:
                    y = pmul(y, self.n(a))
                r = padd(r, y)
            return r
        if op == 'fop':
            n, ar = t.args[0], t.args[1:]
            if n in ('fadd', 'fsub'):
                return padd(self.n(ar[0]), self.n(ar[1]), 1 if n == 'fadd' else -1)
            if n == 'fmul':
                return pmul(self.n(ar[0]), self.n(ar[1]))
            if n == 'fma':
                return padd(pmul(self.n(ar[0]), self.n(ar[1])), self.n(ar[2]))
            if n == 'fneg':
                return padd({}, self.n(ar[0]), -1)
            if n in ('fpext', 'fptrunc', 'uitofp', 'sitofp'):
                return self.n(ar[0])
            if n == 'fdiv':
                b = self.n(ar[1])
                if list(b) == [()]:
                    return {m: c / b[()] for m, c in self.n(ar[0]).items()}
                if not b:
                    return self.atom(('t', t.id))
                # 1/(c*q) = 1/c * 1/q with a normalised leading coefficient
                lead = b[max(b)]
                q = {m: c / lead for m, c in b.items()}
                return pmul(self.n(ar[0]), {m: c / lead for m, c in self.atom(('inv', freeze(q))).items()})
            return self.atom((n, t.sort) + tuple(freeze(self.n(a)) for a in ar))
        if op == 'uf':
            return self.atom(('uf', t.args[0], t.sort) + tuple(freeze(self.n(a)) for a in t.args[1:]))
        return self.atom(('t', t.id))


def identity(goal, tol=0):
    """True if the goal is an identity of real arithmetic (coefficients may differ by tol, relative to the largest)"""
    try:
        if goal.op == 'and':
            return all(identity(g, tol) for g in goal.args)
        if goal.op == 'eq' and goal.args[0].sort in 'fd':
            m = Norm()
            a, b = m.n(goal.args[0]), m.n(goal.args[1])
            if a == b:
                return True
            if tol:
                big = max([abs(c) for c in a.values()] + [abs(c) for c in b.values()])
                return all(abs(a.get(k, 0) - b.get(k, 0)) <= tol * big for k in set(a) | set(b))
    except TooBig:
        pass
    return False
