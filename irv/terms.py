"""Hash-consed terms used by the verifier: booleans, mathematical integers kept
as polynomials in normal form, opaque floating point values, folds."""
import math

_tab = {}
_cnt = [0]


class T:
    __slots__ = ('op', 'args', 'sort', 'id', '_fv', '_poly')

    def __repr__(self):
        return show(self)

    # identity based equality/hash on purpose (hash consing)


def mk(op, args, sort):
    key = (op, args, sort)
    t = _tab.get(key)
    if t is None:
        t = T()
        t.op = op
        t.args = args
        t.sort = sort
        _cnt[0] += 1
        t.id = _cnt[0]
        t._fv = None
        t._poly = None
        _tab[key] = t
    return t


_fresh = [0]


def reset_fresh():
    _fresh[0] = 0


def var(name, sort):
    return mk('var', (name,), sort)


def fresh(name, sort):
    _fresh[0] += 1
    return var('%s!%d' % (name, _fresh[0]), sort)


TRUE = mk('true', (), 'B')
FALSE = mk('false', (), 'B')


def B(b):
    return TRUE if b else FALSE


def I(n):
    return mk('int', (int(n),), 'I')


ZERO = I(0)
ONE = I(1)


def isint(t):
    return t.op == 'int'


# ---------------------------------------------------------------- polynomials
# dict: monomial (sorted tuple of atom terms by id) -> coeff ; () constant

def poly(t):
    p = t._poly
    if p is not None:
        return p
    if t.op == 'int':
        p = {(): t.args[0]} if t.args[0] else {}
    elif t.op == 'poly':
        p = dict(t.args)
    else:
        p = {(t,): 1}
    t._poly = p
    return p


def _mk_poly(p):
    p = {m: c for m, c in p.items() if c != 0}
    if not p:
        return ZERO
    if len(p) == 1:
        (m, c), = p.items()
        if m == ():
            return I(c)
        if c == 1 and len(m) == 1:
            return m[0]
    items = tuple(sorted(p.items(), key=lambda mc: (len(mc[0]), tuple(a.id for a in mc[0]))))
    t = mk('poly', items, 'I')
    t._poly = p
    return t


def add(*ts):
    p = {}
    for t in ts:
        if isinstance(t, int):
            p[()] = p.get((), 0) + t
            continue
        for m, c in poly(t).items():
            p[m] = p.get(m, 0) + c
    return _mk_poly(p)


def scale(t, k):
    if k == 0:
        return ZERO
    if k == 1:
        return t
    return _mk_poly({m: c * k for m, c in poly(t).items()})


def neg(t):
    return scale(t, -1)


def sub(a, b):
    if isinstance(a, int):
        a = I(a)
    if isinstance(b, int):
        b = I(b)
    return add(a, neg(b))


def mul(a, b):
    if isinstance(a, int):
        a = I(a)
    if isinstance(b, int):
        b = I(b)
    if a.op == 'int':
        return scale(b, a.args[0])
    if b.op == 'int':
        return scale(a, b.args[0])
    pa, pb = poly(a), poly(b)
    if len(pa) * len(pb) > 200:
        return mk('uf', ('mulbig', a, b) if a.id < b.id else ('mulbig', b, a), 'I')
    p = {}
    for m1, c1 in pa.items():
        for m2, c2 in pb.items():
            m = tuple(sorted(m1 + m2, key=lambda x: x.id))
            p[m] = p.get(m, 0) + c1 * c2
    return _mk_poly(p)


def const_of(t):
    return poly(t).get((), 0)


def divexact(t, k):
    """t/k if every coefficient is divisible, else None"""
    if k == 1:
        return t
    p = {}
    for m, c in poly(t).items():
        if c % k:
            return None
        p[m] = c // k
    return _mk_poly(p)


def div(a, b):
    """floor division for b>0 (mathematical; callers ensure the sign convention)"""
    if isinstance(b, int):
        b = I(b)
    if isinstance(a, int):
        a = I(a)
    if b.op == 'int' and b.args[0] > 0:
        k = b.args[0]
        if a.op == 'int':
            return I(a.args[0] // k)
        # split divisible part
        q, r = {}, {}
        for m, c in poly(a).items():
            if m != () and c % k == 0:
                q[m] = c // k
            elif m == ():
                q[m] = c // k
                r[m] = c % k
            else:
                r[m] = c
        qq, rr = _mk_poly(q), _mk_poly(r)
        if rr.op == 'int':
            return add(qq, I(rr.args[0] // k))
        return add(qq, mk('div', (rr, b), 'I'))
    if a is b:
        pass
    return mk('div', (a, b), 'I')


def mod(a, b):
    if isinstance(b, int):
        b = I(b)
    if isinstance(a, int):
        a = I(a)
    if b.op == 'int' and b.args[0] > 0:
        k = b.args[0]
        if k == 1:
            return ZERO
        if a.op == 'int':
            return I(a.args[0] % k)
        r = {}
        for m, c in poly(a).items():
            c = c % k
            if c:
                r[m] = c
        rr = _mk_poly(r)
        if rr.op == 'int':
            return I(rr.args[0] % k)
        if rr.op == 'mod' and rr.args[1] is b:
            return rr
        return mk('mod', (rr, b), 'I')
    if a.op == 'mod' and a.args[1] is b:
        return a
    return mk('mod', (a, b), 'I')


# ---------------------------------------------------------------- booleans

def ge0(p):
    if p.op == 'int':
        return B(p.args[0] >= 0)
    d = poly(p)
    g = 0
    for m, c in d.items():
        if m != ():
            g = math.gcd(g, c)
    if g > 1:
        q = {m: c // g for m, c in d.items()}  # floor on the constant: valid tightening
        p = _mk_poly(q)
        d = poly(p)
    if len(d) <= 2:
        mm = [m for m in d if m != ()]
        if len(mm) == 1 and len(mm[0]) == 1 and mm[0][0].op == 'ite':
            x = mm[0][0]
            if x.args[1].op == 'int' and x.args[2].op == 'int':
                co, k0 = d[mm[0]], d.get((), 0)
                return ite(x.args[0], B(co * x.args[1].args[0] + k0 >= 0), B(co * x.args[2].args[0] + k0 >= 0))
    return mk('ge0', (p,), 'B')


def ge(a, b):
    return ge0(sub(a, b))


def le(a, b):
    return ge0(sub(b, a))


def lt(a, b):
    return ge0(add(sub(b, a), -1))


def gt(a, b):
    return lt(b, a)


def eq(a, b):
    if isinstance(a, int):
        a = I(a)
    if isinstance(b, int):
        b = I(b)
    if a is b:
        return TRUE
    if a.sort == 'I':
        p = sub(a, b)
        if p.op == 'int':
            return B(p.args[0] == 0)
        d = poly(p)
        if len(d) <= 2:
            mm = [m for m in d if m != ()]
            if len(mm) == 1 and len(mm[0]) == 1 and mm[0][0].op == 'ite':
                x = mm[0][0]
                if x.args[1].op == 'int' and x.args[2].op == 'int':
                    co, k0 = d[mm[0]], d.get((), 0)
                    return ite(x.args[0], B(co * x.args[1].args[0] + k0 == 0), B(co * x.args[2].args[0] + k0 == 0))
        g = 0
        for m, c in d.items():
            if m != ():
                g = math.gcd(g, c)
        if g > 1:
            if d.get((), 0) % g:
                return FALSE
            p = _mk_poly({m: c // g for m, c in d.items()})
            d = poly(p)
        # sign canonical: the leading (largest id) monomial positive
        lead = max((m for m in d if m != ()), key=lambda m: (len(m), tuple(x.id for x in m)))
        if d[lead] < 0:
            p = neg(p)
        return mk('eq0', (p,), 'B')
    if a.sort == 'B':
        if a is TRUE:
            return b
        if b is TRUE:
            return a
        if a is FALSE:
            return Not(b)
        if b is FALSE:
            return Not(a)
    if a.op in ('fconst',) and b.op in ('fconst',):
        return B(a.args == b.args)
    if a.id > b.id:
        a, b = b, a
    # distribute over identical ite structure cheaply
    if a.op == 'ite' and b.op == 'ite' and a.args[0] is b.args[0]:
        return ite(a.args[0], eq(a.args[1], b.args[1]), eq(a.args[2], b.args[2]))
    return mk('eq', (a, b), 'B')


def ne(a, b):
    return Not(eq(a, b))


def Not(a):
    if a is TRUE:
        return FALSE
    if a is FALSE:
        return TRUE
    if a.op == 'not':
        return a.args[0]
    if a.op == 'ge0':
        return ge0(add(neg(a.args[0]), -1))
    return mk('not', (a,), 'B')


def And(*xs):
    s = []
    seen = set()
    st = list(xs)
    while st:
        x = st.pop(0)
        if x is TRUE:
            continue
        if x is FALSE:
            return FALSE
        if x.op == 'and':
            st = list(x.args) + st
            continue
        if x.id in seen:
            continue
        if Not(x).id in seen:
            return FALSE
        seen.add(x.id)
        s.append(x)
    if not s:
        return TRUE
    if len(s) == 1:
        return s[0]
    s.sort(key=lambda t: t.id)
    return mk('and', tuple(s), 'B')


def Or(*xs):
    s = []
    seen = set()
    st = list(xs)
    while st:
        x = st.pop(0)
        if x is FALSE:
            continue
        if x is TRUE:
            return TRUE
        if x.op == 'or':
            st = list(x.args) + st
            continue
        if x.id in seen:
            continue
        if Not(x).id in seen:
            return TRUE
        seen.add(x.id)
        s.append(x)
    if not s:
        return FALSE
    if len(s) == 1:
        return s[0]
    s.sort(key=lambda t: t.id)
    return mk('or', tuple(s), 'B')


def Implies(a, b):
    return Or(Not(a), b)


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if a.sort == 'B':
        if a is TRUE and b is FALSE:
            return c
        if a is FALSE and b is TRUE:
            return Not(c)
        if a is TRUE:
            return Or(c, b)
        if b is FALSE:
            return And(c, a)
        if a is FALSE:
            return And(Not(c), b)
        if b is TRUE:
            return Or(Not(c), a)
    if c.op == 'not':
        return ite(c.args[0], b, a)
    if a.op == 'ite' and a.args[0] is c:
        a = a.args[1]
    if b.op == 'ite' and b.args[0] is c:
        b = b.args[2]
    if a is b:
        return a
    return mk('ite', (c, a, b), a.sort)


# ---------------------------------------------------------------- floats / UFs
COMM = {'fadd', 'fmul', 'feq', 'fmin', 'fmax'}


def uf(name, args, sort):
    """uninterpreted application"""
    return mk('uf', (name,) + tuple(args), sort)


def fop(name, args, sort):
    if name in COMM and args[0].id > args[1].id:
        args = (args[1], args[0])
    if name in ('fma',) and args[0].id > args[1].id:
        args = (args[1], args[0], args[2])
    if name == 'fneg' and args[0].op == 'fop' and args[0].args[0] == 'fneg':
        return args[0].args[1]
    if name == 'flt' and args[0] is args[1]:
        return FALSE
    return mk('fop', (name,) + tuple(args), sort)


def fconst(val_bits, sort):
    """IEEE constant by its bit pattern"""
    return mk('fconst', (val_bits,), sort)


import struct as _st


def fnum(x, sort):
    if sort == 'f':
        return fconst(_st.unpack('<I', _st.pack('<f', x))[0], 'f')
    return fconst(_st.unpack('<Q', _st.pack('<d', x))[0], 'd')


def fval(t):
    if t.sort == 'f':
        return _st.unpack('<f', _st.pack('<I', t.args[0]))[0]
    return _st.unpack('<d', _st.pack('<Q', t.args[0]))[0]


def fold(K, states, inits, bodies, j, kvar):
    """value of component j after K iterations of (states) := bodies(kvar, states).
    bound variables are renamed to canonical names."""
    if K is ZERO:
        return inits[j]
    if states[j].sort == 'I':
        # counter: s := s + c
        d = sub(bodies[j], states[j])
        if d.op == 'int':
            return add(inits[j], mul(d, K))
    # keep only the components that j depends on
    need = [j]
    i = 0
    while i < len(need):
        f = fvs(bodies[need[i]])
        for q, s in enumerate(states):
            if s in f and q not in need:
                need.append(q)
        i += 1
    cs = []
    depth = max([fold_depth(bodies[q]) for q in need] + [0])
    sub_ = {kvar: var('#k%d' % depth, 'I')}
    for r, q in enumerate(need):
        sub_[states[q]] = var('#s%d_%d' % (depth, r), states[q].sort)
    nb = tuple(subst(bodies[q], sub_) for q in need)
    ni = tuple(inits[q] for q in need)
    return mk('fold', (K, depth) + ni + nb, states[j].sort)


def fold_parts(t):
    K, depth = t.args[0], t.args[1]
    n = (len(t.args) - 2) // 2
    return K, depth, t.args[2:2 + n], t.args[2 + n:]


_fd = {}


def fold_depth(t):
    r = _fd.get(t.id)
    if r is None:
        r = 0
        for a in kids(t):
            r = max(r, fold_depth(a))
        if t.op == 'fold':
            r = max(r, t.args[1] + 1)
        _fd[t.id] = r
    return r


# ---------------------------------------------------------------- traversal

def kids(t):
    op = t.op
    if op in ('var', 'int', 'true', 'false', 'fconst'):
        return ()
    if op == 'poly':
        out = []
        for m, _ in t.args:
            out.extend(m)
        return out
    return [a for a in t.args if isinstance(a, T)]


def fvs(t):
    r = t._fv
    if r is None:
        if t.op == 'var':
            r = frozenset((t,))
        else:
            s = set()
            for a in kids(t):
                s |= fvs(a)
            r = frozenset(s)
        t._fv = r
    return r


def subst(t, m, memo=None):
    if not m:
        return t
    if memo is None:
        memo = {}
    keys = frozenset(m.keys())
    return _subst(t, m, keys, memo)


def _subst(t, m, keys, memo):
    if t.op == 'var':
        return m.get(t, t)
    if not (fvs(t) & keys):
        return t
    r = memo.get(t.id)
    if r is not None:
        return r
    op = t.op
    S = lambda a: _subst(a, m, keys, memo) if isinstance(a, T) else a
    if op == 'poly':
        r = ZERO
        acc = {}
        simple = True
        tot = []
        for mono, c in t.args:
            x = I(c)
            for a in mono:
                x = mul(x, S(a))
            tot.append(x)
        r = add(*tot)
    elif op == 'ge0':
        r = ge0(S(t.args[0]))
    elif op == 'eq0':
        r = eq(S(t.args[0]), ZERO)
    elif op == 'eq':
        r = eq(S(t.args[0]), S(t.args[1]))
    elif op == 'not':
        r = Not(S(t.args[0]))
    elif op == 'and':
        r = And(*[S(a) for a in t.args])
    elif op == 'or':
        r = Or(*[S(a) for a in t.args])
    elif op == 'ite':
        c = S(t.args[0])
        if c is TRUE:
            r = S(t.args[1])
        elif c is FALSE:
            r = S(t.args[2])
        else:
            r = ite(c, S(t.args[1]), S(t.args[2]))
    elif op == 'div':
        r = div(S(t.args[0]), S(t.args[1]))
    elif op == 'mod':
        r = mod(S(t.args[0]), S(t.args[1]))
    elif op == 'uf':
        r = uf(t.args[0], [S(a) for a in t.args[1:]], t.sort)
    elif op == 'fop':
        r = fop(t.args[0], tuple(S(a) for a in t.args[1:]), t.sort)
    elif op == 'fold':
        K = S(t.args[0])
        if K is ZERO:
            r = S(t.args[2])
        else:
            r = mk('fold', (K, t.args[1]) + tuple(S(a) for a in t.args[2:]), t.sort)
    else:
        r = mk(op, tuple(S(a) for a in t.args), t.sort)
    memo[t.id] = r
    return r


def subterms(t, seen):
    st = [t]
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen[x.id] = x
        st.extend(kids(x))


def size(t):
    s = {}
    subterms(t, s)
    return len(s)


# ---------------------------------------------------------------- printing

def show(t, d=0):
    if d > 12:
        return '...'
    op = t.op
    if op == 'var':
        return t.args[0]
    if op == 'int':
        return str(t.args[0])
    if op in ('true', 'false'):
        return op
    if op == 'poly':
        parts = []
        for m, c in t.args:
            ms = '*'.join(show(a, d + 1) for a in m)
            if m == ():
                parts.append(str(c))
            elif c == 1:
                parts.append(ms)
            else:
                parts.append('%d*%s' % (c, ms))
        return '(' + ' + '.join(parts) + ')'
    if op == 'ge0':
        return '%s>=0' % show(t.args[0], d + 1)
    if op == 'eq0':
        return '%s==0' % show(t.args[0], d + 1)
    if op == 'fconst':
        return repr(fval(t))
    if op in ('uf', 'fop'):
        return '%s(%s)' % (t.args[0], ', '.join(show(a, d + 1) for a in t.args[1:]))
    if op == 'fold':
        K, dep, ni, nb = fold_parts(t)
        return 'fold(%s; %s; %s)' % (show(K, d + 1), ', '.join(show(x, d + 1) for x in ni), ', '.join(show(x, d + 1) for x in nb))
    return '%s(%s)' % (op, ', '.join(show(a, d + 1) for a in t.args))
