"""P19: positions and orientations (quaternions), and the decoder of tracking messages."""
from irv.unit import *
from .arrays import only, split_ends
from .component import Comp
from .eq import Real
from .flow import ghost
from irv.loops import Inv
from irv.solver import Fact

QU, PO, LP, PD = 'librbbl/quaternion.cpp', 'librbbl/position_3d.cpp', 'libpml/listener_position.cpp', 'librcl/position_decoder.cpp'


class Alg(Real):
    """quaternion algebra over terms of one precision; quaternions are lists w x y z"""

    def __init__(self, so):
        Real.__init__(self, so)
        self.Q, self.P = 'visr::rbbl::Quaternion<%s>' % self.cpp, 'visr::rbbl::Position3D<%s>' % self.cpp

    def prod(self, a, b):
        A, S, M = self.add, self.sub, self.mul
        return [S(S(S(M(a[0], b[0]), M(a[1], b[1])), M(a[2], b[2])), M(a[3], b[3])),
                S(A(M(a[0], b[1]), M(a[1], b[0]), M(a[2], b[3])), M(a[3], b[2])),
                A(S(M(a[0], b[2]), M(a[1], b[3])), M(a[2], b[0]), M(a[3], b[1])),
                A(S(A(M(a[0], b[3]), M(a[1], b[2])), M(a[2], b[1])), M(a[3], b[0]))]

    def conj(self, a):
        return [a[0]] + [self.neg(x) for x in a[1:]]

    def dot(self, a, b):
        return self.add(*[self.mul(x, y) for x, y in zip(a, b)])

    def scale(self, s, a):
        return [self.mul(s, x) for x in a]

    def plus(self, a, b):
        return [self.add(x, y) for x, y in zip(a, b)]

    def minus(self, a, b):
        return [self.sub(x, y) for x, y in zip(a, b)]

    def matrix(self, q):
        """rotation matrix of a quaternion, times its squared norm"""
        A, S, M = self.add, self.sub, self.mul
        w, x, y, z = q
        sq = [M(k, k) for k in q]
        two = lambda t: M(self.n(2), t)
        return [[S(S(A(sq[0], sq[1]), sq[2]), sq[3]), two(S(M(x, y), M(w, z))), two(A(M(x, z), M(w, y)))],
                [two(A(M(x, y), M(w, z))), S(A(S(sq[0], sq[1]), sq[2]), sq[3]), two(S(M(y, z), M(w, x)))],
                [two(S(M(x, z), M(w, y))), two(A(M(y, z), M(w, x))), A(S(S(sq[0], sq[1]), sq[2]), sq[3])]]

    def rotated(self, q, p):
        return [self.dot(row, p) for row in self.matrix(q)]

    def lt(self, a, b):
        return tm.fop('flt', (a, b), 'B')

    def half(self, a):
        return self.mul(a, self.n(0.5))


class U:
    """unit with quaternions and positions in memory"""

    def __init__(self, so, name, tus=(QU, PO)):
        self.a = Alg(so)
        self.v = V(list(tus), '%s<%s>' % (name, self.a.cpp), ('uf', 'real'))

    def vec(self, name, k):
        r = self.v.reg(Region(name, size=k * self.a.w, align=self.a.w))
        xs = [self.v.flt(name + c, self.a.so) for c in ('WXYZ' if k == 4 else 'XYZ')]
        for i, x in enumerate(xs):
            self.v.st.store(r.ptr().plus(i * self.a.w), self.a.ty, x, 'setup')
        return r, xs

    def quat(self, name):
        return self.vec(name, 4)

    def pos(self, name):
        return self.vec(name, 3)

    def out(self, k):
        return self.v.reg(Region('result', size=k * self.a.w, align=self.a.w))

    def get(self, st, r, k, off=0):
        return [st.load(r.ptr().plus(off + i * self.a.w), self.a.ty, '') for i in range(k)]

    def expect(self, st, what, r, want, off=0):
        got = self.get(st, r, len(want), off)
        for c, g, w in zip('WXYZ' if len(want) == 4 else 'XYZ', got, want):
            self.v.same(st, '%s: %s' % (what, c.lower()), g, w, self.a.ty)
        return got

    def run(self, pat, args, kind='ret'):
        return only(self.v, self.v.call(self.v.find(pat), args), kind)

    def member(self, cls, pat):
        return r'^(void |float |double )?%s::%s' % (re.escape(cls), pat)

    def free(self, pat):
        return r'^[a-z].* visr::rbbl::%s<%s>\(' % (pat, self.a.cpp) if not pat.startswith('operator') else r'^visr::.* visr::rbbl::%s ?<%s>\(' % (pat, self.a.cpp)


def unit_product(so):
    """product, in-place product, rotation by another quaternion, conjugate"""
    u = U(so, 'Quaternion product')
    a = u.a
    Q = re.escape(a.Q)
    q, x = u.quat('left')
    p, y = u.quat('right')
    o = u.out(4)
    two = r'\(%s const&, %s const&\)' % (Q, Q)
    for e in u.run(r'^%s visr::rbbl::operator\*<%s>%s' % (Q, a.cpp, two), [o.ptr(), q.ptr(), p.ptr()]):
        u.expect(e.st, 'product', o, a.prod(x, y))
        u.expect(e.st, 'left operand', q, x)
        u.expect(e.st, 'right operand', p, y)
    for e in u.run(r'^%s::operator\*=\(%s const&\)' % (Q, Q), [q.ptr(), p.ptr()]):
        u.expect(e.st, 'product in place', q, a.prod(x, y))
    for e in u.run(r'^%s::rotate\(' % Q, [q.ptr(), p.ptr()]):
        u.expect(e.st, 'rotation is applied last', q, a.prod(y, x))
    for e in u.run(r'^%s visr::rbbl::conjugate<' % Q, [o.ptr(), q.ptr()]):
        u.expect(e.st, 'conjugate', o, a.conj(x))
    for e in u.run(r'^%s::conjugate\(' % Q, [q.ptr()]):
        u.expect(e.st, 'conjugate in place', q, a.conj(x))
    # composition: (right * left) rotates like left, then right; the conjugate rotates back
    t = [u.v.flt('t' + c, so) for c in 'xyz']
    for g, w in zip(a.rotated(a.prod(y, x), t), a.rotated(y, a.rotated(x, t))):
        u.v.same(u.v.st, 'lemma: product is the composition of the rotations', g, w, a.ty)
    n2 = a.dot(x, x)
    for g, w in zip(a.rotated(a.conj(x), a.rotated(x, t)), a.scale(a.mul(n2, n2), t)):
        u.v.same(u.v.st, 'lemma: conjugate is the inverse rotation of a unit quaternion', g, w, a.ty)
    r = a.rotated(x, t)
    u.v.same(u.v.st, 'lemma: distances are kept by unit quaternions', a.dot(r, r), a.mul(a.mul(n2, n2), a.dot(t, t)), a.ty)
    return u.v


def unit_linear(so):
    """sum, difference, negation, scaling, component access, dot product"""
    u = U(so, 'Quaternion arithmetic')
    a = u.a
    Q = re.escape(a.Q)
    q, x = u.quat('left')
    p, y = u.quat('right')
    s = u.v.flt('scale', so)
    o = u.out(4)
    two = r'\(%s const&, %s const&\)' % (Q, Q)
    for op, f in ((r'\+', a.plus), ('-', a.minus)):
        for e in u.run(r'^%s visr::rbbl::operator%s<%s>%s' % (Q, op, a.cpp, two), [o.ptr(), q.ptr(), p.ptr()]):
            u.expect(e.st, 'operator' + op[-1], o, f(x, y))
        for e in u.run(r'^%s::operator%s=\(' % (Q, op), [q.ptr(), p.ptr()]):
            u.expect(e.st, 'operator%s=' % op[-1], q, f(x, y))
    for e in u.run(r'^%s visr::rbbl::operator-<%s>\(%s const&\)' % (Q, a.cpp, Q), [o.ptr(), q.ptr()]):
        u.expect(e.st, 'negation', o, [a.neg(t) for t in x])
    for e in u.run(r'^%s visr::rbbl::operator\*<%s>\(%s, ' % (Q, a.cpp, a.cpp), [o.ptr(), s, q.ptr()]):
        u.expect(e.st, 'scaling', o, a.scale(s, x))
    for e in u.run(r'^%s::operator\*=\(%s\)' % (Q, a.cpp), [q.ptr(), s]):
        u.expect(e.st, 'scaling in place', q, a.scale(s, x))
    for e in u.run(r'^%s visr::rbbl::operator/<%s>\(' % (Q, a.cpp), [o.ptr(), q.ptr(), s]):
        u.expect(e.st, 'division', o, [a.div(t, s) for t in x])
    for e in u.run(r'^%s visr::rbbl::dot<%s>\(%s' % (a.cpp, a.cpp, Q), [q.ptr(), p.ptr()]):
        u.v.same(e.st, 'dot product', e.val, a.dot(x, y), a.ty)
    for e in u.run(r'^%s::normSquare\(' % Q, [q.ptr()]):
        u.v.same(e.st, 'squared norm', e.val, a.dot(x, x), a.ty)
    for e in u.run(r'^%s::set\(' % Q, [q.ptr()] + y):
        u.expect(e.st, 'set', q, y)
    for k, c in enumerate('WXYZ'):
        for e in u.run(r'^%s::set%s\(' % (Q, c), [q.ptr(), s]):
            u.expect(e.st, 'set' + c, q, [s if i == k else t for i, t in enumerate(x)])
    return u.v


def unit_norm(so):
    u = U(so, 'Quaternion::norm')
    a = u.a
    q, x = u.quat('quaternion')
    v = u.v
    for e in u.run(r'^%s::norm\(' % re.escape(a.Q), [q.ptr()]):
        v.oblige(e.st, 'norm is not negative', Not(a.lt(e.val, a.n(0))))
        v.oblige(e.st, 'norm squared is the sum of the squares', tm.fop('feq', (a.mul(e.val, e.val), a.dot(x, x)), 'B'))
    return v


def norm_contract(u, n):
    """norm() as proved by unit_norm: n(components)"""
    a = u.a

    def f(c, q):
        c.case().ret(n([c.rd(c.st.resolve(q).plus(k * a.w), a.ty) for k in range(4)]))
    u.v.contract(r'^%s::norm\(' % re.escape(a.Q), f, 'Quaternion::norm')


def unit_normalise(so):
    u = U(so, 'Quaternion::normalise')
    a = u.a
    v = u.v
    q, x = u.quat('quaternion')
    o = u.out(4)
    n = lambda q: tm.uf('norm', tuple(q), so)
    norm_contract(u, n)
    L, Q = n(x), re.escape(a.Q)
    v.st.assume(a.lt(a.n(0), L))
    eps = a.n(2.0 ** -23 if so == 'f' else 2.0 ** -52)
    adj, sil = v.bool('adjustSign'), v.bool('silentDivideByZero')
    flip = And(adj, a.lt(x[0], a.n(0)))
    for what, pat, dest, args in (('normalise in place', r'^%s::normalise\(' % Q, q, [q.ptr(), adj, sil]), ('normalise', r'^%s visr::rbbl::normalise<' % Q, o, [o.ptr(), q.ptr(), adj, sil])):
        for e in split_ends(v, v.call(v.find(pat), args), And(Not(sil), a.lt(L, eps)), 'throw', 'a quaternion close to zero'):
            for k, t in enumerate(u.get(e.st, dest, 4)):
                for c, w in ((flip, a.div(a.neg(x[k]), L)), (Not(flip), a.div(x[k], L))):
                    s = e.st.copy()
                    s.assume(c)
                    if s.feasible():
                        v.same(s, what + ' divides by the norm, and adjusts the sign if requested', t, w, a.ty)
    d = u.out(4)
    nf = v.bool('normaliseFlag')
    w = [v.flt('new' + c, so) for c in 'WXYZ']
    M = n(w)
    v.st.assume(a.lt(a.n(0), M))
    for e in split_ends(v, v.call(v.find(r'^%s::Quaternion\(%s' % (Q, a.cpp)), [d.ptr()] + w + [nf]), And(nf, a.lt(M, eps)), 'throw', 'a quaternion close to zero'):
        for k, t in enumerate(u.get(e.st, d, 4)):
            for c, z in ((nf, a.div(w[k], M)), (Not(nf), w[k])):
                s = e.st.copy()
                s.assume(c)
                if s.feasible():
                    v.same(s, 'constructor normalises if requested', t, z, a.ty)
    return v


def unit_angles(so):
    """yaw, pitch and roll; rotation vector and angle"""
    u = U(so, 'Quaternion orientation formats')
    a, v = u.a, u.v
    Q = re.escape(a.Q)
    q, x = u.quat('quaternion')
    ang = [v.flt(k, so) for k in ('yaw', 'pitch', 'roll')]
    o = u.out(4)
    axis = lambda k, t: [a.op('cos', a.half(t))] + [a.op('sin', a.half(t)) if i == k else a.n(0) for i in range(3)]
    want = a.prod(axis(2, ang[0]), a.prod(axis(1, ang[1]), axis(0, ang[2])))
    for e in u.run(r'^%s::setYPR\(' % Q, [q.ptr()] + ang):
        u.expect(e.st, 'yaw around z after pitch around y after roll around x', q, want)
    for e in u.run(r'^%s::fromYPR\(' % Q, [o.ptr()] + ang):
        u.expect(e.st, 'fromYPR', o, want)
    # elements of the rotation matrix of a unit quaternion
    w, X, Y, Z = x
    one, two, M = a.n(1), a.n(2), a.mul
    tail = lambda s, t: a.sub(one, M(two, a.add(M(s, s), M(t, t))))
    for e in u.run(r'^%s::yaw\(' % Q, [q.ptr()]):
        v.same(e.st, 'yaw from the rotation matrix', e.val, a.op('atan2', M(two, a.add(M(w, Z), M(X, Y))), tail(Y, Z)), a.ty)
    for e in u.run(r'^%s::roll\(' % Q, [q.ptr()]):
        v.same(e.st, 'roll from the rotation matrix', e.val, a.op('atan2', M(two, a.add(M(w, X), M(Y, Z))), tail(X, Y)), a.ty)
    sp = M(two, a.sub(M(w, Y), M(Z, X)))
    for e in u.run(r'^%s::pitch\(' % Q, [q.ptr()]):
        s = e.st.copy()
        s.assume(And(a.lt(sp, one), a.lt(a.n(-1), sp)))
        if s.feasible():
            v.same(s, 'pitch from the rotation matrix', e.val, a.op('asin', sp), a.ty)
    # trigonometric form of the same elements: identities of the homogeneous polynomials
    h = [(a.op('cos', a.half(t)), a.op('sin', a.half(t))) for t in ang]
    cosine = lambda k: a.sub(M(h[k][0], h[k][0]), M(h[k][1], h[k][1]))
    sine = lambda k: M(two, h[k][0], h[k][1])
    unit = lambda k: a.add(M(h[k][0], h[k][0]), M(h[k][1], h[k][1]))
    m = a.matrix(want)
    for what, g, t in (('sin(yaw) cos(pitch)', m[1][0], M(sine(0), cosine(1), unit(2))), ('cos(yaw) cos(pitch)', m[0][0], M(cosine(0), cosine(1), unit(2))),
                       ('-sin(pitch)', m[2][0], a.neg(M(unit(0), sine(1), unit(2)))), ('cos(pitch) sin(roll)', m[2][1], M(unit(0), cosine(1), sine(2))),
                       ('cos(pitch) cos(roll)', m[2][2], M(unit(0), cosine(1), cosine(2)))):
        v.same(v.st, 'lemma: matrix element ' + what, g, t, a.ty)
    # rotation vectors
    p, y = u.pos('axis')
    phi = v.flt('angle', so)
    nrm = [v.flt('axis%d' % k, so) for k in range(3)]

    def normal(c, res, pos, silent):
        for k in range(3):
            v.same(c.st.copy(), 'axis is normalised', c.rd(c.st.resolve(pos).plus(k * a.w), a.ty), y[k], a.ty)
        o_ = c.case()
        for k in range(3):
            o_.put(c.st.resolve(res).plus(k * a.w), a.ty, nrm[k])
    v.contract(r'^%s visr::rbbl::normalise<%s>\(%s const' % (re.escape(a.P), a.cpp, re.escape(a.P)), normal, 'normalise(Position3D)')
    rv = [a.op('cos', a.half(phi))] + [M(a.op('sin', a.half(phi)), t) for t in nrm]
    for e in u.run(r'^%s::setRotationVector\(' % Q, [q.ptr(), p.ptr(), phi]):
        u.expect(e.st, 'rotation by the angle around the axis', q, rv)
    for e in u.run(r'^%s::fromRotationVector\(' % Q, [o.ptr(), p.ptr(), phi]):
        u.expect(e.st, 'fromRotationVector', o, rv)
    L = a.op('sqrt', a.add(M(X, X), M(Y, Y), M(Z, Z)))
    for e in u.run(r'^%s::rotationAngle\(' % Q, [q.ptr()]):
        v.same(e.st, 'rotation angle', e.val, M(two, a.op('atan2', L, w)), a.ty)
    o3 = u.out(3)
    for e in u.run(r'^%s::rotationVector\(' % Q, [o3.ptr(), q.ptr()]):
        for c, want in ((a.lt(a.n(1e-6), L), [a.div(t, L) for t in (X, Y, Z)]), (a.lt(L, a.n(1e-17)), [one, a.n(0), a.n(0)])):
            s = e.st.copy()
            s.assume(c)
            if s.feasible():
                u.expect(s, 'unit vector of the axis', o3, want)
    return v


def unit_distance(so):
    """angular distances"""
    u = U(so, 'angular distance')
    a, v = u.a, u.v
    Q, P = re.escape(a.Q), re.escape(a.P)
    q, x = u.quat('left')
    p, y = u.quat('right')

    def cases(e, what, t, f):
        for c, w in ((a.lt(a.n(1), t), a.n(1)), (a.lt(t, a.n(-1)), a.n(-1)), (And(Not(a.lt(a.n(1), t)), Not(a.lt(t, a.n(-1)))), t)):
            s = e.st.copy()
            s.assume(c)
            if s.feasible():
                v.same(s, what, e.val, f(w), a.ty)
    d = a.dot(x, y)
    for e in u.run(r'^%s visr::rbbl::angleNormalised<%s>\(%s const' % (a.cpp, a.cpp, Q), [q.ptr(), p.ptr()]):
        for neg in (True, False):
            s = e.st.copy()
            s.assume(a.lt(d, a.n(0)) if neg else Not(a.lt(d, a.n(0))))
            t = a.neg(d) if neg else d
            for c, w in ((a.lt(a.n(1), t), a.n(1)), (Not(a.lt(a.n(1), t)), t)):
                s2 = s.copy()
                s2.assume(c)
                if s2.feasible():
                    v.same(s2, 'rotation between the orientations', e.val, a.mul(a.n(2), a.op('acos', w)), a.ty)
    l, m = u.pos('leftPosition')
    r, n = u.pos('rightPosition')
    for e in u.run(r'^%s visr::rbbl::angleNormalised<%s>\(%s const' % (a.cpp, a.cpp, P), [l.ptr(), r.ptr()]):
        cases(e, 'angle between directions', a.dot(m, n), lambda w: a.op('acos', w))
    return v


def unit_position(so):
    """vector arithmetic, rotation and translation of positions"""
    u = U(so, 'Position3D')
    a, v = u.a, u.v
    P = re.escape(a.P)
    l, x = u.pos('left')
    r, y = u.pos('right')
    q, k = u.quat('rotation')
    s = v.flt('scale', so)
    o = u.out(3)
    for op, f in ((r'\+', a.plus), ('-', a.minus)):
        for e in u.run(r'^%s visr::rbbl::operator%s<%s>\(%s const&, ' % (P, op, a.cpp, P), [o.ptr(), l.ptr(), r.ptr()]):
            u.expect(e.st, 'operator' + op[-1], o, f(x, y))
        for e in u.run(r'^%s::operator%s=\(' % (P, op), [l.ptr(), r.ptr()]):
            u.expect(e.st, 'operator%s=' % op[-1], l, f(x, y))
    for e in u.run(r'^%s visr::rbbl::operator-<%s>\(%s const&\)' % (P, a.cpp, P), [o.ptr(), l.ptr()]):
        u.expect(e.st, 'negation', o, [a.neg(t) for t in x])
    for e in u.run(r'^%s visr::rbbl::operator\*<%s>\(%s, ' % (P, a.cpp, a.cpp), [o.ptr(), s, l.ptr()]):
        u.expect(e.st, 'scaling', o, a.scale(s, x))
    for e in u.run(r'^%s::operator\*=\(%s\)' % (P, a.cpp), [l.ptr(), s]):
        u.expect(e.st, 'scaling in place', l, a.scale(s, x))
    for e in u.run(r'^%s visr::rbbl::operator/<%s>\(' % (P, a.cpp), [o.ptr(), l.ptr(), s]):
        u.expect(e.st, 'division', o, [a.div(t, s) for t in x])
    for e in u.run(r'^%s visr::rbbl::dot<%s>\(%s' % (a.cpp, a.cpp, P), [l.ptr(), r.ptr()]):
        v.same(e.st, 'dot product', e.val, a.dot(x, y), a.ty)
    for e in u.run(r'^%s::normSquare\(' % P, [l.ptr()]):
        v.same(e.st, 'squared norm', e.val, a.dot(x, x), a.ty)
    for e in u.run(r'^%s::norm\(' % P, [l.ptr()]):
        v.same(e.st, 'norm', e.val, a.op('sqrt', a.dot(x, x)), a.ty)
    rot = a.rotated(k, x)
    moved = a.plus(rot, y)
    for e in u.run(r'^%s::rotate\(' % P, [l.ptr(), q.ptr()]):
        u.expect(e.st, 'rotated position', l, rot)
        u.expect(e.st, 'rotation', q, k)
    for e in u.run(r'^void %s::translate\(|^%s::translate\(' % (P, P), [l.ptr(), r.ptr()]):
        u.expect(e.st, 'translated position', l, a.plus(x, y))
    for e in u.run(r'^%s::transform\(' % P, [l.ptr(), q.ptr(), r.ptr()]):
        u.expect(e.st, 'position is rotated, then translated', l, moved)
    for e in u.run(r'^%s visr::rbbl::rotate<' % P, [o.ptr(), l.ptr(), q.ptr()]):
        u.expect(e.st, 'rotated copy', o, rot)
        u.expect(e.st, 'rotated position is kept', l, x)
    for e in u.run(r'^%s visr::rbbl::transform<' % P, [o.ptr(), l.ptr(), q.ptr(), r.ptr()]):
        u.expect(e.st, 'transformed copy', o, moved)
    L = a.op('sqrt', a.dot(x, x))
    sil = v.bool('silentDivideByZero')
    eps = a.n(2.0 ** -23 if so == 'f' else 2.0 ** -52)
    for what, pat, dest, args in (('normalise in place', r'^%s::normalise\(' % P, l, [l.ptr(), sil]), ('normalise', r'^%s visr::rbbl::normalise<' % P, o, [o.ptr(), l.ptr(), sil])):
        for e in split_ends(v, v.call(v.find(pat), args), And(Not(sil), a.lt(L, eps)), 'throw', 'a vector close to zero'):
            u.expect(e.st, what, dest, [a.div(t, L) for t in x])
    return v


def normalised(u, throws=None):
    """normalise(q) and normalise(position) as proved: components as functions of the argument"""
    a = u.a
    fn = lambda xs: [tm.uf('normalised%d_%d' % (len(xs), k), tuple(xs), a.so) for k in range(len(xs))]

    def mk(k):
        def f(c, res, x, *flags):
            c.require(eq(flags[-1], FALSE) if flags[-1].sort == 'B' else eq(flags[-1], I(0)), 'division by zero is reported')
            if k == 4:
                c.require(eq(flags[0], FALSE) if flags[0].sort == 'B' else eq(flags[0], I(0)), 'the sign is kept')
            src = c.st.resolve(x)
            xs = [c.rd(src.plus(i * a.w), a.ty) for i in range(k)]
            small = tm.uf('small%d' % k, tuple(xs), 'B')
            c.case(small).throw('_ZTISt13runtime_error')
            o = c.case(Not(small))
            dst = c.st.resolve(res)
            for i, t in enumerate(fn(xs)):
                o.put(dst.plus(i * a.w), a.ty, t)
        return f
    for cls, k in ((a.Q, 4), (a.P, 3)):
        u.v.contract(r'^%s visr::rbbl::normalise<%s>\(%s const' % (re.escape(cls), a.cpp, re.escape(cls)), mk(k), 'normalise')
    return fn


def unit_between(so):
    """angles and interpolation between arbitrary orientations or positions"""
    u = U(so, 'angle and interpolateSpherical')
    a, v = u.a, u.v
    fn = normalised(u)
    small = lambda xs: tm.uf('small%d' % len(xs), tuple(xs), 'B')
    t = v.flt('position', so)
    one = a.n(1)
    eps = a.n(2.0 ** -23 if so == 'f' else 2.0 ** -52)
    for cls, k in ((a.Q, 4), (a.P, 3)):
        C = re.escape(cls)
        q, x = (u.quat if k == 4 else u.pos)('first')
        p, y = (u.quat if k == 4 else u.pos)('second')
        for r_ in (q, p):
            r_.readonly = True
        X, Y = fn(x), fn(y)
        d = a.dot(X, Y)
        for nm, args in (('angle', [q.ptr(), p.ptr()]), ('interpolateSpherical', [u.out(k).ptr(), q.ptr(), p.ptr(), t])):
            pat = r'visr::rbbl::%s<%s>\(%s const' % (nm, a.cpp, C)
            for e in split_ends(v, v.call(v.find(pat), args), Or(small(x), small(y)), 'throw', 'an argument close to zero'):
                for lo, hi, w in ((FALSE, TRUE, one), (TRUE, FALSE, a.n(-1)), (FALSE, FALSE, d)):
                    s = e.st.copy()
                    for c, b in ((a.lt(a.n(-1), d), lo), (a.lt(d, one), hi)):
                        s.assume(Not(c) if b is TRUE else c)
                    if not s.feasible():
                        continue
                    if nm == 'angle':
                        if k == 3:
                            v.same(s, 'angle between the directions', e.val, a.op('acos', w), a.ty)
                            continue
                        for neg in (True, False):
                            s2 = s.copy()
                            s2.assume(a.lt(d, a.n(0)) if neg else Not(a.lt(d, a.n(0))))
                            if s2.feasible():
                                v.same(s2, 'rotation between the orientations', e.val, a.mul(a.n(2), a.op('acos', one if lo is TRUE else a.neg(w) if neg else w)), a.ty)
                        continue
                    if lo is TRUE:     # opposite directions: no unique great circle
                        continue
                    om = a.op('acos', w)
                    if hi is TRUE:
                        s.assume(tm.fop('feq', (om, a.n(0)), 'B'))
                    near = a.lt(om, eps)
                    so_ = a.op('sin', om)
                    f1, f2 = a.div(a.op('sin', a.mul(a.sub(one, t), om)), so_), a.div(a.op('sin', a.mul(t, om)), so_)
                    for b in (True, False):
                        s2 = s.copy()
                        s2.assume(near if b else Not(near))
                        if not s2.feasible():
                            continue
                        if b:
                            want = a.plus(a.scale(a.sub(one, t), x), a.scale(t, y))
                        elif k == 4:
                            want = a.plus(a.scale(f1, x), a.scale(f2, y))
                        else:
                            rad = a.add(a.mul(a.sub(one, t), a.op('sqrt', a.dot(x, x))), a.mul(t, a.op('sqrt', a.dot(y, y))))
                            want = a.scale(rad, a.plus(a.scale(f1, X), a.scale(f2, Y)))
                        for i, g in enumerate(want):
                            v.same(s2, 'interpolated along the great circle', s2.load(args[0].plus(i * a.w), a.ty, ''), g, a.ty)
    return v


def unit_listener():
    """ListenerPosition: setters, rotation and translation of position and orientation"""
    u = U('f', 'ListenerPosition', (LP, QU, PO))
    a, v = u.a, u.v
    c = Lay(LP).cls('visr::pml::ListenerPosition')
    op, oq = c['mPosition'][0], c['mOrientation'][0]
    o = v.reg(Region('listener', size=c['#size']))
    x, k = [v.flt('position' + t, 'f') for t in 'XYZ'], [v.flt('orientation' + t, 'f') for t in 'WXYZ']
    for i, t in enumerate(x):
        v.st.store(o.ptr().plus(op + 4 * i), a.ty, t, 'setup')
    for i, t in enumerate(k):
        v.st.store(o.ptr().plus(oq + 4 * i), a.ty, t, 'setup')
    rest = [(c[f][0], b) for f, b in (('mTimeNs', 64), ('mFaceID', 32), ('mNumberOfListeners', 64))]
    num = [v.int('field%d' % i, 0, 1 << 20) for i in range(3)]
    for (off, b), t in zip(rest, num):
        v.st.store(o.ptr().plus(off), ('i', b), t, 'setup')
    q, y = u.quat('rotation')
    p, d = u.pos('translation')
    s3 = [v.flt('new' + t, 'f') for t in 'XYZ']
    L = r'^visr::pml::ListenerPosition::'
    rot = a.rotated(y, x)
    turned = a.prod(y, k)
    for nm, args, wp, wq in (('translate', [p.ptr()], a.plus(x, d), k), ('rotate', [q.ptr()], rot, turned), ('rotatePosition', [q.ptr()], rot, k), ('rotateOrientation', [q.ptr()], x, turned),
                             ('transform', [q.ptr(), p.ptr()], a.plus(rot, d), turned), ('setOrientationQuaternion', [q.ptr()], x, y),
                             ('set', s3, s3, k), ('setX', s3[:1], [s3[0]] + x[1:], k), ('setY', s3[:1], [x[0], s3[0], x[2]], k), ('setZ', s3[:1], x[:2] + s3[:1], k)):
        for e in u.run(L + nm + r'\(', [o.ptr()] + args):
            u.expect(e.st, nm + ': position', o, wp, op)
            u.expect(e.st, nm + ': orientation', o, wq, oq)
            for (off, b), t in zip(rest, num):
                v.same(e.st, nm + ': other fields', e.st.load(o.ptr().plus(off), ('i', b), ''), t)
    for nm, args in (('setPosition', [p.ptr()]), ('setPosition', d)):
        for e in u.run(L + nm + (r'\(visr' if len(args) == 1 else r'\(float'), [o.ptr()] + args):
            u.expect(e.st, nm + ': position', o, d, op)
            u.expect(e.st, nm + ': orientation', o, k, oq)
    for i, (nm, b) in enumerate((('setTimeNs', 64), ('setFaceID', 32), ('setNumberOfListeners', 64))):
        for e in u.run(L + nm + r'\(', [o.ptr(), v.int('new' + nm, 0, 1 << 20)]):
            for j, ((off, bb), t) in enumerate(zip(rest, num)):
                v.same(e.st, nm, e.st.load(o.ptr().plus(off), ('i', bb), ''), tm.var('new' + nm, 'I') if i == j else t)
            u.expect(e.st, nm + ': position', o, x, op)
            u.expect(e.st, nm + ': orientation', o, k, oq)
    return v


I64, I32 = ('i', 64), ('i', 32)
NOID = (1 << 32) - 1


def unit_decoder():
    """PositionDecoder::process: the newest message of the smallest face identifier, rotated and moved"""
    u = U('f', 'PositionDecoder', (PD, LP, QU, PO))
    a, v = u.a, u.v
    st = v.st
    lay = Lay(PD)
    o = Obj(v, 'decoder', 'visr::rcl::PositionDecoder', lay)
    c = lay.cls('visr::pml::ListenerPosition')
    op, oq, ot, of, on = [c[f][0] for f in ('mPosition', 'mOrientation', 'mTimeNs', 'mFaceID', 'mNumberOfListeners')]
    off = [v.flt('offset' + t, 'f') for t in 'XYZ']
    rot = [v.flt('rotation' + t, 'f') for t in 'WXYZ']
    for i, t in enumerate(off):
        st.store(o.p('cOffsetPosition').plus(4 * i), a.ty, t, 'setup')
    for i, t in enumerate(rot):
        st.store(o.p('cOrientationRotation').plus(4 * i), a.ty, t, 'setup')
    n = v.int('messages', 0, 1 << 20)
    # message j: valid or not, and its content
    valid = lambda j: tm.uf('valid', (j,), 'B')
    face, time, num = [lambda j, k=k: tm.uf(k, (j,), 'I') for k in ('face', 'time', 'listeners')]
    pos = lambda j: [tm.uf('messageX%d' % i, (j,), 'f') for i in range(3)]
    ori = lambda j: [tm.uf('messageQ%d' % i, (j,), 'f') for i in range(4)]
    st.facts = tuple(st.facts) + (Fact('face', lambda j: And(ge(face(j), I(0)), Implies(valid(j), lt(face(j), I(NOID))), le(face(j), I(NOID)))),
                                  Fact('time', lambda j: And(ge(time(j), I(0)), lt(time(j), I(1 << 64)))),
                                  Fact('listeners', lambda j: And(ge(num(j), I(0)), lt(num(j), I(1 << 64)))))
    g = ghost(v, 5)    # messages read; index held by the string; by the stream; number of swaps
    READ, STR, STREAM, SWAP, HELD = [g.at(i) for i in range(5)]
    queue = v.reg(Region('queue', nmem=1, esize=1, extent=lambda q, k: And(ge(q, I(0)), lt(q, n), eq(k, I(0)))))
    text = v.reg(Region('text', nmem=1, esize=1, extent=lambda q, k: And(ge(q, I(0)), lt(q, n), eq(k, I(0)))))
    C = v.contract
    Q = r'visr::pml::MessageQueueProtocol::'
    C(Q + r'InputBase::empty\(', lambda cc, t, *r: cc.case().ret(ite(eq(cc.rd(READ, I64), n), I(1), I(0))), 'MessageQueue::empty')
    C(Q + r'InputBase::size\(', lambda cc, t, *r: cc.case().ret(sub(n, cc.rd(READ, I64))), 'MessageQueue::size')

    def front(cc, t, *r):
        cc.require(lt(cc.rd(READ, I64), n), 'queue is not empty')
        cc.case().ret(Ptr(queue, (cc.rd(READ, I64),), 0))
    C(Q + r'Input<.*>::front\(', front, 'MessageQueue::front')

    def pop(cc, t, *r):
        cc.require(lt(cc.rd(READ, I64), n), 'queue is not empty')
        cc.case().put(READ, I64, add(cc.rd(READ, I64), I(1)))
    C(Q + r'InputBase::pop\(', pop, 'MessageQueue::pop')
    C(r'visr::pml::StringParameter::str\(', lambda cc, t, *r: cc.case().ret(Ptr(text, (cc.st.resolve(t).mem[0],), 0)), 'StringParameter::str')
    S = r'^std::__cxx11::basic_string'
    C(S + r'<char, std::char_traits<char>, std::allocator<char> >::basic_string\(char const\*', lambda cc, t, p, *r: cc.case().put(STR, I64, cc.st.resolve(p).mem[0]), 'std::string')
    C(S + r'stream<.*>::basic_stringstream\(std::__cxx11::basic_string', lambda cc, t, *r: cc.case().put(STREAM, I64, cc.rd(STR, I64)), 'std::stringstream')
    C(S + r'stream<.*>::~basic_stringstream\(', lambda cc, t, *r: cc.case(), '~stringstream')
    C(S + r'<char, std::char_traits<char>, std::allocator<char> >::~basic_string\(', lambda cc, t, *r: cc.case(), '~string')

    def parse(cell):
        def f(cc, t, *r):
            j = cc.rd(cell, I64)
            cc.require(eq(j, cc.rd(READ, I64)), 'the current message is decoded')
            cc.case(Not(valid(j))).throw('_ZTISt9exception')
            k = cc.case(valid(j))
            t = cc.st.resolve(t)
            for i, x in enumerate(pos(j)):
                k.put(t.plus(op + 4 * i), a.ty, x)
            for i, x in enumerate(ori(j)):
                k.put(t.plus(oq + 4 * i), a.ty, x)
            k.put(t.plus(ot), I64, time(j)).put(t.plus(of), I32, face(j)).put(t.plus(on), I64, num(j))
        return f
    C(r'visr::pml::ListenerPosition::parseJson\(std::basic_istream', parse(STREAM), 'ListenerPosition::parseJson')
    C(r'visr::pml::ListenerPosition::parseJson\(std::__cxx11::basic_string', parse(STR), 'ListenerPosition::parseJson')
    C(r'std::basic_ostream<char, std::char_traits<char> >::operator<<\(', lambda cc, t, *r: cc.case().ret(t), 'ostream output')
    C(r'std::operator<< ?<std::char_traits<char> >\(|std::basic_ostream.* std::endl<', lambda cc, t, *r: cc.case().ret(t), 'ostream output')
    C(r'^visr::pml::EmptyParameterConfig::~?EmptyParameterConfig\(', lambda cc, t, *r: cc.case(), 'EmptyParameterConfig')
    C(r'^visr::ParameterBase::~?ParameterBase\(', lambda cc, t, *r: cc.case(), 'ParameterBase')
    C(r'^visr::ParameterBase::operator=\(', lambda cc, t, *r: cc.case().ret(t), 'ParameterBase')
    vt = v.reg(Region('exceptionVtable', esize=8, leaf=8, leafsort='p', extent=lambda i: And(ge(i, I(0)), lt(i, I(4)))))
    out = v.reg(Region('output', size=c['#size']))
    C(r'visr::pml::DoubleBufferingProtocol::Output<.*>::data\(', lambda cc, t, *r: cc.case().ret(out.ptr()), 'output data')
    C(r'visr::pml::DoubleBufferingProtocol::OutputBase::data\(', lambda cc, t, *r: cc.case().ret(out.ptr()), 'output data')
    C(r'visr::pml::DoubleBufferingProtocol::OutputBase::swapBuffers\(', lambda cc, t, *r: cc.case().put(SWAP, I64, add(cc.rd(SWAP, I64), I(1))), 'swapBuffers')
    j0 = tm.fresh('anyMessage', 'I')
    st.assume(And(ge(j0, I(0)), lt(j0, n)))

    def better(w, j):
        return Or(lt(face(w), face(j)), And(eq(face(w), face(j)), Or(gt(time(w), time(j)), And(eq(time(w), time(j)), ge(w, j)))))
    none = lambda q: eq(q['w'], I(-1))

    def constraint(q):
        return And(ge(q['j'], I(0)), le(q['j'], n), Or(none(q), And(ge(q['w'], I(0)), lt(q['w'], q['j']), valid(q['w']))),
                   Implies(And(lt(j0, q['j']), valid(j0)), And(Not(none(q)), better(q['w'], j0))))

    def nxt(e, q):
        j, w = q['j'], q['w']
        take = And(valid(j), Or(none(q), And(better(j, w))))
        return {'j': add(j, I(1)), 'w': ite(take, j, w)}
    sel = lambda q, d, f: ite(none(q), d, f(q['w']))
    inv = Inv(v, ['j', 'w'], {'j': I(0), 'w': I(-1)}, nxt, constraint, phis=[lambda q: sel(q, I(NOID), face), lambda q: sel(q, I(0), time)], measure=lambda q: sub(n, q['j']))

    def cells(s):
        r = [x for x in (GREG[i] for i in s.mem) if x.local and 'foundPos' in x.name]
        if len(r) != 1:
            raise Unsupported('selected message')
        p = Ptr(r[0], (), 0)
        cs = [(READ, I64, lambda q: q['j']), (STR, I64, lambda q: sub(q['j'], I(1))), (STREAM, I64, lambda q: sub(q['j'], I(1)))]
        for i in range(3):
            cs.append((p.plus(op + 4 * i), a.ty, lambda q, i=i: sel(q, a.n(0), lambda w: pos(w)[i])))
        for i in range(4):
            cs.append((p.plus(oq + 4 * i), a.ty, lambda q, i=i: sel(q, a.n(0 if i else 1), lambda w: ori(w)[i])))
        for f, ty, fn, d in ((ot, I64, time, 0), (of, I32, face, 0), (on, I64, num, 1)):
            cs.append((p.plus(f), ty, lambda q, fn=fn, d=d: sel(q, I(d), fn)))
        return cs
    inv.find_cells = cells
    v.st.store(STR, I64, I(-1), 'setup')
    v.st.store(STREAM, I64, I(-1), 'setup')
    v.invariant(r'PositionDecoder::process', inv)
    for e in only(v, v.call(v.find(r'^visr::rcl::PositionDecoder::process\('), [o.ptr()]), 'ret'):
        q = inv.gs[-1]
        s = e.st.copy()
        v.oblige(s, 'every message is consumed', eq(s.load(READ, I64, ''), n))
        sw = s.load(SWAP, I64, '')
        w = q['w']
        v.oblige(s, 'sent once if there is a valid message, not at all otherwise', And(eq(sw, ite(none(q), I(0), I(1))), Implies(eq(sw, I(0)), Not(valid(j0)))))
        s.assume(eq(sw, I(1)))
        if not s.feasible():
            continue
        v.oblige(s, 'newest message of the smallest face identifier', And(valid(w), ge(w, I(0)), lt(w, n), Implies(valid(j0), better(w, j0))))
        u.expect(s, 'position is rotated and moved', out, a.plus(a.rotated(rot, pos(w)), off), op)
        u.expect(s, 'orientation is rotated', out, a.prod(rot, ori(w)), oq)
        for f, ty, fn in ((ot, I64, time), (of, I32, face), (on, I64, num)):
            v.same(s, 'time stamp, face identifier and number of listeners', s.load(out.ptr().plus(f), ty, ''), fn(w))
    return v


def units(sel=None):
    out = []
    for so in 'fd':
        t = {'f': 'float', 'd': 'double'}[so]
        for nm, f in (('product', unit_product), ('arithmetic', unit_linear), ('norm', unit_norm), ('normalise', unit_normalise), ('formats', unit_angles), ('distance', unit_distance), ('position', unit_position)):
            out.append(('%s<%s>' % (nm, t), lambda f=f, so=so: f(so)))
        out.append(('between<%s>' % t, lambda so=so: unit_between(so)))
    out.append(('listener', unit_listener))
    out.append(('decoder', unit_decoder))
    return out
