"""panning::VBAP and rcl::PanningCalculator: panning gains."""
from irv.unit import *
from irv.solver import Fact
from irv.loops import Inv
from irv.realpoly import identity
from .arrays import only, split_ends, Mat
from .comps import mkmat, mkarr
from .efl import use_kernels
from .component import Comp
from .flow import vec, ghost

F = FTY['f']
VB = 'libpanning/VBAP.cpp'
PC = 'librcl/panning_calculator.cpp'
INVALID = (1 << 64) - 1
zero, one = fnum(0.0, 'f'), fnum(1.0, 'f')
flt = lambda a, b: tm.fop('flt', (a, b), 'B')
fle = lambda a, b: tm.fop('fle', (a, b), 'B')
sqrt = lambda a: tm.fop('sqrt', (a,), 'f')


class Vbap:
    """a VBAP object in an arbitrary valid state"""

    def __init__(self, v, dim2, gains=True):
        self.v, self.dim2 = v, dim2
        self.lay = Lay(VB)
        o = self.o = Obj(v, 'vbap', 'visr::panning::VBAP', self.lay)
        self.nreg, self.nvirt, self.ntri = v.int('regularLoudspeakers', 1, 1 << 20), v.int('virtualLoudspeakers', 0, 1 << 20), v.int('triplets', 0, 1 << 20)
        self.ntot = add(self.nreg, self.nvirt)
        o.set('is2D', I(1 if dim2 else 0), ('i', 8))
        for f, x in (('numTotLoudspeakers', self.ntot), ('numRegLoudspeakers', self.nreg), ('numVirtLoudspeakers', self.nvirt), ('numTriplets', self.ntri)):
            o.set(f, x)
        m = lambda f, r, c: mkmat(v, f, self, o.sub(f), r, c)
        self.inv, self.pos, self.rer = m('mInvMatrix', self.ntri, I(9)), m('mPositions', self.ntot, I(3)), m('mReroutingMatrix', self.nvirt, self.nreg)
        self.tri = v.reg(Region('triplets', esize=24, leaf=8, leafsort='i', extent=lambda i: And(ge(i, I(0)), lt(i, self.ntri))))
        self.tri.readonly = self.pos.reg.readonly = self.rer.reg.readonly = True
        vec(v, o, 'mTriplets', self.tri, self.ntri)
        self.gain = v.array('gain', 'f', self.ntot)
        vec(v, o, 'mGain', self.gain, self.ntot)
        self.lis = [v.flt('listener' + a, 'f') for a in 'XYZ']
        for k in range(3):
            v.st.store(o.p('mListenerPos').plus(4 * k), F, self.lis[k], 'setup')
        t = lambda j: [tm.uf('triplets' + s, (j,), 'I') for s in ('', '.8', '.16')]
        self.t = t
        g = lambda j: And(ge(j, I(0)), lt(j, self.ntri))
        used = 2 if dim2 else 3

        def valid(j):
            x = t(j)
            return Implies(g(j), And(*[And(ge(y, I(0)), lt(y, self.ntot)) for y in x[:used]], *[ne(x[a], x[b]) for a in range(used) for b in range(a)]))
        v.st.facts = tuple(v.st.facts) + (Fact('triplets', valid, 1, 'loudspeakers of a triplet are distinct and exist'),)
        use_kernels(v)

    def g(self, st, k):
        return st.read_field(self.gain, 0, 4, F, (k,))


def unit_normalise():
    v = V([VB], 'VBAP normalise (vector)', ('uf', 'real'))
    a = v.array('a', 'f', I(3))
    x = [v.st.read_field(a, 0, 4, F, (I(k),)) for k in range(3)]
    l = sqrt(fadd(fadd(fmul(x[0], x[0]), fmul(x[1], x[1])), fmul(x[2], x[2])))
    big = fle(fnum(2.0 ** -23, 'f'), l)
    for e in only(v, v.call(v.find(r'^visr::panning::\(anonymous namespace\)::normalise\('), [a.at(I(k)) for k in range(3)]), 'ret'):
        for k in range(3):
            s = e.st.copy()
            s.assume(big)
            if s.feasible():
                v.same(s, 'component divided by the length', s.read_field(a, 0, 4, F, (I(k),)), fdiv(x[k], l), F)
            s = e.st.copy()
            s.assume(Not(big))
            if s.feasible():
                v.same(s, 'vector of length zero is kept', s.read_field(a, 0, 4, F, (I(k),)), x[k], F)
    return v


def norm_contract(v):
    """normalise() replaces its arguments by the unit vector, written as three functions of the old values"""
    def spec(c, a, b, d):
        ps = [c.st.resolve(p) for p in (a, b, d)]
        x = [c.rd(p, F) for p in ps]
        o = c.case()
        for k, p in enumerate(ps):
            o.put(p, F, tm.uf('unit%d' % k, tuple(x), 'f'))
    v.contract(r'^visr::panning::\(anonymous namespace\)::normalise\(', spec, 'normalise')


def unit_inverse(dim2):
    v = V([VB], 'VBAP::calcInvMatrices (%dD)' % (2 if dim2 else 3), ('uf', 'real'))
    w = Vbap(v, dim2)
    norm_contract(v)
    j = tm.fresh('triplet', 'I')
    st0 = v.st.copy()
    for e in only(v, v.call(v.find(r'^visr::panning::VBAP::calcInvMatrices\('), [w.o.ptr()]), 'ret'):
        s = e.st.copy()
        s.assume(And(ge(j, I(0)), lt(j, w.ntri)))
        t = [s.u(s.read_field(w.tri, 8 * k, 8, I64, (j,)), 64) for k in range(3)]
        L = []
        for k in range(3):
            p = [zero, zero, one] if dim2 and k == 2 else [w.pos.x(s, t[k], I(c)) for c in range(3)]
            d = [fsub(p[c], w.lis[c]) for c in range(3)]
            L.append([tm.uf('unit%d' % c, tuple(d), 'f') for c in range(3)])
        m = fmul
        det = fadd(fsub(m(L[0][0], fsub(m(L[1][1], L[2][2]), m(L[1][2], L[2][1]))), m(L[0][1], fsub(m(L[1][0], L[2][2]), m(L[1][2], L[2][0])))),
                   m(L[0][2], fsub(m(L[1][0], L[2][1]), m(L[1][1], L[2][0]))))
        s.assume(Not(tm.fop('feq', (det, zero), 'B')))
        iv = [given_nonzero(w.inv.x(s, j, I(k)), det) for k in range(9)]
        for r in range(3):
            for c in range(3):
                # loudspeaker r expressed in the base of the triplet is the unit vector r
                got = fadd(fadd(m(iv[3 * c], L[r][0]), m(iv[3 * c + 1], L[r][1])), m(iv[3 * c + 2], L[r][2]))
                v.same(s, 'gain %d of the direction of loudspeaker %d' % (c, r), got, fdiv(det, det) if r == c else zero, F)
    return v


def given_nonzero(t, det):
    """t simplified under the assumption that det (a polynomial) is not zero"""
    seen, memo = {}, {}
    tm.subterms(t, seen)
    for x in list(seen.values()):
        if x.op != 'ite':
            continue
        c, neg = x.args[0], False
        if c.op == 'not':
            c, neg = c.args[0], True
        if c.op == 'fop' and c.args[0] == 'feq' and any(identity(eq(fsub(c.args[a], c.args[3 - a]), det)) for a in (1, 2)):
            memo[x.id] = x.args[1 if neg else 2]
    return tm.subst(t, {y: y for y in tm.fvs(t)}, memo)


def gains_of(w, st, p, j):
    iv = [w.inv.x(st, j, I(k)) for k in range(9)]
    return [fadd(fadd(fmul(p[0], iv[3 * r]), fmul(p[1], iv[3 * r + 1])), fmul(p[2], iv[3 * r + 2])) for r in range(3)]


def unit_plain(dim2):
    v = V([VB], 'VBAP::calcPlainVBAP (%dD)' % (2 if dim2 else 3), ('uf', 'real'))
    w = Vbap(v, dim2)
    w.inv.reg.readonly = True
    pos = [v.flt('pos' + a, 'f') for a in 'XYZ']
    plane = v.bool('planeWave')
    p = [ite(plane, pos[k], fsub(pos[k], w.lis[k])) for k in range(3)]
    if dim2:
        p[2] = zero
    st0 = v.st.copy()
    G = lambda j: gains_of(w, st0, p, j)
    inside = lambda j: And(*[fle(zero, x) for x in G(j)[:2 if dim2 else 3]])
    biggest = lambda a, b: ite(flt(a, b), b, a)   # std::max

    def neg(j):
        # negative beyond rounding: a hundred-thousandth of the largest gain
        a = [tm.fop('fabs', (x,), 'f') for x in G(j)]
        limit = fmul(tm.fnum(-1e-5, 'f'), biggest(a[0], biggest(a[1], a[2])))
        return [ite(flt(x, limit), I(1), I(0)) for x in G(j)]
    two = lambda j: And(Not(inside(j)), ge(add(*neg(j)), I(2)))
    k0 = tm.fresh('anyTriplet', 'I')
    v.st.assume(And(ge(k0, I(0)), lt(k0, w.ntri)))
    none = lambda g: eq(g['m'], I(INVALID))

    def constraint(g):
        return And(ge(g['j'], I(0)), le(g['j'], w.ntri), Or(none(g), And(ge(g['m'], I(0)), lt(g['m'], g['j']))),
                   Implies(lt(k0, g['j']), Not(inside(k0))),
                   Implies(And(none(g), lt(k0, g['j'])), two(k0)),
                   Implies(Not(none(g)), Not(two(g['m']))))
    inv = Inv(v, ['j', 'm'], {'j': I(0), 'm': I(INVALID)}, lambda e, g: {'j': add(g['j'], I(1)), 'm': g['m']}, constraint,
              phis=[lambda g: g['j'], lambda g: g['m']] + [lambda g, r=r: ite(none(g), zero, G(g['m'])[r]) for r in range(3)],
              measure=lambda g: sub(w.ntri, g['j']), witness={'m': 1}, free_regs='f')
    v.invariant('VBAP::calcPlainVBAP', inv)
    for e in v.call(v.find(r'^visr::panning::VBAP::calcPlainVBAP\('), [w.o.ptr()] + pos + [plane]):
        s = e.st.copy()
        if e.kind == 'throw':
            v.oblige(s, 'no gains only if every triplet has two negative gains', two(k0))
            continue
        k = tm.fresh('loudspeaker', 'I')
        s.assume(And(ge(k, I(0)), lt(k, w.ntot)))
        goals = lambda m: plain_post(w, s, k, m, G, inside, two, k0)
        for m in [g[x] for g in inv.gs for x in 'jm']:
            if all(s.proves(g) for _, g in goals(m)):
                break
        for lab, g in goals(m):
            v.oblige(s, lab, g)
    return v


def plain_post(w, s, k, m, G, inside, two, k0):
    """m: the chosen triplet"""
    g, t = G(m), w.t(m)
    want = ite(eq(k, t[0]), g[0], ite(eq(k, t[1]), g[1], zero if w.dim2 else ite(eq(k, t[2]), g[2], zero)))
    return [('the chosen triplet exists', And(ge(m, I(0)), lt(m, w.ntri))),
            ('at most one gain of the chosen triplet is negative', Not(two(m))),
            ('a triplet that contains the source is preferred', Implies(inside(k0), inside(m))),
            ('gains of the chosen triplet, zero elsewhere', eq(w.g(s, k), want))]


def rerouted(w, st, i):
    """gain of regular loudspeaker i after the virtual loudspeakers have been distributed"""
    kk, acc = tm.var('?kk', 'I'), tm.var('?acc', 'f')
    return tm.fold(w.nvirt, [acc], [w.g(st, i)], [fadd(acc, fmul(w.rer.x(st, kk, i), w.g(st, add(w.nreg, kk))))], 0, kk)


def unit_reroute():
    v = V([VB], 'VBAP::applyRerouting', ('uf', 'real'))
    w = Vbap(v, False)
    st0 = v.st.copy()
    for e in only(v, v.call(v.find(r'^visr::panning::VBAP::applyRerouting\('), [w.o.ptr()]), 'ret'):
        k = tm.fresh('loudspeaker', 'I')
        s = e.st.copy()
        s.assume(And(ge(k, I(0)), lt(k, w.nreg)))
        v.same(s, 'regular loudspeakers receive their share of the virtual ones', w.g(s, k), rerouted(w, st0, k), F)
    return v


def plain_contract(v, w, pos, plane):
    """calcPlainVBAP and applyRerouting as functions of the position"""
    def plain(c, this, x, y, z, p):
        c.require(And(eq(x, pos[0]), eq(y, pos[1]), eq(z, pos[2]), eq(c.b(p) if hasattr(c, 'b') else p, plane)), 'position and kind of the source are passed on')
        o = c.case(Not(tm.var('noTriplet', 'B')))
        o.fill(w.gain.ptr(), w.ntot, F, lambda k: tm.uf('plainGain', (k,), 'f'))
        c.case(tm.var('noTriplet', 'B')).throw('_ZTISt13runtime_error')

    def reroute(c, this):
        s = c.st.copy()
        k = tm.fresh('loudspeaker', 'I')
        s.assume(And(ge(k, I(0)), lt(k, w.ntot)))
        v.same(s, 'rerouting follows the panning of all loudspeakers', w.g(s, k), tm.uf('plainGain', (k,), 'f'), F)
        c.case().fill(w.gain.ptr(), w.nreg, F, lambda k: tm.uf('reroutedGain', (k,), 'f'))
    v.contract(r'^visr::panning::VBAP::calcPlainVBAP\(', plain, 'VBAP::calcPlainVBAP')
    v.contract(r'^visr::panning::VBAP::applyRerouting\(', reroute, 'VBAP::applyRerouting')


def power_of(x, n):
    kk, acc = tm.var('?kk', 'I'), tm.var('?acc', 'f')
    return tm.fold(n, [acc], [zero], [fadd(acc, fmul(x(kk), x(kk)))], 0, kk)


EPS = fnum(2.0 ** -23, 'f')
fmaxs = lambda a, b: ite(flt(a, b), b, a)


def unit_gains(normalised):
    nm = 'calculateGains' if normalised else 'calculateGainsUnNormalised'
    v = V([VB], 'VBAP::%s' % nm, ('uf', 'real'))
    w = Vbap(v, False)
    pos = [v.flt('pos' + a, 'f') for a in 'XYZ']
    plane = v.bool('planeWave')
    out = v.array('gains', 'f', w.nreg)
    plain_contract(v, w, pos, plane)
    R = lambda k: tm.uf('reroutedGain', (k,), 'f')
    if normalised:
        def power(c, i, o, n):
            c.require(tm.B(c.st.resolve(i).reg is w.gain and c.st.resolve(o).reg is out), 'normalisation of the computed gains into the result')
            c.require(And(eq(c.st.resolve(i).off, I(0)), eq(c.st.resolve(o).off, I(0)), eq(n, w.nreg)), 'normalisation over the regular loudspeakers')
            s, k = c.st.copy(), tm.fresh('loudspeaker', 'I')
            s.assume(And(ge(k, I(0)), lt(k, w.nreg)))
            v.same(s, 'normalisation follows rerouting', w.g(s, k), R(k), F)
            c.case().fill(c.st.resolve(o), n, F, lambda k: tm.uf('normalised', (k,), 'f'))
        v.contract(r'^visr::panning::\(anonymous namespace\)::powerNormalisation\(', power, 'powerNormalisation')
    no = tm.var('noTriplet', 'B')
    for e in split_ends(v, v.call(v.find(r'^visr::panning::VBAP::%s\(' % nm), [w.o.ptr()] + pos + [out.ptr(), plane]), no, 'throw', 'exception if no triplet fits'):
        k = tm.fresh('loudspeaker', 'I')
        s = e.st.copy()
        s.assume(And(ge(k, I(0)), lt(k, w.nreg)))
        v.same(s, 'gain of every regular loudspeaker', s.read_field(out, 0, 4, F, (k,)), tm.uf('normalised', (k,), 'f') if normalised else R(k), F)
    return v


def unit_power():
    v = V([VB], 'VBAP powerNormalisation', ('uf', 'real'))
    n = v.int('numberOfElements', 0, 1 << 30)
    i, o = v.array('in', 'f', n), v.array('out', 'f', n)
    i.readonly = True
    use_kernels(v)
    X = lambda k: v.st.read_field(i, 0, 4, F, (k,))
    f = fdiv(one, fmaxs(sqrt(power_of(X, n)), EPS))
    for e in only(v, v.call(v.find(r'^visr::panning::\(anonymous namespace\)::powerNormalisation\([^)]*\)$'), [i.ptr(), o.ptr(), n]), 'ret'):
        k = tm.fresh('k', 'I')
        s = e.st.copy()
        s.assume(And(ge(k, I(0)), lt(k, n)))
        v.same(s, 'gain divided by the root of the power', s.read_field(o, 0, 4, F, (k,)), fmul(f, X(k)), F)
    return v


def unit_listener():
    v = V([VB], 'VBAP::setListenerPosition', ('uf',))
    w = Vbap(v, False)
    p = [v.flt('new' + a, 'f') for a in 'XYZ']
    g = ghost(v)

    def calc(c, this):
        for k in range(3):
            c.require(eq(c.rd(w.o.p('mListenerPos').plus(4 * k), F), p[k]), 'matrices are computed for the new position')
        c.case().put(g.at(0), I64, I(1))
    v.contract(r'^visr::panning::VBAP::calcInvMatrices\(', calc, 'VBAP::calcInvMatrices')
    for e in only(v, v.call(v.find(r'^visr::panning::VBAP::setListenerPosition\('), [w.o.ptr()] + p), 'ret'):
        v.oblige(e.st, 'matrices are recomputed', eq(e.st.load(g.at(0), I64, ''), I(1)))
        for k in range(3):
            v.same(e.st, 'listener position', e.st.load(w.o.p('mListenerPos').plus(4 * k), F, ''), p[k], F)
    return v


def unit_ctor(dim2):
    v = V([VB], 'VBAP constructor (%dD)' % (2 if dim2 else 3), ('uf',))
    w = Vbap(v, dim2)
    for r in (w.tri, w.pos.reg, w.rer.reg):
        r.readonly = False
    v.st.facts = ()
    for f in ('is2D',):
        w.o.set(f, I(7), ('i', 8))
    for f in ('numTotLoudspeakers', 'numRegLoudspeakers', 'numVirtLoudspeakers', 'numTriplets'):
        w.o.set(f, v.int('garbage' + f, 0, 1 << 40))
    lsa = Obj(v, 'array', 'visr::panning::LoudspeakerArray', w.lay)
    lsa.set('m_is2D', I(1 if dim2 else 0), ('i', 8))
    lsa.set('m_isInfinite', ite(v.bool('infinite'), I(1), I(0)), ('i', 8))
    xyz = v.reg(Region('speakerPositions', esize=16, leaf=4, leafsort='f', extent=lambda i: And(ge(i, I(0)), lt(i, w.ntot))))
    tri = v.reg(Region('arrayTriplets', esize=24, leaf=8, leafsort='i', extent=lambda i: And(ge(i, I(0)), lt(i, w.ntri))))
    chn = v.reg(Region('channels', esize=8, leaf=8, leafsort='i', extent=lambda i: And(ge(i, I(0)), lt(i, w.nreg))))
    rer = mkmat(v, 'reroutingCoefficients', w, lsa.sub('m_reRoutingCoeff'), w.nvirt, w.nreg)
    for r in (xyz, tri, chn, rer.reg):
        r.readonly = True
    vec(v, lsa, 'm_position', xyz, w.ntot)
    vec(v, lsa, 'm_triplet', tri, w.ntri)
    vec(v, lsa, 'm_channel', chn, w.nreg)
    mats = {w.lay.off('visr::panning::VBAP', f)[0]: m for f, m in (('mInvMatrix', w.inv), ('mPositions', w.pos), ('mReroutingMatrix', w.rer))}
    B = r'^visr::efl::BasicMatrix<float>::'

    def mresize(c, this, r, n):
        off = tm.const_of(c.st.resolve(this).off)
        m = mats.get(off)
        c.require(tm.B(m is not None), 'a matrix of the object')
        c.require(And(eq(r, m.rows), eq(n, m.cols)), 'matrix has the size of the array')
        c.case()
    v.contract(B + r'BasicMatrix\(unsigned long\)', lambda c, *x: c.case(), 'BasicMatrix constructor')
    v.contract(B + r'resize\(', mresize, 'BasicMatrix::resize')
    size = {w.lay.off('visr::panning::VBAP', 'mGain')[0]: w.ntot, w.lay.off('visr::panning::VBAP', 'mTriplets')[0]: w.ntri}

    def vresize(c, this, n):
        off = tm.const_of(c.st.resolve(this).off)
        c.require(tm.B(off in size), 'a vector of the object')
        c.require(eq(n, size[off]), 'vector has the size of the array')
        c.case()
    v.contract(r'^std::vector<.*>::vector\(\)', lambda c, t: c.case(), 'std::vector constructor')
    v.contract(r'^std::vector<.*>::resize\(unsigned long\)', vresize, 'std::vector::resize')
    p = [v.flt('initial' + a, 'f') for a in 'XYZ']
    g = ghost(v)

    def setl(c, this, x, y, z):
        c.require(And(eq(x, p[0]), eq(y, p[1]), eq(z, p[2])), 'initial listener position')
        s = c.st.copy()
        i, k, j = tm.fresh('i', 'I'), tm.fresh('k', 'I'), tm.fresh('j', 'I')
        s.assume(And(ge(i, I(0)), lt(i, w.ntot)))
        for q in range(3):
            v.same(s, 'loudspeaker positions are taken from the array', w.pos.x(s, i, I(q)), s.read_field(xyz, 4 * q, 4, F, (i,)), F)
        s = c.st.copy()
        s.assume(And(ge(j, I(0)), lt(j, w.ntri)))
        for q in range(2 if dim2 else 3):
            v.same(s, 'triplets are taken from the array', s.read_field(w.tri, 8 * q, 8, I64, (j,)), s.read_field(tri, 8 * q, 8, I64, (j,)), I64)
        c.case().put(g.at(0), I64, I(1))
    v.contract(r'^visr::panning::VBAP::setListenerPosition\(', setl, 'VBAP::setListenerPosition')
    for e in only(v, v.call(v.find(r'^visr::panning::VBAP::VBAP\('), [w.o.ptr(), lsa.ptr()] + p), 'ret'):
        s = e.st.copy()
        i, k = tm.fresh('i', 'I'), tm.fresh('k', 'I')
        s.assume(And(ge(i, I(0)), lt(i, w.nvirt), ge(k, I(0)), lt(k, w.nreg)))
        v.same(s, 'rerouting gains are taken from the array', w.rer.x(s, i, k), rer.x(s, i, k), F)
        v.oblige(e.st, 'inverse matrices are initialised', eq(e.st.load(g.at(0), I64, ''), I(1)))
        for f, x in (('numRegLoudspeakers', w.nreg), ('numVirtLoudspeakers', w.nvirt)):
            v.oblige(e.st, f, eq(e.st.u(w.o.get(f, st=e.st), 64), x))
        v.oblige(e.st, 'dimension', eq(w.o.get('is2D', ('i', 8), st=e.st), I(1 if dim2 else 0)))
    return v


MODES = dict(Amplitude=1, Energy=2)


def unit_pcnormalise():
    v = V([PC], 'PanningCalculator normalise', ('uf', 'real'))
    c = Comp(v, 'visr::rcl::PanningCalculator', PC)
    n, cols = v.int('numberOfElements', 0, 1 << 20), v.int('numberOfObjects', 1, 1 << 20)
    i = v.array('in', 'f', n)
    i.readonly = True
    m = mkmat(v, 'matrix', c, None, n, cols)
    mode, lev = v.int('mode', 0, 3), v.flt('targetLevel', 'f')
    col = v.int('column', 0, 1 << 20)
    v.st.assume(lt(col, cols))
    st0 = v.st.copy()
    X = lambda k: st0.read_field(i, 0, 4, F, (k,))
    kk, acc = tm.var('?kk', 'I'), tm.var('?acc', 'f')
    l1 = tm.fold(n, [acc], [zero], [fadd(acc, tm.fop('fabs', (X(kk),), 'f'))], 0, kk)
    l2 = sqrt(power_of(X, n))
    norm = ite(eq(mode, I(MODES['Amplitude'])), l1, ite(eq(mode, I(MODES['Energy'])), l2, one))
    f = fdiv(lev, fmaxs(norm, EPS))
    fs = v.find(r'^visr::rcl::\(anonymous namespace\)::normalise\([^)]*\)$')
    for e in only(v, v.call(fs, [i.ptr(), Ptr(m.reg, (I(0),), mul(col, I(4))), n, mode, m.stride, lev]), 'ret'):
        r, k = tm.fresh('row', 'I'), tm.fresh('col', 'I')
        s = e.st.copy()
        s.assume(And(ge(r, I(0)), lt(r, n), ge(k, I(0)), lt(k, cols)))
        v.same(s, 'column is the scaled vector of the target level, other columns are kept', m.x(s, r, k), ite(eq(k, col), fmul(f, X(r)), m.x(st0, r, k)), F)
    return v


OTHER, DIFFUSE, PLANE, POINT, POINTDIFF = range(5)


def unit_process(outs, track):
    """all objects except multichannel ChannelObjects; outs: which gain matrices exist"""
    v = V([PC], 'PanningCalculator::process (gains %s%s)' % (outs, ', listener tracking' if track else ''), ('uf', 'real'))
    c = Comp(v, 'visr::rcl::PanningCalculator', PC)
    o = c.o
    nl, no, n = v.int('loudspeakers', 1, 1 << 20), v.int('numberOfObjects', 1, 1 << 20), v.int('objects', 0, 1 << 20)
    o.set('mNumberOfRegularLoudspeakers', nl)
    o.set('mNumberOfObjects', no)
    for f in ('mTmpGains', 'mTmpHfGains', 'mTmpDiffuseGains'):
        mkarr(v, f, c, o.sub(f), nl)
    mode = {}
    for q, f in (('L', 'mLfNormalisation'), ('H', 'mHfNormalisation'), ('D', 'mDiffuseNormalisation')):
        mode[q] = v.int(f, 0, 3)
        o.set(f, mode[q], ('i', 32))
    mats = {q: mkmat(v, 'gains' + q, c, None, nl, no) for q in outs}
    ports = {q: v.reg(Region('port' + q, size=64)) for q in outs}
    for q, f in (('L', 'mLowFrequencyGainOutput'), ('H', 'mHighFrequencyGainOutput'), ('D', 'mDiffuseGainOutput')):
        o.set(f, ports[q].ptr() if q in outs else NULL, PTR)
    oport, lport, vb = [v.reg(Region(x, size=64)) for x in ('objectPort', 'listenerPort', 'vbapObject')]
    o.set('mObjectVectorInput', oport.ptr(), PTR)
    o.set('mListenerPositionInput', lport.ptr() if track else NULL, PTR)
    o.set('mVbapCalculator', vb.ptr(), PTR)
    objs = v.reg(Region('objectIterator', esize=8, leaf=8, leafsort='i', extent=lambda i: And(ge(i, I(0)), lt(i, n))))
    ob = v.reg(Region('object', nmem=1, esize=8, leaf=8, leafsort='i', extent=lambda i, k: And(ge(i, I(0)), lt(i, n), ge(k, I(0)), lt(k, I(64)))))
    data = v.reg(Region('objectVector', size=256))
    lpos = v.reg(Region('listenerPosition', size=64))
    g = ghost(v, 4)
    count = lambda c, k: c.case().put(g.at(k), I64, add(c.rd(g.at(k), I64), I(1)))
    oc, lc = v.bool('objectsChanged'), v.bool('listenerMoved')
    moved = lc if track else FALSE
    kind = lambda j: tm.uf('kind', (j,), 'I')
    chn, ch = (lambda j: tm.uf('channels', (j,), 'I')), (lambda j: tm.uf('channel', (j,), 'I'))
    at = lambda nm, j: tm.uf(nm, (j,), 'f')
    rad = lambda x: tm.uf('radian', (x,), 'f')
    args = lambda j, p: tuple(tm.uf('cart%d' % k, (rad(at('azimuth', j)), rad(at('elevation', j)), at('distance', j)), 'f') for k in range(3)) + (I(1),) \
        if p else (at('x', j), at('y', j), at('z', j), I(0))
    vbap = lambda a, k: tm.uf('vbap', a + (k,), 'f')
    root = lambda x: sqrt(ite(flt(x, zero), zero, x))
    is_ = lambda j, *ks: Or(*[eq(kind(j), I(x)) for x in ks])
    normed = lambda tag, a, md, lev, r: tm.uf('normed' + tag, tuple(a) + (md, lev, r), 'f')

    def value(q, j, r):
        """(condition, value) of the column of object j in matrix q"""
        ratio = ite(is_(j, POINTDIFF), at('diffuseness', j), zero)
        ok = And(eq(chn(j), I(1)), lt(ch(j), no))
        pick = lambda f: ite(is_(j, PLANE), f(args(j, True)), f(args(j, False)))
        if q == 'D':
            some = fle(EPS, ratio)
            val = ite(is_(j, DIFFUSE), normed('ones', (), mode[q], one, r),
                      ite(some, normed('ones', (), mode[q], ratio, r), normed('zeros', (), mode[q], ratio, r)))
            return And(ok, is_(j, DIFFUSE, PLANE, POINT, POINTDIFF)), val
        lev = fsub(one, ratio)
        return And(ok, is_(j, PLANE, POINT, POINTDIFF)), pick(lambda a: normed({'L': 'vbap', 'H': 'root'}[q], a, mode[q], lev, r))

    H = lambda q, j, r, k: tm.uf('H' + q, (j, r, k), 'f')
    facts = [Fact('kind', lambda j: And(ge(kind(j), I(0)), le(kind(j), I(4))), 1),
             Fact('channels', lambda j: And(ge(chn(j), I(0)), le(chn(j), I(1 << 20))), 1), Fact('channel', lambda j: And(ge(ch(j), I(0)), lt(ch(j), I(1 << 32))), 1)]
    for q in outs:
        def f(j, r, k, q=q):
            i = sub(j, I(1))
            cond, val = value(q, i, r)
            return And(Implies(eq(j, I(0)), eq(H(q, j, r, k), zero)),
                       Implies(ge(j, I(1)), eq(H(q, j, r, k), ite(And(cond, eq(k, ch(i))), val, H(q, i, r, k)))))
        facts.append(Fact('H' + q, f))
    v.st.facts = tuple(v.st.facts) + tuple(facts)

    # environment
    D = r'^visr::pml::DoubleBufferingProtocol::Input'
    def which(cc, t):
        return cc.st.resolve(t).reg is oport
    v.contract(D + r'Base::changed\(', lambda cc, t: cc.case().ret(oc if which(cc, t) else lc), 'changed')
    v.contract(D + r'Base::resetChanged\(', lambda cc, t: count(cc, 0 if which(cc, t) else 1), 'resetChanged')
    v.contract(D + r'<visr::pml::ObjectVector>::data\(', lambda cc, t: cc.case().ret(data.ptr()), 'data')
    v.contract(D + r'<visr::pml::ListenerPosition>::data\(', lambda cc, t: cc.case().ret(lpos.ptr()), 'data')

    base = dict(c.lay.cls('visr::pml::MatrixParameter<float>')['#bases'])['visr::efl::BasicMatrix<float>']

    def shared(cc, t):
        t = cc.st.resolve(t)
        for q in outs:
            if t.reg is ports[q]:
                return cc.case().ret(mats[q].o.ptr().plus(-base))
        raise Unsupported('unknown port')
    v.contract(r'^visr::pml::SharedDataProtocol::Output<.*>::data\(', shared, 'SharedDataProtocol::Output::data')

    def setl(cc, t, p):
        cc.require(tm.B(cc.st.resolve(p).reg is lpos), 'listener position from the port')
        count(cc, 2)
    v.contract(r'^visr::rcl::PanningCalculator::setListenerPosition\(', setl, 'PanningCalculator::setListenerPosition')
    OV = r'^visr::objectmodel::ObjectVector::'
    v.contract(OV + r'begin\(', lambda cc, t: cc.case().ret(objs.ptr()), 'ObjectVector::begin')
    v.contract(OV + r'end\(', lambda cc, t: cc.case().ret(objs.at(n)), 'ObjectVector::end')
    cur = lambda cc, t: cc.st.resolve(cc.rd(cc.st.resolve(t), PTR))
    idx = lambda cc, t: tm.divexact(cur(cc, t).off, 8) if tm.divexact(cur(cc, t).off, 8) is not None else tm.div(cur(cc, t).off, I(8))
    v.contract(OV + r'const_iterator::operator\*\(', lambda cc, t: cc.case().ret(Ptr(ob, (idx(cc, t),), 0)), 'ObjectVector iterator')
    v.contract(OV + r'const_iterator::operator!=\(', lambda cc, a, b: cc.case().ret(ne(cur(cc, a).off, cur(cc, b).off)), 'ObjectVector iterator')
    v.contract(OV + r'const_iterator::operator\+\+\(\)', lambda cc, t: cc.case().put(cc.st.resolve(t), PTR, cur(cc, t).plus(8)).ret(t), 'ObjectVector iterator')
    num = lambda cc, t: cc.st.resolve(t).mem[0]

    def dc(cc, p, src, dst, *a):
        nm = cc.st.resolve(dst).reg.name
        ok = {'DiffuseSource': (DIFFUSE,), 'PlaneWave': (PLANE,), 'PointSource': (POINT, POINTDIFF), 'PointSourceWithDiffuseness': (POINTDIFF,), 'ChannelObject': ()}
        for k, ks in ok.items():
            if nm.rstrip('E').endswith('%d%s' % (len(k), k)):
                cond = is_(num(cc, p), *ks) if ks else FALSE
                cc.case(cond).ret(p)
                cc.case(Not(cond)).ret(NULL)
                return
        raise Unsupported('dynamic_cast to ' + nm)
    v.contract(r'^__dynamic_cast$', dc, 'dynamic_cast')
    M = r'^visr::objectmodel::'
    v.contract(M + r'Object::numberOfChannels\(', lambda cc, t: cc.case().ret(chn(num(cc, t))), 'Object::numberOfChannels')

    def chan(cc, t, k):
        cc.require(lt(k, chn(num(cc, t))), 'channel of the object')
        cc.case().ret(ch(num(cc, t)) if k is I(0) else tm.uf('furtherChannel', (num(cc, t), k), 'I'))
    v.contract(M + r'Object::channelIndex\(', chan, 'Object::channelIndex')
    for cl, fn, nm in (('PlaneWave', 'incidenceAzimuth', 'azimuth'), ('PlaneWave', 'incidenceElevation', 'elevation'), ('PlaneWave', 'referenceDistance', 'distance'),
                       ('PointSource', 'x', 'x'), ('PointSource', 'y', 'y'), ('PointSource', 'z', 'z'), ('PointSourceWithDiffuseness', 'diffuseness', 'diffuseness')):
        def get(cc, t, nm=nm, cl=cl):
            j = num(cc, t)
            cc.require(is_(j, *{'PlaneWave': (PLANE,), 'PointSource': (POINT, POINTDIFF), 'PointSourceWithDiffuseness': (POINTDIFF,)}[cl]), 'object is of the accessed type')
            cc.case().ret(at(nm, j))
        v.contract(M + r'%s::%s\(' % (cl, fn), get, '%s::%s' % (cl, fn))
    v.contract(r'visr::efl::degree2radian<float>\(', lambda cc, x: cc.case().ret(rad(x)), 'efl::degree2radian')
    cart = v.reg(Region('cartesian', size=16))

    def s2c(cc, *a):
        fl = [x for x in a if isinstance(x, T) and x.sort == 'f']
        r = [x for x in a if isinstance(x, Ptr) or not isinstance(x, T)]
        cv = [tm.uf('cart%d' % k, tuple(fl), 'f') for k in range(3)]
        if not r:
            raise Unsupported('result of spherical2cartesian')
        p = cc.st.resolve(r[0])
        oc_ = cc.case()
        for k in range(3):
            oc_.put(p.plus(4 * (2 - k)), F, cv[k])       # libstdc++ stores tuples in reverse order
    v.contract(r'visr::efl::spherical2cartesian<float>\(', s2c, 'efl::spherical2cartesian')

    def calc(cc, t, x, y, z, p, pl):
        p = cc.st.resolve(p)
        cc.require(tm.B(cc.st.resolve(t).reg is vb), 'the panner of the component')
        cc.require(eq(cc.rd(g.at(2), I64), ite(moved, I(1), I(0))), 'gains are computed for the current listener position')
        pl = ite(pl, I(1), I(0)) if isinstance(pl, T) and pl.sort == 'B' else pl
        a = (x, y, z, pl)
        bad = tm.uf('noTriplet', a, 'B')
        cc.case(bad).throw('_ZTISt13runtime_error')
        cc.case(Not(bad)).fill(p, nl, F, lambda k: vbap(a, k))
    v.contract(r'^visr::panning::VBAP::calculateGainsUnNormalised\(', calc, 'VBAP::calculateGainsUnNormalised')
    v.contract(r'^visr::efl::BasicVector<float>::zeroFill\(', lambda cc, t: cc.case().fill(cc.st.resolve(cc.rd(cc.st.resolve(t).plus(24), PTR)), nl, F, lambda k: zero), 'BasicVector::zeroFill')
    v.contract(r'^visr::efl::BasicVector<float>::fillValue\(', lambda cc, t, x: cc.case().fill(cc.st.resolve(cc.rd(cc.st.resolve(t).plus(24), PTR)), nl, F, lambda k: x), 'BasicVector::fillValue')

    def mat_of(cc, t):
        t = cc.st.resolve(t)
        for q in outs:
            if t.reg is mats[q].o.reg:
                return mats[q]
        raise Unsupported('unknown matrix')

    def mzero(cc, t):
        m = mat_of(cc, t)
        oc_ = cc.case()
        oc_.st.setlog(m.reg, 0, oc_.st.log(m.reg, 0) + (Upd(4, And(ge(KV[0], I(0)), lt(KV[0], nl), ge(KV[1], I(0)), lt(KV[1], no)), zero),))
    v.contract(r'^visr::efl::BasicMatrix<float>::zeroFill\(', mzero, 'BasicMatrix::zeroFill')

    def norm(cc, i, out, cnt, md, stride, lev):
        i, out = cc.st.resolve(i), cc.st.resolve(out)
        m = [x for x in mats.values() if x.reg is out.reg]
        cc.require(tm.B(len(m) == 1), 'normalisation into a gain matrix')
        key = cc.st.locate(out, 4)[2]
        cc.require(And(eq(cnt, nl), eq(stride, m[0].stride), eq(key[0], I(0)), ge(key[1], I(0)), lt(key[1], no)), 'one whole column of the gain matrix')
        s, k = cc.st.copy(), tm.fresh('k', 'I')
        s.assume(And(ge(k, I(0)), lt(k, nl)))
        x = s.read_field(i.reg, 0, 4, F, s.locate(i.plus(mul(k, I(4))), 4)[2])
        j = inv.gs[-1]['j']
        cands = [('zeros', (), lambda k: zero), ('ones', (), lambda k: one)]
        for p in (True, False):
            a = args(j, p)
            cands += [('vbap', a, lambda k, a=a: vbap(a, k)), ('root', a, lambda k, a=a: root(vbap(a, k)))]
        for tag, a, fn in cands:
            if s.proves(eq(x, fn(k))):
                break
        else:
            cc.require(FALSE, 'input of the normalisation is a panning vector of the object')
        oc_ = cc.case()
        oc_.st.setlog(m[0].reg, 0, oc_.st.log(m[0].reg, 0) + (Upd(4, And(ge(KV[0], I(0)), lt(KV[0], nl), eq(KV[1], key[1])), normed(tag, a, md, lev, KV[0])),))
    v.contract(r'^visr::rcl::\(anonymous namespace\)::normalise\([^)]*\)$', norm, 'normalise')

    logs = []
    for q in outs:
        logs.append((mats[q].reg, 0, lambda gh, q=q: (Upd(4, And(ge(KV[0], I(0)), lt(KV[0], nl), ge(KV[1], I(0)), lt(KV[1], no)), H(q, gh['j'], KV[0], KV[1])),)))
    free = []
    for f in ('mTmpGains', 'mTmpHfGains', 'mTmpDiffuseGains'):
        r = [x for x in v.regions if x.name.startswith(f)][-1]
        logs.append((r, 0, lambda gh, f=f: (Upd(4, TRUE, tm.uf('scratch' + f, (gh['j'], KV[0]), 'f')),)))
        free.append((r, None, lambda *k: TRUE))

    inv = Inv(v, ['j'], {'j': I(0)}, lambda e, gh: {'j': add(gh['j'], I(1))}, lambda gh: And(ge(gh['j'], I(0)), le(gh['j'], n)),
              logs=logs, measure=lambda gh: sub(n, gh['j']), free=free)
    inv.find_cells = lambda st: [(p, PTR, lambda gh: objs.at(gh['j'])) for p in iterators(v, st, objs)]
    v.invariant(r'^visr::rcl::PanningCalculator::process\(\)$', inv)
    run = Or(oc, moved)
    for e in c.run(v.find(r'^visr::rcl::PanningCalculator::process\(\)$')):
        if e.kind == 'throw':
            v.oblige(e.st, 'exceptions only while gains are computed', run)
            continue
        s = e.st.copy()
        r, k = tm.fresh('row', 'I'), tm.fresh('col', 'I')
        s.assume(And(ge(r, I(0)), lt(r, nl), ge(k, I(0)), lt(k, no)))
        for q in outs:
            v.same(s, 'gain matrix %s after the objects' % q, mats[q].x(s, r, k), ite(run, H(q, n, r, k), mats[q].x(v.st, r, k)), F)
        v.oblige(s, 'change of the objects is consumed', Implies(oc, ge(e.st.load(g.at(0), I64, ''), I(1))))
        v.oblige(s, 'change of the listener position is consumed', eq(e.st.load(g.at(1), I64, ''), ite(moved, I(1), I(0))))
        v.oblige(s, 'listener position is passed on exactly when changed', eq(e.st.load(g.at(2), I64, ''), ite(moved, I(1), I(0))))
    return v


def iterators(v, st, reg):
    """local variables that hold the first element of the sequence"""
    out = []
    for x in st.env.values():
        if isinstance(x, Ptr) and x.reg is not None and x.reg.local and x.reg.size == 8 and x.reg.id in st.mem:
            try:
                p = st.resolve(st.load(x, PTR, 'iterator'))
            except Exception:
                continue
            if isinstance(p, Ptr) and p.reg is reg and p.off is I(0):
                out.append(x)
    return out


def units(sel=None):
    out = [('normalise', unit_normalise), ('inverse 3D', lambda: unit_inverse(False)), ('inverse 2D', lambda: unit_inverse(True)),
            ('plain 3D', lambda: unit_plain(False)), ('plain 2D', lambda: unit_plain(True)),
            ('applyRerouting', unit_reroute), ('calculateGains', lambda: unit_gains(True)), ('calculateGainsUnNormalised', lambda: unit_gains(False)),
            ('powerNormalisation', unit_power), ('setListenerPosition', unit_listener),
            ('constructor 3D', lambda: unit_ctor(False)), ('constructor 2D', lambda: unit_ctor(True)),
            ('PanningCalculator normalise', unit_pcnormalise)]
    for outs, tr in (('LHD', True), ('LHD', False), ('L', True), ('LH', False)):
        out.append(('process %s%s' % (outs, ' tracking' if tr else ''), lambda outs=outs, tr=tr: unit_process(outs, tr)))
    return out
