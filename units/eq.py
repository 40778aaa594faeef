"""P17: parametric equaliser settings as biquad sections."""
from irv.unit import *
from .arrays import only, split_ends
from .component import Comp

PI = 'librbbl/parametric_iir_coefficient_calculator.cpp'
TYPES = ['lowpass', 'highpass', 'bandpass', 'bandstop', 'highshelf', 'lowshelf', 'peak', 'allpass']
PC = 'librbbl/parametric_iir_coefficient.cpp'
NS = r'visr::rbbl::ParametricIirCoefficientCalculator::calculateIirCoefficients'


class Real:
    """float arithmetic of one precision"""

    def __init__(self, so):
        self.so = so
        self.ty = FTY[so]
        self.w = 4 if so == 'f' else 8
        self.cpp = {'f': 'float', 'd': 'double'}[so]

    def n(self, x):
        return fnum(float(x), self.so)

    def op(self, name, *a):
        return tm.fop(name, tuple(x if isinstance(x, T) else self.n(x) for x in a), self.so)

    def add(self, *a):
        r = a[0]
        for x in a[1:]:
            r = self.op('fadd', r, x)
        return r

    def sub(self, a, b):
        return self.op('fsub', a, b)

    def mul(self, *a):
        r = a[0]
        for x in a[1:]:
            r = self.op('fmul', r, x)
        return r

    def div(self, a, b):
        return self.op('fdiv', a, b)

    def neg(self, a):
        return self.op('fneg', a)


def cookbook(r, ty, al, c, A):
    """unnormalised b0 b1 b2 a0 a1 a2 of R. Bristow-Johnson's audio EQ cookbook; A: square root of the linear gain"""
    one, two = r.n(1), r.n(2)
    m2c = r.mul(r.n(-2), c)
    pole = [r.add(one, al), m2c, r.sub(one, al)]
    h = lambda x: r.div(x, two)
    if ty == 'lowpass':
        return [h(r.sub(one, c)), r.sub(one, c), h(r.sub(one, c))] + pole
    if ty == 'highpass':
        return [h(r.add(one, c)), r.neg(r.add(one, c)), h(r.add(one, c))] + pole
    if ty == 'bandpass':
        return [al, r.n(0), r.neg(al)] + pole
    if ty == 'bandstop':
        return [one, m2c, one] + pole
    if ty == 'allpass':
        return [pole[2], pole[1], pole[0]] + pole
    if ty == 'peak':
        return [r.add(one, r.mul(A, al)), m2c, r.sub(one, r.mul(A, al)), r.add(one, r.div(al, A)), m2c, r.sub(one, r.div(al, A))]
    s = r.mul(two, r.op('sqrt', A), al)
    p, m = r.add(A, one), r.sub(A, one)
    pc, mc = r.mul(p, c), r.mul(m, c)
    if ty == 'lowshelf':
        return [r.mul(A, r.add(r.sub(p, mc), s)), r.mul(two, A, r.sub(m, pc)), r.mul(A, r.sub(r.sub(p, mc), s)),
                r.add(p, mc, s), r.mul(r.n(-2), r.add(m, pc)), r.sub(r.add(p, mc), s)]
    return [r.mul(A, r.add(p, mc, s)), r.mul(r.n(-2), A, r.add(m, pc)), r.mul(A, r.sub(r.add(p, mc), s)),
            r.add(r.sub(p, mc), s), r.mul(two, r.sub(m, pc)), r.sub(r.sub(p, mc), s)]


def record(r, lay):
    c = lay.cls('visr::rbbl::ParametricIirCoefficient<%s>' % r.cpp)
    return {k: c[k] for k in ('mType', 'mFrequency', 'mQuality', 'mGain')}


def unit_section(so, ty):
    r = Real(so)
    v = V([PI], 'calculateIirCoefficients<%s> %s' % (r.cpp, ty), ('uf', 'real'))
    lay = Lay(PC)
    rec = record(r, lay)
    par, out = v.reg(Region('parameters', size=lay.cls('visr::rbbl::ParametricIirCoefficient<%s>' % r.cpp)['#size'])), v.reg(Region('coefficients', size=5 * r.w))
    fs, f, q, g = [v.flt(x, so) for x in ('rate', 'frequency', 'quality', 'gain')]
    st = v.st
    st.store(par.ptr().plus(rec['mType'][0]), ('i', 32), I(TYPES.index(ty)), 'setup')
    for k, x in (('mFrequency', f), ('mQuality', q), ('mGain', g)):
        st.store(par.ptr().plus(rec[k][0]), r.ty, x, 'setup')
    st.assume(tm.fop('flt', (r.n(0), q), 'B'))
    w0 = r.div(r.mul(r.n(2), r.n(3.14159265358979323846), f), fs)
    s, c, lin = r.op('sin', w0), r.op('cos', w0), v.flt('linearGain', so)
    for x in (r.sub(r.n(1), c), r.add(r.n(1), c), s, lin):   # frequency below half the sampling rate
        st.assume(tm.fop('flt', (r.n(0), x), 'B'))

    def dB(cc, x):
        v.same(cc.st.copy(), 'gain in dB is converted', x, g, r.ty)
        cc.case().ret(lin)
    v.contract(r'visr::efl::dB2linear<', dB, 'efl::dB2linear')
    al = r.div(s, r.mul(r.n(2), q))
    A = r.op('sqrt', lin)
    want = cookbook(r, ty, al, c, A)
    less = lambda x, y: tm.fop('flt', (x, y), 'B')
    for e in only(v, v.call(v.find(r'^void ' + NS + r'<%s>\(visr::rbbl::ParametricIirCoefficient<' % r.cpp), [par.ptr(), out.ptr(), fs]), 'ret'):
        got = [e.st.load(out.ptr().plus(k * r.w), r.ty, '') for k in range(5)]
        for k, nm in enumerate(('b0', 'b1', 'b2', 'a1', 'a2')):
            v.same(e.st, nm + ' is the coefficient of the documented filter', got[k], r.div(want[k if k < 3 else k + 1], want[3]), r.ty)
        b, a, AA = got[:3], [r.n(1)] + got[3:], lin
        if 'shelf' in ty:
            # a0/a0 = 1 and A*A = gain as proved below make the next two identities of polynomials
            a[0], AA = r.div(want[3], want[3]), r.mul(A, A)
            v.oblige(e.st, 'normalisation is defined', And(less(r.n(0), want[3]), tm.fop('feq', (AA, lin), 'B')))
        dc = lambda x: r.add(*x)
        ny = lambda x: r.add(r.sub(x[0], x[1]), x[2])
        zero = [r.n(0)]
        lo = {'lowpass': a, 'highpass': None, 'bandpass': None, 'lowshelf': [r.mul(AA, x) for x in a]}.get(ty, a)
        hi = {'lowpass': None, 'highpass': a, 'bandpass': None, 'highshelf': [r.mul(AA, x) for x in a]}.get(ty, a)
        v.same(e.st, 'gain at frequency zero', dc(b), dc(lo) if lo else r.n(0), r.ty)
        v.same(e.st, 'gain at half the sampling rate', ny(b), ny(hi) if hi else r.n(0), r.ty)
        v.oblige(e.st, 'poles lie inside the unit circle', And(less(a[2], r.n(1)), less(r.n(0), dc([r.n(1)] + a[1:])), less(r.n(0), ny([r.n(1)] + a[1:]))))
    return v


def unit_list(so):
    r = Real(so)
    v = V([PI], 'calculateIirCoefficients<%s> of a list' % r.cpp, ('uf',))
    psize = Lay(PC).cls('visr::rbbl::ParametricIirCoefficient<%s>' % r.cpp)['#size']
    csize = 5 * r.w
    n, m = v.int('settings', 0, 1 << 20), v.int('sections', 0, 1 << 20)
    par = v.reg(Region('settings', esize=psize, leaf=r.w, leafsort=so, extent=lambda i: And(ge(i, I(0)), lt(i, n))))
    par.readonly = True
    out = v.reg(Region('coefficients', esize=csize, leaf=r.w, leafsort=so, extent=lambda i: And(ge(i, I(0)), lt(i, m))))
    lists = [v.reg(Region(x, size=24)) for x in ('parameterList', 'coefficientList')]
    st = v.st
    for l, reg, k in zip(lists, (par, out), (n, m)):
        st.store(l.ptr(), PTR, reg.at(0), 'setup')
        st.store(l.ptr().plus(8), PTR, reg.at(k), 'setup')
        st.store(l.ptr().plus(16), PTR, reg.at(k), 'setup')
    fs = v.flt('rate', so)
    want = lambda i, k: tm.uf('section', (i, I(k)), so)

    def section(c, res, p, rate):
        q = c.st.resolve(p)
        c.require(tm.B(q.reg is par), 'settings of the list are converted')
        c.require(eq(rate, fs), 'sampling rate is passed on')
        i = div_exact(c, q.off, psize)
        o = c.case()
        for k in range(5):
            o.put(c.st.resolve(res).plus(k * r.w), r.ty, want(i, k))

    def div_exact(c, off, size):
        i = tm.div(off, I(size))
        c.require(eq(mul(i, I(size)), off), 'first byte of an element')
        return i
    v.contract(r'(^|^[^(]* )' + NS + r'<%s>\(visr::rbbl::ParametricIirCoefficient<%s> const&, %s\)' % (r.cpp, r.cpp, r.cpp), section, 'calculateIirCoefficients')
    v.contract(r'^void ' + NS + r'<%s>\(visr::rbbl::ParametricIirCoefficient<' % r.cpp, lambda c, p, res, rate: section(c, res, p, rate), 'calculateIirCoefficients')
    S = r'^void ' + NS + r'<%s>\(visr::rbbl::ParametricIirCoefficientList<' % r.cpp
    flat = lambda k: r.n(1 if k == 0 else 0)
    for e in v.call(v.find(S), [lists[0].ptr(), lists[1].ptr(), fs]):
        if e.kind == 'throw':
            v.oblige(e.st, 'rejected only if there are too few sections', gt(n, m))
            continue
        s = e.st.copy()
        v.oblige(s, 'too few sections are rejected', le(n, m))
        i = tm.fresh('element', 'I')
        s.assume(And(ge(i, I(0)), lt(i, m)))
        for k in range(5):
            v.same(s, 'one section per setting, flat sections after them', s.read_field(out, k * r.w, r.w, r.ty, (i,)), ite(lt(i, n), want(i, k), flat(k)), r.ty)
    return v


def unit_value(so):
    r = Real(so)
    v = V([PI], 'calculateIirCoefficients<%s> by value' % r.cpp, ('uf',))
    par, out = v.reg(Region('parameters', size=32)), v.reg(Region('coefficients', size=5 * r.w))
    fs = v.flt('rate', so)
    want = [v.flt('coefficient%d' % k, so) for k in range(5)]

    def section(c, p, res, rate):
        c.require(tm.B(c.st.resolve(p).reg is par), 'settings are passed on')
        c.require(eq(rate, fs), 'sampling rate is passed on')
        o = c.case()
        for k in range(5):
            o.put(c.st.resolve(res).plus(k * r.w), r.ty, want[k])
    v.contract(r'^void ' + NS + r'<%s>\(visr::rbbl::ParametricIirCoefficient<' % r.cpp, section, 'calculateIirCoefficients')
    f = [x for x in v.find(r'^visr::rbbl::BiquadCoefficient<%s> ' % r.cpp + NS + r'<', unique=False)]
    for e in only(v, v.call(f[0], [out.ptr(), par.ptr(), fs]), 'ret'):
        for k in range(5):
            v.same(e.st, 'the section is returned', e.st.load(out.ptr().plus(k * r.w), r.ty, ''), want[k], r.ty)
    return v


def unit_settings(so):
    """constructor and setters of one setting"""
    r = Real(so)
    v = V([PC], 'ParametricIirCoefficient<%s>' % r.cpp, ('uf',))
    rec = record(r, Lay(PC))
    fields = list(rec)
    tys = [('i', 32)] + [r.ty] * 3
    C = 'visr::rbbl::ParametricIirCoefficient<%s>::' % r.cpp

    def fresh(tag):
        return [v.int(tag + 'Type', 0, 7)] + [v.flt(tag + k, so) for k in fields[1:]]
    old, new = fresh('old'), fresh('new')
    size = Lay(PC).cls(C[:-2])['#size']
    read = lambda st, o: [st.load(o.ptr().plus(rec[k][0]), t, '') for k, t in zip(fields, tys)]

    def obj(st, name, vals):
        o = v.reg(Region(name, size=size))
        for k, t, x in zip(fields, tys, vals):
            st.store(o.ptr().plus(rec[k][0]), t, x, 'setup')
        return o

    def expect(st, o, want, what):
        for k, t, a, b in zip(fields, tys, read(st, o), want):
            v.same(st, '%s: %s' % (what, k), a, b, t)
    o = obj(v.st, 'new', old)
    for e in only(v, v.call(v.find('^' + C + r'ParametricIirCoefficient\(visr::rbbl::ParametricIirCoefficientBase::Type, ', unique=False)[0], [o.ptr()] + new), 'ret'):
        expect(e.st, o, new, 'constructor')
    for k, nm in enumerate(('setType', 'setFrequency', 'setQuality', 'setGain')):
        o = obj(v.st, nm, old)
        for e in only(v, v.call(v.find('^' + C + nm + r'\('), [o.ptr(), new[k]]), 'ret'):
            expect(e.st, o, [new[j] if j == k else old[j] for j in range(4)], nm)
    return v


def units(sel=None):
    out = []
    for so in 'fd':
        for ty in TYPES:
            out.append(('section<%s> %s' % (Real(so).cpp, ty), lambda so=so, ty=ty: unit_section(so, ty)))
    for so in 'fd':
        out.append(('list<%s>' % Real(so).cpp, lambda so=so: unit_list(so)))
        out.append(('settings<%s>' % Real(so).cpp, lambda so=so: unit_settings(so)))
        out.append(('value<%s>' % Real(so).cpp, lambda so=so: unit_value(so)))
    return out
