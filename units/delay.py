"""Lagrange coefficients, fractional delay interpolation, multichannel delay line."""
from fractions import Fraction
from irv.unit import *
from irv.solver import Fact
from .arrays import use_lib, only, split_ends, ES, SO
from .efl import use_kernels

TL = 'libefl/lagrange_coefficient_calculator.cpp'
LC = 'visr::efl::LagrangeCoefficientCalculator<%s,%d%s>'


def lagrange(k, nodes, mu, so):
    """k-th Lagrange basis polynomial over the nodes at mu, as a term (compared as a polynomial)"""
    num, den = fnum(1.0, so), Fraction(1)
    for m, x in enumerate(nodes):
        if m != k:
            num = fmul(num, fsub(fnum(float(x), so), mu))
            den *= x - nodes[k]
    return fdiv(num, fnum(float(den), so))


def unit_coeffs(t, n, rev):
    v = V([TL], 'LagrangeCoefficientCalculator<%s,%d,%s>' % (t, n, rev), ('uf', 'real'))
    so, es = SO[t], ES[t]
    ty = FTY[so]
    v.ex.polytol = Fraction(1, 10 ** (6 if so == 'f' else 14))     # rounding of the constant scale factors
    v.ex.assumed.add('constant scale factors compared up to rounding')
    R = 'true' if rev else 'false'
    o = Obj(v, 'calculator', LC % (t, n, ',true' if rev else ''), Lay(TL))
    res = v.array('result', so, I(n + 1))
    mu = v.flt('mu', so)
    pat = r'^visr::efl::LagrangeCoefficientCalculator<%s, %dul, %s>::' % (t, n, R)
    nodes = [Fraction(2 * i - n, 2) * (-1 if rev else 1) for i in range(n + 1)]
    for e in only(v, v.call(v.find(pat + 'LagrangeCoefficientCalculator'), [o.ptr()]), 'ret'):
        for e2 in only(v, v.call(v.find(pat + r'calculateCoefficients\(%s, %s\*\) const$' % (t, t)), [o.ptr(), mu, res.ptr()], e.st), 'ret'):
            for k in range(n + 1):
                v.same(e2.st, 'coefficient %d' % k, e2.st.read_field(res, 0, es, ty, (I(k),)), lagrange(k, nodes, mu, so), ty)
    return v


TI = 'librbbl/lagrange_interpolator.cpp'
neg = tm.neg
fle = lambda a, b: tm.fop('fle', (a, b), 'B')


def unit_ramp_lemma():
    """the position ramp of interpolate(): sample i is read between the newest sample and the delay bound"""
    v = V([TI], 'lemma: range of the interpolation positions', ('real',))
    R = lambda n: tm.var(n, 'd')
    n, i, N, D, s, e, d = [R(x) for x in ('n', 'i', 'order', 'maxDelay', 'startDelay', 'endDelay', 'd')]
    zero, one = fnum(0.0, 'd'), fnum(1.0, 'd')
    st = v.st
    start, end = fsub(fneg(fadd(n, N)), s), fsub(fneg(N), e)
    # d = start + (i+1) * (end-start)/n, multiplied by n
    q4 = fnum(0.25, 'd')
    st.assume(And(fle(zero, i), fle(fadd(i, one), n), fle(fneg(q4), s), fle(s, D), fle(fneg(q4), e), fle(e, D), fle(one, n)))
    n1, i1 = fsub(fsub(n, i), one), fadd(i, one)
    lo = fneg(fadd(fadd(n1, N), D))
    hi = fadd(fneg(fadd(n1, N)), q4)
    nd = fadd(fmul(n, start), fmul(i1, fsub(end, start)))
    v.functions.add('lemma over the contract of vectorRamp')
    # n*d - n*lo and n*hi - n*d are sums of products of non-negative factors
    v.oblige(st, 'distance from the lower bound', eq(fsub(nd, fmul(n, lo)), fadd(fmul(n1, fsub(D, s)), fmul(i1, fsub(D, e)))))
    v.oblige(st, 'distance from the upper bound', eq(fsub(fmul(n, hi), nd), fadd(fmul(n1, fadd(s, q4)), fmul(i1, fadd(e, q4)))))
    for q in (n1, i1, fsub(D, s), fsub(D, e), fadd(s, q4), fadd(e, q4)):
        v.oblige(st, 'factor is not negative', fle(zero, q))
    v.ends = 1
    return v


def unit_interpolate(t, N):
    v = V([TI], 'LagrangeInterpolator<%s,%d>::interpolate' % (t, N), ('uf', 'real'))
    use_kernels(v)
    so, es = SO[t], ES[t]
    ty = FTY[so]
    o = Obj(v, 'interpolator', 'visr::rbbl::LagrangeInterpolator<%s,%d>' % (t, N), Lay(TI))
    mx, n, D = v.int('maxNumSamples', 1, 1 << 20), v.int('numSamples', 0, 1 << 20), v.int('maxDelay', 0, 1 << 20)
    al = v.int('alignment', 1, 1 << 10)
    dl, gn = v.array('delays', so, mx), v.array('gains', so, mx)
    for f, r in (('mDelays', dl), ('mGains', gn)):
        for x, val in (('mLength', mx), ('mAlignment', al)):
            o.set('%s.mData.%s' % (f, x), val)
        for x in ('mRawStorage', 'mAlignedStorage'):
            o.set('%s.mData.%s' % (f, x), r.ptr(), PTR)
    H = add(n, I(N - 1), D)
    x = v.reg(Region('history', esize=es, leaf=es, leafsort=so, align=es, extent=lambda i: And(ge(i, neg(H)), le(i, I(0)))))
    x.readonly = True
    out = v.array('result', so, n)
    s, e, g0, g1 = [v.flt(q, so) for q in ('startDelay', 'endDelay', 'startGain', 'endGain')]
    pos = lambda i: tm.uf('position', (i,), so)
    gain = lambda i: tm.uf('gain', (i,), so)
    coef = lambda k, mu: tm.uf('lagrange%d' % k, (mu,), so)
    # range of the positions, from the lemma above
    n1 = lambda i: add(n, neg(i), I(-1))
    v.st.facts = tuple(v.st.facts) + (Fact('position', lambda i: Implies(And(ge(i, I(0)), lt(i, n)),
        And(fle(itof(neg(add(n1(i), I(N), D)), so), pos(i)), fle(pos(i), fadd(itof(neg(add(n1(i), I(N))), so), fnum(0.25, so)))))),)

    def ramp(c, dest, num, a, b, si, ei, alg):
        dest = c.st.resolve(dest)
        vv = c.v
        vv.oblige(c.st, 'ramp covers the block, start excluded, end included', And(eq(c.st.u(num, 64), n), eq(si, FALSE) if si.sort == 'B' else eq(si, I(0)), ei if ei.sort == 'B' else eq(ei, I(1))))
        c.require(tm.B(dest.reg in (dl, gn)), 'ramp buffer')
        if dest.reg is dl:
            vv.same(c.st, 'start position', a, fsub(fneg(itof(add(n, I(N)), so)), s), ty)
            vv.same(c.st, 'end position', b, fsub(fneg(fnum(float(N), so)), e), ty)
        else:
            vv.same(c.st, 'start gain', a, g0, ty)
            vv.same(c.st, 'end gain', b, g1, ty)
        o_ = c.case()
        o_.fill(dest, n, ty, pos if dest.reg is dl else gain)
        o_.ret(I(0))
    v.ex.contracts.clear() if False else None
    v.contract(r'visr::efl::(reference::)?vectorRamp<%s>\(' % t, ramp, 'efl::vectorRamp')
    v.ex.contracts.insert(0, v.ex.contracts.pop())

    def coeffs(c, this, mu, res):
        res = c.st.resolve(res)
        o_ = c.case()
        for k in range(N + 1):
            o_.put(res.plus(k * es), ty, coef(k, mu))
    v.contract(r'LagrangeCoefficientCalculator<%s, %dul, true>::calculateCoefficients\(' % (t, N), coeffs, 'LagrangeCoefficientCalculator::calculateCoefficients')
    f = v.find(r'^visr::rbbl::LagrangeInterpolator<%s, %dul>::interpolate\(' % (t, N))
    half = fnum(0.5, so)
    for en in split_ends(v, v.call(f, [o.ptr(), x.ptr(), out.ptr(), n, s, e, g0, g1]), gt(n, mx), 'throw', 'more samples than the maximum'):
        st = en.st.copy()
        i = tm.fresh('i', 'I')
        st.assume(And(ge(i, I(0)), lt(i, n)))
        d = pos(i)
        base = tm.fop('fptosi', (ite(tm.fop('flt', (fnum(0.0, so), d), 'B'), fadd(d, half), fsub(d, half)),), 'I')
        mu = fsub(d, itof(base, so))
        acc = fnum(0.0, so)
        for j in range(N + 1):
            acc = fadd(acc, fmul(coef(N - j, mu), st.read_field(x, 0, es, ty, (add(base, I(j)),))))
        v.same(st, 'result is the gain times the Lagrange interpolation around the nearest sample', st.read_field(out, 0, es, ty, (i,)), fmul(gain(i), acc), ty)
    return v


TD = 'librbbl/multichannel_delay_line.cpp'
DL = 'visr::rbbl::MultichannelDelayLine<%s>'
POLICY = dict(Add=0, Limit=1, Reject=2)


class Line:
    """delay line in an arbitrary valid state"""

    def __init__(self, v, t, make=True):
        self.v, self.t = v, t
        so, self.ty = SO[t], FTY[SO[t]]
        o = self.o = Obj(v, 'delayLine', DL % t, Lay(TD))
        self.block = v.int('blockLength', 0, 1 << 20)
        self.fs, self.maxd, self.md = v.flt('samplingFrequency', so), v.flt('maxDelaySamples', so), v.flt('methodDelay', so)
        self.pol = v.int('policy', 0, 3)
        o.set('cBlockLength', self.block)
        for f, x in (('cSamplingFrequency', self.fs), ('cMaxDelaySamples', self.maxd), ('cMethodDelay', self.md)):
            o.set(f, x, self.ty)
        o.set('cMethodDelayPolicy', self.pol, ('i', 32))
        self.vt = v.reg(Region('interpolatorVtable', esize=8, leaf=8, leafsort='p', extent=lambda i: And(ge(i, I(0)), lt(i, I(4)))))
        self.ip = v.reg(Region('interpolatorObject', esize=8, leaf=8, leafsort='p', extent=lambda i: And(ge(i, I(0)), lt(i, I(1)))))
        v.st.store(self.ip.ptr(), PTR, self.vt.ptr(), 'setup')
        o.set('mInterpolator', self.ip.ptr(), PTR)
        self.ch = v.int('channels', 0, 1 << 20)
        self.ring = o.p('mRingbuffer')
        v.contract(r'^visr::rbbl::CircularBuffer<%s>::numberOfChannels\(' % t, lambda c, r: c.case().ret(self.ch), 'CircularBuffer::numberOfChannels')

    def slot(self, i, h):
        self.v.st.store(self.vt.at(I(i)), PTR, VFn('interpolator slot %d' % i, h), 'setup')


def adjust(l, raw):
    """specified delay passed to the interpolator -> [(condition, exception?, value)]"""
    so = SO[l.t]
    flt = lambda a, b: tm.fop('flt', (a, b), 'B')
    r = fmul(raw, l.fs)
    big = flt(l.maxd, r)
    eps = fnum(-2.0 ** -23 if so == 'f' else -2.0 ** -52, so)
    A, L, R = [eq(l.pol, I(POLICY[x])) for x in ('Add', 'Limit', 'Reject')]
    d = fsub(r, l.md)
    zero = fnum(0.0, so)
    return dict(scaled=r, toobig=big, A=A, L=L, R=R, neg=flt(r, eps), small=flt(r, l.md), d=d,
                lim=ite(flt(d, zero), zero, d))


def unit_adjust(t):
    v = V([TD], 'MultichannelDelayLine<%s>::adjustDelay' % t, ('uf', 'real'))
    l = Line(v, t)
    raw = v.flt('delaySeconds', SO[t])
    q = adjust(l, raw)
    bad = Or(q['toobig'], And(q['A'], q['neg']), And(q['R'], q['small']))
    for e in split_ends(v, v.call(v.find(r'^visr::rbbl::MultichannelDelayLine<%s>::adjustDelay\(' % t), [l.o.ptr(), raw]), bad, 'throw', 'delay outside of the admissible range'):
        v.same(e.st, 'delay handed to the interpolator', e.val, ite(q['A'], q['scaled'], ite(q['L'], q['lim'], q['d'])), l.ty)
    return v


def unit_adjust_range(t):
    """real arithmetic: what adjustDelay returns is in the range the interpolation contract requires"""
    v = V([TD], 'MultichannelDelayLine<%s>::adjustDelay range' % t, ('real',))
    l = Line(v, t)
    so = SO[t]
    raw = v.flt('delaySeconds', so)
    v.st.assume(And(fle(fnum(0.0, so), l.md), fle(fnum(0.0, so), l.maxd)))
    for e in v.call(v.find(r'^visr::rbbl::MultichannelDelayLine<%s>::adjustDelay\(' % t), [l.o.ptr(), raw]):
        if e.kind == 'ret':
            v.oblige(e.st, 'not negative beyond rounding', fle(fnum(-0.25, so), e.val))
            v.oblige(e.st, 'not above the maximum', fle(e.val, l.maxd))
    return v


def unit_line_interp(t):
    v = V([TD], 'MultichannelDelayLine<%s>::interpolate' % t, ('uf',))
    l = Line(v, t)
    so = SO[t]
    n, ch = v.int('numberOfSamples', 0, 1 << 20), v.int('channelIdx', 0, 1 << 40)
    s, e, g0, g1 = [v.flt(q, so) for q in ('startDelay', 'endDelay', 'startGain', 'endGain')]
    out = v.array('output', so, n)
    hist = v.reg(Region('ring', nmem=1, esize=ES[t], leaf=ES[t], leafsort=so, extent=lambda c, i: And(ge(c, I(0)), lt(c, l.ch))))
    adj = lambda x: tm.uf('adjusted', (x,), so)
    rej = lambda x: tm.uf('rejected', (x,), 'B')

    def ca(c, this, x):
        c.case(Not(rej(x))).ret(adj(x))
        c.case(rej(x)).throw('_ZTISt12out_of_range')
    v.contract(r'MultichannelDelayLine<%s>::adjustDelay\(' % t, ca, 'adjustDelay')

    def rp(c, ring, i, d):
        c.require(And(lt(i, l.ch), eq(d, I(1))), 'read position: the newest sample of an existing channel')
        c.case().ret(Ptr(hist, (i,), 0))
    v.contract(r'CircularBuffer<%s>::getReadPointer\(' % t, rp, 'CircularBuffer::getReadPointer')
    calls = []

    def interp(ex, st, a, ins):
        calls.append(1)
        v.same(st, 'read pointer', st.resolve(a[1]), Ptr(hist, (ch,), 0))
        v.same(st, 'output', st.resolve(a[2]), out.ptr())
        v.oblige(st, 'number of samples', eq(a[3], n))
        s2 = st.copy()
        N, D, L = tm.fresh('order', 'I'), tm.fresh('maxDelay', 'I'), tm.fresh('ringLength', 'I')
        s2.assume(And(ge(N, I(0)), ge(D, I(0)), ge(L, add(D, N, l.block)), le(n, l.block)))
        v.oblige(s2, 'samples the interpolation contract may read are in the ring (constructor: maxDelay + order + block)', le(add(n, N, D, I(-1)), sub(L, I(1))))
        for nm, x, y in zip(('start delay', 'end delay', 'start gain', 'end gain'), a[4:], (adj(s), adj(e), g0, g1)):
            v.same(st, nm, x, y, l.ty)
        st.fill(out.ptr(), n, l.ty, lambda i, c: tm.uf('interpolated', (i,), so))
        return [End('ret', st, None)]
    l.slot(3, interp)
    f = v.find(r'^visr::rbbl::MultichannelDelayLine<%s>::interpolate\(' % t)
    for en in split_ends(v, v.call(f, [l.o.ptr(), out.ptr(), ch, n, s, e, g0, g1]), Or(ge(ch, l.ch), rej(s), rej(e)), 'throw', 'invalid channel or delay'):
        i = tm.fresh('i', 'I')
        st = en.st.copy()
        st.assume(And(ge(i, I(0)), lt(i, n)))
        v.same(st, 'output is the interpolator result', st.read_field(out, 0, ES[t], l.ty, (i,)), tm.uf('interpolated', (i,), so), l.ty)
    return v


def unit_line_write(t):
    v = V([TD], 'MultichannelDelayLine<%s>::write' % t, ('uf',))
    l = Line(v, t)
    inp = v.array('input', SO[t], v.int('inputSize', 0, 1 << 40))
    stride, nc, al = v.int('channelStride', 0, 1 << 30), v.int('numberOfChannels', 0, 1 << 20), v.int('alignment', 0, 1 << 10)

    def w(c, ring, p, s, n, k, a):
        c.v.same(c.st, 'ring', c.st.resolve(ring), l.ring)
        c.v.same(c.st, 'input', c.st.resolve(p), inp.ptr())
        c.v.oblige(c.st, 'one block of every channel', And(eq(s, stride), eq(n, l.ch), eq(k, l.block), eq(a, al)))
        c.case()
    v.contract(r'CircularBuffer<%s>::write\(%s const\*, unsigned long, unsigned long, unsigned long, unsigned long' % (t, t), w, 'CircularBuffer::write')
    f = v.find(r'^visr::rbbl::MultichannelDelayLine<%s>::write\(' % t)
    split_ends(v, v.call(f, [l.o.ptr(), inp.ptr(), stride, nc, al]), ne(nc, l.ch), 'throw', 'wrong number of channels')
    for nm, x in (('numberOfChannels', l.ch), ('blockLength', l.block)):
        for e in only(v, v.call(v.find(r'^visr::rbbl::MultichannelDelayLine<%s>::%s\(' % (t, nm)), [l.o.ptr()]), 'ret'):
            v.oblige(e.st, nm, eq(e.val, x))
    for nm, x in (('methodDelaySamples', l.md), ('methodDelaySeconds', fdiv(l.md, l.fs))):
        for e in only(v, v.call(v.find(r'^visr::rbbl::MultichannelDelayLine<%s>::%s\(' % (t, nm)), [l.o.ptr()]), 'ret'):
            v.same(e.st, nm, e.val, x, l.ty)
    return v


def unit_line_ctor(t):
    """ring capacity: every position the interpolation contract may read is inside the ring"""
    v = V([TD], 'MultichannelDelayLine<%s> constructor' % t, ('uf', 'real'))
    so = SO[t]
    l = Line(v, t)
    o = Obj(v, 'newDelayLine', DL % t, Lay(TD))
    N = v.int('order', 0, 32)
    md = fdiv(itof(N, so), fnum(2.0, so))
    ch, fs, block, al, pol = v.int('numberOfChannels', 0, 1 << 20), v.int('samplingFrequencyHz', 1, 1 << 20), v.int('block', 1, 1 << 20), v.int('align', 0, 1 << 10), v.int('newPolicy', 0, 3)
    sec = v.flt('maxDelaySeconds', so)
    v.st.assume(And(fle(fnum(0.0, so), sec), fle(fmul(sec, itof(fs, so)), fnum(2.0 ** 30, so))))
    name = v.iarray('method', 8, I(16))
    known = v.bool('methodKnown')

    def create(c, *a):
        c.require(eq(a[-1], block), 'interpolator created for the block length')
        c.case(known).put(c.st.resolve(a[0]), PTR, l.ip.ptr())
        c.case(Not(known)).put(c.st.resolve(a[0]), PTR, NULL)
    v.contract(r'FractionalDelayFactory<%s>::create\(' % t, create, 'FractionalDelayFactory::create')
    l.slot(2, lambda ex, st, a, ins: [End('ret', st, md)])
    l.slot(1, lambda ex, st, a, ins: [End('ret', st, None)])
    rec = []

    def ring(c, this, n, ln, a):
        rec.append((n, ln, a))
        c.v.same(c.st, 'ring member', c.st.resolve(this), o.p('mRingbuffer'))
        st = c.st.copy()
        st.assume(known)
        if st.feasible():
            c.v.oblige(st, 'channels of the ring', eq(n, ch))
            mx = tm.fop('fptosi', (tm.fop('ceil', (fmul(sec, itof(fs, so)),), so),), 'I')
            c.v.oblige(st, 'ring holds the maximum delay, the interpolator support and one block', ge(st.u(ln, 64), add(mx, N, block)))
        c.case()
    v.contract(r'CircularBuffer<%s>::CircularBuffer\(' % t, ring, 'CircularBuffer constructor')
    v.contract(r'CircularBuffer<%s>::~CircularBuffer\(' % t, lambda c, this: c.case(), 'CircularBuffer destructor')
    f = v.find(r'^visr::rbbl::MultichannelDelayLine<%s>::MultichannelDelayLine\(' % t)
    for e in split_ends(v, v.call(f, [o.ptr(), ch, fs, block, sec, name.ptr(), pol, al]), Not(known), 'throw', 'unknown interpolation method'):
        v.oblige(e.st, 'block length', eq(o.get('cBlockLength', I64, e.st), block))
        v.oblige(e.st, 'policy', eq(o.get('cMethodDelayPolicy', ('i', 32), e.st), pol))
        v.same(e.st, 'sampling frequency', o.get('cSamplingFrequency', l.ty, e.st), itof(fs, so), l.ty)
        v.same(e.st, 'method delay', o.get('cMethodDelay', l.ty, e.st), md, l.ty)
        v.oblige(e.st, 'maximum delay is not below the requested one', fle(fmul(sec, itof(fs, so)), o.get('cMaxDelaySamples', l.ty, e.st)))
    return v


def units(sel=None):
    out = []
    for t in ('float', 'double'):
        for n in range(10):
            for rev in (False, True):
                out.append(('coefficients<%s,%d,%d>' % (t, n, rev), lambda t=t, n=n, rev=rev: unit_coeffs(t, n, rev)))
    out.append(('position ramp', unit_ramp_lemma))
    for t in ('float', 'double'):
        for n in range(10):
            out.append(('interpolate<%s,%d>' % (t, n), lambda t=t, n=n: unit_interpolate(t, n)))
    for t in ('float', 'double'):
        for nm, u in (('adjustDelay', unit_adjust), ('adjustDelay range', unit_adjust_range), ('delay line interpolate', unit_line_interp), ('delay line write', unit_line_write), ('delay line constructor', unit_line_ctor)):
            out.append(('%s<%s>' % (nm, t), lambda t=t, u=u: u(t)))
    return out
