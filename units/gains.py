"""rbbl::GainFader, rbbl::GainMatrix: gain ramps and matrixing."""
from irv.unit import *
from .arrays import use_lib, only, split_ends, ES, SO, is_pow2, valid_array, Mat
from .efl import use_kernels, aligned, spec_ramp

TU = 'librbbl/gain_matrix.cpp'
TF = 'librbbl/gain_fader.cpp'
GF = 'visr::rbbl::GainFader<%s>'
GM = 'visr::rbbl::GainMatrix<%s>'


class Fader:
    """GainFader in an arbitrary valid state: ramp(block, k)"""

    def __init__(self, v, t, lay, obj=None):
        so, es = SO[t], ES[t]
        o = self.o = obj or Obj(v, 'fader', GF % t, lay)
        self.bs, self.per, self.samples = v.int('blockSize', 1, 1 << 20), v.int('interpolationPeriods', 0, 1 << 30), v.int('interpolationSamples', 0, 1 << 40)
        bs, per = self.bs, self.per
        st = v.st
        # periods = ceil(samples / blockSize)
        st.assume(And(le(self.samples, mul(per, bs)), gt(add(self.samples, bs), mul(per, bs))))
        self.al = v.int('alignment', 1, 1 << 20)
        self.ramp = v.reg(Region('ramp', nmem=1, esize=es, leaf=es, leafsort=so, pitch=bs, extent=lambda i, j: And(ge(i, I(0)), le(i, per), ge(j, I(0)), lt(j, bs))))
        self.ramp.readonly = True
        p = Ptr(self.ramp, (I(0),), 0)
        for f, x in (('mBlockSize', bs), ('mInterpolationSamples', self.samples), ('mInterpolationPeriods', per), ('mInterpolationRamp.mAlignment', self.al),
                     ('mInterpolationRamp.mLength', mul(add(per, 1), bs))):
            o.set(f, x)
        o.set('mInterpolationRamp.mRawStorage', p, PTR)
        o.set('mInterpolationRamp.mAlignedStorage', p, PTR)

    def block(self, b):
        return ite(le(b, self.per), b, self.per)


def unit_scale(t, acc):
    v = V([TF], 'GainFader<%s>::%s' % (t, 'scaleAndAccumulate' if acc else 'scale'), ('uf', 'real'))
    use_kernels(v)
    so, es = SO[t], ES[t]
    ty = FTY[so]
    f = Fader(v, t, Lay(TF))
    i, o_ = v.array('input', so, f.bs), v.array('output', so, f.bs)
    s, e, b = v.flt('startGain', so), v.flt('endGain', so), v.int('blockIndex', 0, 1 << 62)

    def spec(c, *a):
        row = Ptr(f.ramp, (f.block(b),), 0)
        ok = And(*[aligned(c, p, f.al, es) for p in (i.ptr(), row, o_.ptr())])
        c.case(Not(ok)).throw('_ZTISt13runtime_error')
        o = c.case(ok)
        rd = lambda p, k: c.rd(p.plus(mul(k, I(es))), ty)

        def val(k):
            x = fmul(fadd(s, fmul(fsub(e, s), rd(row, k))), rd(i.ptr(), k))
            return fadd(rd(o_.ptr(), k), x) if acc else x
        o.fill(o_.ptr(), f.bs, ty, val)
    v.check(v.find(r'^visr::rbbl::GainFader<%s>::%s\(' % (t, 'scaleAndAccumulate' if acc else 'scale')), spec, [f.o.ptr(), i.ptr(), o_.ptr(), s, e, b])
    return v


def ceil_lemma(v, n, b):
    """ceil(n/b) as computed: (n+b-1)/b"""
    q = tm.div(add(n, b, I(-1)), b)
    v.st.assume(And(ge(q, I(0)), ge(mul(q, b), n), lt(mul(q, b), add(n, b)), Implies(eq(n, I(0)), eq(q, I(0))), Implies(gt(n, I(0)), gt(q, I(0))), le(q, n)))
    return q


def unit_ceil():
    v = V([TF], 'lemma: integer ceiling')
    n, b = v.int('n', 0, 1 << 40), v.int('b', 1, 1 << 20)
    q, r = tm.var('q', 'I'), tm.var('r', 'I')
    v.st.assume(And(eq(add(n, b, I(-1)), add(mul(q, b), r)), ge(r, I(0)), lt(r, b)))
    v.functions.add('lemma on unsigned division')
    qb = mul(q, b)
    v.oblige(v.st, 'not below', ge(qb, n))
    v.oblige(v.st, 'less than one block above', lt(qb, add(n, b)))
    v.oblige(v.st, 'quotient is not negative', ge(q, I(0)))
    v.oblige(v.st, 'zero only for zero', Implies(gt(n, I(0)), gt(q, I(0))))
    v.oblige(v.st, 'zero for zero', Implies(eq(n, I(0)), eq(q, I(0))))
    v.oblige(v.st, 'not more blocks than samples', le(q, n))
    v.ends = 1
    return v


def unit_fader_ctor(t):
    v = V([TF], 'GainFader<%s> constructor' % t, ('uf', 'real'))
    use_lib(v)
    use_kernels(v)
    so, es = SO[t], ES[t]
    ty = FTY[so]
    lay = Lay(TF)
    o = Obj(v, 'fader', GF % t, lay)
    bs, n = v.int('blockSize', 1, 1 << 20), v.int('interpolationSteps', 0, 1 << 40)
    al = v.int('alignment', 1, 1 << 20)
    v.st.assume(is_pow2(al))
    q = ceil_lemma(v, n, bs)
    tot = mul(add(q, 1), bs)
    f = v.find(r'^visr::rbbl::GainFader<%s>::GainFader\(' % t)
    for e in only(v, v.call(f, [o.ptr(), bs, n, al]), 'ret'):
        st = e.st
        g = lambda x: st.u(o.get(x, I64, st), 64)
        v.oblige(st, 'block size, number of steps and number of blocks', And(eq(g('mBlockSize'), bs), eq(g('mInterpolationSamples'), n), eq(g('mInterpolationPeriods'), q)))
        data = valid_array(v, st, o.sub('mInterpolationRamp'), t, tot, al, 'ramp: ')
        i = tm.fresh('idx', 'I')
        s = st.copy()
        s.assume(And(ge(i, I(0)), lt(i, tot)))
        for cond, want in ((lt(i, n), None), (ge(i, n), fnum(1.0, so))):
            s2 = s.copy()
            s2.assume(cond)
            if not s2.feasible():
                continue
            x = s2.read_at(data.plus(mul(i, I(es))), ty, (), check=False)
            if want is None:
                # (i+1)/n, as computed by the ramp generator from 0 to 1, start excluded, end included
                one, zero = fnum(1.0, so), fnum(0.0, so)
                want = ite(eq(n, I(1)), one, fadd(zero, fmul(itof(add(i, 1), so), fdiv(fsub(one, zero), itof(n, so)))))
            v.same(s2, 'ramp value', x, want, ty)
    return v


class GMat:
    def __init__(self, v, t, lay, nin=None):
        o = self.o = Obj(v, 'gains', GM % t, lay)
        self.nin = nin if nin is not None else v.int('numberOfInputs', 1, 1 << 20)
        self.nout = v.int('numberOfOutputs', 1, 1 << 20)
        self.al = v.int('alignment', 1, 1 << 20)
        self.prev = Mat(v, 'previousGains', t, lay, self.al, o.sub('mPreviousGains'), self.nout, self.nin)
        self.next = Mat(v, 'nextGains', t, lay, self.al, o.sub('mNextGains'), self.nout, self.nin, self.prev.stride)
        self.bs, self.per, self.samples = v.int('blockSize', 1, 1 << 20), v.int('interpolationPeriods', 0, 1 << 30), v.int('interpolationSamples', 0, 1 << 40)
        self.cnt = v.int('interpolationCounter', 0, 1 << 30)
        v.st.assume(le(self.cnt, self.per))
        for f, x in (('mBlockSize', self.bs), ('mAlignment', self.al), ('mInterpolationCounter', self.cnt), ('mFader.mBlockSize', self.bs),
                     ('mFader.mInterpolationSamples', self.samples), ('mFader.mInterpolationPeriods', self.per)):
            o.set(f, x)


def fader_contracts(v, t, m):
    """GainFader::scale / scaleAndAccumulate as proved above, for aligned signal vectors"""
    so, es = SO[t], ES[t]
    ty = FTY[so]
    ramp = lambda b, k: tm.uf('ramp', (ite(le(b, m.per), b, m.per), k), so)

    def spec(acc):
        def f(c, this, i, o_, s, e, b):
            st = c.st
            i, o_, b = st.resolve(i), st.resolve(o_), st.u(b, 64)
            o = c.case()

            def val(k):
                g = (ge(k, I(0)), lt(k, m.bs))
                rd = lambda p: c.st.read_at(p.plus(mul(k, I(es))), ty, g, what='signal')
                x = fmul(fadd(s, fmul(fsub(e, s), ramp(b, k))), rd(i))
                return fadd(rd(o_), x) if acc else x
            o.fill(o_, m.bs, ty, val)
        return f
    v.contract(r'GainFader<%s>::scale\(' % t, spec(False), 'GainFader::scale')
    v.contract(r'GainFader<%s>::scaleAndAccumulate\(' % t, spec(True), 'GainFader::scaleAndAccumulate')
    v.contract(r'GainFader<%s>::interpolationPeriods\(' % t, lambda c, this: c.case().ret(m.per), 'GainFader::interpolationPeriods')
    v.contract(r'GainFader<%s>::interpolationSamples\(' % t, lambda c, this: c.case().ret(m.samples), 'GainFader::interpolationSamples')
    return ramp


def unit_process(t, zero):
    v = V([TU], 'GainMatrix<%s>::process%s' % (t, ' (no inputs)' if zero else ''), ('uf', 'real'))
    use_kernels(v)
    so, es = SO[t], ES[t]
    ty = FTY[so]
    lay = Lay(TU)
    m = GMat(v, t, lay, I(0) if zero else None)
    nin, nout, bs = m.nin, m.nout, m.bs
    ramp = fader_contracts(v, t, m)
    x = v.reg(Region('input', nmem=1, esize=es, leaf=es, leafsort=so, extent=lambda c, i: And(ge(c, I(0)), lt(c, nin), ge(i, I(0)), lt(i, bs))))
    y = v.reg(Region('output', nmem=1, esize=es, leaf=es, leafsort=so, extent=lambda c, i: And(ge(c, I(0)), lt(c, nout), ge(i, I(0)), lt(i, bs))))
    xp = v.reg(Region('inputPointers', esize=8, leaf=8, leafsort='p', extent=lambda i: And(ge(i, I(0)), lt(i, nin)), ptrs={0: lambda i: Ptr(x, (i,), 0)}))
    yp = v.reg(Region('outputPointers', esize=8, leaf=8, leafsort='p', extent=lambda i: And(ge(i, I(0)), lt(i, nout)), ptrs={0: lambda i: Ptr(y, (i,), 0)}))
    for r in (x, xp, yp, m.prev.reg, m.next.reg):
        r.readonly = True
    if zero:
        v.st.assume(eq(m.al, I(1)))
        m.o.set('mAlignment', I(1))
    f = v.find(r'^visr::rbbl::GainMatrix<%s>::process\(%s const\* const\*, %s\* const\*\)' % (t, t, t))
    st0 = v.st
    for e in only(v, v.call(f, [m.o.ptr(), xp.ptr(), yp.ptr()]), 'ret'):
        s = e.st.copy()
        o, k = tm.fresh('out', 'I'), tm.fresh('k', 'I')
        s.assume(And(ge(o, I(0)), lt(o, nout), ge(k, I(0)), lt(k, bs)))
        got = s.read_field(y, 0, es, ty, (o, k))
        if zero:
            want = fnum(0.0, so)
        else:
            G = lambda mm, i: s.read_field(mm.reg, 0, es, ty, (o, i))

            def term(i):
                g0, g1 = G(m.prev, i), G(m.next, i)
                return fmul(fadd(g0, fmul(fsub(g1, g0), ramp(m.cnt, k))), s.read_field(x, 0, es, ty, (i, k)))
            kk, acc = tm.var('?kk', 'I'), tm.var('?acc', so)
            want = tm.fold(sub(nin, 1), [acc], [term(I(0))], [fadd(acc, term(add(kk, 1)))], 0, kk)
        v.same(s, 'output sample is the gain-weighted sum over all inputs', got, want, ty)
        v.oblige(e.st, 'transition advances by one block until it is complete', eq(m.o.get('mInterpolationCounter', I64, e.st), ite(lt(m.cnt, m.per), add(m.cnt, 1), m.cnt)))
    return v


def unit_setgains(t, how):
    """setNewGains / setGainsInternal: how = 'done' (transition complete), 'fresh' (not started), 'running'"""
    v = V([TU], 'GainMatrix<%s>::setNewGains (transition %s)' % (t, how), ('uf', 'real'))
    use_lib(v)
    so, es = SO[t], ES[t]
    ty = FTY[so]
    lay = Lay(TU)
    m = GMat(v, t, lay)
    fader_contracts(v, t, m)
    new = Mat(v, 'newGains', t, lay)
    new.reg.readonly = True
    nin, nout = m.nin, m.nout
    st = v.st
    st.assume(And(le(m.samples, mul(m.per, m.bs)), Implies(gt(m.per, I(0)), gt(m.samples, I(0)))))
    st.assume({'done': ge(m.cnt, m.per), 'fresh': And(lt(m.cnt, m.per), eq(m.cnt, I(0))), 'running': And(lt(m.cnt, m.per), gt(m.cnt, I(0)))}[how])

    def copy(c, this, src):
        # BasicMatrix::copy as proved under P02
        p = c.st.resolve(this)
        q = c.st.resolve(src)
        c.require(tm.B(q.reg is new.o.reg and p.reg is m.o.reg), 'copies the new gains into a gain matrix')
        c.case(Or(ne(new.rows, nout), ne(new.cols, nin))).throw('_ZTISt16invalid_argument')
        o = c.case(And(eq(new.rows, nout), eq(new.cols, nin)))
        mm = [x for x in (m.prev, m.next) if p.off is I(x.o.base)][0]
        d = o.st.resolve(mm.o.get('mData.mAlignedStorage', PTR, c.st))
        cond = And(ge(KV[0], I(0)), lt(KV[0], nout), ge(KV[1], I(0)), lt(KV[1], nin))
        val = c.st.read_at(Ptr(new.reg, (KV[0],), mul(KV[1], I(es))), ty, (cond,), check=False)
        o.st.setlog(d.reg, 0, o.st.log(d.reg, 0) + (Upd(es, cond, val),))
    v.contract(r'BasicMatrix<%s>::copy\(' % t, copy, 'BasicMatrix::copy')
    f = v.find(r'^visr::rbbl::GainMatrix<%s>::setNewGains\(' % t)
    bad = Or(ne(new.rows, nout), ne(new.cols, nin))
    old = lambda mm, i, j: st.read_field(mm.reg, 0, es, ty, (i, j))
    ends = v.call(f, [m.o.ptr(), new.o.ptr()])
    for e in ends:
        if e.kind == 'throw':
            i, j = tm.fresh('row', 'I'), tm.fresh('col', 'I')
            s = e.st.copy()
            s.assume(And(ge(i, I(0)), lt(i, nout), ge(j, I(0)), lt(j, nin)))
            for mm in (m.prev, m.next):
                v.same(s, 'gains unchanged when rejected', s.read_field(mm.reg, 0, es, ty, (i, j)), old(mm, i, j), ty)
            v.oblige(e.st, 'transition unchanged when rejected', eq(m.o.get('mInterpolationCounter', I64, e.st), m.cnt))
    for e in split_ends(v, ends, bad, 'throw', 'dimension mismatch'):
        i, j = tm.fresh('row', 'I'), tm.fresh('col', 'I')
        s = e.st.copy()
        s.assume(And(ge(i, I(0)), lt(i, nout), ge(j, I(0)), lt(j, nin)))

        def gain(mm):
            d = s.resolve(mm.o.get('mData.mAlignedStorage', PTR, s))
            v.oblige(s, 'matrix keeps its dimensions', And(eq(mm.o.get('mNumberOfRows', I64, s), nout), eq(mm.o.get('mNumberOfColumns', I64, s), nin)))
            return s.read_at(d.plus(mul(add(mul(i, s.u(mm.o.get('mStride', I64, s), 64)), j), I(es))), ty, (), check=False)
        v.same(s, 'target gains are the new gains', gain(m.next), s.read_field(new.reg, 0, es, ty, (i, j)), ty)
        g0, g1 = old(m.prev, i, j), old(m.next, i, j)
        if how == 'done':
            want = g1
        elif how == 'fresh':
            want = g0
        else:
            one = fnum(1.0, so)
            r = fdiv(itof(mul(m.cnt, m.bs), so), itof(m.samples, so))
            less = tm.fop('flt', (r, one), 'B')
            ratio = ite(less, r, one)
            want = (g0, g1, ratio)
        got = gain(m.prev)
        if how != 'running':
            v.same(s, 'start gains are the gains in effect', got, want, ty)
        else:
            # interpolated gain, or the abandoned target where the step is below machine epsilon
            g0, g1, ratio = want
            step = fmul(ratio, fsub(g1, g0))
            eps = fnum({'f': 2.0 ** -23, 'd': 2.0 ** -52}[so], so)
            big = tm.fop('fle', (eps, tm.fop('fabs', (step,), so)), 'B')
            v.same(s, 'start gains are the interpolated gains (or the abandoned target, if the step is below machine epsilon)', got, ite(big, fadd(g0, step), g1), ty)
        v.oblige(e.st, 'the new transition starts', eq(m.o.get('mInterpolationCounter', I64, e.st), I(0)))
    return v


def unit_matrix_ctor(t, mat):
    v = V([TU], 'GainMatrix<%s> constructor (%s)' % (t, 'matrix' if mat else 'value'), ('uf',))
    so, es = SO[t], ES[t]
    ty = FTY[so]
    lay = Lay(TU)
    o = Obj(v, 'gains', GM % t, lay)
    nin, nout, bs, n, al = v.int('numberOfInputs', 0, 1 << 20), v.int('numberOfOutputs', 0, 1 << 20), v.int('blockLength', 1, 1 << 20), v.int('interpolationSteps', 0, 1 << 40), v.int('alignment', 0, 1 << 20)
    val = v.flt('initialValue', so)
    prev, nxt, fad = o.sub('mPreviousGains'), o.sub('mNextGains'), o.sub('mFader')
    ghost = {}      # matrix -> content name, kept in the member 'mStride' as an index (the storage itself is behind contracts)
    ZERO, FILL, INIT = I(1), I(2), I(3)
    init = Obj(v, 'initialMatrix', 'visr::efl::BasicMatrix<%s>' % t, lay)
    ir, ic = v.int('initialMatrix_rows', 0, 1 << 20), v.int('initialMatrix_cols', 0, 1 << 20)
    init.set('mNumberOfRows', ir)
    init.set('mNumberOfColumns', ic)
    init.set('mStride', INIT)

    def which(c, p):
        p = c.st.resolve(p)
        for x in (prev, nxt):
            if p.reg is o.reg and p.off is I(x.base):
                return x
        if p.reg is init.reg:
            return init
        raise Unsupported('matrix')

    def mctor(c, this, r, cc, a):
        x = which(c, this)
        q = c.case()
        q.put(x.p('mNumberOfRows'), I64, c.st.u(r, 64))
        q.put(x.p('mNumberOfColumns'), I64, c.st.u(cc, 64))
        q.put(x.p('mStride'), I64, ZERO)

    def fill(c, this, x):
        w = which(c, this)
        c.v.same(c.st, 'fill value', x, fnum(0.0, so) if mat else val, ty)
        c.case().put(w.p('mStride'), I64, FILL)

    def copy(c, this, src):
        a, b = which(c, this), which(c, src)
        g = lambda x, f: c.st.u(x.get(f, I64, c.st), 64)
        same = And(eq(g(a, 'mNumberOfRows'), g(b, 'mNumberOfRows')), eq(g(a, 'mNumberOfColumns'), g(b, 'mNumberOfColumns')))
        if not c.st.proves(same):
            c.case(Not(same)).throw('_ZTISt16invalid_argument')
        c.case(same).put(a.p('mStride'), I64, g(b, 'mStride'))

    def fctor(c, this, b, s, a):
        q = c.case()
        q.put(fad.p('mBlockSize'), I64, c.st.u(b, 64))
        q.put(fad.p('mInterpolationSamples'), I64, c.st.u(s, 64))
    v.contract(r'BasicMatrix<%s>::BasicMatrix\(unsigned long, unsigned long, unsigned long\)' % t, mctor, 'BasicMatrix constructor')
    v.contract(r'BasicMatrix<%s>::~BasicMatrix\(' % t, lambda c, x: c.case(), 'BasicMatrix destructor')
    v.contract(r'GainFader<%s>::~GainFader\(' % t, lambda c, x: c.case(), 'GainFader destructor')
    v.contract(r'BasicMatrix<%s>::fillValue\(' % t, fill, 'BasicMatrix::fillValue')
    v.contract(r'BasicMatrix<%s>::copy\(' % t, copy, 'BasicMatrix::copy')
    v.contract(r'GainFader<%s>::GainFader\(' % t, fctor, 'GainFader constructor')
    if mat:
        f = v.find(r'^visr::rbbl::GainMatrix<%s>::GainMatrix\(unsigned long, unsigned long, unsigned long, unsigned long, visr::efl::BasicMatrix' % t)
        ends = split_ends(v, v.call(f, [o.ptr(), nin, nout, bs, n, init.ptr(), al]), Or(ne(ir, nout), ne(ic, nin)), 'throw', 'dimension of the initial matrix')
    else:
        f = v.find(r'^visr::rbbl::GainMatrix<%s>::GainMatrix\(unsigned long, unsigned long, unsigned long, unsigned long, %s,' % (t, t))
        ends = only(v, v.call(f, [o.ptr(), nin, nout, bs, n, val, al]), 'ret')
    for e in ends:
        g = lambda x, f_: e.st.u(x.get(f_, I64, e.st), 64)
        for x in (prev, nxt):
            v.oblige(e.st, 'dimensions', And(eq(g(x, 'mNumberOfRows'), nout), eq(g(x, 'mNumberOfColumns'), nin)))
            v.oblige(e.st, 'initial gains', eq(g(x, 'mStride'), INIT if mat else FILL))
        v.oblige(e.st, 'block size, fader', And(eq(g(o, 'mBlockSize'), bs), eq(g(fad, 'mBlockSize'), bs), eq(g(fad, 'mInterpolationSamples'), n), eq(g(o, 'mInterpolationCounter'), I(0))))
    return v


def units(sel=None):
    out = [('ceil', unit_ceil)]
    for t in ('float', 'double'):
        out += [('fader scale<%s>' % t, lambda t=t: unit_scale(t, False)), ('fader scaleAndAccumulate<%s>' % t, lambda t=t: unit_scale(t, True)),
                ('fader ctor<%s>' % t, lambda t=t: unit_fader_ctor(t)),
                ('matrix process<%s>' % t, lambda t=t: unit_process(t, False)), ('matrix process no inputs<%s>' % t, lambda t=t: unit_process(t, True)),
                ('matrix ctor value<%s>' % t, lambda t=t: unit_matrix_ctor(t, False)), ('matrix ctor matrix<%s>' % t, lambda t=t: unit_matrix_ctor(t, True))]
        out += [('matrix setNewGains %s<%s>' % (h, t), lambda t=t, h=h: unit_setgains(t, h)) for h in ('done', 'fresh', 'running')]
    return out
