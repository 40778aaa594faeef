"""IIR biquad cascades: efl kernels and the BiquadIirFilter component."""
from irv.unit import *
from irv.solver import Fact
from irv.loops import Inv
from .arrays import use_lib, only, split_ends, ES, SO
from .arrays import Mat
from .component import Comp
from .efl import use_kernels, use_alignment, aligned

TF = 'libefl/reference/filter_functions.cpp'


class Section:
    """difference equation of one biquad section: y(k), v1(k), v2(k) as functions of the input x"""

    def __init__(self, tag, so, x, c, s0, s1):
        """x: k -> input sample; c: 5 coefficients (b0 b1 b2 a1 a2); s0, s1: initial state"""
        self.so, self.x, self.c = so, x, c
        self.v1 = lambda k: tm.uf('v1' + tag, (k,), so)
        self.v2 = lambda k: tm.uf('v2' + tag, (k,), so)
        self.y = lambda k: fadd(fmul(c[0], x(k)), self.v1(k))

        def f1(k):
            j = sub(k, I(1))
            return And(Implies(eq(k, I(0)), eq(self.v1(k), s0)),
                       Implies(ge(k, I(1)), eq(self.v1(k), fsub(fadd(self.v2(j), fmul(c[1], x(j))), fmul(c[3], self.y(j))))))

        def f2(k):
            j = sub(k, I(1))
            return And(Implies(eq(k, I(0)), eq(self.v2(k), s1)),
                       Implies(ge(k, I(1)), eq(self.v2(k), fsub(fmul(c[2], x(j)), fmul(c[4], self.y(j))))))
        self.facts = (Fact('v1' + tag, f1), Fact('v2' + tag, f2))


def kernel(t, inplace):
    v = V([TF], 'iirBiquadInternal%s<%s>' % ('Inplace' if inplace else '', t), ('uf', 'real'))
    so, es = SO[t], ES[t]
    ty = FTY[so]
    n = v.int('numElements', 0, 1 << 40)
    out = v.array('output', so, n)
    inp = out if inplace else v.array('input', so, n)
    if not inplace:
        inp.readonly = True
    stt, co = v.array('states', so, I(2)), v.array('coeffs', so, I(5))
    co.readonly = True
    st0 = v.st.copy()
    c = [st0.read_field(co, 0, es, ty, (I(j),)) for j in range(5)]
    s = [st0.read_field(stt, 0, es, ty, (I(j),)) for j in range(2)]
    sec = Section('', so, lambda k: st0.read_field(inp, 0, es, ty, (k,)), c, *s)
    v.st.facts = tuple(v.st.facts) + sec.facts
    olog = v.st.log(out, 0)
    done = lambda k: olog + (Upd(es, And(ge(KV[0], I(0)), lt(KV[0], k)), sec.y(KV[0])),)
    inv = Inv(v, ['k'], {'k': I(0)}, lambda e, g: {'k': add(g['k'], I(1))}, lambda g: And(ge(g['k'], I(0)), le(g['k'], n)),
              logs=[(out, 0, lambda g: done(g['k']))],
              phis=[lambda g: g['k'], lambda g: sub(n, g['k']), lambda g: sec.v1(g['k']), lambda g: sec.v2(g['k']),
                    lambda g: out.at(g['k']), lambda g: inp.at(g['k'])], measure=lambda g: sub(n, g['k']))
    nm = 'iirBiquadInternal%s<%s>' % ('Inplace' if inplace else '', t)
    v.invariant(nm, inv)
    f = v.find(r'::%s\(' % nm)
    args = [out.ptr()] if inplace else [inp.ptr(), out.ptr()]
    for e in only(v, v.call(f, args + [stt.ptr(), co.ptr(), n]), 'ret'):
        i = tm.fresh('i', 'I')
        st = e.st.copy()
        st.assume(And(ge(i, I(0)), lt(i, n)))
        v.same(st, 'output satisfies the difference equation', st.read_field(out, 0, es, ty, (i,)), sec.y(i), ty)
        for j, fn in ((0, sec.v1), (1, sec.v2)):
            v.same(e.st, 'state %d after the block' % j, e.st.read_field(stt, 0, es, ty, (I(j),)), fn(n), ty)
    return v


def spec_section(t, out, xin, stt, co, Y, W):
    """contract of one section inside a cascade: section s maps X(s,.) to Y(s,.)"""
    so, es = SO[t], ES[t]
    ty = FTY[so]

    def spec(c, ip, op, sp, cp, n):
        st = c.st
        ip, op = st.resolve(ip), st.resolve(op)
        sr, _, sk = st.locate(st.resolve(sp), es)
        cr, _, ck = st.locate(st.resolve(cp), es)
        c.require(And(tm.B(op.reg is out and sr is stt and cr is co), eq(op.off, I(0)), eq(ip.off, I(0)), eq(sk[1], I(0)), eq(ck[1], I(0)), eq(ck[0], sk[0])),
                  'state and coefficients of the same section')
        s = sk[0]
        k = tm.fresh('k', 'I')
        s2 = st.copy()
        s2.assume(And(ge(k, I(0)), lt(k, n)))
        x = s2.read_field(ip.reg, 0, es, ty, (k,))
        c.v.same(s2, 'input of section s is the output of section s-1', x, ite(eq(s, I(0)), xin(k), Y(sub(s, I(1)), k)), ty)
        for j in range(2):
            c.v.same(st, 'section starts from its own stored state', st.read_field(stt, 0, es, ty, (s, I(j))), tm.uf('state', (s, I(j)), so), ty)
        o = c.case()
        o.fill(op, n, ty, lambda i: Y(s, i))
        for j in range(2):
            o.put(Ptr(stt, (s,), j * es), ty, W(s, I(j)))
    return spec


def cascade(t):
    v = V([TF], 'iirFilterBiquadsSingleChannel<%s>' % t, ('uf',))
    use_kernels(v)
    so, es = SO[t], ES[t]
    ty = FTY[so]
    n, ns = v.int('numElements', 0, 1 << 40), v.int('numSections', 0, 1 << 20)
    ss, cs = v.int('stateStride', 2, 1 << 10), v.int('coeffStride', 5, 1 << 10)
    al = v.int('alignment', 0, 1 << 10)
    inp, out = v.array('input', so, n), v.array('output', so, n)
    inp.readonly = True
    rows = lambda nm, w: v.reg(Region(nm, nmem=1, esize=es, leaf=es, leafsort=so, pitch=w, extent=lambda i, j: And(ge(i, I(0)), lt(i, ns), ge(j, I(0)), lt(j, w))))
    stt, co = rows('states', ss), rows('coeffs', cs)
    co.readonly = True
    st0 = v.st.copy()
    Y, W = (lambda s, k: tm.uf('Y', (s, k), so)), (lambda s, j: tm.uf('W', (s, j), so))
    xin = lambda k: st0.read_field(inp, 0, es, ty, (k,))
    base = lambda: (Upd(es, And(ge(KV[0], I(0)), lt(KV[0], ns), ge(KV[1], I(0)), lt(KV[1], I(2))), tm.uf('state', (KV[0], KV[1]), so)),)
    v.st.setlog(stt, 0, base())
    st0 = v.st.copy()
    sp = spec_section(t, out, xin, stt, co, Y, W)
    v.contract(r'::iirBiquadInternal<%s>\(' % t, sp, 'iirBiquadInternal')
    v.contract(r'::iirBiquadInternalInplace<%s>\(' % t, lambda c, io, s, q, m: sp(c, io, io, s, q, m), 'iirBiquadInternalInplace')

    def lout(g):
        s = g['s']
        return (Upd(es, And(ge(KV[0], I(0)), lt(KV[0], n)), Y(sub(s, I(1)), KV[0])),)

    def lst(g):
        return base() + (Upd(es, And(ge(KV[0], I(0)), lt(KV[0], g['s']), ge(KV[1], I(0)), lt(KV[1], I(2))), W(KV[0], KV[1])),)
    v.invariant(r'iirFilterBiquadsSingleChannel', Inv(v, ['s'], {'s': I(1)}, lambda e, g: {'s': add(g['s'], I(1))},
                lambda g: And(ge(g['s'], I(1)), le(g['s'], ns)), logs=[(out, 0, lout), (stt, 0, lst)],
                phis=[lambda g: g['s'], lambda g: Ptr(stt, (g['s'],), 0), lambda g: Ptr(co, (g['s'],), 0)], measure=lambda g: sub(ns, g['s'])))
    f = v.find(r'^visr::efl::ErrorCode visr::efl::reference::iirFilterBiquadsSingleChannel<%s>\(' % t)
    ok = And(tm.uf('aligned', (v.ex.address(v.st, inp.ptr()), al, I(es)), 'B'), tm.uf('aligned', (v.ex.address(v.st, out.ptr()), al, I(es)), 'B'))
    for e in only(v, v.call(f, [inp.ptr(), out.ptr(), Ptr(stt, (I(0),), 0), Ptr(co, (I(0),), 0), n, ns, ss, cs, al]), 'ret'):
        v.oblige(e.st, 'error exactly for misaligned arguments', And(Implies(ok, eq(e.val, I(0))), Implies(Not(ok), ne(e.val, I(0)))))
        st = e.st.copy()
        st.assume(ok)
        i, s, j = tm.fresh('i', 'I'), tm.fresh('s', 'I'), tm.fresh('j', 'I')
        if st.feasible():
            s1 = st.copy()
            s1.assume(And(ge(i, I(0)), lt(i, n)))
            v.same(s1, 'output of the last section (input if there is none)', s1.read_field(out, 0, es, ty, (i,)), ite(eq(ns, I(0)), xin(i), Y(sub(ns, I(1)), i)), ty)
            s1 = st.copy()
            s1.assume(And(ge(s, I(0)), lt(s, ns), ge(j, I(0)), lt(j, I(2))))
            v.same(s1, 'state of every section after the block', s1.read_field(stt, 0, es, ty, (s, j)), W(s, j), ty)
        st = e.st.copy()
        st.assume(Not(ok))
        if st.feasible():
            v.same_memory(st, st0, regions=[out, stt])
    return v


TB = 'librcl/biquad_iir_filter.cpp'
BF = 'visr::rcl::BiquadIirFilter'


class Filter:
    def __init__(self, v):
        self.v = v
        use_lib(v)
        c = self.c = Comp(v, BF, TB)
        self.nch, self.nb = v.int('channels', 1, 1 << 20), v.int('biquads', 1, 1 << 20)
        c.o.set('cNumberOfChannels', self.nch)
        c.o.set('cNumberOfBiquadSections', self.nb)
        self.co = Mat(v, 'coefficients', 'float', c.lay, None, c.o.sub('mCoefficients'), self.nch, mul(self.nb, I(5)))
        self.stt = Mat(v, 'state', 'float', c.lay, None, c.o.sub('mState'), self.nch, mul(self.nb, I(2)))
        self.inp, self.out = c.audio('mInput', self.nch), c.audio('mOutput', self.nch, inp=False)
        # coefficient sources: list and matrix objects abstracted by their element access
        self.src = v.reg(Region('newCoefficients', nmem=2, esize=4, leaf=4, leafsort='f', extent=lambda f, b, j: And(ge(j, I(0)), lt(j, I(5)))))
        self.src.readonly = True
        self.lst = v.reg(Region('newCoefficientLists', nmem=1, esize=8, leaf=8, leafsort='i', extent=lambda f, j: TRUE))
        self.mat = v.reg(Region('newCoefficientMatrix', esize=8, leaf=8, leafsort='i', extent=lambda j: TRUE))
        self.nf, self.ns = v.int('newFilters', 0, 1 << 20), v.int('newSections', 0, 1 << 20)

        def lat(c, this, b):
            this = c.st.resolve(this)
            c.require(And(tm.B(this.reg is self.lst), lt(b, self.ns)), 'index below the list size')
            c.case().ret(Ptr(self.src, (this.mem[0], b), 0))

        def mat(c, this, f):
            c.require(lt(f, self.nf), 'index below the number of filters')
            c.case().ret(Ptr(self.lst, (f,), 0))
        v.contract(r'^visr::rbbl::BiquadCoefficientList<float>::(operator\[\]|at)\(', lat, 'BiquadCoefficientList::operator[]')
        v.contract(r'^visr::rbbl::BiquadCoefficientMatrix<float>::operator\[\]\(', mat, 'BiquadCoefficientMatrix::operator[]')
        v.contract(r'^visr::rbbl::BiquadCoefficientList<float>::size\(', lambda c, this: c.case().ret(self.ns), 'BiquadCoefficientList::size')
        v.contract(r'^visr::rbbl::BiquadCoefficientMatrix<float>::numberOfFilters\(', lambda c, this: c.case().ret(self.nf), 'BiquadCoefficientMatrix::numberOfFilters')
        v.contract(r'^visr::rbbl::BiquadCoefficientMatrix<float>::numberOfSections\(', lambda c, this: c.case().ret(ite(eq(self.nf, I(0)), I(0), self.ns)), 'BiquadCoefficientMatrix::numberOfSections')

    def coeff(self, st, ch, b, j):
        return st.read_field(self.co.reg, 0, 4, FTY['f'], (ch, add(mul(b, I(5)), j)))

    def expect(self, e, st0, label, sel, new):
        """coefficients of (channel, biquad) in sel are new, all others as before"""
        v = self.v
        ch, b, j = [tm.fresh(x, 'I') for x in ('ch', 'b', 'j')]
        s = e.st.copy()
        s.assume(And(ge(ch, I(0)), lt(ch, self.nch), ge(b, I(0)), lt(b, self.nb), ge(j, I(0)), lt(j, I(5))))
        want = ite(sel(ch, b), s.read_field(self.src, 0, 4, FTY['f'], (new(ch), b, j)) if new else fnum(0.0, 'f'), self.coeff(st0, ch, b, j))
        v.same(s, label, self.coeff(s, ch, b, j), want, FTY['f'])


def unit_setcoeff():
    v = V([TB], 'BiquadIirFilter coefficient setters', ('uf',))
    q = Filter(v)
    o = q.c.o.ptr()
    ch, b = v.int('channelIndex', 0, 1 << 40), v.int('biquadIndex', 0, 1 << 40)
    st0 = v.st.copy()
    src = Ptr(q.src, (I(7), b), 0)
    for e in split_ends(v, v.call(v.find(r'^%s::setCoefficients\(' % BF), [o, ch, b, src]), Or(ge(ch, q.nch), ge(b, q.nb)), 'throw', 'setCoefficients: index out of range'):
        q.expect(e, st0, 'setCoefficients replaces exactly the addressed section', lambda c, k: And(eq(c, ch), eq(k, b)), lambda c: I(7))
    return v


def unit_setchannel():
    v = V([TB], 'BiquadIirFilter::setChannelCoefficients', ('uf',))
    q = Filter(v)
    o = q.c.o.ptr()
    ch = v.int('channelIndex', 0, 1 << 40)
    st0 = v.st.copy()
    for e in split_ends(v, v.call(v.find(r'^%s::setChannelCoefficients\(' % BF), [o, ch, Ptr(q.lst, (I(7),), 0)]), Or(ge(ch, q.nch), ne(q.ns, q.nb)), 'throw', 'setChannelCoefficients: wrong index or size'):
        q.expect(e, st0, 'setChannelCoefficients replaces exactly the sections of the channel', lambda c, k: eq(c, ch), lambda c: I(7))
    return v


def unit_setmatrix():
    v = V([TB], 'BiquadIirFilter::setCoefficientMatrix', ('uf',))
    q = Filter(v)
    o = q.c.o.ptr()
    st0 = v.st.copy()

    def chan(c, this, ch, lst):
        lst = c.st.resolve(lst)
        c.require(And(lt(ch, q.nch), eq(q.ns, q.nb)), 'channel and list size')
        o_ = c.case()
        k = KV[1]
        b, j = tm.div(k, I(5)), tm.mod(k, I(5))
        val = o_.st.read_field(q.src, 0, 4, FTY['f'], (lst.mem[0], b, j))
        o_.st.setlog(q.co.reg, 0, o_.st.log(q.co.reg, 0) + (Upd(4, And(eq(KV[0], ch), ge(k, I(0)), lt(k, mul(q.nb, I(5)))), val),))
    v.contract(r'^%s::setChannelCoefficientsInternal\(' % BF, chan, 'setChannelCoefficientsInternal')
    bad = Or(ne(q.nf, q.nch), ne(q.ns, q.nb))
    for e in split_ends(v, v.call(v.find(r'^%s::setCoefficientMatrix\(' % BF), [o, q.mat.ptr()]), bad, 'throw', 'setCoefficientMatrix: wrong dimension'):
        q.expect(e, st0, 'setCoefficientMatrix replaces all coefficients', lambda c, k: TRUE, lambda c: c)
    return v


def unit_bprocess(control):
    v = V([TB], 'BiquadIirFilter::process%s' % (' (with control input)' if control else ''), ('uf',))
    q = Filter(v)
    c = q.c
    st0 = v.st.copy()
    Y = lambda ch, k: tm.uf('filtered', (ch, k), 'f')

    def casc(cc, ip, op, sp, cp, n, ns, ss, cs, al):
        st = cc.st
        ip, op, sp, cp = [st.resolve(x) for x in (ip, op, sp, cp)]
        cc.require(tm.B(ip.reg is q.inp.reg and op.reg is q.out.reg and sp.reg is q.stt.reg and cp.reg is q.co.reg), 'arguments of the cascade')
        ch = ip.mem[0]
        keys = [st.locate(x, 4)[2] for x in (ip, op, sp, cp)]
        cc.require(And(*[And(eq(x[0], ch), eq(x[1], I(0))) for x in keys]), 'same channel for all arguments, from its first sample')
        cc.require(And(eq(n, c.period), eq(ns, q.nb), eq(ss, I(2)), eq(cs, I(5))), 'dimensions of the cascade')
        cc.require(tm.B(al is c.al or al.op == 'int' and al.args[0] <= 1), 'alignment of the ports')
        s, k_ = tm.fresh('s', 'I'), tm.fresh('k', 'I')
        s2 = st.copy()
        s2.assume(And(ge(s, I(0)), lt(s, mul(q.nb, I(2))), ge(k_, I(0)), lt(k_, c.period)))
        cc.v.same(s2, 'filter continues from the state of the previous block', s2.read_field(q.stt.reg, 0, 4, FTY['f'], (ch, s)), st0.read_field(q.stt.reg, 0, 4, FTY['f'], (ch, s)), FTY['f'])
        cc.v.same(s2, 'filter input is the port input', q.inp.x(s2, ch, k_), q.inp.x(st0, ch, k_), FTY['f'])
        o_ = cc.case()
        o_.fill(op, n, FTY['f'], lambda k: Y(ch, k))
        o_.st.setlog(q.stt.reg, 0, o_.st.log(q.stt.reg, 0) + (Upd(4, And(eq(KV[0], ch), ge(KV[1], I(0)), lt(KV[1], mul(q.nb, I(2)))), tm.uf('newState', (KV[0], KV[1]), 'f')),))
        o_.ret(I(0))
    v.contract(r'visr::efl::(reference::)?iirFilterBiquadsSingleChannel<float>\(', casc, 'efl::iirFilterBiquadsSingleChannel')
    seq = []
    if control:
        port = v.reg(Region('eqInput', esize=8, leaf=8, leafsort='i', extent=lambda i: And(ge(i, I(0)), lt(i, I(16)))))
        c.o.set('mEqInput', port.ptr(), PTR)
        ch = v.bool('changed')
        flag = v.reg(Region('ghost', esize=8, leaf=8, leafsort='i', extent=lambda i: And(ge(i, I(0)), lt(i, I(2)))))
        for k in range(2):
            v.st.store(flag.at(I(k)), I64, I(0), 'setup')
        v.contract(r'^visr::pml::DoubleBufferingProtocol::InputBase::changed\(', lambda cc, t: cc.case().ret(ch), 'InputBase::changed')
        v.contract(r'^visr::pml::DoubleBufferingProtocol::Input<.*>::data\(', lambda cc, t: cc.case().ret(q.mat.ptr()), 'Input::data')
        v.contract(r'^visr::pml::DoubleBufferingProtocol::InputBase::resetChanged\(', lambda cc, t: cc.case().put(flag.at(I(1)), I64, I(1)), 'InputBase::resetChanged')

        def scm(cc, this, m):
            cc.require(tm.B(cc.st.resolve(m).reg is q.mat), 'coefficients from the parameter port')
            cc.case().put(flag.at(I(0)), I64, I(1))
        v.contract(r'^%s::setCoefficientMatrix\(' % BF, scm, 'setCoefficientMatrix')
    else:
        c.o.set('mEqInput', NULL, PTR)
    for e in only(v, c.run(), 'ret'):
        i, k, j = tm.fresh('ch', 'I'), tm.fresh('k', 'I'), tm.fresh('j', 'I')
        s = e.st.copy()
        s.assume(And(ge(i, I(0)), lt(i, q.nch), ge(k, I(0)), lt(k, c.period)))
        v.same(s, 'every channel is filtered by its own cascade', q.out.x(s, i, k), Y(i, k), FTY['f'])
        s = e.st.copy()
        s.assume(And(ge(i, I(0)), lt(i, q.nch), ge(j, I(0)), lt(j, mul(q.nb, I(2)))))
        v.same(s, 'state of every channel is kept for the next block', s.read_field(q.stt.reg, 0, 4, FTY['f'], (i, j)), tm.uf('newState', (i, j), 'f'), FTY['f'])
        if control:
            for z, nm in enumerate(('new coefficients used', 'change flag reset')):
                v.oblige(e.st, nm + ' exactly when changed', eq(e.st.load(flag.at(I(z)), I64, ''), ite(ch, I(1), I(0))))
    return v


def units(sel=None):
    out = []
    for t in ('float', 'double'):
        for ip in (False, True):
            out.append(('biquad section<%s,%d>' % (t, ip), lambda t=t, ip=ip: kernel(t, ip)))
        out.append(('cascade<%s>' % t, lambda t=t: cascade(t)))
    out += [('setCoefficients', unit_setcoeff), ('setChannelCoefficients', unit_setchannel), ('setCoefficientMatrix', unit_setmatrix),
            ('process', lambda: unit_bprocess(False)), ('process with control input', lambda: unit_bprocess(True))]
    return out
