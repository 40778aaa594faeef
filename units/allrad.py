"""Decoding of HOA signals to an arbitrary array: AllRAD and the matrix product."""
from .panning import *
from .panning import F, zero

I64 = ('i', 64)
AR, MF = 'libpanning/AllRAD.cpp', 'libefl/matrix_functions.cpp'


def product_value(d, g, n, r, c):
    """sum over k of d(r, k) * g(k, c), accumulated in the order of k"""
    kk, acc = tm.var('?kk', 'I'), tm.var('?acc', 'f')
    return tm.fold(n, [acc], [zero], [fadd(acc, fmul(d(r, kk), g(kk, c)))], 0, kk)


def unit_product():
    v = V([MF], 'efl::product<float> (row-major matrices)', ('uf', 'real'))
    rows, cols, inner = v.int('rows', 0, 1 << 16), v.int('columns', 0, 1 << 16), v.int('inner', 0, 1 << 16)
    pitch = [v.int('stride%d' % k, 1, 1 << 20) for k in range(3)]
    v.st.assume(And(ge(pitch[0], inner), ge(pitch[1], cols), ge(pitch[2], cols)))
    A, B, R = v.matrix('op1', 'f', rows, inner, pitch[0]), v.matrix('op2', 'f', inner, cols, pitch[1]), v.matrix('result', 'f', rows, cols, pitch[2])
    A.readonly = B.readonly = True
    x = lambda m: (lambda i, j: v.st.read_field(m, 0, 4, F, (i, j)))
    a, b = x(A), x(B)
    f = v.find(r'^visr::efl::ErrorCode visr::efl::product<float>\(')
    for e in only(v, v.call(f, [Ptr(m, (I(0),), 0) for m in (A, B, R)] + [rows, cols, inner, pitch[0], I(1), pitch[1], I(1), pitch[2], I(1)]), 'ret'):
        st = e.st.copy()
        i, j = tm.fresh('row', 'I'), tm.fresh('column', 'I')
        st.assume(And(ge(i, I(0)), lt(i, rows), ge(j, I(0)), lt(j, cols)))
        v.oblige(st, 'success is reported', eq(e.val, I(0)))
        v.same(st, 'result is the matrix product', st.read_field(R, 0, 4, F, (i, j)), product_value(a, b, inner, i, j), F)
    return v


def allrad_object(v):
    class A:
        pass
    d = A()
    d.lay = Lay(AR)
    d.o = o = Obj(v, 'allRad', 'visr::panning::AllRAD', d.lay)
    d.nh, d.nreg, d.nreal = v.int('harmonics', 1, 1 << 16), v.int('regularLoudspeakers', 1, 1 << 16), v.int('realLoudspeakers', 1, 1 << 16)
    o.set('mNumberOfHarmonics', d.nh)
    o.set('mRegularArraySize', d.nreg)
    m = lambda f, r, c: mkmat(v, f, d, o.sub(f), r, c)
    d.pos, d.dec = m('mRegularLoudspeakerPositions', d.nreg, I(3)), m('mRegularDecodeCoefficients', d.nh, d.nreg)
    d.reg2real, d.out = m('mRegularToRealDecodeCoefficients', d.nreg, d.nreal), m('mRealDecodeCoefficients', d.nh, d.nreal)
    d.pos.reg.readonly = d.dec.reg.readonly = True
    return d


def unit_allrad():
    v = V([AR], 'AllRAD::updateDecodingCoefficients', ('uf',))
    d = allrad_object(v)
    vb = d.o.p('mRealDecoder')
    st0 = v.st.copy()
    gain = lambda k, l: tm.uf('vbapGain', (k, l), 'f')

    def calc(c, t, x, y, z, out, plane):
        t, p = c.st.resolve(t), c.st.resolve(out)
        c.require(tm.B(t.reg is vb.reg and t.off is vb.off), 'panning for the real loudspeakers')
        c.require(eq(plane, I(0)) if plane.sort == 'I' else Not(plane), 'regular loudspeakers are point sources')
        if p.reg is not d.reg2real.reg:
            return c.require(FALSE, 'panning gains are stored in the regular-to-real matrix')
        row, col = c.st.locate(p, 4)[2]
        c.require(And(ge(row, I(0)), lt(row, d.nreg), eq(col, I(0))), 'row of the regular-to-real matrix')
        for k, a in enumerate((x, y, z)):
            c.require(eq(a, d.pos.x(st0, row, I(k))), 'position of the regular loudspeaker')
        c.case().fill(Ptr(p.reg, (row,), 0), d.nreal, F, lambda l: gain(row, l))
    v.contract(r'^visr::panning::VBAP::calculateGains\(float, float, float, float\*, bool\)', calc, 'VBAP::calculateGains (proved under P14)')

    def prod(c, a, b, r, rows, cols, inner, s0, c0, s1, c1, s2, c2):
        a, b, r = [c.st.resolve(x) for x in (a, b, r)]
        ok = tm.B(a.reg is d.dec.reg and b.reg is d.reg2real.reg and r.reg is d.out.reg)
        c.require(ok, 'regular decoder times regular-to-real gains is stored in the decoder')
        c.require(And(eq(s0, d.dec.stride), eq(s1, d.reg2real.stride), eq(s2, d.out.stride), *[eq(x, I(1)) for x in (c0, c1, c2)]), 'row-major layout of the operands')
        c.require(And(eq(rows, d.nh), eq(cols, d.nreal), eq(inner, d.nreg)), 'sizes of the operands')
        o = c.case()
        cond = And(ge(KV[0], I(0)), lt(KV[0], rows), ge(KV[1], I(0)), lt(KV[1], cols))
        val = product_value(lambda i, k: d.dec.x(c.st, i, k), lambda k, j: d.reg2real.x(c.st, k, j), inner, KV[0], KV[1])
        o.st.setlog(d.out.reg, 0, o.st.log(d.out.reg, 0) + (Upd(4, cond, val),))
        o.ret(I(0))
    v.contract(r'visr::efl::product<float>\(', prod, 'efl::product')
    for e in only(v, v.call(v.find(r'^visr::panning::AllRAD::updateDecodingCoefficients\('), [d.o.ptr()]), 'ret'):
        st = e.st.copy()
        h, l = tm.fresh('harmonic', 'I'), tm.fresh('loudspeaker', 'I')
        st.assume(And(ge(h, I(0)), lt(h, d.nh), ge(l, I(0)), lt(l, d.nreal)))
        v.same(st, 'decoder of the real array = decoder of the regular array x panning gains', d.out.x(st, h, l), product_value(lambda i, k: d.dec.x(st0, i, k), gain, d.nreg, h, l), F)
    return v


def unit_allrad_listener():
    v = V([AR], 'AllRAD::setListenerPosition', ('uf',))
    d = allrad_object(v)
    vb = d.o.p('mRealDecoder')
    g = ghost(v, 2)
    p = [v.flt('listener' + a, 'f') for a in 'XYZ']

    def setl(c, t, *a):
        t = c.st.resolve(t)
        c.require(And(tm.B(t.reg is vb.reg and t.off is vb.off), *[eq(x, y) for x, y in zip(a, p)]), 'new position is passed to the panning of the real array')
        c.case().put(g.at(0), I64, I(1))
    v.contract(r'^visr::panning::VBAP::setListenerPosition\(float, float, float\)', setl, 'VBAP::setListenerPosition')

    def upd(c, t):
        c.require(eq(c.rd(g.at(0), I64), I(1)), 'decoder is recomputed after the listener moved')
        c.case().put(g.at(1), I64, I(1))
    v.contract(r'^visr::panning::AllRAD::updateDecodingCoefficients\(', upd, 'AllRAD::updateDecodingCoefficients')
    for e in only(v, v.call(v.find(r'^visr::panning::AllRAD::setListenerPosition\(float'), [d.o.ptr()] + p), 'ret'):
        v.oblige(e.st, 'decoder is recomputed', eq(e.st.load(g.at(1), I64, ''), I(1)))
    return v


def units(sel=None):
    return [('efl::product<float>', unit_product), ('AllRAD::updateDecodingCoefficients', unit_allrad), ('AllRAD::setListenerPosition', unit_allrad_listener)]
