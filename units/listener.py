"""P15: gains and delays that compensate for the position of the listener."""
from irv.unit import *
from irv.state import vsubst
from .arrays import only, split_ends
from .comps import mkarr
from .component import Comp
from .flow import vec, ghost

LC = 'librcl/listener_compensation.cpp'
F, I64 = FTY['f'], ('i', 64)
zero, one = fnum(0.0, 'f'), fnum(1.0, 'f')
flt = lambda a, b: tm.fop('flt', (a, b), 'B')
fle = lambda a, b: tm.fop('fle', (a, b), 'B')
sqrt = lambda a: tm.fop('sqrt', (a,), 'f')
fmax = lambda a, b: ite(flt(a, b), b, a)


class Lis:
    def __init__(self, v):
        self.v = v
        self.lay = Lay(LC)
        c = self.c = Comp(v, 'visr::rcl::ListenerCompensation', LC)
        self.n, self.virt = v.int('loudspeakers', 1, 1 << 20), v.int('virtualLoudspeakers', 0, 1 << 20)
        c.o.set('mNumberOfLoudspeakers', self.n)
        n = self.ntot = add(self.n, self.virt)
        self.pos = v.reg(Region('positions', esize=16, leaf=4, leafsort='f', extent=lambda i: And(ge(i, I(0)), lt(i, n))))
        self.pos.readonly = True
        base = c.lay.cls('visr::rcl::ListenerCompensation')['m_array'][0] + c.lay.cls('visr::panning::LoudspeakerArray')['m_position'][0]
        st = v.st
        st.store(c.o.ptr().plus(base), PTR, self.pos.ptr(), 'setup')
        st.store(c.o.ptr().plus(base + 8), PTR, self.pos.at(n), 'setup')
        v.contract(r'visr::panning::LoudspeakerArray::getPosition\(unsigned long\)', self.getpos, 'LoudspeakerArray::getPosition')
        v.contract(r'visr::panning::LoudspeakerArray::getNumSpeakers\(', lambda c, t: c.case().ret(n), 'LoudspeakerArray::getNumSpeakers')
        v.contract(r'^visr::panning::XYZ::XYZ\(\)$', lambda c, t: c.case().put(t, F, zero).put(c.st.resolve(t).plus(4), F, zero).put(c.st.resolve(t).plus(8), F, zero), 'XYZ::XYZ')
        v.contract(r'^(std::)?pow\(float, float\)$', self.pow, 'std::pow')
        self.l = [v.flt('listener' + a, 'f') for a in 'XYZ']
        for k, f in enumerate('xyz'):
            st.store(c.o.p('m_listenerPos').plus(4 * k), F, self.l[k], 'setup')

    def getpos(self, c, t, i):
        c.require(And(ge(i, I(0)), lt(i, self.ntot)), 'loudspeaker exists')
        c.case().ret(self.pos.at(i))

    def pow(self, c, x, y):
        c.require(eq(y, fnum(2.0, 'f')), 'power of two (pow(x,2) = x*x is assumed)')
        c.case().ret(fmul(x, x))

    def p(self, st, i, k):
        return st.read_field(self.pos, 4 * k, 4, F, (i,))

    def dist(self, st, i, l=None):
        d = [fsub(self.p(st, i, k), (l or self.l)[k]) for k in range(3)]
        pw = lambda x: fmul(x, x)
        return sqrt(fadd(fadd(pw(d[0]), pw(d[1])), pw(d[2])))

    def far(self, st, l=None):
        kk, acc = tm.var('?kk', 'I'), tm.var('?acc', 'f')
        d = self.dist(st, kk, l)
        return tm.fold(self.n, [acc], [zero], [fmax(acc, d)], 0, kk)


def unit_calc(fn):
    v = V([LC], 'ListenerCompensation::' + fn, ('uf', 'real'))
    w = Lis(v)
    out = mkarr(v, 'result', w.c, None, w.n)
    st0 = v.st.copy()
    for e in only(v, v.call(v.find(r'^visr::rcl::ListenerCompensation::%s\(' % fn), [w.c.o.ptr(), out.o.ptr()]), 'ret'):
        v.oblige(e.st, 'success is reported', eq(e.val, I(0)))
        i = tm.fresh('loudspeaker', 'I')
        s = e.st.copy()
        s.assume(And(ge(i, I(0)), lt(i, w.n)))
        d, far = w.dist(st0, i), w.far(st0)
        want = fdiv(d, far) if fn == 'calcGainComp' else fdiv(tm.fop('fabs', (fsub(d, far),), 'f'), fnum(344.0, 'f'))
        v.same(s, 'value of every loudspeaker follows from its distance to the listener', out.x(s, i), want, F)
    return v


def unit_process():
    v = V([LC], 'ListenerCompensation::process', ('uf', 'real'))
    w = Lis(v)
    c = w.c
    gn, dn = v.int('gainEntries', 0, 1 << 20), v.int('delayEntries', 0, 1 << 20)
    gains, delays = mkarr(v, 'gains', c, None, gn), mkarr(v, 'delays', c, None, dn)
    ch = v.bool('positionChanged')
    new = [v.flt('new' + a, 'f') for a in 'XYZ']
    lp = v.reg(Region('position', size=64))
    g = ghost(v, 4)
    count = lambda cc, k: cc.case().put(g.at(k), I64, add(cc.rd(g.at(k), I64), I(1)))
    isg = lambda cc, t: cc.st.proves(lt(cc.st.resolve(t).off, c.o.p('mDelayOutput').off))
    D = r'^visr::pml::DoubleBufferingProtocol::'
    v.contract(D + r'InputBase::changed\(', lambda cc, t: cc.case().ret(ch), 'changed')
    v.contract(D + r'InputBase::resetChanged\(', lambda cc, t: count(cc, 0), 'resetChanged')
    v.contract(D + r'OutputBase::swapBuffers\(', lambda cc, t, copy: count(cc, 1 if isg(cc, t) else 2), 'swapBuffers')
    v.contract(D + r'Input<visr::pml::ListenerPosition>::data\(', lambda cc, t: cc.case().ret(lp.ptr()), 'data')
    base = dict(c.lay.cls('visr::pml::VectorParameter<float>')['#bases'])['visr::efl::BasicVector<float>']
    v.contract(D + r'Output<visr::pml::VectorParameter<float> *>::data\(',
               lambda cc, t: cc.case().ret((gains if isg(cc, t) else delays).o.ptr().plus(-base)), 'data')
    for k, a in enumerate('xyz'):
        v.contract(r'^visr::pml::ListenerPosition::%s\(\) const' % a, lambda cc, t, k=k: cc.case().ret(new[k]), 'ListenerPosition::' + a)
    st0 = v.st.copy()
    G, Dl = (lambda i: fdiv(w.dist(st0, i, new), w.far(st0, new))), (lambda i: fdiv(tm.fop('fabs', (fsub(w.dist(st0, i, new), w.far(st0, new)),), 'f'), fnum(344.0, 'f')))

    def calc(arr, n, val, lab):
        def f(cc, t, p):
            cc.require(And(*[eq(cc.rd(c.o.p('m_listenerPos').plus(4 * k), F), new[k]) for k in range(3)]), '%s uses the new position' % lab)
            cc.require(tm.B(cc.st.resolve(p).reg is arr.o.reg), '%s receives its own vector' % lab)
            cc.require(eq(n, w.n), '%s receives one entry per loudspeaker' % lab)
            cc.case().ret(I(0)).fill(cc.st.resolve(arr.data), w.n, F, val)
        return f
    v.contract(r'^visr::rcl::ListenerCompensation::calcGainComp\(', calc(gains, gn, G, 'calcGainComp'), 'calcGainComp')
    v.contract(r'^visr::rcl::ListenerCompensation::calcDelayComp\(', calc(delays, dn, Dl, 'calcDelayComp'), 'calcDelayComp')
    bad = And(ch, Or(ne(gn, w.n), ne(dn, w.n)))
    for e in split_ends(v, c.run(v.find(r'^visr::rcl::ListenerCompensation::process\(\)$')), bad, 'throw', 'vectors of another size are rejected'):
        s = e.st.copy()
        for k, lab in enumerate(('the change is consumed', 'the gains are sent', 'the delays are sent')):
            v.oblige(s, lab + ' exactly when the position changed', eq(s.load(g.at(k), I64, ''), ite(ch, I(1), I(0))))
        i = tm.fresh('loudspeaker', 'I')
        s.assume(And(ge(i, I(0)), lt(i, w.n), lt(i, gn), lt(i, dn)))
        v.same(s, 'gains of the new position', gains.x(s, i), ite(ch, G(i), gains.x(st0, i)), F)
        v.same(s, 'delays of the new position', delays.x(s, i), ite(ch, Dl(i), delays.x(st0, i)), F)
    return v


def units(sel=None):
    return [('calcGainComp', lambda: unit_calc('calcGainComp')), ('calcDelayComp', lambda: unit_calc('calcDelayComp')), ('process', unit_process)]
