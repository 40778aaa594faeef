"""Calculators that turn object metadata into gains, equalisers and routings."""
from irv.unit import *
from irv.solver import Fact
from irv.loops import Inv, INVERSE
from irv.exec import VFn, End
from .arrays import only, split_ends
from .comps import mkmat, mkarr
from .component import Comp
from .flow import ghost
from .panning import iterators
from .efl import use_kernels, use_alignment

F, I64, I32 = FTY['f'], ('i', 64), ('i', 32)
DG, GE, CR = 'librcl/diffusion_gain_calculator.cpp', 'librcl/object_gain_eq_calculator.cpp', 'librcl/channel_object_routing_calculator.cpp'
zero, one = fnum(0.0, 'f'), fnum(1.0, 'f')
DIFFUSE, POINTDIFF, HOA, CHANNEL = 2, 3, 7, 8
HR = 'librcl/hoa_allrad_gain_calculator.cpp'


class Scene:
    """an object vector with n objects of any type, seen through the accessors of the object classes"""

    def __init__(self, v, n):
        self.v, self.n = v, n
        rng = lambda i: And(ge(i, I(0)), lt(i, n))
        self.objs = v.reg(Region('objectIterator', esize=8, leaf=8, leafsort='i', extent=rng))
        vt = v.reg(Region('objectVtable', esize=8, leaf=8, leafsort='p', extent=lambda i: And(ge(i, I(0)), lt(i, I(4)))))
        self.ob = v.reg(Region('object', nmem=1, esize=8, leaf=8, leafsort='p', extent=lambda i, k: And(rng(i), ge(k, I(0)), lt(k, I(64))),
                               ptrs={0: lambda i, k: vt.ptr()}))
        self.ob.readonly = True
        self.kind = lambda j: tm.uf('kind', (j,), 'I')
        self.chn = lambda j: tm.uf('channels', (j,), 'I')
        self.ch = lambda j, k: tm.uf('channel', (j, k), 'I')
        self.pos = lambda j, x: tm.uf('channelPosition', (j, x), 'I')
        self.at = lambda nm, j: tm.uf(nm, (j,), 'f')
        v.st.facts = tuple(v.st.facts) + (
            Fact('kind', lambda j: And(ge(self.kind(j), I(0)), lt(self.kind(j), I(256))), 1),
            Fact('channels', lambda j: And(ge(self.chn(j), I(0)), le(self.chn(j), I(1 << 20))), 1),
            Fact('channel', lambda j, k: And(ge(self.ch(j, k), I(0)), lt(self.ch(j, k), I(1 << 32)),
                                             Implies(And(ge(k, I(0)), lt(k, self.chn(j))), eq(self.pos(j, self.ch(j, k)), k))), 1, 'channels of an object are distinct'))
        INVERSE['channel'] = lambda a, x: self.pos(a[0], x)
        v.st.store(vt.at(I(2)), PTR, VFn('Object::type', lambda ex, st, a, ins: [End('ret', st, self.kind(st.resolve(a[0]).mem[0]))]), 'setup')
        OV = r'^visr::objectmodel::ObjectVector::'
        C = v.contract
        C(OV + r'begin\(', lambda cc, t: cc.case().ret(self.objs.ptr()), 'ObjectVector::begin')
        C(OV + r'end\(', lambda cc, t: cc.case().ret(self.objs.at(n)), 'ObjectVector::end')
        cur = lambda cc, t: cc.st.resolve(cc.rd(cc.st.resolve(t), PTR))
        idx = lambda cc, t: tm.divexact(cur(cc, t).off, 8) if tm.divexact(cur(cc, t).off, 8) is not None else tm.div(cur(cc, t).off, I(8))
        C(OV + r'const_iterator::operator\*\(', lambda cc, t: cc.case().ret(Ptr(self.ob, (idx(cc, t),), 0)), 'ObjectVector iterator')
        C(OV + r'const_iterator::operator!=\(', lambda cc, a, b: cc.case().ret(ne(cur(cc, a).off, cur(cc, b).off)), 'ObjectVector iterator')
        C(OV + r'const_iterator::operator\+\+\(\)', lambda cc, t: cc.case().put(cc.st.resolve(t), PTR, cur(cc, t).plus(8)).ret(t), 'ObjectVector iterator')
        M = r'^visr::objectmodel::'
        num = self.num
        C(M + r'Object::numberOfChannels\(', lambda cc, t: cc.case().ret(self.chn(num(cc, t))), 'Object::numberOfChannels')
        C(M + r'Object::level\(', lambda cc, t: cc.case().ret(self.at('level', num(cc, t))), 'Object::level')
        C(M + r'Object::id\(', lambda cc, t: cc.case().ret(tm.uf('id', (num(cc, t),), 'I')), 'Object::id')

        def chan(cc, t, k):
            cc.require(lt(k, self.chn(num(cc, t))), 'channel of the object')
            cc.case().ret(self.ch(num(cc, t), k))
        C(M + r'Object::channelIndex\(', chan, 'Object::channelIndex')

        def diff(cc, t):
            cc.require(eq(self.kind(num(cc, t)), I(POINTDIFF)), 'object is of the accessed type')
            cc.case().ret(self.at('diffuseness', num(cc, t)))
        C(M + r'PointSourceWithDiffuseness::diffuseness\(', diff, 'PointSourceWithDiffuseness::diffuseness')

        def dc(cc, p, src, dst, *a):
            nm = cc.st.resolve(dst).reg.name
            for k, x in (('PointSourceWithDiffuseness', POINTDIFF), ('ChannelObject', CHANNEL), ('HoaSource', HOA)):
                if nm.rstrip('E').endswith('%d%s' % (len(k), k)):
                    cc.require(eq(self.kind(num(cc, p)), I(x)), 'cast to the type of the object')
                    return cc.case().ret(p)
            raise Unsupported('dynamic_cast to ' + nm)
        C(r'^__dynamic_cast$', dc, 'dynamic_cast')
        C(r'std::basic_ostream<char, std::char_traits<char> >::operator<<\(', lambda cc, t, *a: cc.case().ret(t), 'ostream output')
        C(r'std::operator<< ?<std::char_traits<char> >\(', lambda cc, t, *a: cc.case().ret(t), 'ostream output')

    def num(self, cc, t):
        return cc.st.resolve(t).mem[0]

    def loop(self, pat, logs, free=()):
        v, n = self.v, self.n
        inv = Inv(v, ['j'], {'j': I(0)}, lambda e, gh: {'j': add(gh['j'], I(1))}, lambda gh: And(ge(gh['j'], I(0)), le(gh['j'], n)),
                  logs=logs, measure=lambda gh: sub(n, gh['j']), free=list(free))
        inv.find_cells = lambda st: [(p, PTR, lambda gh: self.objs.at(gh['j'])) for p in iterators(v, st, self.objs)]
        v.invariant(pat, inv)
        return inv

    def history(self, name, cond, val, so='f', init=zero, nkeys=1):
        """H(j, keys): content after the first j objects"""
        H = lambda j, *k: tm.uf(name, (j,) + k, so)

        def f(j, *k):
            i = sub(j, I(1))
            return And(Implies(eq(j, I(0)), eq(H(j, *k), init)), Implies(ge(j, I(1)), eq(H(j, *k), ite(cond(i, *k), val(i, *k), H(i, *k)))))
        self.v.st.facts = tuple(self.v.st.facts) + (Fact(name, f),)
        return H


def unit_diffusion():
    v = V([DG], 'DiffusionGainCalculator::processInternal', ('uf',))
    c = Comp(v, 'visr::rcl::DiffusionGainCalculator', DG)
    n, no = v.int('objects', 0, 1 << 20), v.int('numberOfObjectChannels', 1, 1 << 20)
    c.o.set('mNumberOfObjectChannels', no)
    g = v.array('gains', 'f', no)
    s = Scene(v, n)
    ovr = v.reg(Region('objectVector', size=256))
    H = s.history('gainAfter', lambda j, k: And(eq(s.chn(j), I(1)), eq(s.ch(j, I(0)), k)),
                  lambda j, k: ite(eq(s.kind(j), I(DIFFUSE)), one, ite(eq(s.kind(j), I(POINTDIFF)), s.at('diffuseness', j), zero)))
    v.st.setlog(g, 0, (Upd(4, TRUE, zero),))
    s.loop(r'^visr::rcl::DiffusionGainCalculator::processInternal\(', [(g, 0, lambda gh: (Upd(4, And(ge(KV[0], I(0)), lt(KV[0], no)), H(gh['j'], KV[0])),))])
    for e in only(v, v.call(v.find(r'^visr::rcl::DiffusionGainCalculator::processInternal\('), [c.o.ptr(), ovr.ptr(), g.ptr()]), 'ret'):
        k = tm.fresh('channel', 'I')
        st = e.st.copy()
        st.assume(And(ge(k, I(0)), lt(k, no)))
        v.same(st, 'diffusion gain of the last object that uses the channel', st.read_field(g, 0, 4, F, (k,)), H(n, k), F)
    return v


def unit_gaineq():
    v = V([GE], 'ObjectGainEqCalculator::process(objects)', ('uf',))
    c = Comp(v, 'visr::rcl::ObjectGainEqCalculator', GE)
    n, no, ns = v.int('objects', 0, 1 << 20), v.int('numberOfObjectChannels', 1, 1 << 20), v.int('numberOfBiquadSections', 0, 1 << 20)
    c.o.set('cNumberOfObjectChannels', no)
    c.o.set('cNumberOfBiquadSections', ns)
    fs = v.flt('samplingFrequency', 'f')
    gn, fn_, sn = v.int('gainEntries', 0, 1 << 20), v.int('filters', 0, 1 << 20), v.int('sections', 0, 1 << 20)
    g = mkarr(v, 'gains', c, None, gn)
    eqs = v.reg(Region('equalisers', esize=8, leaf=8, leafsort='i', extent=lambda i: And(ge(i, I(0)), lt(i, fn_))))
    em, ovr = v.reg(Region('equaliserMatrix', size=64)), v.reg(Region('objectVector', size=256))
    eqo = v.reg(Region('objectEq', nmem=1, esize=8, leaf=8, leafsort='i', extent=lambda i, k: And(ge(i, I(0)), lt(i, n), eq(k, I(0)))))
    s = Scene(v, n)
    C = v.contract
    B = r'^visr::rbbl::BiquadCoefficientMatrix<float>::'
    C(B + r'numberOfFilters\(', lambda cc, t: cc.case().ret(fn_), 'BiquadCoefficientMatrix::numberOfFilters')
    C(B + r'numberOfSections\(', lambda cc, t: cc.case().ret(sn), 'BiquadCoefficientMatrix::numberOfSections')

    def row(cc, t, i):
        cc.require(lt(i, fn_), 'filter exists')
        cc.case().ret(eqs.at(i))
    C(B + r'operator\[\]\(', row, 'BiquadCoefficientMatrix::operator[]')
    C(r'^visr::rbbl::BiquadCoefficient<float>::BiquadCoefficient\(\)', lambda cc, t: cc.case(), 'BiquadCoefficient')
    C(r'^visr::objectmodel::Object::eqCoefficients\(', lambda cc, t: cc.case().ret(Ptr(eqo, (s.num(cc, t),), 0)), 'Object::eqCoefficients')
    C(r'^visr::efl::BasicVector<float>::zeroFill\(', lambda cc, t: cc.case().fill(cc.st.resolve(g.data), gn, F, lambda k: zero), 'BasicVector::zeroFill')
    C(r'^void visr::rcl::ObjectGainEqCalculator::status<|^void visr::Component::status<', lambda cc, *a: cc.case(), 'status')
    design = lambda j: tm.uf('designed', (j,), 'I')

    def calc(cc, par, out, rate):
        p, o_ = cc.st.resolve(par), cc.st.resolve(out)
        cc.require(tm.B(p.reg is eqo and o_.reg is eqs), 'coefficients of the object are written to the equalisers')
        j = p.mem[0]
        many = gt(tm.uf('eqSections', (j,), 'I'), sn)
        cc.case(Not(many)).put(o_, I64, design(j))
        cc.case(many).throw('_ZTISt16invalid_argument')
    C(r'visr::rbbl::ParametricIirCoefficientCalculator::calculateIirCoefficients<float>\(', calc, 'calculateIirCoefficients')
    uses = lambda j, k: And(ge(s.pos(j, k), I(0)), lt(s.pos(j, k), s.chn(j)), eq(s.ch(j, s.pos(j, k)), k))
    H = s.history('gainAfter', uses, lambda j, k: s.at('level', j))
    E0 = lambda k: v.st.read_field(eqs, 0, 8, I64, (k,))
    E = lambda j, k: tm.uf('eqAfter', (j, k), 'I')

    def fe(j, k):
        i = sub(j, I(1))
        return And(Implies(eq(j, I(0)), eq(E(j, k), E0(k))), Implies(ge(j, I(1)), eq(E(j, k), ite(uses(i, k), design(i), E(i, k)))))
    v.st.facts = tuple(v.st.facts) + (Fact('eqAfter', fe),)
    upto = lambda f: lambda gh: (Upd(4, And(ge(KV[0], I(0)), lt(KV[0], gn)), f(gh['j'], KV[0])),)
    P = r'^visr::rcl::ObjectGainEqCalculator::process\(visr::objectmodel'
    s.loop(P, [(g.reg, 0, lambda gh: (Upd(4, And(ge(KV[0], g.d), lt(KV[0], add(g.d, gn))), H(gh['j'], sub(KV[0], g.d))),)),
               (eqs, 0, lambda gh: (Upd(8, And(ge(KV[0], I(0)), lt(KV[0], fn_)), E(gh['j'], KV[0])),))])
    wrong = Or(ne(gn, no), ne(fn_, no), ne(sn, ns))
    st0 = v.st.copy()
    for e in v.call(v.find(P), [c.o.ptr(), ovr.ptr(), g.o.ptr(), em.ptr()]):
        st = e.st.copy()
        if e.kind == 'throw':
            continue
        v.oblige(st, 'outputs of another size are rejected', Not(wrong))
        k = tm.fresh('channel', 'I')
        st.assume(And(ge(k, I(0)), lt(k, no)))
        v.same(st, 'gain of a channel is the level of the last object that uses it, else zero', g.x(st, k), H(n, k), F)
        v.same(st, 'equaliser of a channel is that of the last object that uses it', st.read_field(eqs, 0, 8, I64, (k,)), E(n, k), I64)
    return v


def unit_routing():
    v = V([CR], 'ChannelObjectRoutingCalculator::process(objects)', ('uf',))
    c = Comp(v, 'visr::rcl::ChannelObjectRoutingCalculator', CR)
    n, no = v.int('objects', 0, 1 << 20), v.int('numberOfObjectChannels', 1, 1 << 20)
    c.o.set('cNumberOfObjectChannels', no)
    s = Scene(v, n)
    ovr, rout = v.reg(Region('objectVector', size=256)), v.reg(Region('routings', size=64))
    two = lambda nm, cells: v.reg(Region(nm, nmem=2, esize=8, leaf=8, leafsort='i', extent=lambda j, k, x: And(ge(j, I(0)), lt(j, n), ge(k, I(0)), lt(k, s.chn(j)), ge(x, I(0)), lt(x, I(cells)))))
    lists, names, nodes, sent = two('outputList', 3), two('outputName', 4), two('lookupNode', 9), two('sent', 1)
    sent.local = False
    cleared = ghost(v)
    last = v.reg(Region('lookupEnd', size=72))
    C = v.contract
    num = lambda cc, t: cc.st.resolve(t).mem
    M = r'^visr::objectmodel::ChannelObject::'
    vecs = v.reg(Region('outputVector', nmem=1, esize=8, leaf=8, leafsort='i', extent=lambda j, x: And(ge(j, I(0)), lt(j, n), ge(x, I(0)), lt(x, I(3)))))
    C(M + r'outputChannels', lambda cc, t: cc.case().ret(Ptr(vecs, (s.num(cc, t),), 0)), 'ChannelObject::outputChannels')

    def outch(cc, t, k):
        j = s.num(cc, t)
        cc.require(And(lt(k, s.chn(j)), eq(s.kind(j), I(CHANNEL))), 'channel of the object')
        cc.case().ret(Ptr(lists, (j, k), 0))
    C(M + r'outputChannel(\[abi:cxx11\])?\(', outch, 'ChannelObject::outputChannel')
    nout, found, target = (lambda j, k: tm.uf('outputs', (j, k), 'I')), (lambda j, k: tm.uf('known', (j, k), 'B')), (lambda j, k: tm.uf('lookupNode', (j, k, I(8)), 'I'))
    v.st.facts = tuple(v.st.facts) + (Fact('outputs', lambda j, k: And(ge(nout(j, k), I(0)), lt(nout(j, k), I(1 << 56))), 1),)
    VS = r'^std::vector<.*>::'

    def size(cc, t):
        p = cc.st.resolve(t)
        cc.case().ret(s.chn(p.mem[0]) if p.reg is vecs else nout(*p.mem))
    C(VS + r'size\(\) const', size, 'std::vector::size')

    def elem(cc, t, i):
        p = cc.st.resolve(t)
        cc.require(And(eq(i, I(0)), lt(i, nout(*p.mem))), 'first output of the channel')
        cc.case().ret(Ptr(names, p.mem, 0))
    C(VS + r'operator\[\]\(unsigned long\) const', elem, 'std::vector::operator[]')
    C(VS + r'(front|at)\(', elem, 'std::vector::front')

    def find(cc, t, key):
        p = cc.st.resolve(key)
        cc.require(tm.B(p.reg is names), 'output name of the channel is looked up')
        cc.case(found(*p.mem)).ret(Ptr(nodes, p.mem, 0))
        cc.case(Not(found(*p.mem))).ret(last.ptr())
    C(r'^std::map<.*>::find\(', find, 'std::map::find')
    C(r'^std::map<.*>::c?end\(', lambda cc, t: cc.case().ret(last.ptr()), 'std::map::end')
    C(r'^visr::pml::SignalRoutingParameter::clear\(', lambda cc, t: cc.case().put(cleared.at(0), I64, add(cc.rd(cleared.at(0), I64), I(1))), 'SignalRoutingParameter::clear')

    def addr(cc, t, i, o):
        cc.require(tm.B(cc.st.resolve(t).reg is rout), 'routing is added to the output')
        cc.require(eq(cc.rd(cleared.at(0), I64), I(1)), 'old routings are removed first')
        if not (isinstance(o, T) and o.op == 'uf' and o.args[0] == 'lookupNode'):
            return cc.require(FALSE, 'output channel comes from the lookup')
        key = o.args[1:3]
        cc.require(And(eq(i, s.ch(*key)), eq(o, target(*key))), 'routing from the signal channel to the loudspeaker of its label')
        cc.require(lt(i, no), 'signal channel exists')
        cc.case().put(Ptr(sent, tuple(key), 0), I64, I(1))
    C(r'^visr::pml::SignalRoutingParameter::addRouting\(unsigned long, unsigned long\)', addr, 'SignalRoutingParameter::addRouting')
    C(r'^void visr::rcl::ChannelObjectRoutingCalculator::status<|^(void )?visr::Component::status[<(]', lambda cc, *a: cc.case(), 'status')
    want = lambda j, k: And(eq(s.kind(j), I(CHANNEL)), lt(s.ch(j, k), no), eq(nout(j, k), I(1)), found(j, k))
    v.st.setlog(sent, 0, (Upd(8, TRUE, I(0)),))
    P = r'^visr::rcl::ChannelObjectRoutingCalculator::process\(visr::pml'
    s.loop(P, [(sent, 0, lambda gh: (Upd(8, TRUE, I(0)), Upd(8, And(ge(KV[0], I(0)), lt(KV[0], gh['j']), ge(KV[1], I(0)), lt(KV[1], s.chn(KV[0])), want(KV[0], KV[1])), I(1))))])
    for e in only(v, v.call(v.find(P), [c.o.ptr(), ovr.ptr(), rout.ptr()]), 'ret'):
        st = e.st.copy()
        v.oblige(st, 'old routings are removed', eq(st.load(cleared.at(0), I64, ''), I(1)))
        j, k = tm.fresh('object', 'I'), tm.fresh('channel', 'I')
        st.assume(And(ge(j, I(0)), lt(j, n), ge(k, I(0)), lt(k, s.chn(j))))
        v.same(st, 'exactly the channels with one known loudspeaker label are routed', st.read_field(sent, 0, 8, I64, (j, k, I(0))), ite(want(j, k), I(1), I(0)), I64)
    return v


def unit_hoa(track):
    v = V([HR], 'HoaAllRadGainCalculator::process%s' % (' (listener tracked)' if track else ''), ('uf',))
    c = Comp(v, 'visr::rcl::HoaAllRadGainCalculator', HR)
    n, nch, nls, nsig = v.int('objects', 0, 1 << 20), v.int('signals', 1, 1 << 20), v.int('loudspeakers', 1, 1 << 20), v.int('decoderSignals', 1, 1 << 20)
    s = Scene(v, n)
    base = dict(c.lay.cls('visr::pml::MatrixParameter<float>')['#bases'])['visr::efl::BasicMatrix<float>']
    src, dst = mkmat(v, 'inputGains', c, None, nls, nch, ro=True), mkmat(v, 'outputGains', c, None, nls, nch)
    dec = mkmat(v, 'decodingGains', c, None, nsig, nls, ro=True)
    lport, lpos, data, allrad = [v.reg(Region(x, size=64)) for x in ('listenerPort', 'listenerPosition', 'objectVector', 'allRad')]
    c.o.set('mListenerInput', lport.ptr() if track else NULL, PTR)
    c.o.set('mAllRadCalculator', allrad.ptr(), PTR)
    moved = v.bool('listenerMoved')
    g = ghost(v, 4)
    C = v.contract
    bump = lambda cc, o, k: o.put(g.at(k), I64, add(cc.rd(g.at(k), I64), I(1)))
    D = r'^visr::pml::DoubleBufferingProtocol::Input'
    C(D + r'Base::changed\(', lambda cc, t: cc.case().ret(moved), 'changed')
    C(D + r'Base::resetChanged\(', lambda cc, t: bump(cc, cc.case(), 0 if cc.st.resolve(t).reg is lport else 1), 'resetChanged')
    C(D + r'<visr::pml::ObjectVector>::data\(', lambda cc, t: cc.case().ret(data.ptr()), 'data')
    C(D + r'<visr::pml::ListenerPosition>::data\(', lambda cc, t: cc.case().ret(lpos.ptr()), 'data')
    P = r'^visr::pml::SharedDataProtocol::'
    C(P + r'Input<.*>::data\(', lambda cc, t: cc.case().ret(src.o.ptr().plus(-base)), 'SharedDataProtocol::Input::data')
    C(P + r'Output<.*>::data\(', lambda cc, t: cc.case().ret(dst.o.ptr().plus(-base)), 'SharedDataProtocol::Output::data')

    def copy(cc, t, o):
        cc.require(tm.B(cc.st.resolve(t).reg is dst.o.reg and cc.st.resolve(o).reg is src.o.reg), 'input gains are copied to the output')
        cc.case().st.setlog(dst.reg, 0, (Upd(4, And(ge(KV[0], I(0)), lt(KV[0], nls), ge(KV[1], I(0)), lt(KV[1], nch)), src.x(cc.st, KV[0], KV[1])),))
    C(r'^visr::efl::BasicMatrix<float>::copy\(', copy, 'BasicMatrix::copy (proved under P02)')
    lp = [v.flt('listener' + a, 'f') for a in 'XYZ']
    for k, a in enumerate('xyz'):
        C(r'^visr::pml::ListenerPosition::%s\(' % a, lambda cc, t, k=k: cc.case().ret(lp[k]), 'ListenerPosition')

    def setl(cc, t, *xyz):
        cc.require(And(*[tm.feq(a, b) if hasattr(tm, 'feq') else eq(a, b) for a, b in zip(xyz, lp)]), 'listener position from the port')
        bump(cc, cc.case(), 2)
    C(r'^visr::panning::AllRAD::setListenerPosition\(', setl, 'AllRAD::setListenerPosition')
    C(r'^visr::panning::AllRAD::decodingGains\(', lambda cc, t: cc.case().ret(dec.o.ptr()), 'AllRAD::decodingGains')
    order = lambda j: tm.uf('order', (j,), 'I')
    v.st.facts = tuple(v.st.facts) + (Fact('order', lambda j: And(ge(order(j), I(0)), lt(order(j), I(1 << 15))), 1),)

    def ordr(cc, t):
        cc.require(eq(s.kind(s.num(cc, t)), I(HOA)), 'object is of the accessed type')
        cc.case().ret(order(s.num(cc, t)))
    C(r'^visr::objectmodel::HoaSource::order\(', ordr, 'HoaSource::order')
    o1 = lambda j: add(order(j), I(1))
    PN = r'^visr::rcl::HoaAllRadGainCalculator::process\('
    uses = lambda j, k: And(eq(s.kind(j), I(HOA)), ge(s.pos(j, k), I(0)), lt(s.pos(j, k), s.chn(j)), eq(s.ch(j, s.pos(j, k)), k))
    G = lambda st, r, k: src.x(st, r, k)
    h0 = v.st.copy()
    H = lambda j, r, k: tm.uf('gainAfter', (j, r, k), 'f')

    def f(j, r, k):
        i = sub(j, I(1))
        return And(Implies(eq(j, I(0)), eq(H(j, r, k), src.x(h0, r, k))), Implies(ge(j, I(1)), eq(H(j, r, k), ite(uses(i, k), dec.x(h0, s.pos(i, k), r), H(i, r, k)))))
    v.st.facts = tuple(v.st.facts) + (Fact('gainAfter', f),)
    s.loop(PN, [(dst.reg, 0, lambda gh: (Upd(4, And(ge(KV[0], I(0)), lt(KV[0], nls), ge(KV[1], I(0)), lt(KV[1], nch)), H(gh['j'], KV[0], KV[1])),))])

    bad = lambda j: tm.uf('unusable', (j,), 'B')
    v.st.facts = tuple(v.st.facts) + (
        Fact('order', lambda j: Implies(Or(ne(s.chn(j), mul(o1(j), o1(j))), gt(s.chn(j), nsig)), bad(j)), 1),
        Fact('channel', lambda j, k: Implies(And(ge(k, I(0)), lt(k, s.chn(j)), ge(s.ch(j, k), nch)), bad(j)), 1))

    def status(cc):
        js = [x.mem[0] for x in cc.st.env.values() if isinstance(x, Ptr) and x.reg is s.ob]
        cc.require(Or(*[And(eq(s.kind(j), I(HOA)), bad(j)) for j in js]), 'only a HOA object that does not fit is an error')
        bump(cc, cc.case(), 3)
    c.onstatus = status
    for e in only(v, v.call(v.find(PN), [c.o.ptr()]), 'ret'):
        st = e.st.copy()
        cnt = lambda k: st.load(g.at(k), I64, '')
        if track:
            v.oblige(st, 'a moved listener is taken over once', And(eq(cnt(0), ite(moved, I(1), I(0))), eq(cnt(2), ite(moved, I(1), I(0)))))
        r, k = tm.fresh('loudspeaker', 'I'), tm.fresh('channel', 'I')
        st.assume(And(ge(k, I(0)), lt(k, nch), ge(r, I(0)), lt(r, nls), eq(cnt(3), I(0))))
        v.same(st, 'channels of HOA objects have the decoding gains, all others the input gains', dst.x(st, r, k), H(n, r, k), F)
    return v


def unit_wrapper(which):
    """process(): new objects are turned into new parameters once, and only then"""
    cls, src, outs = {'eq': ('ObjectGainEqCalculator', GE, ('mGainOutput', 'mEqOutput')), 'route': ('ChannelObjectRoutingCalculator', CR, ('mRoutingOutput',))}[which]
    v = V([src], cls + '::process()', ('uf',))
    c = Comp(v, 'visr::rcl::' + cls, src)
    new = v.bool('objectsChanged')
    g = ghost(v, 8)
    bump = lambda cc, o, k: o.put(g.at(k), I64, add(cc.rd(g.at(k), I64), I(1)))
    data = v.reg(Region('objectVector', size=256))
    C = v.contract
    lay = c.lay.cls('visr::rcl::' + cls)
    span = sorted((lay[f][0], f) for f in outs + ('mObjectInput',))

    def port(cc, t):
        t = cc.st.resolve(t)
        off = t.off if isinstance(t.off, int) else tm.intval(t.off) if hasattr(tm, 'intval') else t.off.args[0]
        return [f for o, f in span if o <= off][-1]
    D = r'^visr::pml::DoubleBufferingProtocol::'

    def inp(cc, t, then):
        cc.require(tm.B(port(cc, t) == 'mObjectInput'), 'object port')
        then()
    C(D + r'InputBase::changed\(', lambda cc, t: inp(cc, t, lambda: cc.case().ret(new)), 'changed')
    C(D + r'Input<.*>::data\(', lambda cc, t: inp(cc, t, lambda: cc.case().ret(data.ptr())), 'Input::data')
    C(D + r'InputBase::resetChanged\(', lambda cc, t: inp(cc, t, lambda: bump(cc, cc.case(), 0)), 'resetChanged')
    regs = {f: v.reg(Region('data of ' + f, size=256)) for f in outs}
    C(D + r'Output<.*>::data\(', lambda cc, t: cc.case().ret(regs[port(cc, t)].ptr()), 'Output::data')

    def swap(cc, t, *a):
        f = port(cc, t)
        cc.require(And(tm.B(f in outs), eq(cc.rd(g.at(1), I64), I(1))), 'parameters are sent after they were computed')
        bump(cc, cc.case(), 2 + outs.index(f))
    C(D + r'OutputBase::swapBuffers\(', swap, 'swapBuffers')

    def inner(cc, t, objs, *o):
        ok = cc.st.resolve(objs).reg is data and len(o) == len(outs) and all(cc.st.resolve(x).reg is regs[f] for x, f in zip(o, outs))
        cc.require(tm.B(ok), 'objects of the input port, parameters of the output ports')
        cc.require(eq(cc.rd(g.at(2), I64), I(0)), 'computed before the parameters are sent')
        bump(cc, cc.case(), 1)
    C(r'^visr::rcl::%s::process\(visr' % cls, inner, cls + '::process(objects)')
    for e in only(v, v.call(v.find(r'^visr::rcl::%s::process\(\)' % cls), [c.o.ptr()]), 'ret'):
        for k, nm in ((0, 'change is acknowledged'), (1, 'parameters are computed')) + tuple((2 + i, 'parameters are sent (%s)' % f) for i, f in enumerate(outs)):
            v.oblige(e.st, nm + ' exactly when there are new objects', eq(e.st.load(g.at(k), I64, ''), ite(new, I(1), I(0))))
    return v


def unit_diffusion_process():
    v = V([DG], 'DiffusionGainCalculator::process()', ('uf',))
    c = Comp(v, 'visr::rcl::DiffusionGainCalculator', DG)
    no = v.int('numberOfObjectChannels', 1, 1 << 20)
    c.o.set('mNumberOfObjectChannels', no)
    base = dict(c.lay.cls('visr::pml::MatrixParameter<float>')['#bases'])['visr::efl::BasicMatrix<float>']
    m = mkmat(v, 'gains', c)
    data = v.reg(Region('objectVector', size=256))
    g = ghost(v, 2)
    C = v.contract
    C(r'^visr::pml::DoubleBufferingProtocol::Input<.*>::data\(', lambda cc, t: cc.case().ret(data.ptr()), 'Input::data')
    C(r'^visr::pml::SharedDataProtocol::Output<.*>::data\(', lambda cc, t: cc.case().ret(m.o.ptr().plus(-base)), 'Output::data')
    C(r'^visr::efl::BasicMatrix<float>::zeroFill\(', lambda cc, t: cc.case().put(g.at(0), I64, I(1)), 'BasicMatrix::zeroFill')

    def inner(cc, t, objs, out):
        p = cc.st.resolve(out)
        ok = cc.st.resolve(objs).reg is data and p.reg is m.reg
        cc.require(tm.B(ok), 'objects of the input port, gains of the output port')
        if ok:
            row, col = cc.st.locate(p, 4)[2]
            cc.require(And(eq(row, I(0)), eq(col, I(0))), 'first row')
        cc.require(eq(cc.rd(g.at(0), I64), I(1)), 'gains are cleared first')
        cc.case().put(g.at(1), I64, add(cc.rd(g.at(1), I64), I(1)))
    C(r'^visr::rcl::DiffusionGainCalculator::processInternal\(', inner, 'DiffusionGainCalculator::processInternal')
    bad = Or(ne(m.rows, I(1)), ne(m.cols, no))
    for e in v.call(v.find(r'^visr::rcl::DiffusionGainCalculator::process\(\)'), [c.o.ptr()]):
        if e.kind == 'throw':
            v.oblige(e.st, 'rejected only for another size', bad)
        else:
            v.oblige(e.st, 'another size is rejected, gains are computed once', And(Not(bad), eq(e.st.load(g.at(1), I64, ''), I(1))))
    return v


def units(sel=None):
    return [('DiffusionGainCalculator', unit_diffusion), ('ObjectGainEqCalculator', unit_gaineq), ('ChannelObjectRoutingCalculator', unit_routing)] + [('HoaAllRadGainCalculator%d' % t, (lambda t=t: unit_hoa(t))) for t in (0, 1)] + [
        ('ObjectGainEqCalculator::process()', lambda: unit_wrapper('eq')), ('ChannelObjectRoutingCalculator::process()', lambda: unit_wrapper('route')),
        ('DiffusionGainCalculator::process()', unit_diffusion_process)]
