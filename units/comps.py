"""rcl::GainVector, rcl::DelayVector, rcl::DelayMatrix: parameter transitions and block processing."""
from irv.unit import *
from .arrays import only, split_ends, Arr, Mat
from .efl import use_kernels
from .component import Comp
from .gains import ceil_lemma

F = FTY['f']
one = fnum(1.0, 'f')


def mkarr(v, name, c, obj=None, n=None, al=None, ro=False):
    vec = obj or Obj(v, name, 'visr::efl::BasicVector<float>', c.lay)
    a = Arr(v, name, 'float', c.lay, vec.sub('mData'), n, al)
    a.o = vec
    v.st.assume(tm.uf('aligned', (v.ex.address(v.st, a.data), a.al, I(4)), 'B'))
    a.x = lambda st, i: st.read_field(a.reg, 0, 4, F, (add(a.d, i),))
    a.reg.readonly = ro
    return a


def mkmat(v, name, c, obj=None, rows=None, cols=None, al=None, ro=False):
    m = Mat(v, name, 'float', c.lay, al, obj, rows, cols)
    m.x = lambda st, r, i: st.read_field(m.reg, 0, 4, F, (r, i))
    m.reg.readonly = ro
    m.reg.rowaligned = m.al
    return m


def conv(a):
    return tm.fop('uitofp', (a,), 'f')


class Dev:
    """one of the three components in an arbitrary valid state"""

    def __init__(self, v, kind):
        self.v, self.kind = v, kind
        src = 'librcl/%s.cpp' % dict(G='gain_vector', V='delay_vector', M='delay_matrix')[kind]
        c = self.c = Comp(v, 'visr::rcl::%s' % dict(G='GainVector', V='DelayVector', M='DelayMatrix')[kind], src)
        self.nin = v.int('channels' if kind != 'M' else 'inputs', 1, 1 << 20)
        self.nout = v.int('outputs', 1, 1 << 20) if kind == 'M' else self.nin
        self.inp, self.out = c.audio('mInput', self.nin), c.audio('mOutput', self.nout, inp=False)
        self.blocks = v.int('interpolationBlocks', 0 if kind == 'G' else 1, 1 << 30)
        al = v.int('parameterAlignment', 1, 1 << 10)
        self.cnt, self.cur, self.nxt = {}, {}, {}
        for q in 'G' if kind == 'G' else 'GD':
            nm = dict(G='Gain', D='Delay')[q]
            self.cnt[q] = v.int(nm + 'Counter', 0, 1 << 30)
            v.st.assume(le(self.cnt[q], self.blocks))
            c.o.set(self.cfield(q), self.cnt[q])
            for w, d in (('Current', self.cur), ('Next', self.nxt)):
                f = 'm%s%ss' % (w, nm)
                d[q] = mkmat(v, f, c, c.o.sub(f), self.nout, self.nin, al) if kind == 'M' else mkarr(v, f, c, c.o.sub(f), self.nin, al)
        self.bfield = 'mInterpolationPeriods' if kind == 'G' else 'mInterpolationBlocks'
        c.o.set(self.bfield, self.blocks)
        if kind != 'M':
            c.o.set('mNumberOfChannels', self.nin)
        if kind == 'G':
            self.samples = v.int('interpolationSamples', 0, 1 << 40)
            v.st.assume(And(le(self.samples, mul(self.blocks, c.period)), gt(add(self.samples, c.period), mul(self.blocks, c.period))))
            self.fader = v.reg(Region('fader', esize=8, leaf=8, leafsort='i', extent=lambda i: And(ge(i, I(0)), lt(i, I(16)))))
            c.o.set('mFader', self.fader.ptr(), PTR)
            v.contract(r'^visr::rbbl::GainFader<float>::interpolationSamples\(', lambda cc, t: cc.case().ret(self.samples), 'GainFader::interpolationSamples')
        else:
            self.line = v.reg(Region('delayLine', esize=8, leaf=8, leafsort='i', extent=lambda i: And(ge(i, I(0)), lt(i, I(16)))))
            c.o.set('mDelayLine', self.line.ptr(), PTR)
        use_kernels(v)

    def cfield(self, q):
        return 'mInterpolationCounter' if self.kind == 'G' else dict(G='mGainInterpolationCounter', D='mDelayInterpolationCounter')[q]

    def keys(self, pre=''):
        r, i = tm.fresh(pre + 'row', 'I'), tm.fresh(pre + 'ch', 'I')
        g = And(ge(i, I(0)), lt(i, self.nin))
        if self.kind == 'M':
            return (r, i), And(g, ge(r, I(0)), lt(r, self.nout))
        return (i,), g

    def attained(self, q, k, st):
        """value reached so far in the running transition"""
        a, b = self.cur[q].x(st, *k), self.nxt[q].x(st, *k)
        n = self.c.o.get(self.cfield(q), I64, st)
        if self.kind == 'G':
            r = fdiv(conv(mul(n, self.c.period)), conv(self.samples))
            r = ite(tm.fop('flt', (r, one), 'B'), r, one)
        else:
            r = fdiv(conv(n), conv(self.blocks))
        return ite(lt(n, self.blocks), fadd(a, fmul(r, fsub(b, a))), b)


def unit_set(kind, q):
    nm = dict(G='Gain', D='Delay')[q]
    cls = dict(G='GainVector', V='DelayVector', M='DelayMatrix')[kind]
    v = V(['librcl/%s.cpp' % dict(G='gain_vector', V='delay_vector', M='delay_matrix')[kind]], '%s::set%s' % (cls, nm), ('uf', 'real'))
    d = Dev(v, kind)
    c = d.c
    new = mkmat(v, 'new', c, ro=True) if kind == 'M' else mkarr(v, 'new', c, ro=True)
    bad = Not(And(eq(new.rows, d.nout), eq(new.cols, d.nin))) if kind == 'M' else ne(new.n, d.nin)
    st0 = v.st
    if kind == 'G':
        # interpolation samples are positive while a transition is running
        v.st.assume(Implies(gt(d.blocks, I(0)), gt(d.samples, I(0))))
    ends = v.call(v.find(r'^%s::set%s\(' % (c.cls, nm)), [c.o.ptr(), new.o.ptr()])
    for e in split_ends(v, ends, bad, 'throw', 'parameter of wrong dimension'):
        k, g = d.keys()
        s = e.st.copy()
        s.assume(g)
        v.same(s, 'transition starts at the value reached so far', d.cur[q].x(s, *k), d.attained(q, k, st0), F)
        v.same(s, 'transition ends at the new value', d.nxt[q].x(s, *k), new.x(st0, *k), F)
        v.oblige(e.st, 'transition restarts', eq(c.o.get(d.cfield(q), I64, e.st), I(0)))
    for e in ends:
        for o_ in d.cnt:
            if o_ != q or e.kind == 'throw':
                k, g = d.keys('other')
                s = e.st.copy()
                s.assume(g)
                for z, what in ((d.cur[o_], 'start'), (d.nxt[o_], 'end')):
                    v.same(s, 'unrelated transition keeps its %s value' % what if o_ != q else 'rejected parameter changes nothing', z.x(s, *k), z.x(st0, *k), F)
                v.oblige(e.st, 'counter unchanged', eq(c.o.get(d.cfield(o_), I64, e.st), d.cnt[o_]))
    return v


def unit_both(kind):
    cls = dict(V='DelayVector', M='DelayMatrix')[kind]
    v = V(['librcl/%s.cpp' % dict(V='delay_vector', M='delay_matrix')[kind]], '%s::setDelayAndGain' % cls)
    d = Dev(v, kind)
    c = d.c
    gh = v.reg(Region('ghost', esize=8, leaf=8, leafsort='i', extent=lambda i: And(ge(i, I(0)), lt(i, I(2)))))
    mk = mkmat if kind == 'M' else mkarr
    nd, ng = mk(v, 'newDelays', c, ro=True), mk(v, 'newGains', c, ro=True)
    for z, (nm, a) in enumerate((('Delay', nd), ('Gain', ng))):
        v.st.store(gh.at(I(z)), I64, I(0), 'setup')

        def spec(cc, this, p, a=a, z=z):
            cc.v.same(cc.st, 'argument', cc.st.resolve(p), a.o.ptr())
            cc.case().put(gh.at(I(z)), I64, add(cc.rd(gh.at(I(z)), I64), 1))
        v.contract(r'^%s::set%s\(' % (c.cls, nm), spec, 'set' + nm)
    for e in only(v, v.call(v.find(r'^%s::setDelayAndGain\(' % c.cls), [c.o.ptr(), nd.o.ptr(), ng.o.ptr()]), 'ret'):
        for z in range(2):
            v.oblige(e.st, 'both transitions are started', eq(e.st.load(gh.at(I(z)), I64, ''), I(1)))
    return v


def ports(v, d, mode, gh):
    """parameter ports: mode '' (none), or the letters of the connected ports"""
    c = d.c
    flags = {}
    for z, q in enumerate(d.cnt):
        nm = dict(G='Gain', D='Delay')[q]
        f = 'm%sInput' % nm
        if q not in mode:
            c.o.set(f, NULL, PTR)
            flags[q] = FALSE
            continue
        p = v.reg(Region(f, esize=8, leaf=8, leafsort='i', extent=lambda i: And(ge(i, I(0)), lt(i, I(32)))))
        c.o.set(f, p.ptr(), PTR)
        flags[q] = v.bool(nm + 'Changed')
        data = v.reg(Region(f + 'Data', esize=8, leaf=8, leafsort='i', extent=lambda i: And(ge(i, I(0)), lt(i, I(32)))))
        d.portdata = getattr(d, 'portdata', {})
        d.portdata[q] = (z, p, data, flags[q])
    for z in range(8):
        v.st.store(gh.at(I(z)), I64, I(0), 'setup')

    def who(cc, this):
        r = cc.st.resolve(this).reg
        for q, w in getattr(d, 'portdata', {}).items():
            if w[1] is r:
                return q, w
        raise Unsupported('unknown parameter port')
    v.contract(r'^visr::pml::DoubleBufferingProtocol::InputBase::changed\(', lambda cc, t: cc.case().ret(who(cc, t)[1][3]), 'InputBase::changed')
    v.contract(r'^visr::pml::DoubleBufferingProtocol::Input<.*>::data\(', lambda cc, t: cc.case().ret(who(cc, t)[1][2].ptr()), 'Input::data')

    def reset(cc, t):
        z = who(cc, t)[1][0]
        cc.case().put(gh.at(I(2 + z)), I64, I(1))
    v.contract(r'^visr::pml::DoubleBufferingProtocol::InputBase::resetChanged\(', reset, 'InputBase::resetChanged')
    for q in d.cnt:
        def setter(cc, this, p, q=q):
            w = getattr(d, 'portdata', {}).get(q)
            cc.require(tm.B(w is not None and cc.st.resolve(p).reg is w[2]), 'new values come from the parameter port')
            st = cc.st
            old = st.copy()
            o_ = cc.case()
            o_.put(gh.at(I(w[0])), I64, add(cc.rd(gh.at(I(w[0])), I64), 1))
            o_.put(c.o.p(d.cfield(q)), I64, I(0))
            n = 2 if d.kind == 'M' else 1
            for m, u in ((d.cur[q], 'start'), (d.nxt[q], 'new')):
                o_.st.setlog(m.reg, 0, o_.st.log(m.reg, 0) + (Upd(4, TRUE, tm.uf(u + q, tuple(KV[:n]), 'f')),))
        v.contract(r'^%s::set%s\(' % (c.cls, dict(G='Gain', D='Delay')[q]), setter, 'set' + q)
    return flags


def final(v, d, e, flags, gh, st0):
    c = d.c
    for z, q in enumerate(d.cnt):
        n0 = ite(flags[q], I(0), d.cnt[q])
        v.oblige(e.st, 'transition advances by one block until it is complete', eq(c.o.get(d.cfield(q), I64, e.st), ite(lt(n0, d.blocks), add(n0, 1), d.blocks)))
        if flags[q] is not FALSE:
            v.oblige(e.st, 'new values taken over exactly when changed', eq(e.st.load(gh.at(I(z)), I64, ''), ite(flags[q], I(1), I(0))))
            v.oblige(e.st, 'change flag is reset exactly when changed', eq(e.st.load(gh.at(I(2 + z)), I64, ''), ite(flags[q], I(1), I(0))))


def ghost(v):
    return v.reg(Region('ghost', esize=8, leaf=8, leafsort='i', extent=lambda i: And(ge(i, I(0)), lt(i, I(8)))))


def taken(cc, d, flags, gh):
    for z, q in enumerate(d.cnt):
        if flags[q] is not FALSE:
            cc.require(eq(cc.rd(gh.at(I(z)), I64), ite(flags[q], I(1), I(0))), 'new values are taken over before the block is processed')


def unit_gprocess(mode):
    v = V(['librcl/gain_vector.cpp'], 'GainVector::process%s' % (' (with control input)' if mode else ''), ('uf', 'real'))
    d = Dev(v, 'G')
    c = d.c
    gh = ghost(v)
    flags = ports(v, d, mode, gh)
    Y = lambda ch, k: tm.uf('scaled', (ch, k), 'f')

    def scale(cc, this, i, o_, s, e, b):
        st = cc.st
        cc.require(tm.B(st.resolve(this).reg is d.fader), 'fader of this component')
        taken(cc, d, flags, gh)
        i, o_ = st.resolve(i), st.resolve(o_)
        cc.require(tm.B(i.reg is d.inp.reg and o_.reg is d.out.reg), 'input and output of the component')
        ki, ko = st.locate(i, 4)[2], st.locate(o_, 4)[2]
        ch = ki[0]
        cc.require(And(eq(ko[0], ch), eq(ki[1], I(0)), eq(ko[1], I(0))), 'same channel, whole block')
        cc.require(eq(st.u(b, 64), c.o.get(d.cfield('G'), I64, st)), 'block index is the progress of the transition')
        s2 = st.copy()
        s2.assume(And(ge(ch, I(0)), lt(ch, d.nin)))
        cc.v.same(s2, 'ramp starts at the start value', s, d.cur['G'].x(s2, ch), F)
        cc.v.same(s2, 'ramp ends at the target value', e, d.nxt['G'].x(s2, ch), F)
        out = cc.case()
        out.fill(o_, c.period, F, lambda k: Y(ch, k))
    v.contract(r'^visr::rbbl::GainFader<float>::scale\(', scale, 'GainFader::scale')
    st0 = v.st.copy()
    for e in only(v, c.run(), 'ret'):
        i, k = tm.fresh('ch', 'I'), tm.fresh('k', 'I')
        s = e.st.copy()
        s.assume(And(ge(i, I(0)), lt(i, d.nin), ge(k, I(0)), lt(k, c.period)))
        v.same(s, 'every channel is scaled with its own ramp', d.out.x(s, i, k), Y(i, k), F)
        final(v, d, e, flags, gh, st0)
    return v


def unit_dprocess(kind, mode):
    cls = dict(V='DelayVector', M='DelayMatrix')[kind]
    v = V(['librcl/%s.cpp' % dict(V='delay_vector', M='delay_matrix')[kind]], '%s::process%s' % (cls, ' (control inputs: %s)' % ', '.join(dict(G='gain', D='delay')[q] for q in mode) if mode else ''), ('uf', 'real'))
    d = Dev(v, kind)
    c = d.c
    gh = ghost(v)
    gr = v.reg(Region('ghostRow', esize=8, leaf=8, leafsort='i', extent=lambda i: And(ge(i, I(0)), lt(i, I(1)))))
    if kind == 'M':
        d.tmp = mkarr(v, 'mTmpResult', c, c.o.sub('mTmpResult'), c.period, c.al)
    flags = ports(v, d, mode, gh)

    def write(cc, this, p, stride, n, al):
        st = cc.st
        cc.require(tm.B(st.resolve(this).reg is d.line), 'delay line of this component')
        p = st.resolve(p)
        cc.require(tm.B(p.reg is d.inp.reg), 'the input port is written')
        cc.require(And(*[eq(x, I(0)) for x in st.locate(p, 4)[2]]), 'from the first sample of the first channel')
        cc.require(And(eq(stride, d.inp.stride), eq(n, d.nin)), 'all input channels')
        cc.require(tm.B(al is c.al or al.op == 'int' and al.args[0] <= 1), 'alignment of the port')
        cc.require(eq(cc.rd(gh.at(I(6)), I64), I(0)), 'each block is written once')
        cc.case().put(gh.at(I(6)), I64, I(1))
    v.contract(r'^visr::rbbl::MultichannelDelayLine<float>::write\(', write, 'MultichannelDelayLine::write')

    def interp(cc, this, o_, ch, n, s, e, g0, g1):
        st = cc.st
        cc.require(tm.B(st.resolve(this).reg is d.line), 'delay line of this component')
        cc.require(eq(cc.rd(gh.at(I(6)), I64), I(1)), 'the block is written before it is read')
        taken(cc, d, flags, gh)
        o_ = st.resolve(o_)
        cc.require(eq(n, c.period), 'whole block')
        ch = st.u(ch, 64)
        cc.require(lt(ch, d.nin), 'existing channel')
        if kind == 'V':
            cc.require(tm.B(o_.reg is d.out.reg), 'output of the component')
            ko = st.locate(o_, 4)[2]
            cc.require(And(eq(ko[0], ch), eq(ko[1], I(0))), 'same channel, whole block')
            key = (ch,)
        else:
            cc.require(tm.B(o_.reg is d.tmp.reg), 'intermediate buffer')
            cc.require(eq(st.locate(o_, 4)[2][0], d.tmp.d), 'whole block')
            key = (row(st), ch)
        s2 = st.copy()
        s2.assume(And(ge(ch, I(0)), lt(ch, d.nin)))
        for q, x, y in (('D', s, e), ('G', g0, g1)):
            cnt = c.o.get(d.cfield(q), I64, st)
            a, b = d.cur[q].x(s2, *key), d.nxt[q].x(s2, *key)
            nx = ite(lt(add(cnt, 1), d.blocks), add(cnt, 1), d.blocks)
            for w, val, m in (('start', x, cnt), ('end', y, nx)):
                r = fdiv(conv(m), conv(d.blocks))
                cc.v.same(s2, '%s at the %s of the block' % (dict(D='delay', G='gain')[q], w), val, fadd(fmul(fsub(one, r), a), fmul(r, b)), F)
        out = cc.case()
        out.fill(o_, c.period, F, lambda k: tm.uf('delayed', key + (k,), 'f'))
    v.contract(r'^visr::rbbl::MultichannelDelayLine<float>::interpolate\(', interp, 'MultichannelDelayLine::interpolate')

    def row(st):
        # the output channel being computed is identified by the channel pointer fetched last
        r = st.load(gr.at(I(0)), I64, '')
        if st.proves(lt(st.s(r, 64), I(0))):
            raise Unsupported('output channel not identified')
        return r
    if kind == 'M':
        at0 = c._at

        def at(cc, this, ch):
            at0(cc, this, ch)
            if c.port(cc, this) is d.out:
                cc.outs[-1].put(gr.at(I(0)), I64, cc.st.u(ch, 64))
        v.contract(r'^visr::AudioOutputT<float>::(operator\[\]|at)\(', at, 'AudioOutput::operator[]')
        v.ex.contracts.insert(0, v.ex.contracts.pop())
        v.st.store(gr.at(I(0)), I64, I(-1), 'setup')
    st0 = v.st.copy()
    for e in only(v, c.run(), 'ret'):
        i, k = tm.fresh('ch', 'I'), tm.fresh('k', 'I')
        s = e.st.copy()
        s.assume(And(ge(i, I(0)), lt(i, d.nout), ge(k, I(0)), lt(k, c.period)))
        if kind == 'V':
            want = tm.uf('delayed', (i, k), 'f')
        else:
            kk, acc = tm.var('?kk', 'I'), tm.var('?acc', 'f')
            want = tm.fold(d.nin, [acc], [fnum(0.0, 'f')], [fadd(acc, tm.uf('delayed', (i, kk, k), 'f'))], 0, kk)
        v.same(s, 'every output is the sum of its delayed and scaled inputs' if kind == 'M' else 'every channel is delayed and scaled with its own parameters', d.out.x(s, i, k), want, F)
        v.oblige(e.st, 'the input is written to the delay line', eq(e.st.load(gh.at(I(6)), I64, ''), I(1)))
        final(v, d, e, flags, gh, st0)
    return v


def units(sel=None):
    out = []
    for kind, q in (('G', 'G'), ('V', 'G'), ('V', 'D'), ('M', 'G'), ('M', 'D')):
        out.append(('%s set%s' % (dict(G='GainVector', V='DelayVector', M='DelayMatrix')[kind], dict(G='Gain', D='Delay')[q]), lambda kind=kind, q=q: unit_set(kind, q)))
    for kind in 'VM':
        out.append(('%s setDelayAndGain' % dict(V='DelayVector', M='DelayMatrix')[kind], lambda kind=kind: unit_both(kind)))
    for m in ('', 'G'):
        out.append(('GainVector process %s' % m, lambda m=m: unit_gprocess(m)))
    for kind in 'VM':
        for m in ('', 'G', 'D', 'GD'):
            out.append(('%s process %s' % (dict(V='DelayVector', M='DelayMatrix')[kind], m), lambda kind=kind, m=m: unit_dprocess(kind, m)))
    return out
