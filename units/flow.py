"""rrl::AudioSignalFlow at run time: one block = copy in, run the schedule once in order, copy out."""
from irv.unit import *
from irv.solver import Fact
from .arrays import only, split_ends
from .component import Comp
from .efl import use_kernels

TU = 'librrl/audio_signal_flow.cpp'
A = 'visr::rrl::AudioSignalFlow'
FT = ('float',)


def vec(v, o, field, reg, n):
    b = o.lay.off(o.cls, field)[0]
    for k, p in enumerate((reg.ptr(), reg.at(n), reg.at(n))):
        v.st.store(Ptr(o.reg, (), o.base + b + 8 * k), PTR, p, 'setup')


def ghost(v, n=1, name='ghost'):
    g = v.reg(Region(name, size=8 * n))
    g.at = lambda k: Ptr(g, (), 8 * k)
    for k in range(n):
        v.st.store(g.at(k), I64, I(0), 'setup')
    return g


def caller(v, name, n, P, unit, chanstride=None, stride=None):
    """samples of the caller: sample k of channel c; only these may be accessed"""
    if unit:
        r = v.reg(Region(name, nmem=1, esize=4, leaf=4, leafsort='f', extent=lambda c, k: And(ge(c, I(0)), lt(c, n), ge(k, I(0)), lt(k, P))))
        r.key = lambda c, k: (c, k)
        r.ch = lambda c: Ptr(r, (c,), 0)
    else:
        r = v.reg(Region(name, nmem=2, esize=4, leaf=4, leafsort='f', extent=lambda c, k, z: And(ge(c, I(0)), lt(c, n), ge(k, I(0)), lt(k, P), eq(z, I(0)))))
        r.pitches = (chanstride if chanstride is not None else v.int(name + '_unused', 0, 1 << 50), stride)
        r.key = lambda c, k: (c, k, I(0))
        r.ch = lambda c: Ptr(r, (c, I(0)), 0)
    return r


def unit_process(strided, cu=False, pu=False):
    v = V([TU], 'AudioSignalFlow::process (%s)' % ('channel and sample strides' if strided else 'channel pointers, capture stride %s, playback stride %s' % ('1' if cu else '>1', '1' if pu else '>1')))
    use_kernels(v)
    o = Obj(v, 'flow', A, Lay(TU))
    P = v.int('period', 1, 1 << 28)
    nin, nout = v.int('captureChannels', 0, 1 << 20), v.int('playbackChannels', 0, 1 << 20)
    v.contract(r'^visr::impl::ComponentImplementation::period\(', lambda c, t: c.case().ret(P), 'ComponentImplementation::period')
    impl = v.reg(Region('topLevel', size=136))
    o.set('mFlow', impl.ptr(), PTR)
    pools = {}
    for nm, n in (('Capture', nin), ('Playback', nout)):
        pools[nm] = r = v.reg(Region(nm + 'Buffers', nmem=1, esize=4, leaf=4, leafsort='f', extent=lambda c, k, n=n: And(ge(c, I(0)), lt(c, n), ge(k, I(0)), lt(k, P))))
        ch = v.reg(Region(nm + 'Channels', esize=8, leaf=8, leafsort='p', extent=lambda i, n=n: And(ge(i, I(0)), lt(i, n)), ptrs={0: lambda i, r=r: Ptr(r, (i,), 0)}))
        vec(v, o, 'm%sChannels' % nm, ch, n)
    g = ghost(v)
    lo = 1 if strided else 2
    cs = I(1) if cu else v.int('captureSampleStride', lo, 1 << 20)
    ps = I(1) if pu else v.int('playbackSampleStride', lo, 1 << 20)
    cc, pc = (v.int('captureChannelStride', 0, 1 << 33), v.int('playbackChannelStride', 0, 1 << 33)) if strided else (None, None)
    cap = caller(v, 'captureSamples', nin, P, cu, cc, cs)
    pb = caller(v, 'playbackSamples', nout, P, pu, pc, ps)
    cap.readonly = True
    X = lambda c, k: tm.uf('X', (c, k), 'f')
    Y = lambda c, k: tm.uf('Y', (c, k), 'f')
    v.st.setlog(cap, 0, (Upd(4, TRUE, X(KV[0], KV[1])),))
    fails = v.bool('componentFails')

    def execute(c, this):
        st = c.st
        c.v.same(st, 'this flow is executed', st.resolve(this), o.ptr())
        ch, k = tm.fresh('ch', 'I'), tm.fresh('k', 'I')
        s = st.copy()
        s.assume(And(ge(ch, I(0)), lt(ch, nin), ge(k, I(0)), lt(k, P)))
        if s.feasible():
            c.v.same(s, 'components see the capture samples of this block', s.read_field(pools['Capture'], 0, 4, FT, (ch, k)), X(ch, k), FT)
        n = add(c.rd(g.ptr(), I64), 1)
        q = c.case(Not(fails))
        q.put(g.ptr(), I64, n)
        r = pools['Playback']
        q.st.setlog(r, 0, q.st.log(r, 0) + (Upd(4, TRUE, Y(KV[0], KV[1])),))
        c.case(fails).throw('_ZTISt13runtime_error')
    v.contract(r'^%s::executeComponents\(' % A, execute, 'AudioSignalFlow::executeComponents')
    v.contract(r'visr::detail::composeMessageString<', lambda c, *a: c.case(), 'composeMessageString')
    if strided:
        f = v.find(r'^%s::process\(float const\*, unsigned' % A)
        args = [o.ptr(), cap.ch(I(0)), cc, cs, pb.ch(I(0)), pc, ps]
    else:
        f = v.find(r'^%s::process\(float const\* const\*' % A)
        ptrs = []
        for nm, n, r in (('capture', nin, cap), ('playback', nout, pb)):
            q = v.reg(Region(nm + 'Pointers', esize=8, leaf=8, leafsort='p', extent=lambda i, n=n: And(ge(i, I(0)), lt(i, n)), ptrs={0: lambda i, r=r: r.ch(i)}))
            q.readonly = True
            ptrs.append(q.ptr())
        args = [o.ptr()] + ptrs + [cs, ps]
    ends = v.call(f, args)
    for e in split_ends(v, ends, fails, 'throw', 'failing component'):
        v.oblige(e.st, 'components run once per block', eq(e.st.load(g.ptr(), I64, ''), I(1)))
        ch, k = tm.fresh('ch', 'I'), tm.fresh('k', 'I')
        s = e.st.copy()
        s.assume(And(ge(ch, I(0)), lt(ch, nout), ge(k, I(0)), lt(k, P)))
        v.same(s, 'playback samples are the flow output', s.read_field(pb, 0, 4, FT, pb.key(ch, k)), Y(ch, k), FT)
        if not strided:
            v.oblige(e.st, 'reports success', ne(e.val, I(0)) if e.val.sort == 'I' else e.val)
    return v


def unit_execute():
    v = V([TU], 'AudioSignalFlow::executeComponents')
    o = Obj(v, 'flow', A, Lay(TU))
    n = v.int('scheduledComponents', 0, 1 << 20)
    comps = v.reg(Region('components', nmem=1, size=16))
    vt = v.reg(Region('componentVtable', esize=8, leaf=8, leafsort='p', extent=lambda i: And(ge(i, I(0)), lt(i, I(8)))))
    v.st.setlog(comps, 0, (Upd(8, TRUE, vt.ptr()),))
    sched = v.reg(Region('schedule', esize=8, leaf=8, leafsort='p', extent=lambda i: And(ge(i, I(0)), lt(i, n)), ptrs={0: lambda i: Ptr(comps, (i,), 0)}))
    vec(v, o, 'mProcessingSchedule', sched, n)
    impl = v.reg(Region('topLevel', size=136))
    tim = v.reg(Region('time', size=64))
    mtx = v.reg(Region('mutex', size=40))
    o.set('mFlow', impl.ptr(), PTR)
    g, h = ghost(v, 1), ghost(v, 4, 'ghost2')

    def proc(ex, st, a, ins):
        p = st.resolve(a[0])
        k = st.load(g.at(0), I64, '')
        v.oblige(st, 'components run in schedule order, each once', eq(p.mem[0], k))
        v.oblige(st, 'parameter exchange is locked while components run', eq(st.load(h.at(2), I64, ''), I(1)))
        st.store(g.at(0), I64, add(k, 1), 'process')
        return [End('ret', st, None)]
    v.st.store(vt.at(I(2)), PTR, VFn('AtomicComponent::process', proc), 'setup')
    v.contract(r'^visr::impl::ComponentImplementation::timeImplementation\(', lambda c, t: c.case().ret(tim.ptr()), 'timeImplementation')

    def adv(c, this):
        c.v.same(c.st, 'time of this flow', c.st.resolve(this), tim.ptr())
        c.require(eq(c.rd(g.at(0), I64), n), 'time advances after the whole block')
        c.case().put(h.at(1), I64, add(c.rd(h.at(1), I64), 1))
    v.contract(r'^visr::impl::TimeImplementation::advanceBlockCounter\(', adv, 'advanceBlockCounter')
    v.contract(r'^%s::parameterExchangeMutex\(' % A, lambda c, t: c.case().ret(mtx.ptr()), 'parameterExchangeMutex')

    def lock(c, this, m):
        c.v.same(c.st, 'mutex of this flow', c.st.resolve(m), mtx.ptr())
        c.case().put(h.at(2), I64, add(c.rd(h.at(2), I64), 1))
    v.contract(r'^std::lock_guard<.*>::lock_guard\(', lock, 'std::lock_guard constructor')
    v.contract(r'^std::lock_guard<.*>::~lock_guard\(', lambda c, t: c.case().put(h.at(2), I64, sub(c.rd(h.at(2), I64), 1)), 'std::lock_guard destructor')
    for e in only(v, v.call(v.find(r'^%s::executeComponents\(' % A), [o.ptr()]), 'ret'):
        G = lambda k: e.st.load((h if k else g).at(k), I64, '')
        v.oblige(e.st, 'all scheduled components have run', eq(G(0), n))
        v.oblige(e.st, 'time advances by one block', eq(G(1), I(1)))
        v.oblige(e.st, 'mutex is released', eq(G(2), I(0)))
    return v


RT = 'librrl/signal_routing_internal.cpp'


def unit_routing(t):
    """components inserted for receive ports whose channels are not adjacent in the buffer"""
    cls = 'visr::rrl::SignalRoutingInternal<%s>' % t
    v = V([RT], 'SignalRoutingInternal<%s>::process' % t)
    use_kernels(v)
    so = t[0]
    m = Comp(v, cls, RT)
    # sample buffers are aligned to cVectorAlignmentBytes
    m.al = I(64 // {'f': 4, 'd': 8}[so])
    nin, nout = v.int('inputWidth', 0, 1 << 20), v.int('outputWidth', 0, 1 << 20)
    ip, op = m.audio('mInput', nin, so, True), m.audio('mOutput', nout, so, False)
    idx = v.iarray('inputIndices', 64, nout)
    # established by the constructor: every index is below the input width
    v.st.facts = tuple(v.st.facts) + (Fact('inputIndices', lambda i: Implies(And(ge(i, I(0)), lt(i, nout)), And(ge(tm.uf('inputIndices', (i,), 'I'), I(0)), lt(tm.uf('inputIndices', (i,), 'I'), nin))), 1, 'indices below the input width'),)
    vec(v, m.o, 'mInputIndices', idx, nout)
    st0 = v.st.copy()
    for e in only(v, m.run(), 'ret'):
        c, k = tm.fresh('ch', 'I'), tm.fresh('k', 'I')
        s = e.st.copy()
        s.assume(And(ge(c, I(0)), lt(c, nout), ge(k, I(0)), lt(k, m.period)))
        src = s.u(s.load(idx.at(c), I64, ''), 64)
        v.same(s, 'output channel is the selected input channel', op.x(s, c, k), ip.x(st0, src, k), FTY[so])
    return v


PT = ['librrl/signal_routing_internal.cpp', 'libvisr/audio_port_base.cpp', 'libvisr/impl/audio_port_base_implementation.cpp']


def unit_port(d, t):
    """addressing of the channels of an audio port"""
    v = V(PT, 'Audio%sT<%s>: channel addresses' % (d, t))
    es = {'float': 4, 'double': 8}[t]
    so = t[0]
    pi = Obj(v, 'impl', 'visr::impl::AudioPortBaseImplementation', Lay(PT[2]))
    p = Obj(v, 'port', 'visr::AudioPortBase', Lay(PT[1]))
    w, n, stride = v.int('width', 0, 1 << 20), v.int('period', 1, 1 << 28), v.int('stride', 1, 1 << 30)
    v.st.assume(ge(stride, n))
    buf = v.reg(Region('buffer', nmem=1, esize=es, leaf=es, leafsort=so, pitch=stride, extent=lambda c, k: And(ge(c, I(0)), lt(c, w), ge(k, I(0)), lt(k, n))))
    p.set('mImpl', pi.ptr(), PTR)
    pi.set('mWidth', w)
    pi.set('cSampleSize', I(es))
    # the runtime system assigns the buffer
    for e in only(v, v.call(v.find(r'^visr::impl::AudioPortBaseImplementation::setBufferConfig\('), [pi.ptr(), Ptr(buf, (I(0),), 0), stride]), 'ret'):
        v.st = e.st
    c = v.int('channel', 0, 1 << 20)
    st = v.st.copy()
    cls = r'^visr::Audio%sT<%s>::' % (d, t)
    res = [('operator[]', r'operator\[\]\(', [c])]
    for nm, f, a in res:
        v.st = st.copy()
        v.st.assume(lt(c, w))
        for e in only(v, v.call(v.find(cls + f, unique=False)[0], [p.ptr()] + a), 'ret'):
            r, f, key = e.st.locate(e.st.resolve(e.val), es)
            v.oblige(e.st, nm + ' is the first sample of the channel', And(TRUE if r is buf and f == 0 else FALSE, eq(key[0], c), eq(key[1], I(0))))
    B = r'^visr::AudioPortBase::'
    for nm, want in (('width', w), ('channelStrideSamples', stride), ('channelStrideBytes', mul(stride, I(es))), ('sampleSize', I(es)), ('alignmentSamples', I(64 // es)), ('alignmentBytes', I(64))):
        v.st = st.copy()
        for e in only(v, v.call(v.find(B + nm + r'\('), [p.ptr()]), 'ret'):
            v.oblige(e.st, nm, eq(e.val, want))
    v.st = st.copy()
    for e in v.call(v.find(r'^visr::impl::AudioPortBaseImplementation::setWidth\('), [pi.ptr(), v.int('newWidth', 0, 1 << 20)]):
        v.oblige(e.st, 'the width of a port in use cannot change', And(TRUE if e.kind == 'throw' else FALSE, eq(pi.get('mWidth', I64, e.st), w)))
    return v


TT = 'libvisr/impl/time_implementation.cpp'


def unit_time():
    v = V([TT], 'TimeImplementation: block and sample counters')
    o = Obj(v, 'time', 'visr::impl::TimeImplementation', Lay(TT))
    per, n = v.int('period', 1, 1 << 20), v.int('blocks', 0, 1 << 40)
    o.set('mPeriod', per)
    o.set('mBlockCounter', n)
    F = lambda f: v.find(r'^visr::impl::TimeImplementation::%s\(' % f)
    st = v.st.copy()
    for f, w in (('blockCount', n), ('sampleCount', mul(n, per))):
        for e in only(v, v.call(F(f), [o.ptr()]), 'ret'):
            v.oblige(e.st, f, eq(e.st.u(e.val, 64), w))
    for f, w in (('advanceBlockCounter', add(n, 1)), ('resetCounter', I(0))):
        v.st = st.copy()
        for e in only(v, v.call(F(f), [o.ptr()]), 'ret'):
            v.oblige(e.st, f, And(eq(e.st.u(o.get('mBlockCounter', I64, e.st), 64), w), eq(o.get('mPeriod', I64, e.st), per)))
    return v


def units(sel=None):
    return [('execute', unit_execute), ('process strided', lambda: unit_process(True))] + \
        [('process %d%d' % (a, b), lambda a=a, b=b: unit_process(False, a, b)) for a in (True, False) for b in (True, False)] + \
        [('routing ' + t, lambda t=t: unit_routing(t)) for t in ('float', 'double')] + \
        [('port %s %s' % (d, t), lambda d=d, t=t: unit_port(d, t)) for d in ('Input', 'Output') for t in ('float', 'double')] + [('time', unit_time)]
