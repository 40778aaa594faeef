"""panningdsp::PanningGainMatrix: time-stamped gain transitions of audio objects."""
from irv.unit import *
from irv.loops import Inv
from irv.solver import Fact
from .arrays import only, split_ends
from .comps import mkmat, mkarr, conv
from .component import Comp
from .efl import use_kernels
from .flow import ghost

F, I64 = FTY['f'], ('i', 64)
PG, PP = 'libpanningdsp/panning_gain_matrix.cpp', 'libpanningdsp/panning_matrix_parameter.cpp'
CLS, PAR = 'visr::panningdsp::PanningGainMatrix', 'visr::panningdsp::PanningMatrixParameter'
INF = I((1 << 64) - 1)
MAXT = 1 << 60          # times and durations in samples
VAL = I(16)
zero, one = fnum(0.0, 'f'), fnum(1.0, 'f')


class Times:
    """AlignedArray of time stamps of n objects"""

    def __init__(self, v, name, o, n, ro=False):
        self.n, self.wrap = n, ro
        self.reg = v.reg(Region(name, esize=8, leaf=8, leafsort='i', extent=lambda i: And(ge(i, I(0)), lt(i, n))))
        self.reg.readonly = ro
        o.set('mLength', n)
        o.set('mAlignment', VAL)
        o.set('mRawStorage', self.reg.ptr(), PTR)
        o.set('mAlignedStorage', self.reg.ptr(), PTR)
        v.st.facts = tuple(v.st.facts) + (Fact(name, lambda i: And(ge(tm.uf(name, (i,), 'I'), I(0)), Or(eq(tm.uf(name, (i,), 'I'), INF), le(tm.uf(name, (i,), 'I'), I(MAXT)))), 1, 'time stamps'),)

    def x(self, st, i):
        x = st.read_field(self.reg, 0, 8, I64, (i,))
        return st.u(x, 64) if self.wrap else x


def ratio(t, t0, t1, a, b):
    """gain at time t on the line from a (t0) to b (t1), as the slope value alpha"""
    return ite(eq(t1, INF), zero, fdiv(conv(sub(t, t0)), conv(sub(t1, t0))))


def mix(al, g, p):
    return fadd(fmul(al, g), fmul(fsub(one, al), p))


class Matrix:
    """the component in an arbitrary valid state at the sample time c"""

    def __init__(self, v):
        self.v = v
        c = self.c = Comp(v, CLS, [PG, PP][0])
        lay2 = self.lay2 = Lay(PP)
        self.no, self.nl = v.int('objects', 1, 1 << 20), v.int('loudspeakers', 0, 1 << 20)
        self.inp, self.out = c.audio('mAudioInput', self.no), c.audio('mAudioOutput', self.nl, inp=False)
        self.prev, self.tgt = (mkmat(v, f, c, c.o.sub(f), self.no, self.nl, VAL) for f in ('mPreviousGains', 'mTargetGains'))
        self.t0, self.t1 = (Times(v, f, c.o.sub(f), self.no) for f in ('mPreviousTime', 'mTargetTime'))
        p = self.param('stored')
        self.pend, self.s, self.d = p.gains, p.stamps, p.times
        v.st.store(c.o.p('mPendingTransitions'), PTR, p.o.ptr(), 'setup')
        self.ramp = mkarr(v, 'mScalingRamp', c, c.o.sub('mScalingRamp'), c.period, VAL, True)
        self.now = v.int('sampleTime', 0, MAXT)
        tr = v.reg(Region('time', size=32))
        v.contract(r'^visr::Component::time\(', lambda cc, t: cc.case().ret(tr.ptr()), 'Component::time')
        v.contract(r'^visr::Time::sampleCount\(', lambda cc, t: cc.case().ret(self.now), 'Time::sampleCount')
        use_kernels(v)
        n = self.no
        G = lambda nm, i: tm.uf(nm, (i,), 'I')
        # a transition is running or the gains are constant; the stored transition lies in the future
        v.st.facts = tuple(v.st.facts) + tuple(Fact(f, lambda i: Implies(And(ge(i, I(0)), lt(i, n)), And(le(G('mPreviousTime', i), self.now), gt(G('mTargetTime', i), self.now), gt(G('stored_stamps', i), self.now))), 1, 'lines and stored transitions') for f in ('mPreviousTime', 'mTargetTime', 'stored_stamps'))

    def param(self, name, ro=False, n=None):
        v = self.v

        class P:
            pass
        p = P()
        p.o = Obj(v, name, PAR, self.lay2)
        p.gains = mkmat(v, name + '_gains', self.c, p.o.sub('mGains'), self.no, self.nl, VAL, ro)
        p.stamps, p.times = Times(v, name + '_stamps', p.o.sub('mTimeStamps'), self.no, ro), Times(v, name + '_times', p.o.sub('mTransitionTimes'), self.no, ro)
        return p

    def line(self, st, o, l):
        """P, G, T0, T1 of object o and loudspeaker l"""
        return self.prev.x(st, o, l), self.tgt.x(st, o, l), self.t0.x(st, o), self.t1.x(st, o)


def states(v, st):
    s = st.copy()
    return s


def unit_update():
    """a received transition: replaces the stored one, or starts at once from the gains reached so far"""
    v = V([PG, PP], 'PanningGainMatrix::updateTransition', ('uf', 'real'))
    m = Matrix(v)
    m.c.onstatus = lambda cc: cc.case().throw('_ZTISt13runtime_error')
    o, S, D = v.int('object', 0, 1 << 20), v.int('startTime', 0), v.int('duration', 0)
    v.st.assume(And(lt(o, m.no), Or(eq(S, INF), le(S, I(MAXT))), Or(eq(D, INF), le(D, I(MAXT)))))
    v.st.assume(Implies(lt(S, INF), le(D, I(MAXT))))
    for a in (m.t0, m.t1, m.s, m.d):
        a.wrap = True
    row = v.reg(Region('newGains', esize=4, leaf=4, leafsort='f', extent=lambda i: And(ge(i, I(0)), lt(i, m.nl))))
    row.readonly = True
    st0 = v.st.copy()
    ends = v.call(v.find(r'^%s::updateTransition\(' % CLS), [m.c.o.ptr(), o, m.now, S, D, row.ptr()])
    for e in split_ends(v, ends, lt(S, m.now), 'throw', 'a start time in the past'):
        for kind, cond in (('no change', eq(S, INF)), ('at once', And(eq(S, m.now), eq(D, I(0)))), ('starts now', And(eq(S, m.now), gt(D, I(0)))), ('stored', And(gt(S, m.now), lt(S, INF)))):
            s = e.st.copy()
            s.assume(cond)
            if not s.feasible():
                continue
            q, l = tm.fresh('anyObject', 'I'), tm.fresh('loudspeaker', 'I')
            s.assume(And(ge(q, I(0)), lt(q, m.no), ge(l, I(0)), lt(l, m.nl)))
            for same, run in ((True, True), (True, False), (False, None)):
                s2 = s.copy()
                s2.assume(eq(q, o) if same else ne(q, o))
                if same:
                    s2.assume(ne(m.t1.x(st0, o), INF) if run else eq(m.t1.x(st0, o), INF))
                if not s2.feasible():
                    continue
                k = o if same else q
                P, G, T0, T1 = m.line(st0, k, l)
                s_, d_, h = m.s.x(st0, k), m.d.x(st0, k), m.pend.x(st0, k, l)
                new = s2.read_field(row, 0, 4, F, (l,))
                if same and kind == 'at once':
                    P, G, T0, T1, s_ = new, new, m.now, INF, INF
                elif same and kind == 'starts now':
                    P, G, T0, T1, s_ = mix(fdiv(conv(sub(m.now, T0)), conv(sub(T1, T0))) if run else zero, G, P), new, m.now, add(m.now, D), INF
                elif same and kind == 'stored':
                    s_, d_, h = S, D, new
                lab = kind + (': ' if same else ' (other objects): ')
                p2, g2, a2, b2 = m.line(s2, k, l)
                v.oblige(s2, lab + 'end time', eq(b2, T1))
                s3 = s2.copy()
                s3.assume(ne(T1, INF))
                if s3.feasible():
                    v.oblige(s3, lab + 'start time', eq(a2, T0))
                v.same(s2, lab + 'start gain', p2, P, F)
                v.same(s2, lab + 'end gain', g2, G, F)
                v.oblige(s2, lab + 'a running line', And(le(a2, m.now), lt(m.now, b2)))
                v.oblige(s2, lab + 'the stored transition lies in the future', gt(m.s.x(s2, k), m.now))
                v.oblige(s2, lab + 'stored start time', eq(m.s.x(s2, k), s_))
                s3 = s2.copy()
                s3.assume(ne(s_, INF))
                if s3.feasible():
                    v.oblige(s3, lab + 'stored duration', eq(m.d.x(s3, k), d_))
                    v.same(s3, lab + 'stored gains', m.pend.x(s3, k, l), h, F)
    return v


def unit_slope():
    """one segment of a line: the samples are scaled by the gains on the line"""
    v = V([PG, PP], 'PanningGainMatrix::processAudioSingleSlope', ('real',))
    m = Matrix(v)
    o, t, b, n, acc = v.int('object', 0, 1 << 20), v.int('time', 0, MAXT), v.int('offset', 0, 1 << 20), v.int('length', 1, 1 << 20), v.bool('accumulate')
    v.st.assume(And(lt(o, m.no), le(add(b, n), m.c.period)))
    T0, T1 = m.t0.x(v.st, o), m.t1.x(v.st, o)
    v.st.assume(And(le(T0, t), lt(t, T1), Or(eq(T1, INF), le(T1, I(MAXT)))))
    st = v.st
    # the ramp made by the constructor: 1, 2, 3, ...
    st.setlog(m.ramp.reg, 0, (Upd(4, TRUE, conv(add(sub(KV[0], m.ramp.d), I(1)))),))
    st0 = st.copy()
    for e in only(v, v.call(v.find(r'^%s::processAudioSingleSlope\(' % CLS), [m.c.o.ptr(), o, t, b, n, acc, I(0)]), 'ret'):
        for inside in (True, False):
            for a in (True, False):
                for hold in (True, False):
                    s = e.st.copy()
                    l, k = tm.fresh('loudspeaker', 'I'), tm.fresh('sample', 'I')
                    s.assume(And(ge(l, I(0)), lt(l, m.nl), ge(k, I(0)), lt(k, m.c.period)))
                    r = And(ge(k, b), lt(k, add(b, n)))
                    s.assume(And(r if inside else Not(r), acc if a else Not(acc), eq(T1, INF) if hold else ne(T1, INF)))
                    if not s.feasible():
                        continue
                    P, G = m.prev.x(st0, o, l), m.tgt.x(st0, o, l)
                    old, x = m.out.x(st0, l, k), m.inp.x(st0, o, k)
                    if inside:
                        d = conv(sub(T1, T0))
                        g = P if hold else fadd(P, fmul(fdiv(conv(sub(t, T0)), d), fsub(G, P)))
                        if not hold:
                            g = fadd(g, fmul(fmul(fdiv(one, d), fsub(G, P)), conv(add(sub(k, b), I(1)))))
                        want = fmul(x, g)
                        if a:
                            want = fadd(old, want)
                    else:
                        want = old
                    v.same(s, 'sample on the line' if inside else 'samples outside of the segment are kept', m.out.x(s, l, k), want, F)
    return v


def unit_audio():
    """processAudio: every sample of every object is rendered once, in order, on the line which is due at its time"""
    v = V([PG, PP], 'PanningGainMatrix::processAudio', ('uf', 'real'))
    m = Matrix(v)
    N, now, no = m.c.period, m.now, m.no
    st0 = v.st.copy()
    end = add(now, N)
    D0 = lambda o: m.d.x(st0, o)
    v.st.facts = tuple(v.st.facts) + (Fact('stored_times', lambda i: Implies(And(ge(i, I(0)), lt(i, no), lt(tm.uf('stored_stamps', (i,), 'I'), INF)), le(tm.uf('stored_times', (i,), 'I'), I(MAXT)))),)
    st0 = v.st.copy()

    def due(o, t):
        """T0, T1, S, D of object o at the time t, and the case distinctions"""
        T0, T1, S, D = m.t0.x(st0, o), m.t1.x(st0, o), m.s.x(st0, o), m.d.x(st0, o)
        E = add(S, D)
        begun = ge(t, S)                     # the stored transition has started
        over = Or(eq(D, I(0)), ge(t, E))     # and is complete
        a = ite(begun, ite(eq(D, I(0)), S, ite(over, E, S)), ite(ge(t, T1), T1, T0))
        b = ite(begun, ite(over, INF, E), ite(ge(t, T1), INF, T1))
        return a, b, ite(begun, INF, S), ite(begun, INF, D)

    def gains(o, l, t):
        P, G, T0, T1 = m.line(st0, o, l)
        S, D, H = m.s.x(st0, o), m.d.x(st0, o), m.pend.x(st0, o, l)
        E = add(S, D)
        begun, over = ge(t, S), Or(eq(D, I(0)), ge(t, E))
        run = And(le(S, T1), ne(T1, INF))
        reached = ite(run, mix(fdiv(conv(sub(S, T0)), conv(sub(T1, T0))), G, P), mix(zero, G, ite(lt(T1, S), G, P)))
        return ite(begun, ite(over, H, reached), ite(ge(t, T1), G, P)), ite(begun, H, G)
    g = ghost(v, 2)
    OBJ, POS = g.at(0), g.at(1)
    v.st.store(OBJ, I64, I(-1), 'setup')
    v.st.store(POS, I64, N, 'setup')
    l0 = v.int('anyLoudspeaker', 0, 1 << 20)
    v.st.assume(lt(l0, m.nl))

    def slope(cc, t, o, ct, b, n, acc, al):
        st = cc.st
        o, ct, b, n = [st.u(x, 64) for x in (o, ct, b, n)]
        ob, po = cc.rd(OBJ, I64), cc.rd(POS, I64)
        cc.require(Or(And(eq(ob, o), eq(po, b)), And(eq(add(ob, I(1)), o), eq(po, N), eq(b, I(0)))), 'segments follow each other, objects in order')
        cc.require(And(lt(o, no), ge(n, I(1)), le(add(b, n), N)), 'segment inside of the block')
        cc.require(eq(ct, add(now, b)), 'time of the segment')
        acc = acc if acc.sort == 'B' else ne(acc, I(0))
        cc.require(Or(And(acc, ne(o, I(0))), And(Not(acc), eq(o, I(0)))), 'all but the first object are added')
        cc.require(eq(al, I(0)), 'no alignment is claimed')
        T0, T1, S, D = due(o, ct)
        b0, b1 = m.t0.x(st, o), m.t1.x(st, o)
        cc.require(And(eq(b1, T1), Or(eq(T1, INF), eq(b0, T0))), 'times of the line which is due')
        cc.require(And(le(add(ct, n), T1), le(add(ct, n), S)), 'segment ends with its line and at the start of the stored transition')
        p, q = gains(o, l0, ct)
        v.same(st.copy(), 'start gain of the line which is due', m.prev.x(st, o, l0), p, F)
        v.same(st.copy(), 'end gain of the line which is due', m.tgt.x(st, o, l0), q, F)
        cc.case().put(OBJ, I64, o).put(POS, I64, add(b, n))
    v.contract(r'^%s::processAudioSingleSlope\(' % CLS, slope, 'PanningGainMatrix::processAudioSingleSlope')
    K0, K1 = KV[0], KV[1]
    rng = lambda o: And(ge(K0, I(0)), lt(K0, o))
    col = And(ge(K1, I(0)), lt(K1, m.nl))
    # content after t samples of object o, all objects before o complete
    ups = [(m.t0.reg, 8, lambda o, t: due(o, t)[0], False), (m.t1.reg, 8, lambda o, t: due(o, t)[1], False), (m.s.reg, 8, lambda o, t: due(o, t)[2], False), (m.d.reg, 8, lambda o, t: due(o, t)[3], False),
           (m.prev.reg, 4, lambda o, t: gains(o, K1, t)[0], True), (m.tgt.reg, 4, lambda o, t: gains(o, K1, t)[1], True)]

    def done(reg, es, fn, two):
        return lambda o: (Upd(es, And(rng(o), col) if two else rng(o), fn(K0, end)),)
    outer = Inv(v, ['o'], {'o': I(0)}, lambda e, q: {'o': add(q['o'], I(1))}, lambda q: And(ge(q['o'], I(0)), le(q['o'], no)), phis=[lambda q: q['o']], measure=lambda q: sub(no, q['o']),
                cells=[(OBJ, I64, lambda q: sub(q['o'], I(1))), (POS, I64, lambda q: N)],
                logs=[(r, 0, lambda q, d=done(r, es, fn, two): d(q['o'])) for r, es, fn, two in ups])
    v.invariant(r'PanningGainMatrix::processAudio\(', outer)

    def setup(st, regs):
        o = [x for x, ty in regs if isinstance(x, T) and x.sort == 'I'][0]

        def nxt(e, q):
            t = add(now, q['t'])
            T0, T1, S, D = due(o, t)
            e1 = ite(lt(T1, S), T1, S)
            e1 = ite(lt(e1, end), e1, end)
            return {'t': sub(e1, now)}
        inner.nxt = nxt
        inner.cells = [(OBJ, I64, lambda q: ite(eq(q['t'], I(0)), sub(o, I(1)), o)), (POS, I64, lambda q: ite(eq(q['t'], I(0)), N, q['t']))]
        base = {r: st.log(r, 0) for r, es, fn, two in ups}
        inner.logs = [(r, 0, lambda q, r=r, es=es, fn=fn, two=two: base[r] + (Upd(es, And(*([eq(K0, o)] + ([col] if two else []))), fn(o, add(now, q['t']))),)) for r, es, fn, two in ups]
    inner = Inv(v, ['t'], {'t': I(0)}, None, lambda q: And(ge(q['t'], I(0)), le(q['t'], N)), phis=[lambda q: q['t'], lambda q: add(now, q['t'])], measure=lambda q: sub(N, q['t']))
    inner.depth, inner.setup, inner.exit = 1, setup, {'t': N}
    v.invariant(r'PanningGainMatrix::processAudio\(', inner)
    for e in only(v, v.call(v.find(r'^%s::processAudio\(' % CLS), [m.c.o.ptr()]), 'ret'):
        v.oblige(e.st, 'all objects are rendered to the end of the block', And(eq(e.st.load(OBJ, I64, ''), sub(no, I(1))), eq(e.st.load(POS, I64, ''), N)))
        s = e.st.copy()
        o = tm.fresh('anyObject', 'I')
        s.assume(And(ge(o, I(0)), lt(o, no)))
        T0, T1, S, D = due(o, end)
        v.oblige(s, 'end time at the end of the block', eq(m.t1.x(s, o), T1))
        v.oblige(s, 'start time at the end of the block', eq(m.t0.x(s, o), T0))
        v.oblige(s, 'stored start time at the end of the block', eq(m.s.x(s, o), S))
        v.oblige(s, 'a running line at the end of the block', And(le(m.t0.x(s, o), end), lt(end, m.t1.x(s, o)), lt(end, m.s.x(s, o))))
        p, q = gains(o, l0, end)
        v.same(s, 'start gain at the end of the block', m.prev.x(s, o, l0), p, F)
        v.same(s, 'end gain at the end of the block', m.tgt.x(s, o, l0), q, F)
    return v


def unit_messages():
    """process(): the entries of a new message are applied to their objects, in order, at the current time, before the block is rendered"""
    v = V([PG, PP], 'PanningGainMatrix::process', ('uf', 'real'))
    m = Matrix(v)
    p = m.param('message', True)
    news = v.bool('newMessage')
    g = ghost(v, 3)
    UPD, AUD, RST = (g.at(i) for i in range(3))
    for x in (UPD, AUD, RST):
        v.st.store(x, I64, I(0), 'setup')
    A = lambda n, f, l: v.contract(n, f, l)
    A(r'^visr::pml::DoubleBufferingProtocol::InputBase::changed\(', lambda c, t: c.case().ret(news), 'InputBase::changed')
    A(r'^visr::pml::DoubleBufferingProtocol::InputBase::resetChanged\(', lambda c, t: c.case().put(RST, I64, add(c.rd(RST, I64), I(1))), 'InputBase::resetChanged')
    A(r'^visr::pml::DoubleBufferingProtocol::Input<visr::panningdsp::PanningMatrixParameter>::data\(', lambda c, t: c.case().ret(p.o.ptr()), 'Input::data')

    def update(c, this, o, now, s, d, row):
        st = c.st
        o, now, s, d = [st.u(x, 64) for x in (o, now, s, d)]
        k = c.rd(UPD, I64)
        c.require(And(eq(o, k), lt(o, m.no)), 'objects in order')
        c.require(eq(now, m.now), 'current time')
        c.require(And(eq(s, st.u(p.stamps.x(st, o), 64)), eq(d, st.u(p.times.x(st, o), 64))), 'start time and duration of the object')
        r = st.resolve(row)
        if r.reg is p.gains.reg:
            reg, f, key = st.locate(r, 4)
            c.require(And(eq(key[0], o), eq(key[1], I(0))), 'gains of the object')
        else:
            c.require(FALSE, 'gains of the object')
        c.require(eq(c.rd(AUD, I64), I(0)), 'messages are applied before the block is rendered')
        c.case().put(UPD, I64, add(o, I(1)))
    A(r'^%s::updateTransition\(' % CLS, update, 'PanningGainMatrix::updateTransition')
    A(r'^%s::processAudio\(' % CLS, lambda c, t: c.case().put(AUD, I64, add(c.rd(AUD, I64), I(1))), 'PanningGainMatrix::processAudio')
    v.invariant(r'PanningGainMatrix::updateTransitions\(', Inv(v, ['o'], {'o': I(0)}, lambda e, q: {'o': add(q['o'], I(1))}, lambda q: And(ge(q['o'], I(0)), le(q['o'], m.no)), phis=[lambda q: q['o']],
                                                              measure=lambda q: sub(m.no, q['o']), cells=[(UPD, I64, lambda q: q['o'])]))
    for e in only(v, v.call(v.find(r'^%s::process\(' % CLS), [m.c.o.ptr()]), 'ret'):
        L = lambda x: e.st.load(x, I64, '')
        v.oblige(e.st, 'each entry of a new message is applied once', eq(L(UPD), ite(news, m.no, I(0))))
        v.oblige(e.st, 'the block is rendered once', eq(L(AUD), I(1)))
        v.oblige(e.st, 'a message is consumed', eq(L(RST), ite(news, I(1), I(0))))
    return v


def unit_assign():
    """assignment of messages: dimensions, gains, start times and durations of the source"""
    v = V([PP], 'PanningMatrixParameter::operator=', ('uf', 'real'))
    c = Comp(v, PAR, PP, 'unused')
    lay = Lay(PP)
    ARR = 'visr::efl::AlignedArray<unsigned long>'

    def par(name, ro):
        o = Obj(v, name, PAR, lay)
        no, nl = v.int(name + '_objects', 1, 1 << 20), v.int(name + '_loudspeakers', 1, 1 << 20)
        return o, no, nl, mkmat(v, name + '_gains', c, o.sub('mGains'), no, nl, VAL, ro), Times(v, name + '_stamps', o.sub('mTimeStamps'), no, ro), Times(v, name + '_times', o.sub('mTransitionTimes'), no, ro)
    o, no, nl, ga, sa, ta = par('target', False)
    q, qo, ql, gb, sb, tb = par('source', True)
    g = ghost(v, 1)
    v.st.store(g.at(0), I64, I(0), 'setup')
    fresh = {f: v.reg(Region('new_' + f, esize=8, leaf=8, leafsort='i', extent=lambda i: And(ge(i, I(0)), lt(i, qo)))) for f in ('mTimeStamps', 'mTransitionTimes')}

    def resize(cc, this, n):
        n = cc.st.u(n, 64)
        for f, reg in fresh.items():
            a = o.sub(f)
            if same(cc.st, this, a.ptr()):
                cc.require(eq(n, qo), 'number of entries of the source')
                cc.case().put(a.p('mLength'), I64, n).put(a.p('mAlignedStorage'), PTR, reg.ptr()).put(a.p('mRawStorage'), PTR, reg.ptr())
                return
        cc.require(FALSE, 'arrays of the target are resized')
        cc.case()
    v.contract(r'^%s::resize\(' % ARR, resize, 'AlignedArray::resize')
    M = 'visr::efl::BasicMatrix<float>'

    def same(st, a, b):
        a, b = st.resolve(a), st.resolve(b)
        return a.reg is b.reg and st.proves(eq(a.off, b.off))

    def mresize(cc, this, r, k):
        cc.require(tm.B(bool(same(cc.st, this, o.sub('mGains').ptr()))), 'gains of the target are resized')
        cc.require(And(eq(cc.st.u(r, 64), qo), eq(cc.st.u(k, 64), ql)), 'dimensions of the source')
        cc.case().put(o.p('mGains.mNumberOfRows'), I64, r).put(o.p('mGains.mNumberOfColumns'), I64, k)

    def mcopy(cc, this, src):
        cc.require(tm.B(bool(same(cc.st, this, o.sub('mGains').ptr()) and same(cc.st, src, q.sub('mGains').ptr()))), 'gains are copied from the source')
        cc.require(And(eq(cc.rd(o.p('mGains.mNumberOfRows'), I64), qo), eq(cc.rd(o.p('mGains.mNumberOfColumns'), I64), ql)), 'equal dimensions')
        cc.case().put(g.at(0), I64, I(1))
    v.contract(r'^%s::resize\(' % M, mresize, 'BasicMatrix::resize')
    v.contract(r'^%s::copy\(' % M, mcopy, 'BasicMatrix::copy')
    st0 = v.st.copy()
    f = v.find(r'^%s::operator=\(' % PAR)
    for e in only(v, v.call(f, [o.ptr(), q.ptr()]), 'ret'):
        v.oblige(e.st, 'gains are copied', eq(e.st.load(g.at(0), I64, ''), I(1)))
        v.oblige(e.st, 'returns the target', tm.B(bool(same(e.st, e.val, o.ptr()))))
        s = e.st.copy()
        i = tm.fresh('entry', 'I')
        s.assume(And(ge(i, I(0)), lt(i, qo)))
        for fld, src in (('mTimeStamps', sb), ('mTransitionTimes', tb)):
            v.oblige(s, fld + ': number of entries', eq(s.u(o.sub(fld).get('mLength', I64, s), 64), qo))
            d = s.resolve(o.sub(fld).get('mAlignedStorage', PTR, s))
            v.oblige(s, fld + ': entry', eq(s.u(s.read_at(d.plus(mul(i, I(8))), I64, (), check=False), 64), src.x(st0, i)))
    return v


def unit_initial(ramp):
    """the ramp 1, 2, 3, ... and the constant time stamps the component starts with"""
    v = V([PG], 'PanningGainMatrix: ' + ('createRamp' if ramp else 'constantArray'), ('real',) if ramp else ('uf', 'real'))
    lay = Lay(PG)
    n, al = v.int('size', 0, 1 << 20), v.int('alignment', 1, 1 << 10)
    cls = 'visr::efl::BasicVector<float>' if ramp else 'visr::efl::AlignedArray<unsigned long>'
    o = Obj(v, 'result', cls, lay)
    es = 4 if ramp else 8
    reg = v.reg(Region('elements', esize=es, leaf=es, leafsort='f' if ramp else 'i', extent=lambda i: And(ge(i, I(0)), lt(i, n))))
    a = o.sub('mData') if ramp else o
    if ramp:
        start, inc = v.flt('start', 'f'), v.flt('increment', 'f')
        args = [start, inc]
    else:
        val = v.int('value', 0)
        v.st.assume(le(val, INF))
        args = [val]

    def make(cc, this, k, *rest):
        cc.require(eq(cc.st.u(k, 64), n), 'number of elements')
        cc.case().put(a.p('mLength'), I64, n).put(a.p('mAlignedStorage'), PTR, reg.ptr()).put(a.p('mRawStorage'), PTR, reg.ptr())
    v.contract(r'^%s::%s\(unsigned long, unsigned long\)' % (cls, cls.split('::')[-1].split('<')[0]), make, cls.split('::')[-1] + ' constructor')
    ty = F if ramp else I64
    val_at = (lambda i: fadd(args[0], fmul(conv(i), args[1]))) if ramp else (lambda i: args[0])
    if ramp:
        v.invariant(r'::createRamp<', Inv(v, ['k'], {'k': I(0)}, lambda e, q: {'k': add(q['k'], I(1))}, lambda q: And(ge(q['k'], I(0)), le(q['k'], n)), phis=[lambda q: q['k']], measure=lambda q: sub(n, q['k']),
                                          logs=[(reg, 0, lambda q: (Upd(4, And(ge(KV[0], I(0)), lt(KV[0], q['k'])), val_at(KV[0])),))]))
    for e in only(v, v.call(v.find(r'::%s<' % ('createRamp' if ramp else 'constantArray')), [o.ptr()] + args + [n, al]), 'ret'):
        s = e.st.copy()
        v.oblige(s, 'number of elements', eq(s.u(a.get('mLength', I64, s), 64), n))
        i = tm.fresh('element', 'I')
        s.assume(And(ge(i, I(0)), lt(i, n)))
        x = s.read_field(reg, 0, es, ty, (i,))
        if ramp:
            v.same(s, 'element of the ramp', x, val_at(i), F)
        else:
            v.oblige(s, 'element', eq(s.u(x, 64), val))
    return v


def units(sel=None):
    return [('update', unit_update), ('slope', unit_slope), ('audio', unit_audio), ('messages', unit_messages), ('assign', unit_assign),
            ('ramp', lambda: unit_initial(True)), ('constant', lambda: unit_initial(False))]
