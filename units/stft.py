"""Short-time Fourier analysis and overlap-add synthesis.

The DFT itself is an assumed contract ("the transform of that sequence"): forwardTransform and inverseTransform are
checked to receive exactly the specified samples or bins and to write to the specified place."""
from irv.unit import *
from irv.solver import Fact
from irv.loops import Inv
from .arrays import only, split_ends
from .component import Comp
from .efl import use_kernels
from .flow import ghost

TS, TI, TP = 'librcl/time_frequency_transform.cpp', 'librcl/time_frequency_inverse_transform.cpp', 'libpml/time_frequency_parameter.cpp'
CS, CI, CP = 'visr::rcl::TimeFrequencyTransform', 'visr::rcl::TimeFrequencyInverseTransform', 'visr::pml::TimeFrequencyParameter'
F, D = ('float',), ('double',)


class Stft:
    def __init__(self, v, cls, src):
        self.v = v
        c = self.c = Comp(v, cls, src)
        o = self.o = c.o
        use_kernels(v)
        self.ch, self.n, self.hop, self.F = v.int('channels', 0, 1 << 20), v.int('dftSize', 1, 1 << 20), v.int('hopSize', 1, 1 << 20), v.int('framesPerPeriod', 1, 1 << 20)
        self.bins = v.int('bins', 1, 1 << 20)
        v.st.assume(eq(mul(self.hop, self.F), c.period))
        self.al = v.int('alignment', 0, 1 << 10)
        for f, x in (('cAlignment', self.al), ('cNumberOfChannels', self.ch), ('cDftSize', self.n), ('cNumberOfDftBins', self.bins), ('cFramesPerPeriod', self.F), ('cHopSize', self.hop)):
            o.set(f, x)
        self.vt = v.reg(Region('fftVtable', esize=8, leaf=8, leafsort='p', extent=lambda i: And(ge(i, I(0)), lt(i, I(6)))))
        self.fft = v.reg(Region('fft', size=16))
        v.st.store(self.fft.ptr(), PTR, self.vt.ptr(), 'setup')
        o.set('mFftWrapper', self.fft.ptr(), PTR)
        # complex values are indexed by (frame, channel, bin); rows of different frames and channels are disjoint (unit 'slices')
        self.tf = v.reg(Region('frames', nmem=2, esize=8, leaf=8, leafsort='d', extent=lambda f, c_, b: And(
            ge(f, I(0)), lt(f, self.F), ge(c_, I(0)), lt(c_, self.ch), ge(b, I(0)), lt(b, self.bins))))
        tfo = self.tfo = v.reg(Region('timeFrequencyParameter', size=64))
        v.contract(r'^visr::pml::SharedDataProtocol::(Input|Output)<.*TimeFrequencyParameter<float> ?>::data\(', lambda cc, t: cc.case().ret(tfo.ptr()), 'SharedDataProtocol port data')

        def slice_(cc, t, f, c_):
            cc.require(And(tm.B(cc.st.resolve(t).reg is tfo), ge(f, I(0)), lt(f, self.F), ge(c_, I(0)), lt(c_, self.ch)), 'frame and channel of the parameter')
            cc.case().ret(Ptr(self.tf, (f, c_), 0))
        v.contract(r'^%s<float>::channelSlice\(' % CP, slice_, 'TimeFrequencyParameter::channelSlice')

    def slot(self, i, h):
        self.v.st.store(self.vt.at(I(i)), PTR, VFn('fft slot %d' % i, h), 'setup')

    def vector(self, o, reg, n):
        for f, x in (('mLength', n), ('mAlignment', self.al)):
            o.set('mData.' + f, x)
        for f in ('mRawStorage', 'mAlignedStorage'):
            o.set('mData.' + f, reg.ptr(), PTR)


def unit_forward():
    v = V([TS], 'TimeFrequencyTransform::process')
    k = Stft(v, CS, TS)
    c, o = k.c, k.o
    w = v.int('windowLength', 0, 1 << 20)
    v.st.assume(le(w, k.n))
    o.set('cWindowLength', w)
    inp = c.audio('mInput', k.ch)
    win = v.array('window', 'f', w)
    win.readonly = True
    k.vector(o.sub('mWindow'), win, w)
    calc = v.array('transformBuffer', 'f', k.n)
    k.vector(o.sub('mCalcBuffer'), calc, k.n)
    calc.align = win.align = 4
    T = v.int('samplesWritten', 0, 1 << 40)                 # per channel, including the current period
    L = v.int('historyLength', 1, 1 << 41)                  # unit 'history length' (constructor)
    v.st.assume(ge(L, add(w, mul(sub(k.F, I(1)), k.hop))))
    v.st.assume(ge(L, c.period))
    hist = v.reg(Region('history', nmem=1, esize=4, leaf=4, leafsort='f', extent=lambda c_, i: And(ge(c_, I(0)), lt(c_, k.ch), ge(i, sub(T, L)), lt(i, T))))
    hist.readonly = True
    g = ghost(v)
    ring = o.p('mInputBuffer')

    def write(cc, r, d, stride, n, m, a):
        cc.v.same(cc.st, 'written ring', cc.st.resolve(r), ring)
        cc.require(And(tm.B(cc.st.resolve(d).reg is inp.reg), eq(cc.st.resolve(d).off, I(0)), eq(cc.st.resolve(d).mem[0], I(0)), eq(stride, inp.stride), eq(n, k.ch), eq(m, c.period),
                       eq(cc.rd(g.at(0), I64), I(0))), 'one period of every input channel enters the history once, before it is read')
        cc.require(le(m, L), 'CircularBuffer::write: the period fits into the history')
        cc.case().put(g.at(0), I64, I(1))

    def rp(cc, r, ch, dl):
        cc.v.same(cc.st, 'read ring', cc.st.resolve(r), ring)
        cc.require(And(eq(cc.rd(g.at(0), I64), I(1)), ge(ch, I(0)), lt(ch, k.ch), ge(dl, I(0)), le(dl, L)), 'position in the history of an existing channel')
        cc.case().ret(Ptr(hist, (ch,), 0).plus(mul(I(4), sub(T, dl))))
    v.contract(r'CircularBuffer<float>::write\(float const\*,', write, 'CircularBuffer::write')
    v.contract(r'CircularBuffer<float>::getReadPointer\(', rp, 'CircularBuffer::getReadPointer')
    v.st.fill(calc.ptr(), k.n, F, lambda i, c_: ite(lt(i, w), tm.uf('anything', (i,), 'f'), fnum(0.0, 'f')))   # object invariant: zero behind the window
    zero = lambda st: (lambda s, i: v.same(s, 'samples behind the window are zero', s.read_field(calc, 0, 4, F, (i,)), fnum(0.0, 'f'), F))(*tail(st))

    def tail(st):
        s, i = st.copy(), tm.fresh('i', 'I')
        s.assume(And(ge(i, w), lt(i, k.n)))
        return s, i

    def fwd(ex, st, a, ins):
        p, q = st.resolve(a[1]), st.resolve(a[2])
        v.oblige(st, 'transforms the transform buffer', And(tm.B(p.reg is calc), eq(p.off, I(0))))
        v.oblige(st, 'result at the start of a frame', And(tm.B(q.reg is k.tf), eq(q.off, I(0))))
        f, ch = q.mem
        s, i = st.copy(), tm.fresh('i', 'I')
        s.assume(And(ge(i, I(0)), lt(i, w)))
        t = add(sub(sub(T, mul(sub(sub(k.F, f), I(1)), k.hop)), w), i)
        v.same(s, 'windowed samples up to the end of the hop of the frame', s.read_field(calc, 0, 4, F, (i,)),
               fmul(s.read_field(hist, 0, 4, F, (ch, t)), s.read_field(win, 0, 4, F, (i,))), F)
        zero(st)
        st.fill(q, k.bins, D, lambda b, c_: tm.uf('transform', (f, ch, b), 'd'))
        return [End('ret', st, I(0))]
    k.slot(2, fwd)
    for e in only(v, c.run(), 'ret'):
        s = e.st.copy()
        f, ch, b = [tm.fresh(x, 'I') for x in ('frame', 'channel', 'bin')]
        s.assume(And(ge(f, I(0)), lt(f, k.F), ge(ch, I(0)), lt(ch, k.ch), ge(b, I(0)), lt(b, k.bins)))
        v.same(s, 'every frame of every channel is transformed', s.read_field(k.tf, 0, 8, D, (f, ch, b)), tm.uf('transform', (f, ch, b), 'd'), D)
        v.oblige(s, 'the period entered the history', eq(s.load(g.at(0), I64, ''), I(1)))
        zero(e.st)
    return v


def unit_inverse():
    """overlap-add: calc(c,f,k) = y(c,f,k) + tail(c,f,k), tail(c,f+1,k) = calc(c,f,k+hop) for k < dftSize - hop, out(c, f*hop+k) = scale * calc(c,f,k)"""
    v = V([TI], 'TimeFrequencyInverseTransform::process')
    v.contract(r'^visr::AudioOutputT<float>::operator\[\]\(', lambda *a: at(*a), 'AudioOutputT::operator[]')
    k = Stft(v, CI, TI)
    c, o, n, hop = k.c, k.o, k.n, k.hop
    v.st.assume(le(hop, n))                                 # unit 'synthesis constructor'
    scale = v.flt('scalingFactor', 'f')
    o.set('cScalingFactor', scale, F)
    port = c.audio('mOutput', k.ch, inp=False)
    # the samples of a channel as frames of hop samples (period = frames * hop)
    out = v.reg(Region('output', nmem=2, esize=4, leaf=4, leafsort='f', align=4, extent=lambda ch, f, i: And(ge(ch, I(0)), lt(ch, k.ch), ge(f, I(0)), lt(f, k.F), ge(i, I(0)), lt(i, hop))))
    out.pitches = (port.stride, hop)

    def at(cc, this, ch):
        cc.require(And(eq(cc.st.resolve(this).off, port.ptr.off), ge(ch, I(0)), lt(ch, k.ch)), 'channel of the output port')
        cc.case().ret(Ptr(out, (ch, I(0)), 0))
    acc = v.reg(Region('accumulator', nmem=1, esize=4, leaf=4, leafsort='f', align=4, pitch=v.int('accumulatorStride', 0, 1 << 20),
                       extent=lambda ch, i: And(ge(ch, I(0)), lt(ch, k.ch), ge(i, I(0)), lt(i, sub(n, hop)))))
    am = o.sub('mAccumulationBuffer')

    def row(cc, m, ch):
        cc.v.same(cc.st, 'accumulator', cc.st.resolve(m), o.p('mAccumulationBuffer'))
        cc.require(And(ge(ch, I(0)), lt(ch, k.ch)), 'row of the accumulator')
        cc.case().ret(Ptr(acc, (ch,), 0))
    v.contract(r'^visr::efl::BasicMatrix<float>::row\(', row, 'BasicMatrix::row')
    calc = v.array('transformBuffer', 'f', n)
    calc.align = 4
    for f, x in (('mLength', n), ('mAlignment', k.al)):
        o.sub('mCalcBuffer').set(f, x)
    for f in ('mRawStorage', 'mAlignedStorage'):
        o.sub('mCalcBuffer').set(f, calc.ptr(), PTR)
    y = lambda ch, f, i: tm.uf('inverse', (ch, f, i), 'f')
    tail = lambda ch, f, i: tm.uf('overlap', (ch, f, i), 'f')
    full = lambda ch, f, i: ite(lt(i, sub(n, hop)), fadd(y(ch, f, i), tail(ch, f, i)), y(ch, f, i))
    st0 = v.st

    def unfold(ch, f, i):
        return And(Implies(eq(f, I(0)), eq(tail(ch, f, i), st0.read_field(acc, 0, 4, F, (ch, i)))),
                   Implies(gt(f, I(0)), eq(tail(ch, f, i), full(ch, sub(f, I(1)), add(i, hop)))))
    v.st.facts = tuple(v.st.facts) + (Fact('overlap', unfold, 2, 'definition of the overlap'),)

    def inverse(ex, st, a, ins):
        p, q = st.resolve(a[1]), st.resolve(a[2])
        v.oblige(st, 'transforms a frame from its start', And(tm.B(p.reg is k.tf), eq(p.off, I(0))))
        v.oblige(st, 'result in the transform buffer', And(tm.B(q.reg is calc), eq(q.off, I(0))))
        f, ch = p.mem
        st.fill(q, n, F, lambda i, c_: y(ch, f, i))
        return [End('ret', st, I(0))]
    k.slot(3, inverse)
    inv = Inv(v, ['f'], {'f': I(0)}, lambda e, g: {'f': add(g['f'], I(1))}, lambda g: And(ge(g['f'], I(0)), le(g['f'], k.F)), phis=[lambda g: g['f']], measure=lambda g: sub(k.F, g['f']))
    inv.depth, inv.exit = 1, {'f': k.F}

    def setup(st, outer):
        if len(outer) != 1:
            raise Unsupported('one enclosing loop over the channels expected')
        ch = st.u(outer[0][0], 64)
        a0, o0, c0 = st.log(acc, 0), st.log(out, 0), st.log(calc, 0)
        inv.logs = [(acc, 0, lambda g: a0 + (Upd(4, And(eq(KV[0], ch), acc.extent(KV[0], KV[1]), gt(g['f'], I(0))), tail(ch, g['f'], KV[1])),)),
                    (out, 0, lambda g: o0 + (Upd(4, And(eq(KV[0], ch), out.extent(*KV[:3]), lt(KV[1], g['f'])), fmul(scale, full(ch, KV[1], KV[2]))),)),
                    (calc, 0, lambda g: c0 + (Upd(4, And(gt(g['f'], I(0)), calc.extent(KV[0])), full(ch, sub(g['f'], I(1)), KV[0])),))]
    inv.setup = setup
    v.invariant('TimeFrequencyInverseTransform::process', inv)
    for e in only(v, c.run(), 'ret'):
        s = e.st.copy()
        ch, f, i = [tm.fresh(x, 'I') for x in ('channel', 'frame', 'sample')]
        s.assume(out.extent(ch, f, i))
        v.same(s, 'output is the scaled sum of the frame and the overlap of the previous frames', s.read_field(out, 0, 4, F, (ch, f, i)), fmul(scale, full(ch, f, i)), F)
        s = e.st.copy()
        s.assume(acc.extent(ch, i))
        v.same(s, 'the overlap continues in the next period', s.read_field(acc, 0, 4, F, (ch, i)), tail(ch, k.F, i), F)
    return v


def unit_history():
    """the input history holds a complete period and, before every frame of it, a complete window"""
    v = V([TS], 'TimeFrequencyTransform: history length')
    w, hop, F_ = v.int('windowLength', 0, 1 << 20), v.int('hopSize', 0, 1 << 20), v.int('frames', 0, 1 << 20)
    r = v.int('remainder', 0, 1 << 20)
    period = v.int('period', 1, 1 << 40)
    v.st.assume(Implies(gt(hop, I(0)), And(eq(period, add(mul(F_, hop), r)), lt(r, hop), eq(tm.mod(period, hop), r), eq(tm.div(period, hop), F_))))
    for e in split_ends(v, v.call(v.find(r'^visr::rcl::\(anonymous namespace\)::inputBufferSize\('), [w, hop, period]), Or(eq(hop, I(0)), ne(r, I(0))), 'throw', 'period not a multiple of the hop size'):
        L = e.st.u(e.val, 64)
        v.oblige(e.st, 'room for a window before the last sample of the first frame', ge(L, add(w, mul(sub(F_, I(1)), hop))))
        v.oblige(e.st, 'room for a period', ge(L, period))
    return v


NORMS = ((0, 'One', lambda n: fnum(1.0, 'f')), (1, 'Unitary', lambda n: fdiv(fnum(1.0, 'f'), tm.fop('sqrt', (itof(n, 'f'),), 'f'))), (2, 'OneOverN', lambda n: fdiv(fnum(1.0, 'f'), itof(n, 'f'))))


def unit_scaling():
    v = V([TI], 'TimeFrequencyInverseTransform: scaling factor')
    n, nm, x = v.int('dftSize', 1, 1 << 20), v.int('normalisation', 0, 2), v.flt('inverseScalingFactor', 'f')
    for e in only(v, v.call(v.find(r'calculateScalingFactor<float>\('), [nm, x, n]), 'ret'):
        for q, lab, val in NORMS:
            s = e.st.copy()
            s.assume(eq(nm, I(q)))
            v.same(s, lab, e.val, fdiv(val(n), x), F)
    return v


class Ctor:
    """contracts of the parts a constructor creates"""

    def __init__(self, v, cls, src):
        self.v = v
        self.lay = Lay(src)
        self.o = Obj(v, 'newComponent', cls, self.lay)
        self.ch, self.n, self.hop, self.nm = v.int('channels', 0, 1 << 20), v.int('dftSize', 1, 1 << 20), v.int('hopSize', 0, 1 << 20), v.int('normalisation', 0, 2)
        self.F, self.r, self.period = v.int('frames', 0, 1 << 20), v.int('remainder', 0, 1 << 20), v.int('period', 1, 1 << 20)
        hop = self.hop
        v.st.assume(Implies(gt(hop, I(0)), And(eq(self.period, add(mul(self.F, hop), self.r)), lt(self.r, hop), eq(tm.mod(self.period, hop), self.r), eq(tm.div(self.period, hop), self.F))))
        A = lambda n, f, l: v.contract(n, f, l)
        A(r'^visr::AtomicComponent::AtomicComponent\(', lambda c, *a: c.case(), 'AtomicComponent constructor')
        A(r'^visr::(Component|SignalFlowContext)::period\(', lambda c, t: c.case().ret(self.period), 'period')
        A(r'^std::(__cxx11::basic_string<.*>::(basic_string|~basic_string)|allocator<char>::allocator|__new_allocator<char>::~__new_allocator|allocator<char>::~allocator)\(', lambda c, *a: c.case(), 'string')
        A(r'::~(AtomicComponent|ParameterOutput|ParameterInput|AudioInputBase|AudioOutputBase|BasicVector|BasicMatrix|AlignedArray|CircularBuffer|unique_ptr|TimeFrequencyParameterConfig)\(', lambda c, *a: c.case(), 'destructor')
        A(r'^visr::(AudioInputT|AudioOutputT)<float>::Audio(In|Out)putT\(', self.port, 'audio port constructor')
        A(r'^visr::pml::TimeFrequencyParameterConfig::TimeFrequencyParameterConfig\(', self.config, 'TimeFrequencyParameterConfig constructor')
        A(r'^visr::Parameter(Out|In)put<.*>::Parameter(Out|In)put', self.pport, 'parameter port constructor')
        A(r'^visr::rbbl::FftWrapperFactory<float>::create\(', self.create, 'FftWrapperFactory::create')
        self.vt = v.reg(Region('fftVtable', esize=8, leaf=8, leafsort='p', extent=lambda i: And(ge(i, I(0)), lt(i, I(6)))))
        self.fft = v.reg(Region('fft', size=16))
        v.st.store(self.fft.ptr(), PTR, self.vt.ptr(), 'setup')
        self.g = ghost(v, 6)
        self.known = v.bool('fftSizeSupported')
        self.cfg = v.iarray('name', 8, I(16))
        self.bins = lambda st: tm.div(add(self.n, I(2)), I(2))

    def slot(self, i, h):
        self.v.st.store(self.vt.at(I(i)), PTR, VFn('fft slot %d' % i, h), 'setup')

    def good(self, st, x=TRUE):
        """the obligations of a call hold on the paths of valid configurations only"""
        s = st.copy()
        s.assume(And(self.ok, self.known))
        return s if s.feasible() else None

    def oblige(self, st, label, goal):
        s = self.good(st)
        if s is not None:
            self.v.oblige(s, label, goal)

    def create(self, c, res, name, n, al):
        self.oblige(c.st, 'transform of the requested size', eq(n, self.n))
        c.case(self.known).put(c.st.resolve(res), PTR, self.fft.ptr())
        c.case(Not(self.known)).throw('_ZTISt16invalid_argument')

    def count(self, c, j):
        self.oblige(c.st, 'created once', eq(c.rd(self.g.at(j), I64), I(0)))
        return c.case().put(self.g.at(j), I64, I(1))

    def port(self, c, this, name, comp, width):
        self.oblige(c.st, 'width of the audio port', eq(width, self.ch))
        self.count(c, 0)

    def config(self, c, this, bins, ch, frames):
        self.oblige(c.st, 'bins, channels and frames of the parameter port', And(eq(bins, self.bins(c.st)), eq(ch, self.ch), eq(frames, self.F)))
        self.count(c, 1)

    def pport(self, c, this, *a):
        self.oblige(c.st, 'configuration of the parameter port', eq(c.rd(self.g.at(1), I64), I(1)))
        self.count(c, 2)

    def fields(self, st, *more):
        o = self.o
        for f, x in (('cNumberOfChannels', self.ch), ('cDftSize', self.n), ('cFramesPerPeriod', self.F), ('cHopSize', self.hop)) + more:
            self.v.oblige(st, f, eq(o.get(f, I64, st), x))
        for j, w in ((0, 'audio port'), (1, 'parameter configuration'), (2, 'parameter port')):
            self.v.oblige(st, '%s exists' % w, eq(st.load(self.g.at(j), I64, ''), I(1)))


def unit_fctor():
    v = V([TS], 'TimeFrequencyTransform: constructor')
    k = Ctor(v, CS, TS)
    o, n, hop = k.o, k.n, k.hop
    use_kernels(v)
    w, al = v.int('windowLength', 0, 1 << 20), v.int('windowAlignment', 0, 64)
    k.ok = And(gt(hop, I(0)), eq(k.r, I(0)), le(w, n))
    win0 = v.array('windowArgument', 'f', w)
    win0.readonly, win0.align = True, 4
    wo = Obj(v, 'window', 'visr::efl::BasicVector<float>', k.lay)
    for f, x in (('mLength', w), ('mAlignment', al)):
        wo.set('mData.' + f, x)
    for f in ('mRawStorage', 'mAlignedStorage'):
        wo.set('mData.' + f, win0.ptr(), PTR)
    A16 = v.int('alignment', 1, 64)
    mk = lambda nm, ln: v.reg(Region(nm, nmem=1, esize=4, leaf=4, leafsort='f', extent=lambda z, i: And(eq(z, I(0)), ge(i, I(0)), lt(i, ln))))
    win, calc = mk('newWindow', w), mk('newBuffer', n)
    pad = v.reg(Region('padding', nmem=1, esize=4, leaf=4, leafsort='f', extent=lambda z, i: And(eq(z, I(0)), ge(i, I(0)))))
    for r in (win, calc, pad):
        r.rowaligned = I(cal(v))
    base = 'mData.'

    def vector(c, this, ln, a):
        t = c.st.resolve(this)
        for fld, reg, want in (('mWindow', win, w), ('mCalcBuffer', calc, n)):
            if t.reg is o.reg and t.off is o.p(fld).off:
                k.oblige(c.st, 'length of ' + fld, eq(ln, want))
                q = c.case()
                break
        else:
            reg, q = pad, c.case()
        for f, x, ty in (('mLength', ln, I64), ('mAlignment', a, I64), ('mRawStorage', Ptr(reg, (I(0),), 0), PTR), ('mAlignedStorage', Ptr(reg, (I(0),), 0), PTR)):
            q.put(t.plus(k.lay.off('visr::efl::BasicVector<float>', base + f)[0]), ty, x)
    v.contract(r'^visr::efl::BasicVector<float>::BasicVector\(unsigned long, unsigned long\)', vector, 'BasicVector constructor')

    def zero(c, this):
        t = c.st.resolve(this)
        ln = c.rd(t.plus(k.lay.off('visr::efl::BasicVector<float>', 'mData.mLength')[0]), I64)
        d = c.st.resolve(c.rd(t.plus(k.lay.off('visr::efl::BasicVector<float>', 'mData.mAlignedStorage')[0]), PTR))
        c.case().fill(d, ln, F, lambda i: fnum(0.0, 'f'))
    v.contract(r'^visr::efl::BasicVector<float>::zeroFill\(', zero, 'BasicVector::zeroFill')
    L = v.int('historyLength', 1, 1 << 41)
    badsize = Or(eq(hop, I(0)), ne(k.r, I(0)))

    def size(c, wl, h, p):
        k.oblige(c.st, 'arguments of the history length', And(eq(wl, w), eq(h, hop), eq(p, k.period)))
        c.case(Not(badsize)).ret(L)
        c.case(badsize).throw('_ZTISt11logic_error')
    v.contract(r'::inputBufferSize\(', size, 'inputBufferSize (unit history length)')

    def ring(c, this, ch, ln, a):
        v.same(c.st, 'input history', c.st.resolve(this), o.p('mInputBuffer'))
        k.oblige(c.st, 'channels and length of the input history', And(eq(ch, k.ch), eq(ln, L)))
        k.count(c, 3)
    v.contract(r'^visr::rbbl::CircularBuffer<float>::CircularBuffer\(', ring, 'CircularBuffer constructor (zero content)')
    v.contract(r'^visr::rbbl::CircularBuffer<float>::length\(', lambda c, t: c.case().ret(L), 'CircularBuffer::length')

    def write(c, t, d, stride, ch, m, a):
        d = c.st.resolve(d)
        k.oblige(c.st, 'only zeros precede the signal', And(tm.B(d.reg is pad), eq(d.off, I(0)), eq(stride, I(0)), eq(ch, k.ch), le(m, L)))
        s = c.st.copy()
        i = tm.fresh('i', 'I')
        s.assume(And(ge(i, I(0)), lt(i, m)))
        v.same(s, 'only zeros precede the signal: values', s.read_field(pad, 0, 4, F, (I(0), i)), fnum(0.0, 'f'), F)
        c.case()
    v.contract(r'^visr::rbbl::CircularBuffer<float>::write\(float const\*,', write, 'CircularBuffer::write')
    scale = v.flt('forwardScalingFactor', 'f')
    k.slot(4, lambda ex, st, a, ins: [End('ret', st, scale)])
    f = [x for x in v.find(r'^%s::TimeFrequencyTransform\(.*BasicVector' % CS, unique=False)][0]
    ends = v.call(f, [o.ptr(), v.reg(Region('context', size=64)).ptr(), k.cfg.ptr(), NULL, k.ch, n, wo.ptr(), hop, k.cfg.ptr(), k.nm])
    for e in split_ends(v, ends, Not(And(k.ok, k.known)), 'throw', 'invalid configuration'):
        st = e.st
        k.fields(st, ('cWindowLength', w), ('cNumberOfDftBins', k.bins(st)))
        v.oblige(st, 'input history exists', eq(st.load(k.g.at(3), I64, ''), I(1)))
        i = tm.fresh('i', 'I')
        s = st.copy()
        s.assume(And(ge(i, I(0)), lt(i, n)))
        v.same(s, 'transform buffer is zero', s.read_field(calc, 0, 4, F, (I(0), i)), fnum(0.0, 'f'), F)
        for q, lab, val in NORMS:
            s = st.copy()
            s.assume(And(ge(i, I(0)), lt(i, w), eq(k.nm, I(q))))
            v.same(s, 'window is scaled for normalisation ' + lab, s.read_field(win, 0, 4, F, (I(0), i)), fmul(fdiv(val(n), scale), v.st.read_field(win0, 0, 4, F, (i,))), F)
    return v


def cal(v):
    return 16


def unit_ictor():
    v = V([TI], 'TimeFrequencyInverseTransform: constructor')
    k = Ctor(v, CI, TI)
    o, n, hop = k.o, k.n, k.hop
    k.ok = And(gt(hop, I(0)), eq(k.r, I(0)), le(hop, n))
    v.contract(r'^visr::efl::BasicMatrix<float>::BasicMatrix\(unsigned long, unsigned long, unsigned long\)', lambda c, t, r, q, a: (
        v.same(c.st, 'accumulator', c.st.resolve(t), o.p('mAccumulationBuffer')), k.oblige(c.st, 'accumulator holds the overlap of every channel', And(eq(r, k.ch), eq(q, sub(n, hop)))), k.count(c, 3)), 'BasicMatrix constructor (zero content)')
    v.contract(r'^visr::efl::AlignedArray<float>::AlignedArray\(unsigned long, unsigned long\)', lambda c, t, q, a: (
        v.same(c.st, 'transform buffer', c.st.resolve(t), o.p('mCalcBuffer')), k.oblige(c.st, 'transform buffer holds a frame', eq(q, n)), k.count(c, 4)), 'AlignedArray constructor')
    x = v.flt('inverseScalingFactor', 'f')
    k.slot(5, lambda ex, st, a, ins: [End('ret', st, x)])
    v.contract(r'calculateScalingFactor<float>\(', lambda c, nm, y, m: (k.oblige(c.st, 'arguments of the scaling factor', And(eq(nm, k.nm), eq(m, n))), v.same(c.st, 'scaling of the transform', y, x, F),
                                                                       c.case().ret(tm.uf('scalingFactor', (nm, y, m), 'f'))), 'calculateScalingFactor (unit scaling factor)')
    f = v.find(r'^%s::TimeFrequencyInverseTransform\(' % CI, unique=False)[0]
    ends = v.call(f, [o.ptr(), v.reg(Region('context', size=64)).ptr(), k.cfg.ptr(), NULL, k.ch, n, hop, k.cfg.ptr(), k.nm])
    for e in split_ends(v, ends, Not(And(k.ok, k.known)), 'throw', 'invalid configuration'):
        k.fields(e.st, ('cNumberOfDftBins', k.bins(e.st)))
        v.same(e.st, 'scaling factor', o.get('cScalingFactor', F, e.st), tm.uf('scalingFactor', (k.nm, x, n), 'f'), F)
        for j, q in ((3, 'accumulator'), (4, 'transform buffer')):
            v.oblige(e.st, q + ' exists', eq(e.st.load(k.g.at(j), I64, ''), I(1)))
    return v


def unit_hann():
    v = V([TS], 'unityHannWindow', ('uf', 'real'))
    n = v.int('length', 0, 1 << 20)
    w = v.array('window', 'f', n)
    res = v.reg(Region('result', size=64))
    v.contract(r'^visr::pml::VectorParameter<float>::BasicVector\(', lambda c, t, m, a: (c.require(And(tm.B(c.st.resolve(t).reg is res), eq(m, n)), 'vector of the requested length'), c.case()), 'VectorParameter constructor')
    v.contract(r'^visr::efl::BasicVector<float>::operator\[\]\(', lambda c, t, i: (c.require(And(tm.B(c.st.resolve(t).reg is res), ge(i, I(0)), lt(i, n)), 'index in range'), c.case().ret(w.at(i))), 'BasicVector::operator[]')
    v.contract(r'^visr::pml::VectorParameter<float>::~VectorParameter\(', lambda c, t: c.case(), 'VectorParameter destructor')
    pi = fnum(3.1415927410125732, 'f')
    v.contract(r'^boost::math::constants::', lambda c, *a: c.case().ret(pi), 'boost constant pi')
    f = [x for x in v.find(r'unityHannWindow<float>\(', unique=False)][0]
    for e in only(v, v.call(f, [res.ptr(), n]), 'ret'):
        s, i = e.st.copy(), tm.fresh('i', 'I')
        s.assume(And(ge(i, I(0)), lt(i, n)))
        d = lambda x: tm.fop('fpext', (x,), 'd')
        ang = fdiv(fmul(fnum(2 * 3.1415927410125732, 'd'), d(itof(i, 'f'))), d(itof(n, 'f')))
        want = tm.fop('fptrunc', (fsub(fnum(0.5, 'd'), fmul(fnum(0.5, 'd'), tm.fop('cos', (ang,), 'd'))),), 'f')
        v.same(s, 'periodic Hann window', s.read_field(w, 0, 4, F, (i,)), want, F)
    return v


class Tfp:
    def __init__(self, v, t, name='parameter'):
        self.v, self.t = v, t
        self.lay = Lay(TP)
        self.es = {'float': 8, 'double': 16}[t]
        self.cls = '%s<%s>' % (CP, t)
        o = self.o = Obj(v, name, self.cls, self.lay)
        V_ = lambda q, lo: v.int('%s_%s' % (name, q), lo, 1 << 16)
        self.F, self.C, self.B, self.S, self.al = V_('frames', 0), V_('channels', 1), V_('bins', 0), V_('stride', 0), V_('alignment', 0)
        self.rows = mul(self.F, self.C)
        v.st.assume(And(ge(self.S, self.B), eq(tm.div(self.rows, self.C), self.F)))
        self.data = v.reg(Region(name + '_data', size=1 << 60))
        for f, x in (('mStride', self.S), ('mNumberOfRows', self.rows), ('mNumberOfColumns', self.B), ('mData.mAlignment', self.al)):
            o.set('mData.' + f, x)
        for f in ('mData.mRawStorage', 'mData.mAlignedStorage'):
            o.set('mData.' + f, Ptr(self.data, (), I(0)), PTR)
        o.set('mNumberOfChannels', self.C)

    def fn(self, rx):
        return self.v.find(r'^%s::%s' % (self.cls, rx), unique=False)


def unit_slices(t):
    """element (frame, channel, bin) is at (frame * channels + channel) * stride + bin of the storage: distinct elements never share storage (bin < bins <= stride, channel < channels)"""
    v = V([TP], 'TimeFrequencyParameter<%s>: addressing' % t)
    k = Tfp(v, t)
    f, c, b = v.int('frame', 0, 1 << 16), v.int('channel', 0, 1 << 16), v.int('bin', 0, 1 << 16)
    v.st.assume(And(lt(f, k.F), lt(c, k.C), lt(b, k.B)))
    E = lambda x: mul(x, I(k.es))
    row = add(mul(mul(f, k.C), k.S), mul(c, k.S))
    n = 0
    for rx, args, want in ((r'at\(', [f, c, b], add(row, b)), (r'channelSlice\(', [f, c], row), (r'frameSlice\(', [f], mul(mul(f, k.C), k.S)), (r'data\(', [], I(0))):
        for fn in k.fn(rx):
            n += 1
            for e in only(v, v.call(fn, [k.o.ptr()] + args), 'ret'):
                p = e.st.resolve(e.val)
                v.oblige(e.st, 'address by ' + rx[:-2], And(tm.B(p.reg is k.data), eq(p.off, E(want))))
    for rx, want in (('numberOfDftBins', k.B), ('numberOfChannels', k.C), ('numberOfFrames', k.F), ('channelStride', k.S), ('frameStride', mul(k.S, k.C)), ('alignment', k.al)):
        for fn in k.fn(rx + r'\('):
            n += 1
            for e in only(v, v.call(fn, [k.o.ptr()]), 'ret'):
                v.oblige(e.st, rx, eq(e.st.u(e.val, 64), want))
    v.oblige(v.st, 'all accessors are present', tm.B(n >= 14))
    return v


def unit_bins():
    v = V([TP], 'TimeFrequencyParameter: number of bins')
    n = v.int('dftSize', 0, 1 << 40)
    q = v.int('half', 0, 1 << 39)
    v.st.assume(Or(eq(n, mul(I(2), q)), eq(n, add(mul(I(2), q), I(1)))))
    for t in ('float', 'double'):
        for e in only(v, v.call(v.find(r'^%s<%s>::numberOfBinsRealToComplex\(' % (CP, t)), [n]), 'ret'):
            v.oblige(e.st, 'bins of the transform of a real sequence', eq(e.st.u(e.val, 64), add(q, I(1))))
    return v


def unit_storage(t):
    """constructors, resize, copy and assignment: the matrix gets frames * channels rows of the bins, zero or copied content"""
    v = V([TP], 'TimeFrequencyParameter<%s>: storage' % t)
    k = Tfp(v, t)
    k2 = Tfp(v, t, 'other')
    g = ghost(v, 4)
    M = r'^visr::efl::BasicMatrix<std::complex<%s> ?>::' % t
    lay, base = k.lay, k.o.lay.off(k.cls, 'mData')[0]
    mo = lambda f: lay.off('visr::efl::BasicMatrix<std::complex<%s>>' % t, f)[0]

    def mine(c, m):
        m = c.st.resolve(m)
        c.require(tm.B(m.reg is k.o.reg and m.off is I(base)), 'works on its own storage')
        return m

    def size(o, m, r, q):
        o.put(m.plus(mo('mNumberOfRows')), I64, r).put(m.plus(mo('mNumberOfColumns')), I64, q)

    def ctor(c, m, r, q, a):
        m = mine(c, m)
        o = c.case()
        size(o, m, r, q)
        o.put(m.plus(mo('mData.mAlignment')), I64, a).put(g.at(0), I64, I(1))     # 1: zero, 2: copied, 0: anything

    def copy(c, m, r):
        m, r = mine(c, m), c.st.resolve(r)
        c.require(tm.B(r.reg is k2.o.reg and r.off is I(base)), 'copies the storage of the argument')
        c.require(And(eq(c.rd(m.plus(mo('mNumberOfRows')), I64), k2.rows), eq(c.rd(m.plus(mo('mNumberOfColumns')), I64), k2.B)), 'BasicMatrix::copy: equal sizes')
        c.case().put(g.at(0), I64, I(2))

    def resize(c, m, r, q, *a):
        m = mine(c, m)
        o = c.case()
        size(o, m, r, q)
        o.put(g.at(0), I64, I(0))
    v.contract(M + r'BasicMatrix\(unsigned long, unsigned long, unsigned long\)', ctor, 'BasicMatrix constructor (zero content)')
    v.contract(M + r'BasicMatrix\(unsigned long\)', lambda c, m, a: ctor(c, m, I(0), I(0), a), 'BasicMatrix constructor')
    v.contract(M + r'copy\(', copy, 'BasicMatrix::copy')
    v.contract(M + r'resize\(', resize, 'BasicMatrix::resize')
    v.contract(M + r'zeroFill\(', lambda c, m: (mine(c, m), c.case().put(g.at(0), I64, I(1))), 'BasicMatrix::zeroFill')
    v.contract(r'::~(BasicMatrix|ParameterBase|AlignedArray)\(', lambda c, *a: c.case(), 'destructor')
    v.contract(r'^visr::TypedParameterBase<.*>::TypedParameterBase\(|^visr::ParameterBase::ParameterBase\(', lambda c, *a: c.case(), 'ParameterBase constructor')
    B, C, F_, al = [v.int('new_' + x, lo, 1 << 16) for x, lo in (('bins', 0), ('channels', 0), ('frames', 0), ('align', 0))]
    cfg = v.reg(Region('config', size=64))
    for q, x in (('Frames', F_), ('Channels', C), ('DftBins', B)):
        v.contract(r'^visr::pml::TimeFrequencyParameterConfig::numberOf%s\(' % q, lambda c, t_, x=x: c.case().ret(x), 'TimeFrequencyParameterConfig::numberOf' + q)
    U, T_ = r'unsigned long', k.cls.split('::')[-1].split('<')[0]

    def run(rx, args, what, rows, bins, chans, state):
        fs = v.find(r'^%s::%s' % (k.cls, rx), unique=False)
        v.oblige(v.st, what + ' is present', tm.B(len(fs) > 0))
        for fn in fs[:1]:
            for e in only(v, v.call(fn, [k.o.ptr()] + args), 'ret'):
                st = e.st
                v.oblige(st, what + ': sizes', And(eq(k.o.get('mData.mNumberOfRows', I64, st), rows), eq(k.o.get('mData.mNumberOfColumns', I64, st), bins), eq(k.o.get('mNumberOfChannels', I64, st), chans)))
                v.oblige(st, what + ': content', eq(st.load(g.at(0), I64, ''), I(state)))
    run(T_ + r'\(%s\)' % U, [al], 'empty parameter', I(0), I(0), I(0), 1)
    run(T_ + r'\(%s, %s, %s, %s\)' % (U, U, U, U), [B, C, F_, al], 'constructor', mul(F_, C), B, C, 1)
    run(T_ + r'\(visr::pml::TimeFrequencyParameterConfig const&\)', [cfg.ptr()], 'constructor from the configuration', mul(F_, C), B, C, 1)
    run(T_ + r'\(%s(<%s>)? const&\)' % (CP, t), [k2.o.ptr()], 'copy constructor', k2.rows, k2.B, k2.C, 2)
    run(r'operator=\(', [k2.o.ptr()], 'assignment', k2.rows, k2.B, k2.C, 2)
    run(r'resize\(', [B, C, F_], 'resize', mul(F_, C), B, C, 1)
    run(r'operator=\(', [k.o.ptr()], 'self-assignment', k.rows, k.B, k.C, 0)
    return v


def units(sel=None):
    out = [('analysis', unit_forward), ('synthesis', unit_inverse), ('history length', unit_history), ('scaling factor', unit_scaling), ('analysis constructor', unit_fctor),
           ('synthesis constructor', unit_ictor), ('window', unit_hann), ('bins', unit_bins)]
    for t in ('float', 'double'):
        out += [('slices<%s>' % t, lambda t=t: unit_slices(t)), ('storage<%s>' % t, lambda t=t: unit_storage(t))]
    return out
