"""rrl::FlexibleBufferWrapper: arbitrary block sizes around a fixed-period flow.

The input stream is X(channel, t), the stream leaving the output buffer is Z(channel, t) where
Z(., TB+P+k) names sample k of the flow output for the block X(., TB..TB+P-1)."""
from irv.unit import *
from irv.loops import Inv
from .arrays import only
from .efl import use_kernels
from .circbuf import CB, norm

TU = 'librrl/flexible_buffer_wrapper.cpp'
W = 'visr::rrl::FlexibleBufferWrapper'
FT = ('float',)


class RingV:
    """CircularBuffer<float> as seen by a client: content given by a stream and the number of samples written"""

    def __init__(self, v, o, name, ch, length, S):
        self.v, self.o, self.ch, self.len, self.S = v, o, ch, length, S
        self.alloc = v.int(name + '_allocated', 1, 1 << 32)
        self.stride = v.int(name + '_stride', 1, 1 << 33)
        v.st.assume(And(ge(self.alloc, length), ge(self.stride, add(self.alloc, self.alloc))))
        stride, ch_ = self.stride, ch
        self.reg = v.reg(Region(name + '_storage', nmem=1, esize=4, leaf=4, leafsort='f', pitch=stride,
                                extent=lambda i, j: And(ge(i, I(0)), lt(i, ch_), ge(j, I(0)), lt(j, stride))))
        for f, x in (('mLength', length), ('mAllocatedLength', self.alloc), ('mStride', stride), ('mNumberOfChannels', ch)):
            o.set(f, x)
        o.set('mBasePointer', Ptr(self.reg, (I(0),), 0), PTR)

    def head(self, st):
        return st.u(self.o.get('mWriteHeadIndex', I64, st), 64)

    def content(self, head, total):
        """log: column c holds the stream sample written last at that ring position"""
        pos = norm(KV[1], self.alloc)
        t = ite(lt(pos, head), sub(add(total, pos), head), sub(sub(add(total, pos), head), self.alloc))
        cond = And(ge(KV[1], I(0)), lt(KV[1], sub(add(self.alloc, self.alloc), I(1))))
        return (Upd(4, cond, tm.uf(self.S, (KV[0], t), 'f')),)


def rings(v, *rs):
    def ring_of(p):
        for r in rs:
            if p.reg is r.o.reg and p.off is I(r.o.base):
                return r
        raise Unsupported('unknown circular buffer')

    def first(c, this):
        r = ring_of(c.st.resolve(this))
        c.case().ret(Ptr(r.reg, (I(0),), mul(r.head(c.st), I(4))))

    def commit(c, this, n):
        r = ring_of(c.st.resolve(this))
        st = c.st
        n = st.u(n, 64)
        h = r.head(st)
        c.require(le(n, r.len), 'commitWrite: not more samples than the buffer length')
        o = c.case()
        pos = norm(KV[1], r.alloc)
        k = ite(ge(pos, h), sub(pos, h), add(sub(pos, h), r.alloc))
        cond = And(ge(KV[0], I(0)), lt(KV[0], r.ch), ge(KV[1], I(0)), lt(KV[1], sub(add(r.alloc, r.alloc), I(1))), lt(k, n))
        val = st.read_at(Ptr(r.reg, (KV[0],), mul(add(h, k), I(4))), FT, (cond,), check=False)
        o.st.setlog(r.reg, 0, o.st.log(r.reg, 0) + (Upd(4, cond, val),))
        nh = add(h, n)
        o.put(r.o.p('mWriteHeadIndex'), I64, ite(ge(nh, r.alloc), sub(nh, r.alloc), nh))
    v.contract(r'CircularBuffer<float>::getFirstWritePointer\(', first, 'CircularBuffer::getFirstWritePointer')
    v.contract(r'CircularBuffer<float>::commitWrite\(', commit, 'CircularBuffer::commitWrite')


def unit_process(strided):
    v = V([TU], 'FlexibleBufferWrapper::process (%s)' % ('strided' if strided else 'channel pointers'))
    use_kernels(v)
    lay = Lay(TU)
    w = Obj(v, 'wrapper', W, lay)
    P = v.int('period', 1, 1 << 28)
    nin, nout = v.int('captureChannels', 0, 1 << 20), v.int('playbackChannels', 0, 1 << 20)
    N = v.int('numFrames', 0, 1 << 30)
    T0 = v.int('framesBefore', 0, 1 << 50)
    TB0 = v.int('blockStart', 0, 1 << 50)
    flow = v.reg(Region('flow', size=1 << 12))
    w.set('mFlow', flow.ptr(), PTR)
    w.set('cInternalPeriod', P)
    rin = RingV(v, w.sub('mInputBuffer'), 'inputBuffer', nin, mul(I(2), P), 'X')
    rout = RingV(v, w.sub('mOutputBuffer'), 'outputBuffer', nout, mul(I(2), P), 'Z')
    hin0, hout0 = v.int('inHead', 0, rin.alloc), v.int('outHead', 0, rout.alloc)
    st = v.st
    st.assume(And(le(TB0, T0), lt(sub(T0, TB0), P)))
    rin.o.set('mWriteHeadIndex', hin0)
    rout.o.set('mWriteHeadIndex', hout0)
    w.set('mInputBufferLevel', sub(T0, TB0))
    w.set('mOutputBufferLevel', sub(add(TB0, P), T0))
    st.setlog(rin.reg, 0, rin.content(hin0, T0))
    st.setlog(rout.reg, 0, rout.content(hout0, add(TB0, P)))
    # capture sample i of channel c is X(c, T0+i)
    Xs = lambda c, t: tm.uf('X', (c, t), 'f')
    Zs = lambda c, t: tm.uf('Z', (c, t), 'f')
    rings(v, rin, rout)
    v.contract(r'AudioSignalFlow::numberOfCaptureChannels\(', lambda c, t: c.case().ret(nin), 'AudioSignalFlow::numberOfCaptureChannels')
    v.contract(r'AudioSignalFlow::numberOfPlaybackChannels\(', lambda c, t: c.case().ret(nout), 'AudioSignalFlow::numberOfPlaybackChannels')
    cur = {}

    def flowproc(c, this, ip, ics, iss, op, ocs, oss):
        st = c.st
        ip, op = st.resolve(ip), st.resolve(op)
        TB = cur['TB']
        c.require(And(eq(st.u(iss, 64), I(1)), eq(st.u(oss, 64), I(1))), 'AudioSignalFlow::process: sample strides')
        ch, k = tm.fresh('ch', 'I'), tm.fresh('k', 'I')
        s = st.copy()
        s.assume(And(ge(ch, I(0)), lt(ch, nin), ge(k, I(0)), lt(k, P)))
        if s.feasible():
            q = ip.plus(mul(add(mul(ch, s.u(ics, 64)), k), I(4)))
            x = s.read_at(q, FT, (), check=True, what='block handed to the flow')
            c.v.same(s, 'the flow receives the input samples of this block in order', x, Xs(ch, add(TB, k)), FT)
        o = c.case()
        s = st.copy()
        s.assume(And(ge(ch, I(0)), lt(ch, nout), ge(k, I(0)), lt(k, P)))
        reg, f, key = s.locate(op.plus(mul(add(mul(ch, s.u(ocs, 64)), k), I(4))), 4)
        if s.feasible():
            c.ex.oblige(s, 'the flow writes inside the output buffer', reg.extent(*key))
        reg, f, key = st.locate(op, 4)
        c.require(eq(st.u(ocs, 64), reg.pitch), 'AudioSignalFlow::process: channel stride of the output buffer')
        cond = And(ge(KV[0], key[0]), lt(KV[0], add(key[0], nout)), ge(KV[1], key[1]), lt(KV[1], add(key[1], P)))
        o.st.setlog(reg, f, o.st.log(reg, f) + (Upd(4, cond, Zs(sub(KV[0], key[0]), add(TB, P, sub(KV[1], key[1])))),))
    v.contract(r'AudioSignalFlow::process\(', flowproc, 'AudioSignalFlow::process')
    if not strided:
        cap = v.reg(Region('capture', nmem=1, esize=4, leaf=4, leafsort='f', extent=lambda c, i: And(ge(c, I(0)), lt(c, nin), ge(i, I(0)), lt(i, N))))
        pb = v.reg(Region('playback', nmem=1, esize=4, leaf=4, leafsort='f', extent=lambda c, i: And(ge(c, I(0)), lt(c, nout), ge(i, I(0)), lt(i, N))))
        cp = v.reg(Region('captureSamples', esize=8, leaf=8, leafsort='p', extent=lambda i: And(ge(i, I(0)), lt(i, nin)), ptrs={0: lambda i: Ptr(cap, (i,), 0)}))
        pp = v.reg(Region('playbackSamples', esize=8, leaf=8, leafsort='p', extent=lambda i: And(ge(i, I(0)), lt(i, nout)), ptrs={0: lambda i: Ptr(pb, (i,), 0)}))
        cp.readonly = pp.readonly = True
        f = v.find(r'^visr::rrl::FlexibleBufferWrapper::process\(float const\* const\*')
        args = [w.ptr(), cp.ptr(), pp.ptr(), N]
        idx = lambda k: k
        done = lambda i: And(ge(KV[0], I(0)), lt(KV[0], nout), ge(KV[1], I(0)), lt(KV[1], i))
        val = lambda: Zs(KV[0], add(T0, KV[1]))
        st.setlog(cap, 0, (Upd(4, TRUE, Xs(KV[0], add(T0, KV[1]))),))
    else:
        cs, ss, ps, os_ = v.int('captureChannelStride', 0, 1 << 33), v.int('captureSampleStride', 1, 1 << 20), v.int('playbackChannelStride', 0, 1 << 33), v.int('playbackSampleStride', 1, 1 << 20)
        # sample i of channel c at c*channelStride + i*sampleStride: rows addressed by (c, offset)
        cap = v.reg(Region('capture', nmem=2, esize=4, leaf=4, leafsort='f', extent=lambda c, i, z: And(ge(c, I(0)), lt(c, nin), ge(i, I(0)), lt(i, N), eq(z, I(0)))))
        pb = v.reg(Region('playback', nmem=2, esize=4, leaf=4, leafsort='f', extent=lambda c, i, z: And(ge(c, I(0)), lt(c, nout), ge(i, I(0)), lt(i, N), eq(z, I(0)))))
        cap.pitches, pb.pitches = (cs, ss), (ps, os_)
        f = v.find(r'^visr::rrl::FlexibleBufferWrapper::process\(float const\*, unsigned')
        args = [w.ptr(), Ptr(cap, (I(0), I(0)), 0), cs, ss, Ptr(pb, (I(0), I(0)), 0), ps, os_, N]
        done = lambda i: And(ge(KV[0], I(0)), lt(KV[0], nout), ge(KV[1], I(0)), lt(KV[1], i), eq(KV[2], I(0)))
        val = lambda: Zs(KV[0], add(T0, KV[1]))
        st.setlog(cap, 0, (Upd(4, TRUE, Xs(KV[0], add(T0, KV[1]))),))
    cap.readonly = True
    T = lambda g: add(T0, g['i'])

    def nxt(es, g):
        L = sub(T(g), g['TB'])
        rem, room = sub(N, g['i']), sub(P, L)
        ch = ite(le(rem, room), rem, room)
        full = ge(rem, room)
        return {'i': add(g['i'], ch), 'TB': ite(full, add(g['TB'], P), g['TB']), 'hin': rin.head(es), 'hout': rout.head(es)}

    def constraint(g):
        return And(ge(g['i'], I(0)), le(g['i'], N), le(g['TB'], T(g)), lt(sub(T(g), g['TB']), P), ge(g['hin'], I(0)), lt(g['hin'], rin.alloc),
                   ge(g['hout'], I(0)), lt(g['hout'], rout.alloc), ge(g['TB'], I(0)))

    class LInv(Inv):
        def put(self, s, g):
            cur['TB'] = g['TB']
            Inv.put(self, s, g)
    inv = LInv(v, ['i', 'TB', 'hin', 'hout'], {'i': I(0), 'TB': TB0, 'hin': hin0, 'hout': hout0}, nxt, constraint,
               cells=[(w.p('mInputBufferLevel'), I64, lambda g: sub(T(g), g['TB'])), (w.p('mOutputBufferLevel'), I64, lambda g: sub(add(g['TB'], P), T(g))),
                      (rin.o.p('mWriteHeadIndex'), I64, lambda g: g['hin']), (rout.o.p('mWriteHeadIndex'), I64, lambda g: g['hout'])],
               logs=[(rin.reg, 0, lambda g: rin.content(g['hin'], T(g))), (rout.reg, 0, lambda g: rout.content(g['hout'], add(g['TB'], P))),
                     (pb, 0, lambda g: (Upd(4, done(g['i']), val()),))],
               phis=[lambda g: g['i'], lambda g: sub(N, g['i']), lambda g: sub(T(g), g['TB']), lambda g: sub(add(g['TB'], P), T(g))],
               measure=lambda g: sub(N, g['i']),
               free=[(rin.reg, None, lambda c, j: ge(j, sub(add(rin.alloc, rin.alloc), I(1)))), (rout.reg, None, lambda c, j: ge(j, sub(add(rout.alloc, rout.alloc), I(1))))])
    v.invariant(r'FlexibleBufferWrapper::process\(', inv)
    for e in only(v, v.call(f, args), 'ret'):
        s = e.st.copy()
        c0, k0 = tm.fresh('ch', 'I'), tm.fresh('frame', 'I')
        s.assume(And(ge(c0, I(0)), lt(c0, nout), ge(k0, I(0)), lt(k0, N)))
        x = s.read_field(pb, 0, 4, FT, (c0, k0) + ((I(0),) if strided else ()))
        v.same(s, 'output frame is the flow output one period later', x, Zs(c0, add(T0, k0)), FT)
        v.oblige(e.st, 'input and output fill levels add up to one period', eq(add(w.get('mInputBufferLevel', I64, e.st), w.get('mOutputBufferLevel', I64, e.st)), P))
    return v


def unit_ctor():
    v = V([TU], 'FlexibleBufferWrapper constructor')
    lay = Lay(TU)
    w = Obj(v, 'wrapper', W, lay)
    flow = v.reg(Region('flow', size=1 << 12))
    P = v.int('period', 1, 1 << 28)
    nin, nout = v.int('captureChannels', 0, 1 << 20), v.int('playbackChannels', 0, 1 << 20)
    v.contract(r'AudioSignalFlow::numberOfCaptureChannels\(', lambda c, t: c.case().ret(nin), 'AudioSignalFlow::numberOfCaptureChannels')
    v.contract(r'AudioSignalFlow::numberOfPlaybackChannels\(', lambda c, t: c.case().ret(nout), 'AudioSignalFlow::numberOfPlaybackChannels')
    v.contract(r'AudioSignalFlow::period\(', lambda c, t: c.case().ret(P), 'AudioSignalFlow::period')
    rin, rout = w.sub('mInputBuffer'), w.sub('mOutputBuffer')
    mats = []

    def cbctor(c, this, ch, length, al):
        p = c.st.resolve(this)
        o = c.case()
        r = rin if p.off is I(rin.base) else rout
        o.put(r.p('mNumberOfChannels'), I64, ch)
        o.put(r.p('mLength'), I64, length)
        # every channel holds zeros; number of samples written
        o.put(r.p('mWriteHeadIndex'), I64, I(0))

    def mctor(c, this, rows, cols, al):
        p = c.st.resolve(this)
        mats.append((p, c.st.u(rows, 64), c.st.u(cols, 64)))
        c.case()

    def write(c, this, m):
        p, q = c.st.resolve(this), c.st.resolve(m)
        rows, cols = [x[1:] for x in mats if x[0].reg is q.reg and x[0].off is q.off][-1]
        r = rin if p.off is I(rin.base) else rout
        ch, ln = r.get('mNumberOfChannels', I64, c.st), r.get('mLength', I64, c.st)
        c.require(And(eq(rows, ch), le(cols, ln)), 'CircularBuffer::write: channel count and length')
        o = c.case()
        o.put(r.p('mWriteHeadIndex'), I64, add(c.st.u(r.get('mWriteHeadIndex', I64, c.st), 64), cols))
    v.contract(r'CircularBuffer<float>::CircularBuffer\(unsigned', cbctor, 'CircularBuffer constructor (zero content)')
    v.contract(r'BasicMatrix<float>::BasicMatrix\(unsigned long, unsigned long, unsigned long\)', mctor, 'BasicMatrix constructor (zero content)')
    v.contract(r'BasicMatrix<float>::~BasicMatrix\(', lambda c, t: c.case(), 'BasicMatrix destructor')
    v.contract(r'CircularBuffer<float>::write\(visr::efl::BasicMatrix', write, 'CircularBuffer::write')
    f = v.find(r'^visr::rrl::FlexibleBufferWrapper::FlexibleBufferWrapper\(')
    for e in only(v, v.call(f, [w.ptr(), flow.ptr()]), 'ret'):
        g = lambda o, n: o.get(n, I64, e.st)
        v.oblige(e.st, 'channel counts of the buffers', And(eq(g(rin, 'mNumberOfChannels'), nin), eq(g(rout, 'mNumberOfChannels'), nout)))
        v.oblige(e.st, 'buffers hold at least two periods', And(ge(g(rin, 'mLength'), mul(I(2), P)), ge(g(rout, 'mLength'), mul(I(2), P))))
        v.oblige(e.st, 'internal period', eq(g(w, 'cInternalPeriod'), P))
        v.oblige(e.st, 'initial state: no input pending, one period of silence in the output buffer',
                 And(eq(g(w, 'mInputBufferLevel'), I(0)), eq(g(w, 'mOutputBufferLevel'), P), eq(g(rin, 'mWriteHeadIndex'), I(0)), eq(g(rout, 'mWriteHeadIndex'), P)))
    return v


def units(sel=None):
    return [('constructor', unit_ctor), ('process pointers', lambda: unit_process(False)), ('process strided', lambda: unit_process(True))]
