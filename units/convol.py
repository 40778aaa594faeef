"""Uniformly partitioned convolution: rbbl::CoreConvolverUniform and the convolvers built on it.

Spectra are vectors of opaque complex values (operations cmul, cadd, cscale); the Fourier transform is known only by
"the transform of that sequence": forwardTransform is checked to receive exactly the specified samples."""
from irv.unit import *
from irv.exec import VFn, End
from irv.solver import Fact
from .arrays import only, split_ends, Mat, use_lib
from .efl import use_kernels, aligned, CTY
from .flow import vec, ghost
from . import stdset

INV = (1 << 64) - 1

TC = 'librbbl/core_convolver_uniform.cpp'
CC = 'visr::rbbl::CoreConvolverUniform<float>'
CX = 'visr::efl::BasicMatrix<std::complex<float> ?>'
F, D = FTY['f'], FTY['d']
cmul = lambda a, b: tm.uf('cmul', (a, b), 'd')
cadd = lambda a, b: tm.uf('cadd', (a, b), 'd')
cscale = lambda g, a: tm.uf('cscale', (g, a), 'd')
CZ = tm.var('complexZero', 'd')

CK = {  # complex kernels: as in efl.KER, on opaque complex values
    'vectorZero': (('o', 'n', 'al'), lambda e: CZ),
    'vectorCopy': (('i', 'o', 'n', 'al'), lambda e: e[0]),
    'vectorMultiply': (('i', 'i', 'o', 'n', 'al'), lambda e: cmul(e[0], e[1])),
    'vectorMultiplyAddInplace': (('i', 'i', 'io', 'n', 'al'), lambda e: cadd(e[2], cmul(e[0], e[1]))),
    'vectorMultiplyConstant': (('s', 'i', 'o', 'n', 'al'), lambda e: cscale(e[0], e[1])),
    'vectorMultiplyConstantAddInplace': (('s', 'i', 'io', 'n', 'al'), lambda e: cadd(e[2], cscale(e[0], e[1]))),
}


def cval(c, x):
    """real value of a complex scalar argument without imaginary part"""
    parts = list(getattr(x, 'elems', None) or getattr(x, 'vals', None) or x)
    c.require(tm.B(len(parts) == 2), 'a complex scalar')
    c.v.same(c.st, 'the gain has no imaginary part', parts[1], fnum(0.0, 'f'), F)
    return parts[0]


def spec_ck(name):
    roles, val = CK[name]

    def spec(c, *args):
        st = c.st
        n, al = st.u(args[roles.index('n')], 64), st.u(args[roles.index('al')], 64)
        ptrs = [st.resolve(a) if r in ('i', 'o', 'io') else None for a, r in zip(args, roles)]
        ok = TRUE
        for p in ptrs:
            if p is not None and al is not I(0):
                ok = And(ok, aligned(c, p, al, 8))
        if ok is not TRUE:
            c.case(Not(ok)).ret(I(1))
        o = c.case(ok)
        oi = [j for j, r in enumerate(roles) if r in ('o', 'io')][0]
        sc = [cval(c, a) if r == 's' else None for a, r in zip(args, roles)]

        def value(i):
            e = []
            for s, r, p in zip(sc, roles, ptrs):
                if r == 's':
                    e.append(s)
                elif r in ('i', 'io'):
                    e.append(c.st.read_at(p.plus(mul(i, I(8))), D, (ge(i, I(0)), lt(i, n)), check=True, what='efl argument'))
            return val(e)
        o.fill(ptrs[oi], n, D, value)
        o.ret(I(0))
    return spec


def use_complex(v):
    use_kernels(v)
    for k in CK:
        v.contract(r'visr::efl::(reference::)?%s<%s>\(' % (k, CTY['cf']), spec_ck(k), 'efl::%s<complex>' % k)


def spectra(v, name, rows, blocks, padded, ra=None, ro=False):
    """matrix of complex values, key (row, block, bin)"""
    stride = v.int(name + '_stride', 2, 1 << 38)
    r = v.reg(Region(name, nmem=2, esize=8, leaf=8, leafsort='d',
                     extent=lambda i, b, k: And(ge(i, I(0)), lt(i, rows), ge(b, I(0)), lt(b, blocks), ge(k, I(0)), lt(k, padded))))
    r.pitches = (stride, padded)
    r.readonly, r.rowaligned, r.stride = ro, ra, stride
    r.x = lambda st, i, b, k: st.read_field(r, 0, 8, D, (i, b, k))
    r.base0 = Ptr(r, (I(0), I(0)), 0)
    return r


def cmatrix(v, o, r, rows, cols, al):
    for f, x in (('mStride', r.stride), ('mNumberOfRows', rows), ('mNumberOfColumns', cols), ('mData.mAlignment', al)):
        o.set(f, x)
    for f in ('mData.mRawStorage', 'mData.mAlignedStorage'):
        o.set(f, r.base0, PTR)


def cvector(v, o, r, n, al):
    for f, x in (('mData.mLength', n), ('mData.mAlignment', al)):
        o.set(f, x)
    for f in ('mData.mRawStorage', 'mData.mAlignedStorage'):
        o.set(f, r, PTR)


class Core:
    """CoreConvolverUniform<float> in an arbitrary valid state"""

    def __init__(self, v, src=TC, obj=None, flat=False):
        self.v = v
        self.lay = Lay(src)
        o = self.o = obj or Obj(v, 'convolver', CC, self.lay)
        I20 = lambda n, lo: v.int(n, lo, 1 << 20)
        self.ni, self.no, self.B, self.len, self.N, self.nf = I20('inputs', 0), I20('outputs', 0), I20('blockLength', 1), v.int('maxFilterLength', 1, 1 << 30), v.int('partitions', 1, 1 << 30), I20('filterEntries', 0)
        self.al, self.cal = v.int('alignment', 0, 1 << 10), v.int('complexAlignment', 0, 1 << 10)
        self.P = v.int('dftRepresentationSizePadded', 2, 1 << 21)
        B, N, P = self.B, self.N, self.P
        v.st.assume(And(ge(P, add(B, I(1))), ge(mul(N, B), self.len), lt(mul(N, B), add(self.len, B))))
        for f, x in (('mAlignment', self.al), ('mComplexAlignment', self.cal), ('mNumberOfInputs', self.ni), ('mNumberOfOutputs', self.no), ('mBlockLength', B), ('mMaxFilterLength', self.len),
                     ('mNumberOfFilterPartitions', N), ('mDftSize', mul(I(2), B)), ('mDftRepresentationSizePadded', P)):
            o.set(f, x)
        self.fdl = spectra(v, 'inputSpectra', self.ni, N, P, self.cal)
        cmatrix(v, o.sub('mInputFDL'), self.fdl, self.ni, mul(P, N), self.cal)
        if flat:
            fs = v.int('filterSpectra_stride', 2, 1 << 38)
            self.flt = v.reg(Region('filterSpectra', nmem=1, esize=8, leaf=8, leafsort='d', pitch=fs, extent=lambda i, j: And(ge(i, I(0)), lt(i, self.nf), ge(j, I(0)), lt(j, mul(P, N)))))
            self.flt.rowaligned, self.flt.stride, self.flt.base0 = self.cal, fs, Ptr(self.flt, (I(0),), 0)
        else:
            self.flt = spectra(v, 'filterSpectra', self.nf, N, P, self.cal)
        cmatrix(v, o.sub('mFilterPartitionsFrequencyDomain'), self.flt, self.nf, mul(P, N), self.cal)
        self.off = v.int('fdlCycleOffset', 0, 1 << 30)
        v.st.assume(lt(self.off, N))
        o.set('mFdlCycleOffset', self.off)
        self.td = v.reg(Region('transformBuffer', nmem=1, esize=4, leaf=4, leafsort='f', extent=lambda z, i: And(eq(z, I(0)), ge(i, I(0)), lt(i, mul(I(2), B)))))
        self.td.rowaligned = self.al
        cvector(v, o.sub('mTimeDomainTransformBuffer'), Ptr(self.td, (I(0),), 0), mul(I(2), B), self.al)
        self.acc = v.reg(Region('accumulator', nmem=1, esize=8, leaf=8, leafsort='d', extent=lambda z, i: And(eq(z, I(0)), ge(i, I(0)), lt(i, P))))
        self.acc.rowaligned = self.cal
        cvector(v, o.sub('mFrequencyDomainAccumulator'), Ptr(self.acc, (I(0),), 0), P, self.cal)
        self.vt = v.reg(Region('fftVtable', esize=8, leaf=8, leafsort='p', extent=lambda i: And(ge(i, I(0)), lt(i, I(6)))))
        self.fft = v.reg(Region('fft', size=16))
        v.st.store(self.fft.ptr(), PTR, self.vt.ptr(), 'setup')
        o.set('mFftRepresentation', self.fft.ptr(), PTR)
        self.scale = v.flt('filterScalingFactor', 'f')
        o.set('mFilterScalingFactor', self.scale, F)
        use_complex(v)
        v.contract(r'BasicMatrix<std::complex<float> ?>::zeroFill\(', self.mzero, 'BasicMatrix::zeroFill')
        v.contract(r'BasicVector<float>::zeroFill\(', self.vzero, 'BasicVector::zeroFill')

    def slot(self, i, h):
        self.v.st.store(self.vt.at(I(i)), PTR, VFn('fft slot %d' % i, h), 'setup')

    def mzero(self, c, t):
        t = c.st.resolve(t)
        d = c.st.resolve(c.rd(t.plus(self.lay.off('visr::efl::BasicMatrix<std::complex<float>>', 'mData.mAlignedStorage')[0]), PTR))
        o = c.case()
        o.st.setlog(d.reg, 0, o.st.log(d.reg, 0) + (Upd(8, d.reg.extent(*KV[:d.reg.nkey()]), CZ),))

    def vzero(self, c, t):
        t = c.st.resolve(t)
        c.require(tm.B(t.reg is self.o.reg and t.off is I(self.o.sub('mTimeDomainTransformBuffer').base)), 'clears the transform buffer')
        c.case().fill(Ptr(self.td, (I(0),), 0), mul(I(2), self.B), F, lambda i: fnum(0.0, 'f'))

    def blk(self, b, off=None):
        """position of logical block b < N of the delay line"""
        s = add(off if off is not None else self.off, b)
        return ite(ge(s, self.N), sub(s, self.N), s)

    def wrap(self, b, off=None):
        """remainder of a number below twice the modulus (lemma 'wrap-around' of P04)"""
        s = add(off if off is not None else self.off, b)
        return Implies(And(ge(s, I(0)), lt(s, mul(I(2), self.N))), eq(tm.mod(s, self.N), ite(ge(s, self.N), sub(s, self.N), s)))


def unit_filter(add_):
    v = V([TC], 'CoreConvolverUniform<float>::processFilter (%s)' % ('accumulate' if add_ else 'overwrite'))
    k = Core(v)
    N, P = k.N, k.P
    out = v.reg(Region('result', nmem=1, esize=8, leaf=8, leafsort='d', extent=lambda z, i: And(eq(z, I(0)), ge(i, I(0)), lt(i, P))))
    out.rowaligned = k.cal
    k.fdl.readonly = k.flt.readonly = True
    i, f, g = v.int('inputIndex', 0, 1 << 20), v.int('filterIndex', 0, 1 << 20), v.flt('gain', 'f')
    v.st.assume(And(lt(i, k.ni), lt(f, k.nf)))
    for e in only(v, v.call(v.find(r'^visr::rbbl::CoreConvolverUniform<float>::processFilter\('), [k.o.ptr(), i, f, g, Ptr(out, (I(0),), 0), tm.B(add_)]), 'ret'):
        s = e.st.copy()
        b = tm.fresh('bin', 'I')
        s.assume(And(ge(b, I(0)), lt(b, P)))
        kk, acc = tm.var('?kk', 'I'), tm.var('?acc', 'd')
        term = lambda q: cmul(v.st.read_field(k.fdl, 0, 8, D, (i, tm.mod(add(k.off, q), N), b)), v.st.read_field(k.flt, 0, 8, D, (f, q, b)))
        tot = tm.fold(sub(N, 1), [acc], [term(I(0))], [cadd(acc, term(add(kk, 1)))], 0, kk)
        want = cscale(g, tot)
        if add_:
            want = cadd(v.st.read_field(out, 0, 8, D, (I(0), b)), want)
        v.same(s, 'spectrum is the gain times the sum over all partitions of delayed input spectrum times filter partition', s.read_field(out, 0, 8, D, (I(0), b)), want, D)
    return v


def dft(who, *a):
    """bin of the transform of a named sequence of samples"""
    return tm.uf('transform of ' + who, a, 'd')


def unit_inputs():
    v = V([TC], 'CoreConvolverUniform<float>::processInputs')
    k = Core(v)
    N, P, B = k.N, k.P, k.B
    x = v.reg(Region('input', esize=4, leaf=4, leafsort='f', extent=lambda i: FALSE))
    win = v.reg(Region('window', nmem=1, esize=4, leaf=4, leafsort='f', extent=lambda c, i: And(ge(c, I(0)), lt(c, k.ni), ge(i, I(0)), lt(i, mul(I(2), B)))))
    win.readonly = True
    cs, al = v.int('channelStride', 0, 1 << 40), v.int('alignmentArgument', 0, 1 << 10)
    g = ghost(v, 1)

    def write(c, ring, d, stride, ch, n, a):
        c.require(And(tm.B(c.st.resolve(ring).off is I(k.o.sub('mInputBuffers').base) and c.st.resolve(d).reg is x), eq(c.st.resolve(d).off, I(0)), eq(stride, cs), eq(ch, k.ni), eq(n, B), eq(a, al),
                      eq(c.rd(g.at(0), I64), I(0))), 'the block of all inputs enters the input history once, before it is transformed')
        c.case().put(g.at(0), I64, I(1))

    def rp(c, ring, ch, n):
        c.require(And(eq(c.rd(g.at(0), I64), I(1)), ge(ch, I(0)), lt(ch, k.ni), eq(n, mul(I(2), B))), 'window of two blocks of an existing input')
        c.case().ret(Ptr(win, (ch,), 0))
    v.contract(r'CircularBuffer<float>::write\(', write, 'CircularBuffer::write')
    v.contract(r'CircularBuffer<float>::getReadPointer\(', rp, 'CircularBuffer::getReadPointer')

    def fwd(ex, st, a, ins):
        p, q = st.resolve(a[1]), st.resolve(a[2])
        v.oblige(st, 'transforms the window of an input, from its start', And(tm.B(p.reg is win), eq(p.off, I(0))))
        st.fill(q, P, D, lambda b, c: dft('window', p.mem[0], b))
        return [End('ret', st, I(0))]
    k.slot(2, fwd)
    no = tm.mod(add(k.off, N, I(-1)), N)
    v.st.assume(k.wrap(add(N, I(-1))))
    for e in only(v, v.call(v.find(r'^visr::rbbl::CoreConvolverUniform<float>::processInputs\('), [k.o.ptr(), x.ptr(), cs, al]), 'ret'):
        s = e.st.copy()
        c, b, q = tm.fresh('channel', 'I'), tm.fresh('bin', 'I'), tm.fresh('block', 'I')
        s.assume(And(ge(c, I(0)), lt(c, k.ni), ge(b, I(0)), lt(b, P), ge(q, I(0)), lt(q, N)))
        off = s.u(k.o.get('mFdlCycleOffset', I64, s), 64)
        v.oblige(s, 'cycle offset stays in range', And(ge(off, I(0)), lt(off, N)))
        v.oblige(s, 'the block was written', eq(s.load(g.at(0), I64, ''), I(1)))
        got = s.read_field(k.fdl, 0, 8, D, (c, k.blk(q, off), b))
        s1, s2 = s.copy(), s.copy()
        s1.assume(eq(q, I(0)))
        s2.assume(ge(q, I(1)))
        v.same(s1, 'block 0 of the delay line is the transform of the latest window', got, dft('window', c, b), D)
        v.same(s2, 'all other blocks are delayed by one block', got, v.st.read_field(k.fdl, 0, 8, D, (c, k.blk(sub(q, I(1))), b)), D)
    return v


def unit_output():
    v = V([TC], 'CoreConvolverUniform<float>::transformOutput')
    k = Core(v)
    spec = v.reg(Region('spectrum', nmem=1, esize=8, leaf=8, leafsort='d', extent=lambda z, i: And(eq(z, I(0)), ge(i, I(0)), lt(i, k.P))))
    spec.readonly = True
    out = v.array('output', 'f', k.B)

    def inv(ex, st, a, ins):
        p, q = st.resolve(a[1]), st.resolve(a[2])
        v.oblige(st, 'transforms the given spectrum', And(tm.B(p.reg is spec), eq(p.off, I(0))))
        st.fill(q, mul(I(2), k.B), F, lambda i, c: tm.uf('inverse transform', (i,), 'f'))
        return [End('ret', st, I(0))]
    k.slot(3, inv)
    for e in only(v, v.call(v.find(r'^visr::rbbl::CoreConvolverUniform<float>::transformOutput\('), [k.o.ptr(), Ptr(spec, (I(0),), 0), out.ptr()]), 'ret'):
        s = e.st.copy()
        i = tm.fresh('sample', 'I')
        s.assume(And(ge(i, I(0)), lt(i, k.B)))
        v.same(s, 'output is the second half of the inverse transform', s.read_field(out, 0, 4, F, (i,)), tm.uf('inverse transform', (add(i, k.B),), 'f'), F)
    return v


def unit_ir():
    """transformImpulseResponse: partition p of the result is the transform of the p-th block of the scaled, zero-extended response"""
    v = V([TC], 'CoreConvolverUniform<float>::transformImpulseResponse', ('uf', 'real'))
    k = Core(v)
    N, P, B = k.N, k.P, k.B
    n, al = v.int('irLength', 0, 1 << 30), v.int('alignmentArgument', 0, 1 << 10)
    ir = v.reg(Region('ir', nmem=1, esize=4, leaf=4, leafsort='f', pitch=B, extent=lambda p, i: And(ge(p, I(0)), ge(i, I(0)), lt(i, B), lt(add(mul(p, B), i), n))))
    ir.readonly = True
    ir.rowaligned = k.td.rowaligned = (al, k.al)        # the smaller of two powers of two; block length a multiple of the alignment
    res = spectra(v, 'result', I(1), N, P, k.cal)

    def fwd(ex, st, a, ins):
        p, q = st.resolve(a[1]), st.resolve(a[2])
        reg, _, key = st.locate(q, 8)
        v.oblige(st, 'result at the start of a partition', And(tm.B(reg is res), eq(key[0], I(0)), eq(key[2], I(0))))
        v.oblige(st, 'transforms the transform buffer', And(tm.B(p.reg is k.td), eq(p.off, I(0))))
        s = st.copy()
        j, b = tm.fresh('j', 'I'), key[1]
        s.assume(And(ge(j, I(0)), lt(j, mul(I(2), B))))
        for cond, inside in ((And(lt(j, B), lt(add(mul(b, B), j), n)), True), (Or(ge(j, B), ge(add(mul(b, B), j), n)), False)):
            s2 = s.copy()
            s2.assume(cond)
            if not s2.feasible():
                continue
            got = s2.read_field(k.td, 0, 4, F, (I(0), j))
            want = fmul(k.scale, v.st.read_field(ir, 0, 4, F, (b, j))) if inside else fnum(0.0, 'f')
            v.same(s2, 'the transformed samples are %s' % ('the scaled samples of this partition' if inside else 'zero beyond the partition and the response'), got, want, F)
        st.fill(q, P, D, lambda i, c: dft('partition', b, i))
        return [End('ret', st, I(0))]
    k.slot(2, fwd)
    ends = v.call(v.find(r'^visr::rbbl::CoreConvolverUniform<float>::transformImpulseResponse\('), [k.o.ptr(), Ptr(ir, (I(0),), 0), n, res.base0, al])
    for e in split_ends(v, ends, gt(n, k.len), 'throw', 'response longer than the maximum'):
        s = e.st.copy()
        p, b = tm.fresh('partition', 'I'), tm.fresh('bin', 'I')
        s.assume(And(ge(p, I(0)), lt(p, N), ge(b, I(0)), lt(b, P)))
        v.same(s, 'every partition is transformed', res.x(s, I(0), p, b), dft('partition', p, b), D)
    return v


class MatF:
    """BasicMatrix<float>, possibly empty"""

    def __init__(self, v, name, lay, rows, cols, al):
        self.o = Obj(v, name, 'visr::efl::BasicMatrix<float>', lay)
        st = v.int(name + '_stride', 1, 1 << 38)
        v.st.assume(ge(st, cols))
        self.reg = v.reg(Region(name + '_data', nmem=1, esize=4, leaf=4, leafsort='f', pitch=st, extent=lambda i, j: And(ge(i, I(0)), lt(i, rows), ge(j, I(0)), lt(j, cols))))
        self.reg.stride, self.reg.base0 = st, Ptr(self.reg, (I(0),), 0)
        cmatrix(v, self.o, self.reg, rows, cols, al)


def T(ir, j):
    """partitioned spectrum of an impulse response (unit transformImpulseResponse)"""
    return tm.uf('partitioned spectrum', (ir, j), 'd')


def unit_setir():
    v = V([TC], 'CoreConvolverUniform<float>::setImpulseResponse')
    k = Core(v, flat=True)
    n, f, al = v.int('filterLength', 0, 1 << 40), v.int('filterIdx', 0, 1 << 40), v.int('alignmentArgument', 0, 1 << 10)
    ir = v.reg(Region('ir', esize=4, leaf=4, leafsort='f', extent=lambda i: And(ge(i, I(0)), lt(i, n))))

    def tir(c, t, p, m, r, a):
        p, r = c.st.resolve(p), c.st.resolve(r)
        c.require(And(tm.B(c.st.resolve(t).reg is k.o.reg and p.reg is ir), eq(p.off, I(0)), eq(m, n)), 'the given response is transformed')
        c.require(Or(eq(a, al), And(le(a, al), eq(a, k.al))), 'the alignment holds for the response')
        c.case(gt(m, k.len)).throw('_ZTISt16invalid_argument')
        c.case(le(m, k.len)).fill(r, mul(k.P, k.N), D, lambda j: T(I(0), j))
    v.contract(r'CoreConvolverUniform<float>::transformImpulseResponse\(', tir, 'transformImpulseResponse')
    bad = Or(gt(n, k.len), ge(f, k.nf))
    ends = v.call(v.find(r'^visr::rbbl::CoreConvolverUniform<float>::setImpulseResponse\('), [k.o.ptr(), ir.ptr(), n, f, al])
    rowcheck(v, k, split_ends(v, ends, bad, 'throw', 'filter index out of range or response too long'), ends, f, lambda j: T(I(0), j))
    return v


def rowcheck(v, k, good, ends, f, val):
    for e in ends:
        s = e.st.copy()
        i, j = tm.fresh('filter', 'I'), tm.fresh('position', 'I')
        s.assume(And(ge(i, I(0)), lt(i, k.nf), ge(j, I(0)), lt(j, mul(k.P, k.N))))
        got, old = s.read_field(k.flt, 0, 8, D, (i, j)), v.st.read_field(k.flt, 0, 8, D, (i, j))
        if e.kind == 'ret':
            s1, s2 = s.copy(), s.copy()
            s1.assume(eq(i, f))
            s2.assume(Not(eq(i, f)))
            v.same(s1, 'filter entry replaced', got, val(j), D)
            v.same(s2, 'other filters unchanged', got, old, D)
        else:
            v.same(s, 'filters unchanged when rejected', got, old, D)


def unit_setfilter():
    v = V([TC], 'CoreConvolverUniform<float>::setFilter')
    k = Core(v, flat=True)
    f, al = v.int('filterIdx', 0, 1 << 40), v.int('alignmentArgument', 0, 1 << 10)
    sp = v.reg(Region('spectrum', nmem=1, esize=8, leaf=8, leafsort='d', extent=lambda z, i: And(eq(z, I(0)), ge(i, I(0)), lt(i, mul(k.P, k.N)))))
    sp.readonly = True
    sp.rowaligned = k.flt.rowaligned = (al, k.cal)
    ends = v.call(v.find(r'^visr::rbbl::CoreConvolverUniform<float>::setFilter\('), [k.o.ptr(), Ptr(sp, (I(0),), 0), f, al])
    rowcheck(v, k, split_ends(v, ends, ge(f, k.nf), 'throw', 'filter index out of range'), ends, f, lambda j: v.st.read_field(sp, 0, 8, D, (I(0), j)))
    return v


def unit_initfilters():
    v = V([TC], 'CoreConvolverUniform<float>::initFilters')
    k = Core(v, flat=True)
    r, n, al = v.int('newFilters', 0, 1 << 30), v.int('newLength', 0, 1 << 40), v.int('matrixAlignment', 0, 1 << 10)
    m = MatF(v, 'filters', k.lay, r, n, al)

    def sir(c, t, p, ln, f, a):
        p = c.st.resolve(p)
        key = c.st.locate(p, 4)[2] if p.reg is m.reg else (I(-1), I(-1))
        c.require(And(eq(key[1], I(0)), eq(key[0], f), eq(ln, n), le(a, al), ge(f, I(0)), lt(f, k.nf), le(ln, k.len)), 'filter i is row i of the matrix')
        c.case().fill(Ptr(k.flt, (f,), 0), mul(k.P, k.N), D, lambda j: T(f, j))
    v.contract(r'CoreConvolverUniform<float>::setImpulseResponse\(', sir, 'setImpulseResponse')
    ends = v.call(v.find(r'^visr::rbbl::CoreConvolverUniform<float>::initFilters\('), [k.o.ptr(), m.o.ptr()])
    for e in split_ends(v, ends, Or(gt(r, k.nf), gt(n, k.len)), 'throw', 'too many or too long filters'):
        s = e.st.copy()
        i, j = tm.fresh('filter', 'I'), tm.fresh('position', 'I')
        s.assume(And(ge(i, I(0)), lt(i, k.nf), ge(j, I(0)), lt(j, mul(k.P, k.N))))
        for cond, want in ((lt(i, r), T(i, j)), (ge(i, r), CZ)):
            s2 = s.copy()
            s2.assume(cond)
            if s2.feasible():
                v.same(s2, 'filters are those of the matrix, all others zero', s2.read_field(k.flt, 0, 8, D, (i, j)), want, D)
    return v


def unit_sizes():
    v = V([TC], 'CoreConvolverUniform<float>: transform sizes and scaling')
    k = Core(v)
    B, al = v.int('block', 1, 1 << 30), v.int('al', 0, 1 << 10)
    S = r'^visr::rbbl::CoreConvolverUniform<float>::'
    for e in only(v, v.call(v.find(S + r'calculateDftSize\('), [B]), 'ret'):
        v.oblige(e.st, 'transform of two blocks', eq(e.val, mul(I(2), B)))
    for e in only(v, v.call(v.find(S + r'calculateDftRepresentationSize\('), [B]), 'ret'):
        v.oblige(e.st, 'number of bins', eq(e.val, add(B, I(1))))

    def nas(c, x, a):
        c.require(And(eq(x, add(B, I(1))), eq(a, al)), 'padding of the number of bins to the alignment')
        c.case().ret(tm.uf('nextAligned', (x, a), 'I'))
    v.contract(r'efl::nextAlignedSize\(', nas, 'efl::nextAlignedSize')
    for e in only(v, v.call(v.find(S + r'calculateDftRepresentationSizePadded\('), [B, al]), 'ret'):
        v.oblige(e.st, 'padded number of bins', eq(e.val, tm.uf('nextAligned', (add(B, I(1)), al), 'I')))
    fw, iv = tm.var('forwardScale', 'f'), tm.var('inverseScale', 'f')
    k.slot(4, lambda ex, st, a, ins: [End('ret', st, fw)])
    k.slot(5, lambda ex, st, a, ins: [End('ret', st, iv)])
    for e in only(v, v.call(v.find(S + r'calculateFilterScalingFactor\('), [k.o.ptr()]), 'ret'):
        v.same(e.st, 'scaling compensates transform, inverse transform and transform size', e.val, fdiv(fnum(1.0, 'f'), fmul(fmul(fw, iv), itof(mul(I(2), k.B), 'f'))), F)
    return v


# ---------------------------------------------------------------- routings
class Rt:
    """multichannel (cls M) or crossfading (cls X) convolver"""

    def __init__(self, v, cls):
        self.v, self.cls = v, cls
        self.src = {'M': 'librbbl/multichannel_convolver_uniform.cpp', 'X': 'librbbl/crossfading_convolver_uniform.cpp'}[cls]
        self.name = {'M': 'visr::rbbl::MultichannelConvolverUniform<float>', 'X': 'visr::rbbl::CrossfadingConvolverUniform<float>'}[cls]
        self.S = '^' + re.escape(self.name) + '::'
        lay = Lay(self.src)
        o = self.o = Obj(v, 'convolver', self.name, lay)
        self.core = o.sub('mCoreConvolver')
        I20 = lambda n, lo=0: v.int(n, lo, 1 << 20)
        self.ni, self.no, self.B, self.nf, self.max, self.n = I20('inputs'), I20('outputs'), I20('blockLength', 1), I20('filters'), I20('maxRoutingPoints'), I20('routingPoints')
        self.al, self.cal, self.P = v.int('alignment', 0, 1 << 10), v.int('complexAlignment', 0, 1 << 10), v.int('dftRepresentationSizePadded', 2, 1 << 21)
        v.st.assume(le(self.n, self.max))
        for f, x in (('mNumberOfInputs', self.ni), ('mNumberOfOutputs', self.no), ('mBlockLength', self.B), ('mAlignment', self.al), ('mComplexAlignment', self.cal), ('mDftRepresentationSizePadded', self.P),
                     ('mFilterPartitionsFrequencyDomain.mNumberOfRows', mul(I(2), self.nf) if cls == 'X' else self.nf)):
            self.core.set(f, x)
        o.set('mMaxNumberOfRoutingPoints', self.max)
        self.el = 'visr::rbbl::%s<float>::RoutingEntry' % ('MultichannelConvolverUniform' if cls == 'M' else 'CrossfadingConvolverUniform')
        self.tab = v.reg(Region('routings', esize=32, leaf=8, leafsort='i', extent=lambda i: And(ge(i, I(0)), lt(i, self.n))))
        self.tab.readonly = True
        f = {q: (lambda j, q=q: tm.uf('routings.%d' % q if q else 'routings', (j,), 'I')) for q in (0, 8, 16)}
        g = lambda j: And(ge(j, I(0)), lt(j, self.n))
        lim = {0: self.ni, 8: self.no, 16: self.nf}
        v.st.facts = tuple(v.st.facts) + tuple(Fact('routings.%d' % q if q else 'routings', lambda j, q=q: And(ge(f[q](j), I(0)), le(f[q](j), I(INV)), Implies(g(j), lt(f[q](j), lim[q]))), 1, 'table in range') for q in (0, 8, 16))
        self.tp = o.p('mRoutingTable')
        stdset.obj(v, self.tp, self.tab, self.n)
        if cls == 'X':
            o.set('mMaxNumFilters', self.nf)
            self.ramps = v.int('rampBlocks', 1, 1 << 20)
            o.set('mNumRampBlocks', self.ramps)
            self.cur = v.iarray('currentFilterOutput', 64, self.nf)
            self.rmp = v.iarray('currentRampBlock', 64, self.nf)
            vec(v, o, 'mCurrentFilterOutput', self.cur, self.nf)
            vec(v, o, 'mCurrentRampBlock', self.rmp, self.nf)
            v.st.facts = tuple(v.st.facts) + (Fact('currentFilterOutput', lambda j: And(ge(tm.uf('currentFilterOutput', (j,), 'I'), I(0)), le(tm.uf('currentFilterOutput', (j,), 'I'), I(1))), 1, 'filter set is 0 or 1'),
                                              Fact('currentRampBlock', lambda j: And(ge(tm.uf('currentRampBlock', (j,), 'I'), I(0)), lt(tm.uf('currentRampBlock', (j,), 'I'), self.ramps)), 1, 'ramp position in range'))
        use_complex(v)

    def entry(self, st, j):
        p = self.tab.at(j)
        rd = lambda o, ty: st.read_at(p.plus(o), ty, (), check=False)
        return tuple(st.u(rd(o, I64), 64) for o in (0, 8, 16)) + (rd(24, F),)

    def iscore(self, c, t):
        t = c.st.resolve(t)
        return tm.B(t.reg is self.o.reg and t.off is I(self.core.base))


def unit_order(cls):
    v = V([Rt(V([TC], 'x'), cls).src], 'order of the routing table (%s)' % cls)
    k = Rt(v, cls)
    a, b = (v.reg(Region(n, size=32)) for n in 'ab')
    x = [v.int(n, 0, INV) for n in ('aIn', 'aOut', 'bIn', 'bOut')]
    for r, i, o in ((a, x[0], x[1]), (b, x[2], x[3])):
        v.st.store(r.ptr(), I64, i, 'setup')
        v.st.store(r.ptr(8), I64, o, 'setup')
    cmpo = v.reg(Region('compare', size=8))
    for e in only(v, v.call(v.find(k.S + r'CompareRoutings::operator\(\)\('), [cmpo.ptr(), a.ptr(), b.ptr()]), 'ret'):
        v.oblige(e.st, 'routings are ordered by output, then input', eq(e.val, Or(lt(x[1], x[3]), And(eq(x[1], x[3]), lt(x[0], x[2])))))
    return v


def unit_setrouting(cls):
    v = V([Rt(V([TC], 'x'), cls).src], '%s::setRoutingEntry' % cls)
    k = Rt(v, cls)
    stdset.use_set(v, k.el, size=32)
    g = ghost(v, 6)       # found, position, erased, inserted
    i, o, f, gain = v.int('inputIdx', 0, INV), v.int('outputIdx', 0, INV), v.int('filterIdx', 0, INV), v.flt('gain', 'f')
    S = r'^std::multiset<%s,.*>::' % re.escape(k.el)
    pos = v.int('positionOfEqual', 0, 1 << 20)

    def find(c, t, x):
        x = c.st.resolve(x)
        c.require(And(eq(c.rd(x, I64), i), eq(c.rd(x.plus(8), I64), o)), 'looks for the same input and output')
        p = Ptr(k.tab, (), 0)
        c.case(tm.var('present', 'B')).ret(k.tab.at(pos)).put(g.at(0), I64, I(1))
        c.case(Not(tm.var('present', 'B'))).ret(k.tab.at(k.n))

    def erase(c, t, it):
        p = c.st.resolve(it)
        c.require(And(tm.B(p.reg is k.tab), eq(p.off, mul(pos, I(32))), eq(c.rd(g.at(0), I64), I(1)), eq(c.rd(g.at(2), I64), I(0))), 'erases the entry found')
        t = c.st.resolve(t)
        c.case().put(g.at(2), I64, I(1)).put(t.plus(8), I64, sub(c.rd(t.plus(8), I64), I(1))).ret(k.tab.at(pos))

    def insert(c, t, x):
        x, t = c.st.resolve(x), c.st.resolve(t)
        c.require(And(eq(c.rd(x, I64), i), eq(c.rd(x.plus(8), I64), o), eq(c.rd(x.plus(16), I64), f), lt(c.rd(t.plus(8), I64), k.max), eq(c.rd(g.at(0), I64), c.rd(g.at(2), I64))), 'the entry of the arguments replaces an existing one')
        v.same(c.st, 'gain of the inserted entry', c.rd(x.plus(24), F), gain, F)
        c.case().put(g.at(3), I64, add(c.rd(g.at(3), I64), I(1))).put(t.plus(8), I64, add(c.rd(t.plus(8), I64), I(1))).ret(k.tab.at(0))
    v.contract(S + r'find\(', find, 'multiset::find')
    v.contract(S + r'erase(\[abi:cxx11\])?\(', erase, 'multiset::erase')
    v.contract(S + r'insert\(', insert, 'multiset::insert')
    pres = tm.var('present', 'B')
    v.st.assume(Implies(pres, lt(pos, k.n)))
    for q in range(6):
        v.st.store(g.at(q), I64, I(0), 'setup')
    bad = Or(ge(i, k.ni), ge(o, k.no), ge(f, k.nf), And(Not(pres), ge(k.n, k.max)))
    ends = v.call(v.find(k.S + r'setRoutingEntry\(unsigned long'), [k.o.ptr(), i, o, f, gain])
    split_ends(v, ends, bad, 'throw', 'index out of range or table full')
    for e in ends:
        n = e.st.u(e.st.load(k.tp.plus(8), I64, ''), 64)
        ins, er = (e.st.u(e.st.load(g.at(q), I64, ''), 64) for q in (3, 2))
        if e.kind == 'ret':
            v.oblige(e.st, 'inserted once, number of entries', And(eq(ins, I(1)), eq(n, ite(pres, k.n, add(k.n, I(1)))), le(n, k.max)))
        else:
            v.oblige(e.st, 'table unchanged when rejected', And(eq(ins, I(0)), eq(er, I(0)), eq(n, k.n)))
    return v


def unit_process(cls):
    v = V([Rt(V([TC], 'x'), cls).src], '%s::processOutputs' % cls)
    k = Rt(v, cls)
    stdset.use_set(v, k.el, size=32)
    B, P, no = k.B, k.P, k.no
    os, al = v.int('outputChannelStride', 1, 1 << 38), v.int('alignmentArgument', 0, 1 << 10)
    v.st.assume(ge(os, B))
    out = v.reg(Region('output', nmem=1, esize=4, leaf=4, leafsort='f', pitch=os, extent=lambda c, i: And(ge(c, I(0)), lt(c, no), ge(i, I(0)), lt(i, B))))
    out.rowaligned = (al, k.al)
    rows = no if cls == 'M' else I(2)
    fs = v.int('spectrum_stride', 2, 1 << 38)
    fd = v.reg(Region('spectrum', nmem=1, esize=8, leaf=8, leafsort='d', pitch=fs, extent=lambda c, i: And(ge(c, I(0)), lt(c, rows), ge(i, I(0)), lt(i, P))))
    fd.rowaligned, fd.stride, fd.base0 = k.cal, fs, Ptr(fd, (I(0),), 0)
    cmatrix(v, k.o.sub('mFrequencyDomainOutput'), fd, rows, P, k.cal)

    def mzero(c, t):
        c.require(tm.B(c.st.resolve(t).off is I(k.o.sub('mFrequencyDomainOutput').base)), 'clears the output spectra')
        s = c.case().st
        s.setlog(fd, 0, s.log(fd, 0) + (Upd(8, fd.extent(*KV[:2]), CZ),))
    v.contract(r'BasicMatrix<std::complex<float> ?>::zeroFill\(', mzero, 'BasicMatrix::zeroFill')
    C = lambda i, f, b: tm.uf('convolved spectrum', (i, f, b), 'd')       # unit processFilter

    def pf(c, t, i, f, g, r, ad):
        r = c.st.resolve(r)
        c.require(And(k.iscore(c, t), ge(i, I(0)), lt(i, k.ni), ge(f, I(0)), lt(f, mul(I(2), k.nf) if cls == 'X' else k.nf)), 'input and filter in range')
        if ad is TRUE:
            c.case().fill(r, P, D, lambda b: cadd(c.st.read_at(r.plus(mul(b, I(8))), D, (ge(b, I(0)), lt(b, P)), check=False), cscale(g, C(i, f, b))))
        elif ad is FALSE:
            c.case().fill(r, P, D, lambda b: cscale(g, C(i, f, b)))
        else:
            raise Unsupported('symbolic accumulation flag')

    def to(c, t, r, d):
        r, d = c.st.resolve(r), c.st.resolve(d)
        key = c.st.locate(r, 8)[2] if r.reg is fd else (I(-1), I(-1))
        c.require(And(k.iscore(c, t), eq(key[1], I(0))), 'transforms an output spectrum')
        s = c.st
        bb = tm.var('?bin', 'I')
        if cls == 'M':
            c.case().fill(d, B, F, lambda j: tm.uf('inverse of row', (key[0], j), 'f'))
        else:
            x = s.read_field(fd, 0, 8, D, (key[0], BIN))
            c.case().fill(d, B, F, lambda j: tm.uf('inverse', (x, j), 'f'))
    BIN = v.int('anyBin', 0, 1 << 21)
    v.st.assume(lt(BIN, P))
    v.contract(r'CoreConvolverUniform<float>::processFilter\(', pf, 'processFilter')
    v.contract(r'CoreConvolverUniform<float>::transformOutput\(', to, 'transformOutput')
    if cls == 'X':
        ts = v.int('temp_stride', 1, 1 << 38)
        td = v.reg(Region('temporary', nmem=1, esize=4, leaf=4, leafsort='f', pitch=ts, extent=lambda c, i: And(ge(c, I(0)), lt(c, I(2)), ge(i, I(0)), lt(i, B))))
        td.rowaligned, td.stride, td.base0 = (al, k.al), ts, Ptr(td, (I(0),), 0)
        cmatrix(v, k.o.sub('mTimeDomainTempOutput'), td, I(2), B, k.al)
        rs = v.int('ramp_stride', 1, 1 << 38)
        rp = v.reg(Region('ramps', nmem=2, esize=4, leaf=4, leafsort='f', extent=lambda c, b, i: And(ge(c, I(0)), lt(c, I(2)), ge(b, I(0)), lt(b, k.ramps), ge(i, I(0)), lt(i, B))))
        rp.pitches, rp.readonly = (rs, B), True
        rp.rowaligned, rp.stride, rp.base0 = k.al, rs, Ptr(rp, (I(0), I(0)), 0)
        cmatrix(v, k.o.sub('mCrossoverRamps'), rp, I(2), mul(B, k.ramps), k.al)
    for e in only(v, v.call(v.find(k.S + r'processOutputs\('), [k.o.ptr(), Ptr(out, (I(0),), 0), os, al]), 'ret'):
        s = e.st.copy()
        c, j, kk = tm.fresh('output', 'I'), tm.fresh('sample', 'I'), tm.var('?kk', 'I')
        s.assume(And(ge(c, I(0)), lt(c, no), ge(j, I(0)), lt(j, B)))
        i, o, f, g = k.entry(v.st, kk)
        if cls == 'M':
            acc = tm.var('?acc', 'd')
            b = tm.fresh('bin', 'I')
            s.assume(And(ge(b, I(0)), lt(b, P)))
            want = tm.fold(k.n, [acc], [CZ], [ite(eq(o, c), cadd(acc, cscale(g, C(i, f, b))), acc)], 0, kk)
            v.same(s, 'output spectrum is the sum over the routings of this output', s.read_field(fd, 0, 8, D, (c, b)), want, D)
            v.same(s, 'every output is transformed', s.read_field(out, 0, 4, F, (c, j)), tm.uf('inverse of row', (c, j), 'f'), F)
        else:
            acc = tm.var('?acc', 'f')
            cur, blk = tm.uf('currentFilterOutput', (f,), 'I'), tm.uf('currentRampBlock', (f,), 'I')
            fin, fout = ite(eq(cur, I(0)), f, add(f, k.nf)), ite(eq(cur, I(0)), add(f, k.nf), f)
            R = lambda q: v.st.read_field(rp, 0, 4, F, (I(q), blk, j))
            y = lambda ff: tm.uf('inverse', (cscale(g, C(i, ff, BIN)), j), 'f')
            mix = fadd(fmul(y(fin), R(0)), fmul(y(fout), R(1)))
            want = tm.fold(k.n, [acc], [fnum(0.0, 'f')], [ite(eq(o, c), fadd(acc, mix), acc)], 0, kk)
            v.same(s, 'output is the sum over its routings of the crossfade between the two filters', s.read_field(out, 0, 4, F, (c, j)), want, F)
            s = e.st.copy()
            q = tm.fresh('filter', 'I')
            s.assume(And(ge(q, I(0)), lt(q, k.nf)))
            now = s.u(s.read_field(k.rmp, 0, 8, I64, (q,)), 64)
            old = tm.uf('currentRampBlock', (q,), 'I')
            v.oblige(s, 'every transition advances by one block and stays at its end', eq(now, ite(lt(add(old, I(1)), k.ramps), add(old, I(1)), sub(k.ramps, I(1)))))
    return v


def unit_xset(spectrum):
    nm = 'setTransformedFilter' if spectrum else 'setImpulseResponse'
    v = V([Rt(V([TC], 'x'), 'X').src], 'CrossfadingConvolverUniform<float>::' + nm)
    k = Rt(v, 'X')
    n, f, al, start = v.int('filterLength', 0, 1 << 40), v.int('filterIdx', 0, 1 << 40), v.int('alignmentArgument', 0, 1 << 10), v.bool('startTransition')
    data = v.reg(Region('filter', esize=4, leaf=4, leafsort='f', extent=lambda i: FALSE))
    g = ghost(v, 2)
    long_ = tm.var('rejected', 'B')

    def seti(c, t, p, *a):
        p = c.st.resolve(p)
        m, idx, al_ = (None,) + a if spectrum else a
        c.require(And(k.iscore(c, t), tm.B(p.reg is data), eq(p.off, I(0)), eq(m, n) if m is not None else TRUE, eq(c.rd(g.at(0), I64), I(0)), ge(idx, I(0)), lt(idx, mul(I(2), k.nf))), 'the new filter is stored once, in an existing entry')
        if not spectrum:
            c.case(long_).throw('_ZTISt16invalid_argument')
        c.case(Not(long_) if not spectrum else TRUE).put(g.at(0), I64, I(1)).put(g.at(1), I64, idx)
    v.contract(r'CoreConvolverUniform<float>::%s\(' % ('setFilter' if spectrum else 'setImpulseResponse'), seti, 'CoreConvolverUniform: replace a filter')
    bad = ge(f, k.nf) if spectrum else Or(ge(f, k.nf), long_)
    args = [f, start, al] if spectrum else [n, f, start, al]
    ends = v.call(v.find(k.S + nm + r'\('), [k.o.ptr(), data.ptr()] + args)
    split_ends(v, ends, bad, 'throw', 'filter index out of range or response too long')
    for e in ends:
        s = e.st.copy()
        i = tm.fresh('filter', 'I')
        s.assume(And(ge(i, I(0)), lt(i, k.nf)))
        cur, rmp = s.u(s.read_field(k.cur, 0, 8, I64, (i,)), 64), s.u(s.read_field(k.rmp, 0, 8, I64, (i,)), 64)
        oc, orr = tm.uf('currentFilterOutput', (i,), 'I'), tm.uf('currentRampBlock', (i,), 'I')
        if e.kind == 'ret':
            hit = eq(i, f)
            v.oblige(s, 'the set of the new filter is the other one exactly if a transition starts', eq(cur, ite(And(hit, start), sub(I(1), oc), oc)))
            v.oblige(s, 'a transition starts at the beginning, all others continue', eq(rmp, ite(And(hit, start), I(0), orr)))
            at = e.st.u(e.st.load(g.at(1), I64, ''), 64)
            s.assume(hit)
            v.oblige(s, 'the new filter becomes the target of the crossfade', And(eq(e.st.u(e.st.load(g.at(0), I64, ''), 64), I(1)), eq(at, ite(eq(cur, I(0)), f, add(f, k.nf)))))
        else:
            v.oblige(s, 'rejected filters leave the state unchanged', And(eq(cur, oc), eq(rmp, orr)))
    return v


def unit_xinit():
    v = V([Rt(V([TC], 'x'), 'X').src], 'CrossfadingConvolverUniform<float>::initFilters')
    k = Rt(v, 'X')
    r = v.int('newFilters', 0, 1 << 30)
    m = Obj(v, 'filters', 'visr::efl::BasicMatrix<float>', k.o.lay)
    m.set('mNumberOfRows', r)
    g = ghost(v, 1)
    long_ = tm.var('rejected', 'B')

    def init(c, t, p):
        c.require(And(k.iscore(c, t), tm.B(c.st.resolve(p).reg is m.reg), le(r, k.nf)), 'the filters enter the first set')
        c.case(long_).throw('_ZTISt16invalid_argument')
        c.case(Not(long_)).put(g.at(0), I64, I(1))
    v.contract(r'CoreConvolverUniform<float>::initFilters\(', init, 'CoreConvolverUniform::initFilters')
    ends = v.call(v.find(k.S + r'initFilters\('), [k.o.ptr(), m.ptr()])
    for e in split_ends(v, ends, Or(gt(r, k.nf), long_), 'throw', 'too many or too long filters'):
        s = e.st.copy()
        i = tm.fresh('filter', 'I')
        s.assume(And(ge(i, I(0)), lt(i, k.nf)))
        v.oblige(s, 'filters set', eq(e.st.load(g.at(0), I64, ''), I(1)))
        v.oblige(s, 'the first set is the target and no transition is pending', And(eq(s.u(s.read_field(k.cur, 0, 8, I64, (i,)), 64), I(0)), eq(s.u(s.read_field(k.rmp, 0, 8, I64, (i,)), 64), sub(k.ramps, I(1)))))
    return v


def unit_remove(cls):
    v = V([Rt(V([TC], 'x'), cls).src], '%s::removeRoutingEntry' % cls)
    k = Rt(v, cls)
    stdset.use_set(v, k.el, size=32)
    g = ghost(v, 1)
    i, o = v.int('inputIdx', 0, INV), v.int('outputIdx', 0, INV)
    lo, hi = v.int('firstEqual', 0, 1 << 20), v.int('endOfEqual', 0, 1 << 20)
    v.st.assume(And(le(lo, hi), le(hi, k.n)))
    S = r'^std::multiset<%s,.*>::' % re.escape(k.el)

    def rng(c, *a):
        t, x = a[-2], c.st.resolve(a[-1])
        c.require(And(eq(c.rd(x, I64), i), eq(c.rd(x.plus(8), I64), o)), 'looks for the given input and output')
        if len(a) == 3:
            r = c.st.resolve(a[0])
            c.case().put(r, PTR, k.tab.at(lo)).put(r.plus(8), PTR, k.tab.at(hi))
        else:
            c.case().ret([k.tab.at(lo), k.tab.at(hi)])

    def erase(c, t, a, b):
        p, q = c.st.resolve(a), c.st.resolve(b)
        c.require(And(tm.B(p.reg is k.tab and q.reg is k.tab), eq(p.off, mul(lo, I(32))), eq(q.off, mul(hi, I(32))), eq(c.rd(g.at(0), I64), I(0))), 'erases the entries found')
        c.case().put(g.at(0), I64, I(1)).ret(q)
    v.contract(S + r'equal_range\(', rng, 'multiset::equal_range')
    v.contract(S + r'erase(\[abi:cxx11\])?\(', erase, 'multiset::erase')
    for e in only(v, v.call(v.find(k.S + r'removeRoutingEntry\('), [k.o.ptr(), i, o]), 'ret'):
        v.oblige(e.st, 'all entries of this input and output are removed', Or(eq(e.st.load(g.at(0), I64, ''), I(1)), eq(lo, hi)))
        v.oblige(e.st, 'result tells whether there was an entry', eq(e.val, lt(lo, hi)))
    return v


# ---------------------------------------------------------------- interpolating convolver
TI = 'librbbl/interpolating_convolver_uniform.cpp'
CI = 'visr::rbbl::InterpolatingConvolverUniform<float>'


class Ip:
    def __init__(self, v):
        lay = Lay(TI)
        o = self.o = Obj(v, 'convolver', CI, lay)
        self.core = o.sub('mConvolver').sub('mCoreConvolver')
        self.nf, self.max, self.len, self.N, self.P = v.int('filters', 0, 1 << 20), v.int('maxRoutingPoints', 0, 1 << 20), v.int('maxFilterLength', 1, 1 << 30), v.int('partitions', 1, 1 << 30), v.int('dftRepresentationSizePadded', 2, 1 << 21)
        self.al, self.cal, self.ip = v.int('alignment', 0, 1 << 10), v.int('complexAlignment', 0, 1 << 10), v.int('interpolants', 1, 1 << 20)
        for f, x in (('mAlignment', self.al), ('mComplexAlignment', self.cal), ('mMaxFilterLength', self.len), ('mNumberOfFilterPartitions', self.N), ('mDftRepresentationSizePadded', self.P)):
            self.core.set(f, x)
        o.sub('mConvolver').set('mMaxNumberOfRoutingPoints', self.max)
        o.sub('mConvolver').set('mMaxNumFilters', self.max)
        o.set('mNumberOfInterpolants', self.ip)
        self.L = mul(self.P, self.N)
        st = v.int('filters_stride', 2, 1 << 37)
        L2 = mul(I(2), self.L)
        # complex values as pairs of real ones
        self.flt = v.reg(Region('filterSpectra', nmem=1, esize=4, leaf=4, leafsort='f', pitch=st, extent=lambda i, j: And(ge(i, I(0)), lt(i, self.nf), ge(j, I(0)), lt(j, L2))))
        self.flt.pitchmul = 2
        self.flt.rowaligned, self.flt.stride, self.flt.base0 = self.al, st, Ptr(self.flt, (I(0),), 0)
        cmatrix(v, o.sub('mFilters'), self.flt, self.nf, self.L, self.cal)
        self.tmp = v.reg(Region('interpolated', nmem=1, esize=4, leaf=4, leafsort='f', extent=lambda z, j: And(eq(z, I(0)), ge(j, I(0)), lt(j, L2))))
        self.tmp.rowaligned = self.al
        cvector(v, o.sub('mTempFilter'), Ptr(self.tmp, (I(0),), 0), self.L, self.cal)
        use_complex(v)


def unit_interpolant():
    v = V([TI], 'InterpolatingConvolverUniform<float>::setInterpolant')
    k = Ip(v)
    par = Obj(v, 'parameter', 'visr::rbbl::InterpolationParameter', k.o.lay)
    rid, m, start = v.int('routingId', 0, 1 << 40), v.int('interpolantsOfParameter', 0, 1 << 20), v.bool('startTransition')
    ix = v.iarray('index', 64, m, lo=0, hi=(1 << 40))
    w = v.array('weight', 'f', m)
    big = v.int('largestIndex', 0, 1 << 40)
    D_ = r'^visr::rbbl::InterpolationParameter::'
    me = lambda c, t: c.require(tm.B(c.st.resolve(t).reg is par.reg), 'the given parameter')
    ivec = v.reg(Region('indexVector', size=24))
    for q, p in enumerate((ix.ptr(), ix.at(m), ix.at(m))):
        v.st.store(ivec.ptr(8 * q), PTR, p, 'setup')

    def g(name, val):
        def f(c, t, *a):
            me(c, t)
            c.case().ret(val(c, *a))
        v.contract(D_ + name + r'\(', f, 'InterpolationParameter::' + name)

    def at(reg, ty):
        def f(c, j):
            c.require(And(ge(j, I(0)), lt(j, m)), 'interpolant exists')
            x = c.st.read_at(reg.at(j), ty, (), check=False)
            return c.st.u(x, 64) if ty is I64 else x
        return f
    g('id', lambda c: rid)
    g('numberOfInterpolants', lambda c: m)
    g('indices', lambda c: ivec.ptr())
    g('index', at(ix, I64))
    g('weight', at(w, F))
    best = v.int('positionOfLargest', 0, 1 << 20)
    v.st.assume(Implies(gt(m, I(0)), And(lt(best, m), eq(tm.uf('index', (best,), 'I'), big))))
    v.st.facts = tuple(v.st.facts) + (Fact('index', lambda j: And(ge(tm.uf('index', (j,), 'I'), I(0)), Implies(And(ge(j, I(0)), lt(j, m)), le(tm.uf('index', (j,), 'I'), big))), 1, 'largest element'),)

    def mx(c, a, b):
        a, b = c.st.resolve(a), c.st.resolve(b)
        c.require(And(tm.B(a.reg is ix and b.reg is ix), eq(a.off, I(0)), eq(b.off, mul(m, I(8))), gt(m, I(0))), 'maximum over all indices')
        c.case().ret(ix.at(best))
    v.contract(r'std::max_element<', mx, 'std::max_element')
    gh = ghost(v, 1)
    chk = {}

    def stf(c, t, p, r, s, a):
        p = c.st.resolve(p)
        c.require(And(tm.B(p.reg is k.tmp), eq(p.off, I(0)), eq(r, rid), eq(s, start), eq(c.rd(gh.at(0), I64), I(0)), lt(r, k.max)), 'the interpolated filter is set for the routing of the parameter')
        st = c.st.copy()
        j, kk, acc = tm.fresh('position', 'I'), tm.var('?kk', 'I'), tm.var('?acc', 'f')
        st.assume(And(ge(j, I(0)), lt(j, mul(I(2), k.L))))
        term = lambda q: fmul(v.st.read_at(w.at(q), F, (), check=False), v.st.read_field(k.flt, 0, 4, F, (tm.uf('index', (q,), 'I'), j)))
        want = tm.fold(sub(k.ip, 1), [acc], [term(I(0))], [fadd(acc, term(add(kk, 1)))], 0, kk)
        v.same(st, 'the new filter is the weighted sum of the selected filters', st.read_field(k.tmp, 0, 4, F, (I(0), j)), want, F)
        c.case().put(gh.at(0), I64, I(1))
    v.contract(r'CrossfadingConvolverUniform<float>::setTransformedFilter\(', stf, 'CrossfadingConvolverUniform::setTransformedFilter')
    v.contract(r'detail::composeMessageString<', lambda c, *a: c.case(), 'message text')
    k.flt.readonly = True
    ends = v.call(v.find(r'^visr::rbbl::InterpolatingConvolverUniform<float>::setInterpolant\('), [k.o.ptr(), par.ptr(), start])
    bad = Or(ge(rid, k.max), Not(eq(m, k.ip)), And(gt(m, I(0)), ge(big, k.nf)))
    for e in split_ends(v, ends, bad, 'throw', 'unknown routing, wrong number of interpolants or filter index out of range'):
        v.oblige(e.st, 'the filter is set', eq(e.st.load(gh.at(0), I64, ''), I(1)))
    for e in ends:
        if e.kind == 'throw':
            v.oblige(e.st, 'nothing is set when rejected', eq(e.st.load(gh.at(0), I64, ''), I(0)))
    return v


def unit_ipset():
    v = V([TI], 'InterpolatingConvolverUniform<float>::setImpulseResponse')
    k = Ip(v)
    n, f, al = v.int('filterLength', 0, 1 << 40), v.int('filterIdx', 0, 1 << 40), v.int('alignmentArgument', 0, 1 << 10)
    ir = v.reg(Region('ir', esize=4, leaf=4, leafsort='f', extent=lambda i: FALSE))
    ends = tirun(v, k, r'setImpulseResponse\(', [ir.ptr(), n, f, al], lambda c, p, m, row: And(tm.B(p.reg is ir), eq(p.off, I(0)), eq(m, n), eq(row, f)), lambda row, j: tm.uf('spectrum of row', (f, j), 'f'))
    for e in ends:
        s = e.st.copy()
        i, j = tm.fresh('filter', 'I'), tm.fresh('position', 'I')
        s.assume(And(ge(i, I(0)), lt(i, k.nf), ge(j, I(0)), lt(j, mul(I(2), k.L))))
        old, got = v.st.read_field(k.flt, 0, 4, F, (i, j)), s.read_field(k.flt, 0, 4, F, (i, j))
        if e.kind == 'throw':
            v.same(s, 'filters unchanged when rejected', got, old, F)
            continue
        for cond, want in ((eq(i, f), tm.uf('spectrum of row', (f, j), 'f')), (Not(eq(i, f)), old)):
            s2 = s.copy()
            s2.assume(cond)
            v.same(s2, 'the filter is replaced, others are kept', got, want, F)
    split_ends(v, ends, Or(ge(f, k.nf), gt(n, k.len)), 'throw', 'filter index out of range or response too long')
    return v


def tirun(v, k, fn, args, ok, val):
    def tir(c, t, p, m, r, a):
        p, r = c.st.resolve(p), c.st.resolve(r)
        key = c.st.locate(r, 4)[2] if r.reg is k.flt else (I(-1), I(-1))
        c.require(And(eq(key[1], I(0)), ge(key[0], I(0)), lt(key[0], k.nf), le(m, k.len), ok(c, p, m, key[0])), 'the response becomes the filter of this index')
        c.case().fill(Ptr(k.flt, (key[0],), 0), mul(I(2), k.L), F, lambda j: tm.uf('spectrum of row', (key[0], j), 'f'))
    v.contract(r'CrossfadingConvolverUniform<float>::transformImpulseResponse\(', tir, 'transformImpulseResponse')
    return v.call(v.find(r'^visr::rbbl::InterpolatingConvolverUniform<float>::' + fn), [k.o.ptr()] + args)


def unit_ipinit():
    v = V([TI], 'InterpolatingConvolverUniform<float>::initFilters')
    k = Ip(v)
    r, n, al = v.int('newFilters', 0, 1 << 30), v.int('newLength', 0, 1 << 40), v.int('matrixAlignment', 0, 1 << 10)
    m = MatF(v, 'responses', k.o.lay, r, n, al)

    def zero(c, p, cnt, a):
        p = c.st.resolve(p)
        key = c.st.locate(p, 4)[2]
        c.require(And(tm.B(p.reg is k.flt), eq(key[1], I(0)), ge(key[0], I(0)), lt(key[0], k.nf), eq(cnt, k.L)), 'a whole filter is cleared')
        o = c.case()
        o.fill(Ptr(k.flt, (key[0],), 0), mul(I(2), k.L), F, lambda j: fnum(0.0, 'f'))
        o.ret(I(0))
    v.contract(r'visr::efl::(reference::)?vectorZero<%s>\(' % CTY['cf'], zero, 'efl::vectorZero<complex>')
    v.ex.contracts.insert(0, v.ex.contracts.pop())

    def row(c, p, m_, i):
        key = c.st.locate(p, 4)[2] if p.reg is m.reg else (I(-1), I(-1))
        return And(eq(key[1], I(0)), eq(key[0], i), eq(m_, n))
    ends = tirun(v, k, r'initFilters\(', [m.o.ptr()], row, None)
    for e in split_ends(v, ends, Or(gt(r, k.nf), gt(n, k.len)), 'throw', 'too many or too long filters'):
        s = e.st.copy()
        i, j = tm.fresh('filter', 'I'), tm.fresh('position', 'I')
        s.assume(And(ge(i, I(0)), lt(i, k.nf), ge(j, I(0)), lt(j, mul(I(2), k.L))))
        for cond, want in ((lt(i, r), tm.uf('spectrum of row', (i, j), 'f')), (ge(i, r), fnum(0.0, 'f'))):
            s2 = s.copy()
            s2.assume(cond)
            if s2.feasible():
                v.same(s2, 'filters are the spectra of the matrix rows, others zero', s2.read_field(k.flt, 0, 4, F, (i, j)), want, F)
    return v


def unit_block(cls):
    """process: the inputs enter the history once, then the outputs are computed, with the arguments of the caller"""
    src, name = {'M': (Rt(V([TC], 'x'), 'M').src, 'visr::rbbl::MultichannelConvolverUniform<float>'), 'X': (Rt(V([TC], 'x'), 'X').src, 'visr::rbbl::CrossfadingConvolverUniform<float>'), 'I': (TI, CI)}[cls]
    v = V([src], '%s::process' % name.split('::')[-1])
    o = Obj(v, 'convolver', name, Lay(src))
    inp, out = (v.reg(Region(n, esize=4, leaf=4, leafsort='f', extent=lambda i: FALSE)) for n in ('input', 'output'))
    a, b, al = v.int('inputStride', 0, 1 << 40), v.int('outputStride', 0, 1 << 40), v.int('alignmentArgument', 0, 1 << 10)
    g = ghost(v, 1)
    at = lambda c, t, q: tm.B(c.st.resolve(t).reg is o.reg and c.st.resolve(t).off is I(q))
    is_ = lambda c, p, r: And(tm.B(c.st.resolve(p).reg is r), eq(c.st.resolve(p).off, I(0)))
    if cls == 'I':
        def whole(c, t, i, si, u, so, aa):
            c.require(And(at(c, t, o.sub('mConvolver').base), is_(c, i, inp), is_(c, u, out), eq(si, a), eq(so, b), eq(aa, al), eq(c.rd(g.at(0), I64), I(0))), 'one block with the arguments of the caller')
            c.case().put(g.at(0), I64, I(2))
        v.contract(r'CrossfadingConvolverUniform<float>::process\(', whole, 'CrossfadingConvolverUniform::process')
    else:
        def ins(c, t, i, si, aa):
            c.require(And(at(c, t, o.sub('mCoreConvolver').base), is_(c, i, inp), eq(si, a), eq(aa, al), eq(c.rd(g.at(0), I64), I(0))), 'the inputs are processed first, once')
            c.case().put(g.at(0), I64, I(1))

        def outs(c, t, u, so, aa):
            c.require(And(at(c, t, 0), is_(c, u, out), eq(so, b), eq(aa, al), eq(c.rd(g.at(0), I64), I(1))), 'then the outputs, once')
            c.case().put(g.at(0), I64, I(2))
        v.contract(r'CoreConvolverUniform<float>::processInputs\(', ins, 'CoreConvolverUniform::processInputs')
        v.contract(r'ConvolverUniform<float>::processOutputs\(', outs, 'processOutputs')
    for e in only(v, v.call(v.find('^' + re.escape(name) + r'::process\('), [o.ptr(), inp.ptr(), a, out.ptr(), b, al]), 'ret'):
        v.oblige(e.st, 'one block processed', eq(e.st.load(g.at(0), I64, ''), I(2)))
    return v


def units(sel=None):
    return [('processFilter/add', lambda: unit_filter(True)), ('processFilter/set', lambda: unit_filter(False)), ('processInputs', unit_inputs), ('transformOutput', unit_output),
            ('transformImpulseResponse', unit_ir), ('setImpulseResponse', unit_setir), ('setFilter', unit_setfilter), ('initFilters', unit_initfilters), ('sizes', unit_sizes),
            ('order/M', lambda: unit_order('M')), ('order/X', lambda: unit_order('X')), ('setRoutingEntry/M', lambda: unit_setrouting('M')), ('setRoutingEntry/X', lambda: unit_setrouting('X')),
            ('processOutputs/M', lambda: unit_process('M')), ('processOutputs/X', lambda: unit_process('X')),
            ('crossfading setImpulseResponse', lambda: unit_xset(False)), ('crossfading setTransformedFilter', lambda: unit_xset(True)), ('crossfading initFilters', unit_xinit),
            ('removeRoutingEntry/M', lambda: unit_remove('M')), ('removeRoutingEntry/X', lambda: unit_remove('X')),
            ('setInterpolant', unit_interpolant), ('interpolating setImpulseResponse', unit_ipset), ('interpolating initFilters', unit_ipinit),
            ('process/M', lambda: unit_block('M')), ('process/X', lambda: unit_block('X')), ('process/I', lambda: unit_block('I'))]
