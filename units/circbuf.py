"""rbbl::CircularBuffer: history semantics of the double-mapped ring."""
from irv.unit import *
from .arrays import use_lib, only, split_ends, ES, SO, is_pow2, valid_array
from .efl import use_kernels

TU = 'librbbl/circular_buffer.cpp'
CB = 'visr::rbbl::CircularBuffer<%s>'


def norm(i, al):
    """column -> position in the ring"""
    return ite(ge(i, al), sub(i, al), i)


class Ring:
    """CircularBuffer object in an arbitrary valid state: ring content hist(channel, position), stored twice"""

    def __init__(self, v, name, t, lay, obj=None, length=None, mirror=True, chan=None):
        self.v, self.t = v, t
        self.so, self.es, self.ty = SO[t], ES[t], FTY[SO[t]]
        o = self.o = obj or Obj(v, name, CB % t, lay)
        self.ch = chan if chan is not None else v.int(name + '_channels', 0, 1 << 20)
        self.len = length if length is not None else v.int(name + '_length', 1, 1 << 30)
        self.alloc = v.int(name + '_allocatedLength', 1, 1 << 31)
        self.stride = v.int(name + '_stride', 1, 1 << 33)
        self.head = v.int(name + '_writeHead', 0, 1 << 31)
        st = v.st
        st.assume(And(ge(self.alloc, self.len), lt(self.head, self.alloc), ge(self.stride, add(self.alloc, self.alloc))))
        ch, stride = self.ch, self.stride
        self.reg = v.reg(Region(name + '_storage', nmem=1, esize=self.es, leaf=self.es, leafsort=self.so, pitch=stride,
                                extent=lambda i, j: And(ge(i, I(0)), lt(i, ch), ge(j, I(0)), lt(j, stride))))
        data = Ptr(self.reg, (I(0),), 0)
        self.impl = Obj(v, name + '_impl', (CB % t) + '::Impl', lay)
        self.impl.set('mAllocatedLength', self.alloc)
        for f, x in (('mStride', stride), ('mNumberOfRows', ch), ('mNumberOfColumns', mul(I(2), self.alloc)), ('mData.mLength', mul(ch, stride))):
            self.impl.set('mBuffer.' + f, x)
        self.impl.set('mBuffer.mData.mRawStorage', data, PTR)
        self.impl.set('mBuffer.mData.mAlignedStorage', data, PTR)
        v.st.store(o.p('mImpl'), PTR, self.impl.ptr(), 'setup')
        for f, x in (('mLength', self.len), ('mAllocatedLength', self.alloc), ('mStride', stride), ('mNumberOfChannels', ch), ('mWriteHeadIndex', self.head)):
            o.set(f, x)
        o.set('mBasePointer', data, PTR)
        self.hist = lambda c, i: tm.uf(name + '_content', (c, i), self.so)
        if mirror:
            # the very last column is never read: its content is not specified
            cond = And(ge(KV[1], I(0)), lt(KV[1], sub(mul(I(2), self.alloc), I(1))))
            st.setlog(self.reg, 0, (Upd(self.es, cond, self.hist(KV[0], norm(KV[1], self.alloc))),))

    def put(self, o, n, data, cond=TRUE):
        """specified effect of writing n samples data(channel, k): both copies, and the head"""
        al = self.alloc
        pos = norm(KV[1], al)
        k = ite(ge(pos, self.head), sub(pos, self.head), add(sub(pos, self.head), al))
        c = And(ge(KV[0], I(0)), lt(KV[0], self.ch), ge(KV[1], I(0)), lt(KV[1], mul(I(2), al)), lt(k, n))
        o.st.setlog(self.reg, 0, o.st.log(self.reg, 0) + (Upd(self.es, c, data(KV[0], k)),))
        h = add(self.head, n)
        o.put(self.o.p('mWriteHeadIndex'), I64, ite(ge(h, al), sub(h, al), h))


def lib(v, t):
    use_lib(v)
    use_kernels(v)


def mod_lemma(v, r, n):
    """(head+n) mod alloc for head < alloc, n <= alloc"""
    h = add(r.head, n)
    v.st.assume(Implies(le(n, r.alloc), eq(tm.mod(h, r.alloc), ite(ge(h, r.alloc), sub(h, r.alloc), h))))


def unit_mod():
    v = V([TU], 'lemma: wrap-around of the write index')
    a, b = v.int('a', 1, 1 << 40), v.int('b', 0, 1 << 40)
    v.st.assume(lt(b, add(a, a)))
    q, r = tm.var('q', 'I'), tm.var('r', 'I')
    v.st.assume(And(eq(b, add(mul(q, a), r)), ge(r, I(0)), lt(r, a)))
    v.functions.add('lemma on unsigned remainder')
    v.oblige(v.st, 'remainder of a number below twice the modulus', eq(r, ite(ge(b, a), sub(b, a), b)))
    v.ends = 1
    return v


def unit_write(t, kind):
    v = V([TU], 'CircularBuffer<%s>::write (%s)' % (t, kind))
    lib(v, t)
    lay = Lay(TU)
    r = Ring(v, 'ring', t, lay)
    n, ch = v.int('numberOfSamples', 0, 1 << 31), v.int('numberOfChannels', 0, 1 << 20)
    al = v.int('alignmentElements', 0, 2)
    es, ty, so = r.es, r.ty, r.so
    mod_lemma(v, r, n)
    if kind == 'pointers':
        src = v.reg(Region('data', nmem=1, esize=es, leaf=es, leafsort=so, extent=lambda i, j: And(ge(i, I(0)), lt(i, ch), ge(j, I(0)), lt(j, n))))
        pa = v.reg(Region('writeData', esize=8, leaf=8, leafsort='p', extent=lambda i: And(ge(i, I(0)), lt(i, ch)), ptrs={0: lambda i: Ptr(src, (i,), 0)}))
        data = lambda c, k: v.st.read_at(Ptr(src, (c,), mul(k, I(es))), ty, (), check=False)
        f = v.find(r'^visr::rbbl::CircularBuffer<%s>::write\(%s const\* const\*,' % (t, t))
        args = [r.o.ptr(), pa.ptr(), ch, n, al]
    elif kind == 'strided':
        cs = v.int('channelStride', 0, 1 << 33)
        src = v.reg(Region('data', nmem=1, esize=es, leaf=es, leafsort=so, pitch=cs, extent=lambda i, j: And(ge(i, I(0)), lt(i, ch), ge(j, I(0)), lt(j, n))))
        data = lambda c, k: v.st.read_at(Ptr(src, (c,), mul(k, I(es))), ty, (), check=False)
        f = v.find(r'^visr::rbbl::CircularBuffer<%s>::write\(%s const\*, unsigned' % (t, t))
        args = [r.o.ptr(), Ptr(src, (I(0),), 0), cs, ch, n, al]
    elif kind == 'matrix':
        from .arrays import Mat
        m = Mat(v, 'data', t, lay)
        ch, n = m.rows, m.cols
        mod_lemma(v, r, n)
        src = m.reg
        data = lambda c, k: v.st.read_at(Ptr(src, (c,), mul(k, I(es))), ty, (), check=False)
        f = v.find(r'^visr::rbbl::CircularBuffer<%s>::write\(visr::efl::BasicMatrix' % t)
        args = [r.o.ptr(), m.o.ptr()]
    else:   # commitWrite: the data was written at the write pointers beforehand
        f = v.find(r'^visr::rbbl::CircularBuffer<%s>::commitWrite\(' % t)
        args = [r.o.ptr(), n]
        data = lambda c, k: tm.uf('new', (c, k), so)
        v.st.setlog(r.reg, 0, v.st.log(r.reg, 0) + (Upd(es, And(ge(KV[0], I(0)), lt(KV[0], r.ch), ge(KV[1], r.head), lt(KV[1], add(r.head, n)), le(n, r.len)), data(KV[0], sub(KV[1], r.head))),))
    if kind != 'commit':
        src.readonly = True

    def spec(c, *a):
        bad = gt(n, r.len) if kind == 'commit' else Or(ne(ch, r.ch), gt(n, r.len))
        c.case(bad).throw('_ZTISt16invalid_argument')
        o = c.case(Not(bad))
        # columns from 2*alloc-1 up to the stride are never read
        r.put(o, n, data)
        o.free.append((r.reg, None, lambda c, i: ge(i, sub(mul(I(2), r.alloc), I(1)))))
    v.check(f, spec, args)
    return v


def unit_read(t):
    v = V([TU], 'CircularBuffer<%s> read pointers' % t)
    lib(v, t)
    r = Ring(v, 'ring', t, Lay(TU))
    es, ty = r.es, r.ty
    ch, d = v.int('channelIndex', 0, r.ch), v.int('delay', 0, r.len)
    v.st.assume(TRUE)
    k = v.int('k', 0, 1 << 31)

    def content(e, p, c, d, label):
        """p[k] for k < delay is the k-th oldest of the last `delay` samples"""
        st = e.st.copy()
        st.assume(And(lt(k, d), le(d, r.len)))
        if not st.feasible():
            return
        pos = sub(add(r.head, k), d)
        x = st.read_at(p.plus(mul(k, I(es))), ty, (), check=True, what=label)
        v.same(st, label, x, r.hist(c, ite(lt(pos, I(0)), add(pos, r.alloc), pos)), ty)
    d1 = v.int('delay1', 0, add(r.len, 1))
    for e in only(v, v.call(v.find(r'^visr::rbbl::CircularBuffer<%s>::getReadPointer\(' % t), [r.o.ptr(), ch, d1]), 'ret'):
        content(e, e.st.resolve(e.val), ch, d1, 'getReadPointer: sample read for every delay up to the length')
    # all channels
    for vec in (False, True):
        pa = v.reg(Region('readPointers%d' % vec, esize=8, leaf=8, leafsort='p', extent=lambda i: And(ge(i, I(0)), lt(i, r.ch)), ptrs={0: lambda i: NULL}))
        v.st.assume(TRUE)
        if vec:
            da = v.iarray('delays', 64, r.ch)
            da.readonly = True
            args = [r.o.ptr(), da.ptr(), pa.ptr()]
            f = v.find(r'^visr::rbbl::CircularBuffer<%s>::getReadPointers\(unsigned long const\*' % t)
        else:
            dd = v.int('commonDelay', 0, 1 << 40)
            args = [r.o.ptr(), dd, pa.ptr()]
            f = v.find(r'^visr::rbbl::CircularBuffer<%s>::getReadPointers\(unsigned long, ' % t)
        c0 = tm.fresh('ch', 'I')
        for e in v.call(f, args):
            if e.kind == 'throw':
                if not vec:
                    v.oblige(e.st, 'getReadPointers throws only for delays not below the length', ge(dd, r.len))
                continue
            s = e.st.copy()
            s.assume(And(ge(c0, I(0)), lt(c0, r.ch)))
            dv = s.read_at(da.at(c0), I64, (), check=False) if vec else dd
            if not vec:
                v.oblige(e.st, 'getReadPointers throws for delays not below the length', lt(dd, r.len))
            p = s.resolve(s.read_at(pa.at(c0), PTR, (), check=False))
            if p.reg is not r.reg:
                v.oblige(s, 'pointer into the ring', FALSE)
                continue

            class E:
                pass
            E.st = s
            s.assume(ge(dv, I(0)))
            content(E, p, c0, dv, 'getReadPointers: sample read')
    return v


def unit_wptr(t):
    v = V([TU], 'CircularBuffer<%s> write pointers' % t)
    lib(v, t)
    r = Ring(v, 'ring', t, Lay(TU))
    for e in only(v, v.call(v.find(r'^visr::rbbl::CircularBuffer<%s>::getFirstWritePointer\(' % t), [r.o.ptr()]), 'ret'):
        v.same(e.st, 'write pointer of channel 0', e.st.resolve(e.val), Ptr(r.reg, (I(0),), mul(r.head, I(r.es))))
    pa = v.reg(Region('writePointers', esize=8, leaf=8, leafsort='p', extent=lambda i: And(ge(i, I(0)), lt(i, r.ch)), ptrs={0: lambda i: NULL}))

    def spec(c, *a):
        o = c.case()
        o.st.setlog(pa, 0, (Upd(8, And(ge(KV[0], I(0)), lt(KV[0], r.ch)), Ptr(r.reg, (KV[0],), mul(r.head, I(r.es)))),))
    for e in only(v, v.call(v.find(r'^visr::rbbl::CircularBuffer<%s>::getWritePointers\(' % t), [r.o.ptr(), pa.ptr()]), 'ret'):
        c0 = tm.fresh('ch', 'I')
        s = e.st.copy()
        s.assume(And(ge(c0, I(0)), lt(c0, r.ch)))
        p = s.resolve(s.read_at(pa.at(c0), PTR, (), check=False))
        reg, f, key = s.locate(p, r.es)
        v.oblige(s, 'write pointer of every channel', And(tm.B(reg is r.reg), eq(key[0], c0), eq(key[1], r.head)))
    for nm, x in (('stride', r.stride), ('numberOfChannels', r.ch), ('length', r.len)):
        for e in only(v, v.call(v.find(r'^visr::rbbl::CircularBuffer<%s>::%s\(' % (t, nm)), [r.o.ptr()]), 'ret'):
            v.oblige(e.st, nm, eq(e.val, x))
    return v


def unit_ctor(t):
    v = V([TU], 'CircularBuffer<%s>(channels, length, alignment)' % t)
    use_lib(v)
    from .arrays import kernels
    kernels(v, t)
    lay = Lay(TU)
    o = Obj(v, 'ring', CB % t, lay)
    ch, n, al = v.int('channels', 0, 1 << 20), v.int('length', 1, 1 << 30), v.int('alignment', 1, 1 << 10)
    v.st.assume(is_pow2(al))
    f = v.find(r'^visr::rbbl::CircularBuffer<%s>::CircularBuffer\(' % t)
    for e in only(v, v.call(f, [o.ptr(), ch, n, al]), 'ret'):
        st = e.st
        g = lambda p, ty=I64: o.get(p, ty, st)
        alloc = st.u(g('mAllocatedLength'), 64)
        v.oblige(st, 'length', eq(g('mLength'), n))
        v.oblige(st, 'channels', eq(g('mNumberOfChannels'), ch))
        v.oblige(st, 'allocated length not below the requested one', ge(alloc, n))
        v.oblige(st, 'write head starts at 0', eq(g('mWriteHeadIndex'), I(0)))
        ip = st.resolve(g('mImpl', PTR))
        impl = Obj(v, 'impl', (CB % t) + '::Impl', lay, reg=ip.reg)
        v.oblige(st, 'implementation has the same allocated length', eq(impl.get('mAllocatedLength', I64, st), alloc))
        sr = st.u(g('mStride'), 64)
        v.oblige(st, 'stride holds two copies', ge(sr, add(alloc, alloc)))
        v.oblige(st, 'stride of the storage', eq(impl.get('mBuffer.mStride', I64, st), sr))
        v.oblige(st, 'rows of the storage', eq(impl.get('mBuffer.mNumberOfRows', I64, st), ch))
        data = valid_array(v, st, impl.sub('mBuffer.mData'), t, mul(sr, ch), al)
        v.same(st, 'base pointer', st.resolve(g('mBasePointer', PTR)), data if data is not None else NULL)
        if data is not None:
            i, j = tm.fresh('row', 'I'), tm.fresh('col', 'I')
            s = st.copy()
            s.assume(And(ge(i, I(0)), lt(i, ch), ge(j, I(0)), lt(j, sr)))
            off = add(mul(i, sr), j)
            s.assume(And(ge(off, I(0)), lt(off, mul(sr, ch)), ge(mul(i, sr), I(0)), le(mul(add(i, I(1)), sr), mul(ch, sr))))
            v.same(s, 'initial content is zero', s.read_at(data.plus(mul(off, I(ES[t]))), FTY[SO[t]], (), check=False), fnum(0.0, SO[t]), FTY[SO[t]])
    return v


def units(sel=None):
    out = [('lemma mod', unit_mod)]
    for t in ('float', 'double'):
        for k in ('pointers', 'strided', 'matrix', 'commit'):
            out.append(('CircularBuffer<%s> write %s' % (t, k), lambda t=t, k=k: unit_write(t, k)))
        out += [('CircularBuffer<%s> read' % t, lambda t=t: unit_read(t)), ('CircularBuffer<%s> getWritePointers' % t, lambda t=t: unit_wptr(t)),
                ('CircularBuffer<%s> ctor' % t, lambda t=t: unit_ctor(t))]
    return out
