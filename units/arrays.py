"""Aligned storage: alignment predicates, AlignedArray, BasicVector, BasicMatrix."""
import os
import z3
from irv.unit import *
from irv import bv
from .efl import aligned, use_alignment, spec_kernel, CTY, POW
from .efl import use_kernels

TU = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'cpp', 'arrays.cpp')
TU2 = 'libefl/basic_vector.cpp'
ES = {'float': 4, 'double': 8, 'std::complex<float>': 8, 'std::complex<double>': 16, 'signed char': 1, 'short': 2}
SO = {'float': 'f', 'double': 'd'}
PAT = lambda t: re.escape(t) + (' ' if t.endswith('>') else '')


# ---------------------------------------------------------------- bit-precise units
def bvunit(name):
    v = V([TU], name)
    v.b = bv.BV(v.mods, v.ex.dem)
    return v


def bvoblige(v, label, hyp, goal):
    s, m, t = bv.prove(hyp, goal)
    v.ex.obligs.append(Oblig(label, v.name, s, m, tm.var(label[:40], 'B'), (), 'z3-bv', t, 'bit-precise'))


def pow2(x, bits=64):
    return z3.Or(*[x == (1 << k) for k in range(bits)])


def unit_pow2():
    v = bvunit('efl::alignmentIsPowerOfTwo')
    n = v.find(r'^visr::efl::alignmentIsPowerOfTwo\(')
    v.fn(n)
    x = z3.BitVec('alignmentVal', 64)
    for pc, r in v.b.run(n, [x]):
        v.ends += 1
        bvoblige(v, 'result is true exactly for powers of two', [pc], r == pow2(x))
    return v


def unit_checkAlignment(t):
    v = bvunit('efl::checkAlignment<%s>' % t)
    n = v.find(r'^bool visr::efl::checkAlignment<%s>\(' % PAT(t))
    v.fn(n)
    p, al = z3.BitVec('ptr', 64), z3.BitVec('alignment', 64)
    es = ES[t]
    small = z3.ULT(al, 1 << 48)
    for pc, r in v.b.run(n, [p, al]):
        v.ends += 1
        hyp = [pc, small]
        bvoblige(v, 'alignment 0 accepts every pointer', hyp + [al == 0], r)
        bvoblige(v, 'only powers of two are accepted', hyp + [al != 0, r], pow2(al, 48))
        for k in range(48):
            bvoblige(v, 'alignment 2^%d: true exactly if the address is a multiple' % k, hyp + [al == (1 << k)], r == (z3.URem(p, z3.BitVecVal((1 << k) * es, 64)) == 0))
        for q in POW:
            bvoblige(v, 'an alignment of at least %d implies a multiple of %d bytes' % (q, q * es), hyp + [r, al != 0, z3.UGE(al, q)], z3.URem(p, z3.BitVecVal(q * es, 64)) == 0)
    return v


def spec_next(c, size, al):
    """smallest multiple of al that is >= size"""
    st = c.st
    size, al = st.u(size, 64), st.u(al, 64)
    c.case(eq(al, I(0))).ret(size)
    o = c.case(ge(al, I(1)))
    q = tm.uf('nextq', (size, al), 'I')
    r = mul(q, al)
    o.st.assume(And(ge(r, size), lt(sub(r, size), al), ge(q, I(0)), Implies(ge(size, I(1)), ge(q, I(1))), Implies(eq(size, I(0)), eq(q, I(0)))))
    o.ret(r)


def unit_next():
    v = V([TU], 'efl::nextAlignedSize')
    n = v.find(r'^visr::efl::nextAlignedSize\(')
    size, al = v.int('size', 0, 1 << 62), v.int('alignment', 0, 1 << 62)
    for e in v.call(n, [size, al]):
        if e.kind != 'ret':
            v.oblige(e.st, 'does not throw', FALSE)
            continue
        r = e.val
        st = e.st
        # r is (some integer) * al: witness from the quotient
        q = tm.div(size, al)
        st.assume(Implies(ge(al, I(1)), And(eq(size, add(mul(q, al), tm.mod(size, al))), ge(q, I(0)), ge(tm.mod(size, al), I(0)), lt(tm.mod(size, al), al))))
        v.oblige(st, 'alignment 0 leaves the size unchanged', Implies(eq(al, I(0)), eq(r, size)))
        v.oblige(st, 'not smaller than the size', ge(r, size))
        v.oblige(st, 'smallest such multiple', Implies(ge(al, I(1)), lt(sub(r, size), al)))
        w = ite(eq(tm.mod(size, al), I(0)), q, add(q, 1))
        v.oblige(st, 'a multiple of the alignment', Implies(ge(al, I(1)), eq(r, mul(w, al))))
    return v


# ---------------------------------------------------------------- contracts used by the classes
def spec_pow2(c, x):
    x = c.st.u(x, 64)
    r = tm.uf('ispow2', (x,), 'B')
    c.st.assume(And(Implies(r, ge(x, I(1))), Implies(eq(x, I(1)), r)))
    c.case().ret(r)


def spec_align(c, align, size, pref, sref):
    """std::align (assumed): next multiple of `align` at or after the pointer, if `size` bytes fit in `space`"""
    st = c.st
    align, size = st.u(align, 64), st.u(size, 64)
    p = st.resolve(st.load(pref, PTR, 'std::align'))
    space = st.u(st.load(sref, I64, 'std::align'), 64)
    co = [abs(x) for x in tm.poly(align).values()]
    g = 16
    import math
    for x in co:
        g = math.gcd(g, x)
    a = c.ex.address(st, p)
    st.assume(eq(tm.mod(a, I(16)), I(0)))
    c.ex.assumed.add('operator new[] returns memory aligned to 16 bytes')
    c.ex.assumed.add('std::align behaves as specified by the C++ standard')
    k = tm.fresh('pad', 'I')
    d = mul(k, I(g))
    aq = tm.fresh('alq', 'I')
    st.assume(And(ge(k, I(0)), lt(d, align), eq(add(a, d), mul(aq, align))))
    fits = le(add(size, d), space)
    c.case(Not(fits)).ret(NULL)
    o = c.case(fits)
    q = p.plus(d)
    es = g
    o.st.assume(tm.uf('multiple', (add(a, d), align), 'B'))
    for es_ in (4, 8):
        # a multiple of al*sizeof(element) is what checkAlignment accepts for al
        q_ = tm.divexact(align, es_)
        if q_ is not None:
            o.st.assume(tm.uf('aligned', (add(a, d), q_, I(es_)), 'B'))
    o.put(pref, PTR, q)
    o.put(sref, I64, sub(space, d))
    o.ret(q)


def use_lib(v):
    v.contract(r'^visr::efl::alignmentIsPowerOfTwo\(', spec_pow2, 'efl::alignmentIsPowerOfTwo')
    v.contract(r'^visr::efl::nextAlignedSize\(', spec_next, 'efl::nextAlignedSize')
    v.contract(r'^std::align\(', spec_align, 'std::align (assumed)')


def is_pow2(x):
    return tm.uf('ispow2', (x,), 'B')


class Arr:
    """AlignedArray object in an arbitrary valid state"""

    def __init__(self, v, name, t, lay, obj=None, n=None, al=None, null=False):
        self.v, self.t = v, t
        es = ES[t]
        self.o = obj or Obj(v, name, 'visr::efl::AlignedArray<%s>' % t, lay)
        self.n = I(0) if null else (n if n is not None else v.int(name + '_length', 1))
        self.al = al if al is not None else v.int(name + '_alignment', 1, 1 << 32)
        st = v.st
        st.assume(is_pow2(self.al))
        self.o.set('mAlignment', self.al)
        self.o.set('mLength', self.n)
        if null:
            self.o.set('mRawStorage', NULL, PTR)
            self.o.set('mAlignedStorage', NULL, PTR)
            self.reg = None
            self.data = NULL
            return
        so = SO.get(t)
        d = v.int(name + '_pad', 0, 1 << 32)
        leaf = es if so else es // 2
        ls = so or {'std::complex<float>': 'f', 'std::complex<double>': 'd'}[t]
        nn = self.n
        self.reg = Region(name + '_storage', esize=es, leaf=leaf, leafsort=ls, extent=lambda i: And(ge(i, d), lt(i, add(d, nn))), align=16)
        v.reg(self.reg)
        self.data = self.reg.at(d)
        self.d = d
        st.assume(tm.uf('multiple', (v.ex.address(st, self.data), mul(self.al, I(es))), 'B'))
        self.o.set('mRawStorage', self.reg.ptr(), PTR)
        self.o.set('mAlignedStorage', self.data, PTR)


def valid_array(v, st, o, t, want_len, want_al, label=''):
    """obligations: class invariant of AlignedArray with the given length and alignment -> data pointer"""
    es = ES[t]
    ln = st.u(o.get('mLength', I64, st), 64)
    al = st.u(o.get('mAlignment', I64, st), 64)
    v.oblige(st, label + 'length', eq(ln, want_len))
    v.oblige(st, label + 'alignment', eq(al, want_al))
    raw = st.resolve(o.get('mRawStorage', PTR, st))
    data = st.resolve(o.get('mAlignedStorage', PTR, st))
    if raw.reg is None:
        v.oblige(st, label + 'no storage only for length zero', eq(want_len, I(0)))
        v.oblige(st, label + 'null data for null storage', tm.B(data.reg is None))
        return None
    v.oblige(st, label + 'data lies in the owned storage', tm.B(data.reg is raw.reg))
    v.oblige(st, label + 'storage not freed', tm.B(raw.reg.id not in st.freed))
    v.oblige(st, label + 'owned pointer is the start of the allocation', eq(raw.off, I(0)))
    if data.reg is not raw.reg:
        return None
    b = getattr(raw.reg, 'bytes', None)
    if b is None and raw.reg.size is not None:
        b = I(raw.reg.size)
    if b is not None:
        v.oblige(st, label + 'length elements fit into the allocation', And(ge(data.off, I(0)), le(add(data.off, mul(want_len, I(es))), b)))
    v.oblige(st, label + 'data address is a multiple of alignment*sizeof(element)',
             tm.uf('multiple', (v.ex.address(st, data), mul(want_al, I(es))), 'B'))
    return data


def only(v, ends, kind):
    out = []
    for e in ends:
        if e.kind != kind:
            v.oblige(e.st, 'outcome: %s instead of %s' % (e.kind, kind), FALSE)
        else:
            out.append(e)
    return out


def split_ends(v, ends, cond, kind_if, what):
    """ends must throw exactly when cond holds -> normal ends"""
    out = []
    for e in ends:
        if e.kind == 'throw':
            v.oblige(e.st, what + ': throws only if required', cond)
        else:
            v.oblige(e.st, what + ': throws if required', Not(cond))
            out.append(e)
    return out


def unit_array_ctor(t):
    v = V([TU], 'AlignedArray<%s>(length, alignment)' % t)
    use_lib(v)
    lay = Lay(TU)
    o = Obj(v, 'array', 'visr::efl::AlignedArray<%s>' % t, lay)
    n, al = v.int('length', 0), v.int('alignment', 0, 1 << 32)
    f = v.find(r'^visr::efl::AlignedArray<%s>::AlignedArray\(unsigned long, unsigned long\)' % PAT(t))
    a1 = ite(eq(al, I(0)), I(1), al)
    for e in split_ends(v, v.call(f, [o.ptr(), n, al]), Not(Or(eq(al, I(0)), is_pow2(al))), 'throw', 'alignment not a power of two'):
        valid_array(v, e.st, o, t, n, a1)
    return v


def unit_array_resize(t, null):
    v = V([TU], 'AlignedArray<%s>::resize%s' % (t, ' (empty)' if null else ''))
    use_lib(v)
    lay = Lay(TU)
    a = Arr(v, 'array', t, lay, null=null)
    n = v.int('newLength', 0)
    f = v.find(r'^visr::efl::AlignedArray<%s>::resize\(' % PAT(t))
    for e in only(v, v.call(f, [a.o.ptr(), n]), 'ret'):
        valid_array(v, e.st, a.o, t, n, a.al)
        if a.reg is not None:
            v.oblige(e.st, 'previous storage released', tm.B(a.reg.id in e.st.freed))
    return v


def unit_array_swap(t):
    v = V([TU], 'AlignedArray<%s>::swap' % t)
    use_lib(v)
    lay = Lay(TU)
    a, b = Arr(v, 'a', t, lay), Arr(v, 'b', t, lay)
    f = v.find(r'^visr::efl::AlignedArray<%s>::swap\(' % PAT(t))

    def spec(c, p, q):
        c.case(ne(a.al, b.al)).throw('_ZTISt11logic_error')
        o = c.case(eq(a.al, b.al))
        for x, y in ((a, b), (b, a)):
            o.put(x.o.p('mLength'), I64, y.n)
            o.put(x.o.p('mRawStorage'), PTR, y.reg.ptr())
            o.put(x.o.p('mAlignedStorage'), PTR, y.data)
    v.check(f, spec, [a.o.ptr(), b.o.ptr()])
    return v


def unit_array_move(t, assign):
    v = V([TU], 'AlignedArray<%s> move %s' % (t, 'assignment' if assign else 'construction'))
    use_lib(v)
    lay = Lay(TU)
    b = Arr(v, 'source', t, lay)
    if assign:
        a = Arr(v, 'target', t, lay)
        f = v.find(r'^visr::efl::AlignedArray<%s>::operator=\(' % PAT(t))
        ends = split_ends(v, v.call(f, [a.o.ptr(), b.o.ptr()]), ne(a.al, b.al), 'throw', 'different alignment')
        tgt = a.o
    else:
        tgt = Obj(v, 'target', 'visr::efl::AlignedArray<%s>' % t, lay)
        f = v.find(r'^visr::efl::AlignedArray<%s>::AlignedArray\(visr::efl::AlignedArray<' % PAT(t))
        ends = only(v, v.call(f, [tgt.ptr(), b.o.ptr()]), 'ret')
    for e in ends:
        st = e.st
        v.oblige(st, 'target takes the length', eq(tgt.get('mLength', I64, st), b.n))
        v.same(st, 'target takes the storage', st.resolve(tgt.get('mRawStorage', PTR, st)), b.reg.ptr())
        v.same(st, 'target takes the data', st.resolve(tgt.get('mAlignedStorage', PTR, st)), b.data)
        v.oblige(st, 'source left without storage', tm.B(st.resolve(b.o.get('mRawStorage', PTR, st)).reg is None))
        v.oblige(st, 'source left empty', eq(b.o.get('mLength', I64, st), I(0)))
        v.oblige(st, 'storage kept alive', tm.B(b.reg.id not in st.freed))
        if assign:
            v.oblige(st, 'previous storage released', tm.B(a.reg.id in st.freed))
    return v


def unit_array_at(t):
    v = V([TU], 'AlignedArray<%s>::at' % t)
    use_lib(v)
    a = Arr(v, 'array', t, Lay(TU))
    for f in v.find(r'^visr::efl::AlignedArray<%s>::at\(unsigned long\)' % PAT(t), unique=False):
        i = v.int('index', 0, 1 << 62)
        for e in split_ends(v, v.call(f, [a.o.ptr(), i]), ge(i, a.n), 'throw', 'index out of range'):
            v.same(e.st, 'element address', e.val, a.data.plus(mul(i, I(ES[t]))))
    return v


# ---------------------------------------------------------------- BasicVector
def vec(v, name, t, lay, **k):
    o = Obj(v, name, 'visr::efl::BasicVector<%s>' % t, lay)
    a = Arr(v, name, t, lay, obj=o.sub('mData'), **k)
    return o, a


def kernels(v, t):
    """vectorZero/Fill/Copy by contract, whatever implementation is selected"""
    from . import efl
    so = SO[t]
    for k in ('vectorZero', 'vectorFill', 'vectorCopy'):
        def spec(c, *args, k=k):
            # storage with known alignment: 'multiple' implies that checkAlignment accepts
            roles, _ = efl.KER[k]
            al = c.st.u(args[roles.index('al')], 64)
            efl.spec_kernel(k, so)(c, *args)
        v.contract(r'visr::efl::%s<%s>\(' % (k, t), spec, 'efl::' + k)


def content_zero(v, st, data, n, t, label):
    so = SO[t]
    i = tm.fresh('idx', 'I')
    s = st.copy()
    s.assume(And(ge(i, I(0)), lt(i, n)))
    if not s.feasible():
        return
    x = s.read_at(data.plus(mul(i, I(ES[t]))), FTY[so], (), check=False)
    v.same(s, label, x, fnum(0.0, so), FTY[so])


def unit_vector_resize(t, ctor):
    v = V([TU], 'BasicVector<%s>%s' % (t, '(size, alignment)' if ctor else '::resize'))
    use_lib(v)
    kernels(v, t)
    lay = Lay(TU)
    n = v.int('newSize', 0)
    if ctor:
        o = Obj(v, 'vector', 'visr::efl::BasicVector<%s>' % t, lay)
        al = v.int('alignment', 1, 1 << 32)
        f = v.find(r'^visr::efl::BasicVector<%s>::BasicVector\(unsigned long, unsigned long\)' % t)
        ends = split_ends(v, v.call(f, [o.ptr(), n, al]), Not(is_pow2(al)), 'throw', 'alignment not a power of two')
    else:
        o, a = vec(v, 'vector', t, lay)
        al = a.al
        f = v.find(r'^visr::efl::BasicVector<%s>::resize\(' % t)
        ends = only(v, v.call(f, [o.ptr(), n]), 'ret')
    for e in ends:
        data = valid_array(v, e.st, o.sub('mData'), t, n, al)
        if data is not None:
            content_zero(v, e.st, data, n, t, 'every element is zero')
        if not ctor:
            v.oblige(e.st, 'previous storage released', tm.B(a.reg.id in e.st.freed))
    return v


def unit_vector_fill(t, zero):
    v = V([TU], 'BasicVector<%s>::%s' % (t, 'zeroFill' if zero else 'fillValue'))
    use_lib(v)
    kernels(v, t)
    o, a = vec(v, 'vector', t, Lay(TU))
    x = v.flt('val', SO[t])

    def spec(c, *args):
        c.case().fill(a.data, a.n, FTY[SO[t]], lambda i: fnum(0.0, SO[t]) if zero else x)
    v.check(v.find(r'^visr::efl::BasicVector<%s>::%s\(' % (t, 'zeroFill' if zero else 'fillValue')), spec, [o.ptr()] + ([] if zero else [x]))
    return v


def min_alignment_ok(v, *arrs):
    """an address that is a multiple of a*s is accepted by checkAlignment for every power of two up to a"""
    st = v.st
    als = [a.al for a in arrs]
    mn = ite(le(als[0], als[1]), als[0], als[1])
    for a in arrs:
        ad = v.ex.address(st, a.data)
        for x in als + [mn]:
            st.assume(Implies(le(x, a.al), tm.uf('aligned', (ad, x, I(ES[a.t])), 'B')))
    v.ex.assumed.add('a multiple of a larger power of two is a multiple of a smaller one')


def unit_vector_copy(t, assign=False):
    v = V([TU], 'BasicVector<%s>::%s' % (t, 'assign' if assign else 'copy'))
    use_lib(v)
    kernels(v, t)
    lay = Lay(TU)
    o, a = vec(v, 'target', t, lay)
    o2, b = vec(v, 'source', t, lay)
    min_alignment_ok(v, a, b)
    ty = FTY[SO[t]]
    b.reg.readonly = True
    if assign:
        f = v.find(r'^visr::efl::BasicVector<%s>::assign\(' % t)
        v.st.assume(eq(a.n, b.n))
        ends = only(v, v.call(f, [o.ptr(), o2.ptr()]), 'ret')
        for e in ends:
            i = tm.fresh('idx', 'I')
            s = e.st.copy()
            s.assume(And(ge(i, I(0)), lt(i, b.n)))
            data = valid_array(v, e.st, o.sub('mData'), t, b.n, a.al)
            x = s.read_at(data.plus(mul(i, I(ES[t]))), ty, (), check=False)
            y = v.st.read_at(b.data.plus(mul(i, I(ES[t]))), ty, (), check=False)
            v.same(s, 'element copied', x, y, ty)
        return v

    def spec(c, *args):
        c.case(ne(a.n, b.n)).throw('_ZTISt16invalid_argument')
        q = c.case(eq(a.n, b.n))
        q.fill(a.data, a.n, ty, lambda i: c.rd(b.data.plus(mul(i, I(ES[t]))), ty))
    v.check(v.find(r'^visr::efl::BasicVector<%s>::copy\(' % t), spec, [o.ptr(), o2.ptr()])
    return v


# ---------------------------------------------------------------- BasicMatrix
class Mat:
    """BasicMatrix in an arbitrary valid state (rows x stride block)"""

    def __init__(self, v, name, t, lay, al=None, obj=None, rows=None, cols=None, stride=None):
        self.v, self.t = v, t
        es = ES[t]
        self.o = obj or Obj(v, name, 'visr::efl::BasicMatrix<%s>' % t, lay)
        self.rows = rows if rows is not None else v.int(name + '_rows', 1, 1 << 20)
        self.cols = cols if cols is not None else v.int(name + '_cols', 1, 1 << 20)
        self.stride = stride if stride is not None else v.int(name + '_stride', 1, 1 << 21)
        self.al = al if al is not None else v.int(name + '_alignment', 1, 1 << 20)
        st = v.st
        st.assume(And(is_pow2(self.al), ge(self.stride, self.cols)))
        so = SO[t]
        rows, stride = self.rows, self.stride
        self.reg = Region(name + '_storage', nmem=1, esize=es, leaf=es, leafsort=so, pitch=stride, align=16,
                          extent=lambda i, j: And(ge(i, I(0)), lt(i, rows), ge(j, I(0)), lt(j, stride)))
        v.reg(self.reg)
        self.data = Ptr(self.reg, (I(0),), 0)
        for f, x in (('mStride', stride), ('mNumberOfRows', rows), ('mNumberOfColumns', self.cols), ('mData.mLength', mul(rows, stride)), ('mData.mAlignment', self.al)):
            self.o.set(f, x)
        self.o.set('mData.mRawStorage', self.data, PTR)
        self.o.set('mData.mAlignedStorage', self.data, PTR)


def unit_matrix_access(t):
    v = V([TU], 'BasicMatrix<%s> element access' % t)
    use_lib(v)
    m = Mat(v, 'matrix', t, Lay(TU))
    i, j = v.int('rowIdx', 0, 1 << 40), v.int('colIdx', 0, 1 << 40)
    el = lambda a, b: Ptr(m.reg, (a,), mul(b, I(ES[t])))
    for f in v.find(r'^visr::efl::BasicMatrix<%s>::at\(' % t, unique=False):
        for e in split_ends(v, v.call(f, [m.o.ptr(), i, j]), Or(ge(i, m.rows), ge(j, m.cols)), 'throw', 'index out of range'):
            ptr_same(v, e.st, 'element address', e.val, i, j, m)
    for f in v.find(r'^visr::efl::BasicMatrix<%s>::operator\(\)\(' % t, unique=False):
        for e in only(v, v.call(f, [m.o.ptr(), i, j]), 'ret'):
            ptr_same(v, e.st, 'element address', e.val, i, j, m)
    for f in v.find(r'^visr::efl::BasicMatrix<%s>::row\(' % t, unique=False):
        for e in only(v, v.call(f, [m.o.ptr(), i]), 'ret'):
            ptr_same(v, e.st, 'row address', e.val, i, I(0), m)
    for nm, x in (('stride', m.stride), ('numberOfRows', m.rows), ('numberOfColumns', m.cols), ('alignmentElements', m.al)):
        for e in only(v, v.call(v.find(r'^visr::efl::BasicMatrix<%s>::%s\(' % (t, nm)), [m.o.ptr()]), 'ret'):
            v.oblige(e.st, nm, eq(e.val, x))
    return v


def ptr_same(v, st, label, p, i, j, m):
    p = st.resolve(p)
    if p.reg is not m.reg:
        v.oblige(st, label, FALSE)
        return
    reg, f, key = st.locate(p, ES[m.t])
    v.oblige(st, label, And(eq(key[0], i), eq(key[1], j), tm.B(f == 0)))


def unit_matrix_set(t, row):
    v = V([TU], 'BasicMatrix<%s>::%s' % (t, 'setRow' if row else 'setColumn'))
    use_lib(v)
    kernels(v, t)
    m = Mat(v, 'matrix', t, Lay(TU))
    so = SO[t]
    n = m.cols if row else m.rows
    vals = v.array('values', so, n)
    x = v.int('index', 0, m.rows if row else m.cols)
    ty = FTY[so]

    def spec(c, *args):
        o = c.case()
        if row:
            o.fill(Ptr(m.reg, (x,), 0), n, ty, lambda i: c.rd(vals.at(i), ty))
        else:
            cond = And(eq(KV[1], x), ge(KV[0], I(0)), lt(KV[0], m.rows))
            o.st.setlog(m.reg, 0, o.st.log(m.reg, 0) + (Upd(ES[t], cond, c.rd(vals.at(KV[0]), ty)),))
    v.check(v.find(r'^visr::efl::BasicMatrix<%s>::%s\(' % (t, 'setRow' if row else 'setColumn')), spec, [m.o.ptr(), x, vals.ptr()])
    return v


def unit_matrix_ctor(t, ctor):
    v = V([TU], 'BasicMatrix<%s>%s' % (t, '(rows, columns, alignment)' if ctor else '::resize'))
    use_lib(v)
    kernels(v, t)
    lay = Lay(TU)
    r, c_ = v.int('rows', 0, 1 << 20), v.int('columns', 0, 1 << 20)
    if ctor:
        o = Obj(v, 'matrix', 'visr::efl::BasicMatrix<%s>' % t, lay)
        al = v.int('alignment', 1, 1 << 20)
        v.st.assume(is_pow2(al))
        f = v.find(r'^visr::efl::BasicMatrix<%s>::BasicMatrix\(unsigned long, unsigned long, unsigned long\)' % t)
        ends = only(v, v.call(f, [o.ptr(), r, c_, al]), 'ret')
    else:
        m = Mat(v, 'matrix', t, lay)
        o, al = m.o, m.al
        # the old storage is one allocation
        f = v.find(r'^visr::efl::BasicMatrix<%s>::resize\(' % t)
        ends = only(v, v.call(f, [o.ptr(), r, c_]), 'ret')
    for e in ends:
        st = e.st
        sr = st.u(o.get('mStride', I64, st), 64)
        v.oblige(st, 'rows', eq(o.get('mNumberOfRows', I64, st), r))
        v.oblige(st, 'columns', eq(o.get('mNumberOfColumns', I64, st), c_))
        v.oblige(st, 'stride not smaller than the number of columns', ge(sr, c_))
        v.oblige(st, 'stride is a multiple of the alignment', eq(sr, mul(tm.uf('nextq', (c_, al), 'I'), al)))
        data = valid_array(v, st, o.sub('mData'), t, mul(sr, r), al)
        if data is not None:
            i, j = tm.fresh('row', 'I'), tm.fresh('col', 'I')
            s = st.copy()
            s.assume(And(ge(i, I(0)), lt(i, r), ge(j, I(0)), lt(j, c_)))
            # lemma: i*stride + j < rows*stride
            off = add(mul(i, sr), j)
            s.assume(And(ge(off, I(0)), lt(off, mul(sr, r)), ge(mul(i, sr), I(0)), le(mul(add(i, I(1)), sr), mul(r, sr))))
            x = s.read_at(data.plus(mul(off, I(ES[t]))), FTY[SO[t]], (), check=False)
            v.same(s, 'every element is zero', x, fnum(0.0, SO[t]), FTY[SO[t]])
    return v


def unit_matrix_copy(t):
    v = V([TU], 'BasicMatrix<%s>::copy' % t)
    use_lib(v)
    lay = Lay(TU)
    a, b = Mat(v, 'target', t, lay), Mat(v, 'source', t, lay)
    so, es = SO[t], ES[t]
    ty = FTY[so]
    b.reg.readonly = True

    def copyspec(c, src, dst, n, al):
        # contract of efl::vectorCopy on (parts of) matrix storage; alignment of rows is a separate obligation
        st = c.st
        src, dst, n, al = st.resolve(src), st.resolve(dst), st.u(n, 64), st.u(al, 64)
        c.ex.oblige(st, 'alignment claimed for the copy is not larger than that of either matrix', And(le(al, a.al), le(al, b.al)))
        o = c.case()
        whole = eq(n, mul(a.rows, a.stride))
        if st.proves(And(eq(n, mul(a.rows, a.stride)), eq(a.stride, b.stride))):
            c.ex.oblige(st, 'copy of the whole storage starts at the beginning', And(*[eq(x, I(0)) for x in (src.off, dst.off, src.mem[0], dst.mem[0])]))
            cond = And(ge(KV[0], I(0)), lt(KV[0], a.rows), ge(KV[1], I(0)), lt(KV[1], a.stride))
            val = c.st.read_at(Ptr(b.reg, (KV[0],), mul(KV[1], I(es))), ty, (cond,), check=False)
            o.st.setlog(a.reg, 0, o.st.log(a.reg, 0) + (Upd(es, cond, val),))
        else:
            o.fill(dst, n, ty, lambda i: c.st.read_at(src.plus(mul(i, I(es))), ty, (ge(i, I(0)), lt(i, n)), what='copy'))
        o.ret(I(0))
    v.contract(r'visr::efl::vectorCopy<%s>\(' % t, copyspec, 'efl::vectorCopy')
    f = v.find(r'^visr::efl::BasicMatrix<%s>::copy\(' % t)
    bad = Or(ne(a.rows, b.rows), ne(a.cols, b.cols))
    for e in split_ends(v, v.call(f, [a.o.ptr(), b.o.ptr()]), bad, 'throw', 'different size'):
        i, j = tm.fresh('row', 'I'), tm.fresh('col', 'I')
        s = e.st.copy()
        s.assume(And(ge(i, I(0)), lt(i, a.rows), ge(j, I(0)), lt(j, a.cols)))
        x = s.read_at(Ptr(a.reg, (i,), mul(j, I(es))), ty, (), check=False)
        y = v.st.read_at(Ptr(b.reg, (i,), mul(j, I(es))), ty, (), check=False)
        v.same(s, 'element copied', x, y, ty)
    return v


def unit_matrix_fill(t, zero):
    v = V([TU], 'BasicMatrix<%s>::%s' % (t, 'zeroFill' if zero else 'fillValue'))
    use_lib(v)
    m = Mat(v, 'matrix', t, Lay(TU))
    so, es = SO[t], ES[t]
    x = v.flt('val', so)

    def fillspec(zero_):
        def spec(c, *args):
            val = fnum(0.0, so) if zero_ else args[0]
            p, n, al = args[-3:]
            st = c.st
            p = st.resolve(p)
            c.ex.oblige(st, 'fills exactly the storage', And(eq(st.u(n, 64), mul(m.rows, m.stride)), eq(p.off, I(0)), eq(p.mem[0], I(0))))
            o = c.case()
            cond = And(ge(KV[0], I(0)), lt(KV[0], m.rows), ge(KV[1], I(0)), lt(KV[1], m.stride))
            o.st.setlog(m.reg, 0, o.st.log(m.reg, 0) + (Upd(es, cond, val),))
            o.ret(I(0))
        return spec
    v.contract(r'visr::efl::vectorZero<%s>\(' % t, fillspec(True), 'efl::vectorZero')
    v.contract(r'visr::efl::vectorFill<%s>\(' % t, fillspec(False), 'efl::vectorFill')
    f = v.find(r'^visr::efl::BasicMatrix<%s>::%s\(' % (t, 'zeroFill' if zero else 'fillValue'))
    for e in only(v, v.call(f, [m.o.ptr()] + ([] if zero else [x])), 'ret'):
        i, j = tm.fresh('row', 'I'), tm.fresh('col', 'I')
        s = e.st.copy()
        s.assume(And(ge(i, I(0)), lt(i, m.rows), ge(j, I(0)), lt(j, m.cols)))
        v.same(s, 'every element has the value', s.read_at(Ptr(m.reg, (i,), mul(j, I(es))), FTY[so], (), check=False), fnum(0.0, so) if zero else x, FTY[so])
    return v


def unit_matrix_swap(t):
    v = V([TU], 'BasicMatrix<%s>::swap' % t)
    use_lib(v)
    lay = Lay(TU)
    a, b = Mat(v, 'a', t, lay), Mat(v, 'b', t, lay)

    def spec(c, p, q):
        same = And(eq(a.rows, b.rows), eq(a.cols, b.cols), eq(a.stride, b.stride), eq(a.al, b.al))
        c.case(Not(same)).throw('_ZTISt11logic_error')
        o = c.case(same)
        for x, y in ((a, b), (b, a)):
            o.put(x.o.p('mData.mRawStorage'), PTR, y.data)
            o.put(x.o.p('mData.mAlignedStorage'), PTR, y.data)
            o.put(x.o.p('mData.mLength'), I64, mul(y.rows, y.stride))
    v.check(v.find(r'^visr::efl::BasicMatrix<%s>::swap\(' % t), spec, [a.o.ptr(), b.o.ptr()])
    return v


def unit_matrix_move(t):
    v = V([TU], 'BasicMatrix<%s> move assignment' % t)
    use_lib(v)
    lay = Lay(TU)
    a, b = Mat(v, 'target', t, lay), Mat(v, 'source', t, lay)
    f = v.find(r'^visr::efl::BasicMatrix<%s>::operator=\(' % t)
    for e in v.call(f, [a.o.ptr(), b.o.ptr()]):
        st = e.st
        thrown = e.kind == 'throw'
        v.oblige(st, 'different alignment: throws %s' % ('only if required' if thrown else 'if required'), ne(a.al, b.al) if thrown else eq(a.al, b.al))
        src = a if thrown else b
        w = 'target keeps ' if thrown else 'target takes '
        for fl, x in (('mStride', src.stride), ('mNumberOfRows', src.rows), ('mNumberOfColumns', src.cols), ('mData.mLength', mul(src.rows, src.stride))):
            v.oblige(st, w + fl, eq(a.o.get(fl, I64, st), x))
        for fl in ('mData.mRawStorage', 'mData.mAlignedStorage'):
            v.same(st, w + fl, st.resolve(a.o.get(fl, PTR, st)), src.data)
    return v


def lemma_rows():
    """every row starts at an address that is a multiple of alignment*sizeof"""
    v = V([TU], 'lemma: every row of an aligned matrix is aligned')
    base, al, es, q, t, i = [v.int(x, 0, 1 << 20) for x in ('base', 'al', 'es', 'q', 't', 'i')]
    v.functions.add('lemma over the contracts of BasicMatrix')
    # data = al*es*q, stride = al*t  =>  data + i*stride*es = al*es*(q + i*t)
    v.oblige(v.st, 'row address is a multiple of alignment*sizeof', eq(add(mul(mul(al, es), q), mul(mul(i, mul(al, t)), es)), mul(mul(al, es), add(q, mul(i, t)))))
    v.ends = 1
    return v


def units(sel=None):
    out = [('pow2', unit_pow2), ('nextAlignedSize', unit_next), ('lemma rows', lemma_rows)]
    for t in ('float', 'double', 'std::complex<float>', 'std::complex<double>', 'signed char', 'short'):
        out.append(('checkAlignment<%s>' % t, lambda t=t: unit_checkAlignment(t)))
    for t in ('float', 'double', 'std::complex<float>', 'std::complex<double>'):
        out += [('AlignedArray<%s> ctor' % t, lambda t=t: unit_array_ctor(t)),
                ('AlignedArray<%s> resize' % t, lambda t=t: unit_array_resize(t, False)),
                ('AlignedArray<%s> resize empty' % t, lambda t=t: unit_array_resize(t, True)),
                ('AlignedArray<%s> swap' % t, lambda t=t: unit_array_swap(t)),
                ('AlignedArray<%s> move ctor' % t, lambda t=t: unit_array_move(t, False)),
                ('AlignedArray<%s> move assign' % t, lambda t=t: unit_array_move(t, True)),
                ('AlignedArray<%s> at' % t, lambda t=t: unit_array_at(t))]
    for t in ('float', 'double'):
        out += [('BasicVector<%s> ctor' % t, lambda t=t: unit_vector_resize(t, True)),
                ('BasicVector<%s> resize' % t, lambda t=t: unit_vector_resize(t, False)),
                ('BasicVector<%s> zeroFill' % t, lambda t=t: unit_vector_fill(t, True)),
                ('BasicVector<%s> fillValue' % t, lambda t=t: unit_vector_fill(t, False)),
                ('BasicVector<%s> copy' % t, lambda t=t: unit_vector_copy(t)),
                ('BasicVector<%s> assign' % t, lambda t=t: unit_vector_copy(t, True)),
                ('BasicMatrix<%s> access' % t, lambda t=t: unit_matrix_access(t)),
                ('BasicMatrix<%s> setRow' % t, lambda t=t: unit_matrix_set(t, True)),
                ('BasicMatrix<%s> setColumn' % t, lambda t=t: unit_matrix_set(t, False)),
                ('BasicMatrix<%s> ctor' % t, lambda t=t: unit_matrix_ctor(t, True)),
                ('BasicMatrix<%s> resize' % t, lambda t=t: unit_matrix_ctor(t, False)),
                ('BasicMatrix<%s> copy' % t, lambda t=t: unit_matrix_copy(t)),
                ('BasicMatrix<%s> zeroFill' % t, lambda t=t: unit_matrix_fill(t, True)),
                ('BasicMatrix<%s> fillValue' % t, lambda t=t: unit_matrix_fill(t, False)),
                ('BasicMatrix<%s> move assign' % t, lambda t=t: unit_matrix_move(t)),
                ('BasicMatrix<%s> swap' % t, lambda t=t: unit_matrix_swap(t))]
    return out
