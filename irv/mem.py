"""Values and memory: pointers are (region, member indices, byte offset); array
contents are functions given by a log of guarded updates over key variables."""
from . import terms as tm
from .terms import T, I, add, sub, mul, eq, And, Or, Not, ite, TRUE, FALSE


class Unsupported(Exception):
    pass


class NeedSplit(Exception):
    def __init__(self, cond):
        self.cond = cond


class UndefT:
    def __repr__(self):
        return 'undef'


UNDEF = UndefT()


class ZeroT:
    """polymorphic all-zero bytes"""

    def __repr__(self):
        return 'zero'


ZEROV = ZeroT()


class Ptr:
    __slots__ = ('reg', 'mem', 'off')

    def __init__(self, reg, mem, off):
        self.reg = reg
        self.mem = tuple(mem)
        self.off = off if isinstance(off, T) else I(off)

    def __repr__(self):
        return '&%s%s+%s' % (self.reg.name if self.reg else 'null', list(self.mem) if self.mem else '', self.off)

    def plus(self, d):
        return Ptr(self.reg, self.mem, add(self.off, d if isinstance(d, T) else I(d)))


NULL = Ptr(None, (), 0)


class PIte:
    """guarded choice between two non-term values"""
    __slots__ = ('c', 'a', 'b')

    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b

    def __repr__(self):
        return 'pite(%s,%s,%s)' % (self.c, self.a, self.b)


class Fn:
    """function address"""
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return 'fn:' + self.name


class Bits:
    """integer whose bit pattern is that of a float term"""
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return 'bits(%r)' % self.t


class Concat:
    """wide integer made of consecutive parts: list of (size, value)"""
    __slots__ = ('parts',)

    def __init__(self, parts):
        self.parts = parts


class Opaque:
    """value of an unmodelled library call"""
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return 'opaque:' + self.name


_reg = [0]
KV = [tm.var('#x%d' % i, 'I') for i in range(6)]


class Region:
    def __init__(self, name, nmem=0, esize=None, leaf=None, leafsort=None, extent=None, size=None, base='uf', ptrs=None,
                 signed=(), align=16, pitch=None, member_ok=None, local=False):
        _reg[0] += 1
        self.id = _reg[0]
        self.name = name
        self.nmem = nmem
        self.esize = esize
        self.leaf = leaf
        self.leafsort = leafsort    # 'f','d','i'
        self.extent = extent        # fn(*key) -> Bool : key is addressable
        self.size = size
        self.base = base
        self.ptrs = ptrs or {}
        self.signed = signed        # set of field offsets / True
        self.align = align
        self.pitch = pitch          # (elements) row pitch of a matrix laid out flat
        self.local = local
        self.pitchmul = 1           # elements per unit of pitch
        self.pitches = None         # (row, column) pitch in elements of a strided matrix, key (row, column, 0)
        self.readonly = False
        self.bounds = {}            # field -> (lo, hi) of integer contents

    def nkey(self):
        return self.nmem + (1 if self.esize else 0)

    def __repr__(self):
        return 'R:%s' % self.name

    def ptr(self, off=0, mem=()):
        return Ptr(self, mem, off)

    def at(self, idx, mem=()):
        """pointer to element idx"""
        return Ptr(self, mem, mul(idx if isinstance(idx, T) else I(idx), I(self.esize)))


class Upd:
    __slots__ = ('size', 'cond', 'val', 'site')

    def __init__(self, size, cond, val, site=None):
        self.size, self.cond, self.val, self.site = size, cond, val, site

    def __repr__(self):
        return 'Upd(%s -> %s)' % (self.cond, self.val)


def vsubst(v, m, memo=None):
    if isinstance(v, T):
        return tm.subst(v, m, memo)
    if isinstance(v, Ptr):
        return Ptr(v.reg, [tm.subst(x, m, memo) for x in v.mem], tm.subst(v.off, m, memo))
    if isinstance(v, PIte):
        c = tm.subst(v.c, m, memo)
        if c is TRUE:
            return vsubst(v.a, m, memo)
        if c is FALSE:
            return vsubst(v.b, m, memo)
        return PIte(c, vsubst(v.a, m, memo), vsubst(v.b, m, memo))
    if isinstance(v, list):
        return [vsubst(x, m, memo) for x in v]
    if isinstance(v, Bits):
        return Bits(tm.subst(v.t, m, memo))
    if isinstance(v, Concat):
        return Concat([(s, vsubst(x, m, memo)) for s, x in v.parts])
    return v


def vfvs(v):
    if isinstance(v, T):
        return tm.fvs(v)
    if isinstance(v, Ptr):
        r = tm.fvs(v.off)
        for x in v.mem:
            r = r | tm.fvs(x)
        return r
    if isinstance(v, PIte):
        return tm.fvs(v.c) | vfvs(v.a) | vfvs(v.b)
    if isinstance(v, list):
        r = frozenset()
        for x in v:
            r = r | vfvs(x)
        return r
    if isinstance(v, Bits):
        return tm.fvs(v.t)
    if isinstance(v, Concat):
        r = frozenset()
        for s, x in v.parts:
            r = r | vfvs(x)
        return r
    return frozenset()


def vsame(a, b):
    if a is b:
        return True
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        return a.reg is b.reg and a.off is b.off and a.mem == b.mem
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(vsame(x, y) for x, y in zip(a, b))
    if isinstance(a, Fn) and isinstance(b, Fn):
        return a.name == b.name
    if isinstance(a, Bits) and isinstance(b, Bits):
        return a.t is b.t
    return False


def vite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if vsame(a, b):
        return a
    if isinstance(a, T) and isinstance(b, T) and a.sort == b.sort:
        return ite(c, a, b)
    if a is ZEROV and isinstance(b, T):
        return ite(c, zero_of(b.sort), b)
    if b is ZEROV and isinstance(a, T):
        return ite(c, a, zero_of(a.sort))
    if isinstance(a, list) and isinstance(b, list) and len(a) == len(b):
        return [vite(c, x, y) for x, y in zip(a, b)]
    if isinstance(a, Ptr) and isinstance(b, Ptr) and a.reg is b.reg and a.reg is not None:
        return Ptr(a.reg, [ite(c, x, y) for x, y in zip(a.mem, b.mem)], ite(c, a.off, b.off))
    if isinstance(a, Bits) and isinstance(b, Bits):
        return Bits(ite(c, a.t, b.t))
    return PIte(c, a, b)


def zero_of(sort):
    if sort == 'I':
        return I(0)
    if sort == 'B':
        return FALSE
    return tm.fconst(0, sort)
