"""Symbolic state and memory access."""
from . import terms as tm
from . import solver
from .terms import T, I, add, sub, mul, eq, And, Or, Not, ite, TRUE, FALSE, ge, lt, le
from .mem import *

GREG = {}


def exact(x):
    return x


class State:
    __slots__ = ('pc', 'path', 'known', 'mem', 'env', 'facts', 'ghost', 'rec', 'norms', 'freed', 'ex', 'exc', 'trace')

    def __init__(self, ex):
        self.ex = ex
        self.pc = ()
        self.path = ()
        self.known = set()
        self.mem = {}
        self.env = {}
        self.facts = ()
        self.ghost = {}
        self.rec = None
        self.norms = {}
        self.freed = frozenset()
        self.exc = None
        self.trace = ()

    def copy(self):
        s = State.__new__(State)
        s.ex = self.ex
        s.pc = self.pc
        s.path = self.path
        s.known = set(self.known)
        s.mem = dict(self.mem)
        s.env = dict(self.env)
        s.facts = self.facts
        s.ghost = dict(self.ghost)
        s.rec = self.rec
        s.norms = dict(self.norms)
        s.freed = self.freed
        s.exc = self.exc
        s.trace = self.trace
        return s

    # ------------------------------------------------ logic
    def assume(self, c):
        if c is TRUE or c.id in self.known:
            return self
        if c.op == 'and':
            for x in c.args:
                self.assume(x)
            return self
        self.pc = self.pc + (c,)
        self.known.add(c.id)
        return self

    def branch(self, c):
        if c is not TRUE:
            self.path = self.path + (c,)
        self.assume(c)
        return self

    def decide(self, c):
        """True / False / None"""
        if c is TRUE:
            return True
        if c is FALSE:
            return False
        if c.id in self.known:
            return True
        n = Not(c)
        if n.id in self.known:
            return False
        k = ('d', c.id)
        r = self.norms.get(k)
        if r is not None:
            return r
        pcs = relevant(self.pc, c, self.facts)
        ck = (tuple(x.id for x in pcs), c.id, self.facts)
        r = self.ex.dcache.get(ck, 0)
        if r == 0:
            r = None
            if solver.check(pcs, c, self.facts, timeout=self.ex.decide_timeout)[0] == 'proved':
                r = True
            elif solver.check(pcs, n, self.facts, timeout=self.ex.decide_timeout)[0] == 'proved':
                r = False
            self.ex.dcache[ck] = r
        if r is not None:
            self.norms[k] = r
        return r

    def proves(self, c):
        if c is TRUE:
            return True
        if c is FALSE:
            return False
        if c.id in self.known:
            return True
        if Not(c).id in self.known:
            return False
        k = ('p', c.id)
        r = self.norms.get(k)
        if r:
            return True
        pcs = relevant(self.pc, c, self.facts)
        ck = ('p', tuple(x.id for x in pcs), c.id, self.facts)
        r = self.ex.dcache.get(ck)
        if r is None:
            r = solver.check(pcs, c, self.facts, timeout=self.ex.decide_timeout)[0] == 'proved'
            self.ex.dcache[ck] = r
        if r:
            self.norms[k] = True
        return r

    def feasible(self):
        ck = ('f', tuple(x.id for x in self.pc), self.facts)
        r = self.ex.dcache.get(ck)
        if r is None:
            r = solver.check(self.pc, FALSE, self.facts, timeout=self.ex.decide_timeout)[0] != 'proved'
            self.ex.dcache[ck] = r
        return r

    # ------------------------------------------------ lazily modular integers
    def u(self, t, w=64):
        """unsigned canonical value"""
        if t.op == 'int':
            return I(t.args[0] % (1 << w))
        k = ('u', t.id, w)
        r = self.norms.get(k)
        if r is None:
            if self.proves(And(ge(t, I(0)), lt(t, I(1 << w)))):
                r = t
            elif self.proves(And(ge(t, I(-(1 << w))), lt(t, I(0)))):
                r = add(t, 1 << w)
            else:
                r = tm.mod(t, I(1 << w))
                self.assume(And(ge(r, I(0)), lt(r, I(1 << w))))
            self.norms[k] = r
        return r

    def s(self, t, w=64):
        if t.op == 'int':
            v = t.args[0] % (1 << w)
            return I(v - (1 << w) if v >= 1 << (w - 1) else v)
        k = ('s', t.id, w)
        r = self.norms.get(k)
        if r is None:
            h = 1 << (w - 1)
            if self.proves(And(ge(t, I(-h)), lt(t, I(h)))):
                r = t
            elif self.proves(And(ge(t, I(h)), lt(t, I(2 * h)))):
                r = add(t, -2 * h)
            elif self.proves(And(ge(t, I(0)), lt(t, I(2 * h)))):
                r = ite(lt(t, I(h)), t, add(t, -2 * h))
            else:
                r = add(tm.mod(add(t, h), I(2 * h)), -h)
                self.assume(And(ge(r, I(-h)), lt(r, I(h))))
            self.norms[k] = r
        return r

    # ------------------------------------------------ pointers
    def resolve(self, p):
        """resolve guarded values, possibly by asking for a case split"""
        while isinstance(p, PIte):
            d = self.decide(p.c)
            if d is True:
                p = p.a
            elif d is False:
                p = p.b
            else:
                raise NeedSplit(p.c)
        if p is ZEROV:
            return NULL
        return p

    def locate(self, p, size):
        """-> (region, field, key)"""
        reg = p.reg
        off = p.off
        memb = p.mem
        if reg.pitches is not None:
            # off = A*rowpitch*esize + B*colpitch*esize (+ C*esize when the column pitch is 1 on this path)
            cp, sp = reg.pitches
            A, B, C = {}, {}, {}
            for m, c in tm.poly(off).items():
                for pa, D in ((cp, A), (sp, B)):
                    if pa in m and c % reg.esize == 0:
                        mm = list(m)
                        mm.remove(pa)
                        D[tuple(mm)] = D.get(tuple(mm), 0) + c // reg.esize
                        break
                else:
                    C[m] = c
            rest = tm._mk_poly(C)
            if rest is not I(0) and self.proves(eq(sp, I(1))):
                q = tm.divexact(rest, reg.esize)
                if q is None:
                    raise Unsupported('offset %s in %s' % (off, reg.name))
                return reg, 0, (add(memb[0], tm._mk_poly(A)), add(memb[1], add(tm._mk_poly(B), q)), I(0))
            memb = (add(memb[0], tm._mk_poly(A)), add(memb[1], tm._mk_poly(B)))
            off = rest
        if reg.pitch is not None:
            # off = A*pitch*esize + B
            B = {}
            A = {}
            pa = reg.pitch
            pe = reg.esize * reg.pitchmul
            for m, c in tm.poly(off).items():
                if pa in m and c % pe == 0:
                    mm = list(m)
                    mm.remove(pa)
                    A[tuple(mm)] = A.get(tuple(mm), 0) + c // pe
                else:
                    B[m] = c
            row = tm._mk_poly(A)
            off = tm._mk_poly(B)
            memb = tuple(memb[:-1]) + (add(memb[-1], row),)
        if reg.esize is None and getattr(reg, 'lazy', False):
            reg.esize = reg.leaf = size
            if getattr(reg, 'bytes', None) is not None:
                bts = reg.bytes
                reg.extent = lambda *k, n=size, b=bts: And(ge(k[-1], I(0)), le(mul(add(k[-1], 1), I(n)), b))
        if reg.esize is None:
            if off.op != 'int':
                c = find_ite(off)
                if c is not None:
                    raise NeedSplit(c)
                for pcx in self.pc:
                    pass
                raise Unsupported('symbolic offset %s into %s' % (off, reg.name))
            return reg, off.args[0], tuple(memb)
        es = reg.esize
        k0 = tm.const_of(off)
        f = k0 % es
        rest = add(off, -f)
        idx = tm.divexact(rest, es)
        if idx is None:
            c = find_ite(off)
            if c is not None:
                raise NeedSplit(c)
            raise Unsupported('offset %s not a multiple of element size %d in %s' % (off, es, reg.name))
        return reg, f, tuple(memb) + (idx,)

    # ------------------------------------------------ raw field access
    def log(self, reg, f):
        return self.mem.get(reg.id, {}).get(f, ())

    def setlog(self, reg, f, lst):
        d = dict(self.mem.get(reg.id, {}))
        d[f] = lst
        self.mem[reg.id] = d
        GREG[reg.id] = reg

    def read_field(self, reg, f, size, ty, key, conds=()):
        if self.rec is not None:
            self.rec.append((reg, f, key, self.path + tuple(conds)))
        lst = self.log(reg, f)
        m = {KV[i]: k for i, k in enumerate(key)}
        acc = []
        out = None
        st = self
        if conds:
            st = self.copy()
            st.rec = None
            for c in conds:
                st.assume(c)
        for u in reversed(lst):
            c = tm.subst(u.cond, m) if key else u.cond
            if c is not TRUE and c is not FALSE:
                d = st.decide(c)
                if d is True:
                    c = TRUE
                elif d is False:
                    c = FALSE
            if c is FALSE:
                continue
            if u.size != size:
                raise Unsupported('access size %d vs stored %d in %s+%d' % (size, u.size, reg.name, f))
            v = vsubst(u.val, m) if key else u.val
            if c is TRUE:
                out = v
                break
            acc.append((c, v))
        if out is None:
            out = self.base_read(reg, f, size, ty, key)
        for c, v in reversed(acc):
            v = coerce(v, ty)
            out = coerce(out, ty)
            out = vite(c, v, out)
        return coerce(out, ty)

    def base_read(self, reg, f, size, ty, key):
        if reg.base == 'undef':
            return UNDEF
        if reg.base == 'zero':
            return ZEROV
        if reg.base == 'const':
            return reg.const(f, size, ty, key)
        if f in reg.ptrs:
            return reg.ptrs[f](*key)
        if ty[0] == 'ptr':
            if '*' in reg.ptrs:
                return reg.ptrs['*'](f, *key)
            raise Unsupported('pointer field %s+%d has no declared target' % (reg.name, f))
        so = sort_of(ty)
        nm = '%s.%s' % (reg.name, f) if f or not reg.esize else reg.name
        if key:
            t = tm.uf(nm, key, so)
        else:
            t = tm.var(nm, so)
        if so == 'I':
            w = ty[1]
            lo, hi = reg.bounds.get(f, reg.bounds.get('*', (None, None)))
            if lo is None:
                if reg.signed is True or (reg.signed and f in reg.signed):
                    lo, hi = -(1 << (w - 1)), (1 << (w - 1)) - 1
                else:
                    lo, hi = 0, (1 << w) - 1
            if not any(v.args[0].startswith('#') for v in tm.fvs(t)):
                self.assume(And(ge(t, I(lo) if isinstance(lo, int) else lo), le(t, I(hi) if isinstance(hi, int) else hi)))
        return t

    def write_field(self, reg, f, size, key, val, site=None):
        lst = self.log(reg, f)
        if not key:
            # strong update; other overlapping cells are dropped
            d = dict(self.mem.get(reg.id, {}))
            for g in list(d):
                if g != f and d[g] and g < f + size and f < g + d[g][-1].size:
                    # partial overlap: only allowed when fully covered
                    if g >= f and g + d[g][-1].size <= f + size:
                        d[g] = ()
                        d.pop(g)
                    else:
                        # split a wide cell: keep it unsupported unless value is zero
                        if d[g][-1].val is ZEROV:
                            u = d.pop(g)[-1]
                            for o in range(g, g + u.size):
                                if not (f <= o < f + size) and o % 4 == 0:
                                    d[o] = (Upd(4, TRUE, ZEROV),)
                        elif isinstance(d[g][-1].val, UndefT):
                            d.pop(g)
                        else:
                            raise Unsupported('overlapping store %s+%d/%d over +%d/%d' % (reg.name, f, size, g, d[g][-1].size))
            d[f] = (Upd(size, TRUE, val, site),)
            self.mem[reg.id] = d
            GREG[reg.id] = reg
            return
        cond = And(*[eq(KV[i], k) for i, k in enumerate(key)])
        self.setlog(reg, f, lst + (Upd(size, cond, val, site),))

    # ------------------------------------------------ typed access
    def check_access(self, p, size, what):
        ex = self.ex
        if p.reg is None:
            ex.oblige(self, 'null-dereference:' + what, FALSE)
            raise Unsupported('null dereference')
        if p.reg.id in self.freed:
            ex.oblige(self, 'use-after-free:' + what, FALSE)

    def bounds_oblige(self, reg, f, key, size, what, conds=()):
        ex = self.ex
        if reg.extent is not None:
            ex.oblige(self, 'in-bounds(%s):%s' % (reg.name, what), reg.extent(*key), conds)
        elif reg.size is not None and not reg.esize:
            if f < 0 or f + size > reg.size:
                ex.oblige(self, 'in-bounds(%s):%s' % (reg.name, what), FALSE, conds)

    def load(self, p, ty, what=''):
        p = self.resolve(p)
        ex = self.ex
        if isinstance(p, Opaque):
            if ty[0] == 'ptr':
                return Opaque(p.name)
            raise Unsupported('load through opaque pointer ' + p.name)
        if not isinstance(p, Ptr):
            raise Unsupported('load through %r' % (p,))
        mod = ex.mod
        if ty[0] == 'vec':
            es = mod.sizeof(ty[2])
            return [self.load(p.plus(i * es), ty[2], what) for i in range(ty[1])]
        rt = mod.resolve(ty) if ty[0] == 'named' else ty
        if rt[0] == 'struct':
            lay = mod._lay(rt)[2]
            return [self.load(p.plus(o), e, what) for o, e in zip(lay, rt[1])]
        if rt[0] == 'array':
            es = mod.sizeof(rt[2])
            return [self.load(p.plus(i * es), rt[2], what) for i in range(rt[1])]
        size = mod.sizeof(ty)
        self.check_access(p, size, what)
        if isinstance(p.reg, str):
            raise Unsupported('load from ' + p.reg)
        reg = p.reg
        if reg.leaf and size > reg.leaf and size % reg.leaf == 0:
            parts = []
            for i in range(size // reg.leaf):
                q = p.plus(i * reg.leaf)
                r_, f, key = self.locate(q, reg.leaf)
                self.bounds_oblige(reg, f, key, reg.leaf, what)
                pty = leafty(reg)
                parts.append((reg.leaf, self.read_field(reg, f, reg.leaf, pty, key)))
            if all(x[1] is ZEROV for x in parts):
                return coerce(ZEROV, ty)
            return coerce(Concat(parts), ty)
        reg, f, key = self.locate(p, size)
        self.bounds_oblige(reg, f, key, size, what)
        lt_ = ty
        if reg.leafsort and size == reg.leaf and ty[0] != 'ptr':
            lt_ = leafty(reg)
        if not key:
            d = self.mem.get(reg.id, {})
            if f in d and d[f] and d[f][-1].size != size:
                return coerce(self._compose(reg, f, size, ty), ty)
            if f not in d:
                # inside a wider stored cell?
                for g in d:
                    if d[g] and g < f < g + d[g][-1].size and f + size <= g + d[g][-1].size:
                        v = d[g][-1].val
                        if v is ZEROV or v is UNDEF:
                            return coerce(v, ty)
                        if isinstance(v, Concat):
                            o = g
                            for s_, pv in v.parts:
                                if o == f and s_ == size:
                                    return coerce(pv, ty)
                                o += s_
                        raise Unsupported('sub-cell load')
                    if d[g] and f < g < f + size:
                        return coerce(self._compose(reg, f, size, ty), ty)
        v = self.read_field(reg, f, size, lt_, key)
        return coerce(v, ty)

    def _compose(self, reg, f, size, ty):
        d = self.mem.get(reg.id, {})
        u = d.get(f)
        if u and u[-1].size > size:
            v = u[-1].val
            if v is ZEROV or v is UNDEF:
                return v
            if isinstance(v, Concat):
                acc = []
                o = 0
                for s_, pv in v.parts:
                    if o < size:
                        acc.append((s_, pv))
                    o += s_
                if sum(s for s, _ in acc) == size:
                    return Concat(acc) if len(acc) > 1 else acc[0][1]
            if isinstance(v, T) and v.sort == 'I':
                return tm.mod(self.u(v, u[-1].size * 8), I(1 << (8 * size)))
            raise Unsupported('narrow load of wide cell %s+%d' % (reg.name, f))
        parts = []
        o = f
        while o < f + size:
            u = d.get(o)
            if not u:
                if reg.base == 'undef':
                    parts.append((4, UNDEF))
                    o += 4
                    continue
                if reg.base == 'uf':
                    parts.append((4, self.base_read(reg, o, 4, ('float',), ())))
                    o += 4
                    continue
                raise Unsupported('compose hole')
            parts.append((u[-1].size, u[-1].val))
            o += u[-1].size
        if all(v is ZEROV for _, v in parts):
            return ZEROV
        return Concat(parts)

    def store(self, p, ty, v, what='', site=None):
        p = self.resolve(p)
        ex = self.ex
        if isinstance(p, Opaque):
            return
        if not isinstance(p, Ptr):
            raise Unsupported('store through %r' % (p,))
        mod = ex.mod
        if ty[0] == 'vec':
            es = mod.sizeof(ty[2])
            for i in range(ty[1]):
                self.store(p.plus(i * es), ty[2], v[i] if isinstance(v, list) else v, what, site)
            return
        rt = mod.resolve(ty) if ty[0] == 'named' else ty
        if rt[0] == 'struct':
            lay = mod._lay(rt)[2]
            for i, (o, e) in enumerate(zip(lay, rt[1])):
                self.store(p.plus(o), e, v[i] if isinstance(v, list) else v, what, site)
            return
        if rt[0] == 'array':
            es = mod.sizeof(rt[2])
            for i in range(rt[1]):
                self.store(p.plus(i * es), rt[2], v[i] if isinstance(v, list) else v, what, site)
            return
        size = mod.sizeof(ty)
        self.check_access(p, size, what)
        reg = p.reg
        if reg.readonly:
            ex.oblige(self, 'frame(%s):%s' % (reg.name, what), FALSE)
        if isinstance(v, list):
            # aggregate value stored with a scalar type
            v = Concat([(size // len(v), x) for x in v])
        if reg.leaf and size > reg.leaf:
            n = size // reg.leaf
            if isinstance(v, Concat):
                parts = split_parts(v, reg.leaf)
            elif v is ZEROV or v is UNDEF or (isinstance(v, T) and v is I(0)):
                parts = [ZEROV if v is not UNDEF else UNDEF] * n
            else:
                raise Unsupported('wide store of %r into %s' % (v, reg.name))
            for i in range(n):
                q = p.plus(i * reg.leaf)
                r_, f, key = self.locate(q, reg.leaf)
                self.bounds_oblige(reg, f, key, reg.leaf, what)
                self.write_field(reg, f, reg.leaf, key, coerce(parts[i], leafty(reg)), site)
            return
        reg, f, key = self.locate(p, size)
        self.bounds_oblige(reg, f, key, size, what)
        if reg.leafsort and size == reg.leaf:
            v = coerce(v, leafty(reg))
        self.write_field(reg, f, size, key, v, site)

    # ------------------------------------------------ bulk operations
    def fill(self, p, n, ty, valfn, what='', site=None, check=True):
        """for 0<=i<n: p[i] := valfn(i); n term (elements of type ty)"""
        p = self.resolve(p)
        if n.op == 'int' and n.args[0] <= 0:
            return
        es = self.ex.mod.sizeof(ty)
        if p.reg is None:
            self.ex.oblige(self, 'null-dereference:' + what, eq(n, I(0)))
            return
        reg = p.reg
        if reg.esize is None and not getattr(reg, 'lazy', False):
            # concrete cells
            if n.op != 'int':
                if isinstance(p.off, T) and self.proves(le(n, I(0))):
                    return
                raise Unsupported('symbolic fill of cells %s' % reg.name)
            for i in range(n.args[0]):
                self.store(p.plus(i * es), ty, valfn(I(i), ()), what, site)
            return
        i = tm.fresh('bi', 'I')
        # locate with the bulk index
        q = p.plus(mul(i, I(es)))
        reg, f, key = self.locate(q, es)
        inr = And(ge(i, I(0)), lt(i, n))
        if check and reg.extent is not None:
            self.ex.oblige(self, 'in-bounds(%s):%s' % (reg.name, what), tm.Implies(inr, reg.extent(*key)))
        if reg.readonly:
            self.ex.oblige(self, 'frame(%s):%s' % (reg.name, what), le(n, I(0)))
        v = valfn(i, (inr,))
        # solve for i: the last key component is idx0 + i*(es/esize)
        nk = len(key)
        at = [j for j in range(nk) if i in tm.fvs(key[j])]
        if len(at) != 1:
            raise Unsupported('fill index form')
        at = at[0]
        co = tm.poly(key[at]).get((i,), 0)
        if co == 0:
            raise Unsupported('fill index form')
        base = sub(key[at], mul(i, I(co)))
        x = KV[at]
        g = sub(x, base)
        cond = [eq(KV[j], key[j]) for j in range(nk) if j != at]
        if co != 1:
            raise Unsupported('fill stride')
        gi = g
        cond += [ge(gi, I(0)), lt(gi, n)]
        val = vsubst(v, {i: gi})
        if reg.leafsort and es == reg.leaf:
            val = coerce(val, leafty(reg))
        if And(*cond) is FALSE:
            return
        self.setlog(reg, f, self.log(reg, f) + (Upd(es, And(*cond), val, site),))

    def read_at(self, p, ty, conds=(), check=True, what=''):
        """load under extra conditions (used in bulk operations)"""
        p = self.resolve(p)
        if p.reg is None:
            if check:
                self.ex.oblige(self, 'null-dereference:' + what, Not(And(*conds)))
            return UNDEF
        size = self.ex.mod.sizeof(ty)
        reg, f, key = self.locate(p, size)
        if check and reg.extent is not None:
            self.ex.oblige(self, 'in-bounds(%s):%s' % (reg.name, what), tm.Implies(And(*conds), reg.extent(*key)))
        lt_ = leafty(reg) if reg.leafsort and size == reg.leaf and ty[0] != 'ptr' else ty
        return coerce(self.read_field(reg, f, size, lt_, key, conds), ty)


def relevant(pc, goal, facts=()):
    return pc


def find_ite(t):
    st = [t]
    while st:
        x = st.pop()
        if x.op == 'ite' and x.sort == 'I':
            return x.args[0]
        st.extend(tm.kids(x))
    return None


def sort_of(ty):
    if ty[0] == 'i':
        return 'I'
    if ty[0] == 'float':
        return 'f'
    if ty[0] == 'double':
        return 'd'
    raise Unsupported('sort of %r' % (ty,))


def leafty(reg):
    if reg.leafsort == 'f':
        return ('float',)
    if reg.leafsort == 'd':
        return ('double',)
    if reg.leafsort == 'p':
        return ('ptr',)
    return ('i', reg.leaf * 8)


def split_parts(c, leaf):
    out = []
    for s, v in c.parts:
        if s == leaf:
            out.append(v)
        elif v is ZEROV or v is UNDEF:
            out += [v] * (s // leaf)
        elif isinstance(v, Concat):
            out += split_parts(v, leaf)
        else:
            raise Unsupported('split of %r' % (v,))
    return out


def coerce(v, ty):
    """reinterpret a stored value for a load of type ty"""
    if v is UNDEF:
        return v
    if v is ZEROV:
        if ty[0] == 'i':
            return I(0) if ty[1] != 1 else FALSE
        if ty[0] == 'float':
            return tm.fconst(0, 'f')
        if ty[0] == 'double':
            return tm.fconst(0, 'd')
        if ty[0] == 'ptr':
            return NULL
        return v
    if isinstance(v, Concat):
        if len(v.parts) == 1:
            return coerce(v.parts[0][1], ty)
        if ty[0] == 'i' and all(isinstance(x, T) and x.op == 'int' for _, x in v.parts):
            r = 0
            sh = 0
            for s, x in v.parts:
                r |= (x.args[0] % (1 << (8 * s))) << sh
                sh += 8 * s
            return I(r)
        return v
    if isinstance(v, T):
        if ty[0] == 'i' and v.sort in ('f', 'd'):
            if v.op == 'fconst':
                return I(v.args[0])
            return Bits(v)
        if ty[0] in ('float', 'double') and v.sort == 'I':
            if v.op == 'int':
                return tm.fconst(v.args[0] % (1 << (32 if ty[0] == 'float' else 64)), 'f' if ty[0] == 'float' else 'd')
            if v.op == 'ite':
                return ite(v.args[0], coerce(v.args[1], ty), coerce(v.args[2], ty))
            return tm.uf('frombits', (v,), 'f' if ty[0] == 'float' else 'd')
        if v.sort == 'B' and ty[0] == 'i' and ty[1] > 1:
            return ite(v, I(1), I(0))
        if ty[0] == 'ptr' and v.sort == 'I' and v.op == 'int' and v.args[0] == 0:
            return NULL
    if isinstance(v, Bits):
        if ty[0] in ('float', 'double'):
            return v.t
    return v
