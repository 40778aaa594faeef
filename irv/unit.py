"""Verification units: pre-state construction, functional specifications of a function
(used both to check its body and, at call sites, instead of its body), comparison of the
final state of the real code with the specified one."""
import re
import time
from . import terms as tm
from . import solver, front
from .terms import T, I, add, sub, mul, eq, And, Or, Not, Implies, ite, TRUE, FALSE, ge, lt, le, gt, ne
from .mem import *
from .state import *
from .exec import Executor, End, Exc, Oblig, PathLimit, PtrInt, VFn

UNROLL = None
FTY = {'f': ('float',), 'd': ('double',)}
FSZ = {'f': 4, 'd': 8}


CLOSURE = re.compile(r"(\$_\d+|'lambda\d*'\(.*\))::operator\(\)\(")


def matcher(pat):
    """selects functions by demangled name; the closures nested in a function share its prefix but are not meant"""
    rx = re.compile(pat)
    if re.search(r'lambda|\$_|operator', pat):
        return lambda d: rx.search(d) is not None
    return lambda d: rx.search(d) is not None and not CLOSURE.search(d)


# ---------------------------------------------------------------- float helpers
def fadd(a, b):
    return tm.fop('fadd', (a, b), a.sort)


def fsub(a, b):
    return tm.fop('fsub', (a, b), a.sort)


def fmul(a, b):
    return tm.fop('fmul', (a, b), a.sort)


def fdiv(a, b):
    return tm.fop('fdiv', (a, b), a.sort)


def fneg(a):
    return tm.fop('fneg', (a,), a.sort)


def fnum(x, so):
    return tm.fnum(x, so)


def itof(i, so):
    if i.op == 'int':
        return tm.fnum(float(i.args[0]), so)
    return tm.fop('uitofp', (i,), so)


class Out:
    """one outcome of a specification"""

    def __init__(self, c, cond):
        self.c = c
        self.cond = cond
        self.st = c.st.copy()
        self.st.assume(cond)
        self.kind = 'ret'
        self.val = None
        self.free = []      # (region, field, fn(key)->Bool) locations left unspecified

    def old(self, p, ty, conds=()):
        return self.c.st.read_at(p, ty, tuple(conds), check=False)

    def fill(self, p, n, ty, fn):
        self.st.fill(p, n, ty, lambda i, c: fn(i), 'spec', check=(self.c.mode == 'apply'))

    def put(self, p, ty, v):
        self.st.store(p, ty, v, 'spec')
        return self

    def ret(self, v=None):
        self.val = v
        return self

    def throw(self, ti=None):
        self.kind = 'throw'
        self.val = ti
        return self


class C:
    """context handed to a specification"""

    def __init__(self, v, st, mode):
        self.v = v
        self.ex = v.ex
        self.st = st
        self.mode = mode        # 'define' / 'apply'
        self.outs = []

    def require(self, cond, label):
        if self.mode == 'define':
            self.st.assume(cond)
        else:
            self.ex.oblige(self.st, 'precondition:' + label, cond)
            self.st.assume(cond)

    def case(self, cond=TRUE):
        o = Out(self, cond)
        self.outs.append(o)
        return o

    def rd(self, p, ty, conds=()):
        """value in the pre-state"""
        return self.st.read_at(p, ty, tuple(conds), check=False)


class V:
    """one verification unit run"""

    def __init__(self, tus, name, modes=('uf',), unroll=None):
        self.mods = front.load_many(tus)
        self.name = name
        self.ex = Executor(self.mods, unroll=unroll if unroll is not None else UNROLL)
        dem = {}
        for m in self.mods:
            dem.update(m.dem)
        self.ex.dem = dem
        self.ex.modes = modes
        self.ex.cur_fn = name
        self.regions = []
        self.ends = 0
        self.vacuous = []
        self.functions = set()
        tm.reset_fresh()
        self.st = State(self.ex)

    # ------------------------------------------------ symbols
    def int(self, name, lo=0, hi=(1 << 40)):
        x = tm.var(name, 'I')
        self.st.assume(And(ge(x, I(lo) if isinstance(lo, int) else lo), lt(x, I(hi) if isinstance(hi, int) else hi)))
        return x

    def flt(self, name, so):
        return tm.var(name, so)

    def bool(self, name):
        return tm.var(name, 'B')

    def array(self, name, so, n=None, lo=0, align=None, readonly=False):
        """contiguous array of floats with index range [lo, n)"""
        es = {'f': 4, 'd': 8}[so]
        ext = None
        if n is not None:
            lo_ = I(lo) if isinstance(lo, int) else lo
            ext = lambda i: And(ge(i, lo_), lt(i, n))
        r = Region(name, esize=es, leaf=es, leafsort=so, extent=ext, align=align or es)
        r.readonly = readonly
        return self.reg(r)

    def iarray(self, name, w, n=None, signed=False, lo=None, hi=None):
        es = w // 8
        ext = (lambda i: And(ge(i, I(0)), lt(i, n))) if n is not None else None
        r = Region(name, esize=es, leaf=es, leafsort='i', extent=ext, align=es, signed=signed)
        if lo is not None:
            r.bounds['*'] = (lo, hi)
        return self.reg(r)

    def reg(self, r):
        GREG[r.id] = r
        self.regions.append(r)
        return r

    def matrix(self, name, so, rows, cols, pitch):
        """rows x cols block in a flat array with the given row pitch (elements)"""
        es = FSZ[so]
        r = Region(name, nmem=1, esize=es, leaf=es, leafsort=so,
                   extent=lambda i, j: And(ge(i, I(0)), lt(i, rows), ge(j, I(0)), lt(j, cols)), pitch=pitch, align=es)
        return self.reg(r)

    # ------------------------------------------------ functions
    def find(self, pat, unique=True):
        """mangled name of the defined function whose demangled signature matches"""
        rx = matcher(pat)
        out = []
        for m in self.mods:
            for n, d in m.dem.items():
                if m.funcs[n].defined and rx(d) and n not in out:
                    out.append(n)
        # drop alternative constructors (C2/C1 have the same demangled name)
        if len(out) > 1:
            by = {}
            for n in out:
                by.setdefault(self.ex.dem[n], []).append(n)
            out = [sorted(x)[0] if not any('C2E' in y for y in x) else [y for y in x if 'C2E' in y][0] for x in by.values()]
        if not out:
            raise Unsupported('function not found: ' + pat)
        if unique and len(out) > 1:
            raise Unsupported('ambiguous function %s: %s' % (pat, [self.ex.dem[x][:100] for x in out]))
        return out[0] if unique else out

    def fn(self, name):
        f = self.ex.lookup(name)
        self.functions.add(self.ex.dem.get(name, name))
        return f

    def call(self, name, args, st=None):
        """run the real body of a function"""
        f = self.fn(name)
        f.parse()
        if len(f.args) != len(args):
            raise Unsupported('signature of %s changed' % self.ex.dem[name][:80])
        st = (st or self.st).copy()
        ends = self.ex.call_function(f, args, st)
        self.ends += len(ends)
        return ends

    def contract(self, pat, spec, label=None):
        """use `spec` at call sites of functions whose demangled name matches"""
        rx = matcher(pat)

        def h(ex, st, vals, ins):
            c = C(self, st, 'apply')
            spec(c, *vals)
            return self.outcome_ends(c)
        self.ex.contracts.append((lambda n, d: rx(d), h, label or pat))

    def outcome_ends(self, c):
        res = []
        outs = c.outs or [c.case(TRUE)]
        for o in outs:
            if len(outs) > 1:
                d = c.st.decide(o.cond)
                if d is False:
                    continue
                if o.cond is not TRUE:
                    o.st.path = o.st.path + (o.cond,)
            if o.kind == 'throw':
                res.append(End('throw', o.st, o.val if isinstance(o.val, Exc) else Exc(o.val or 'any')))
            else:
                res.append(End('ret', o.st, o.val))
        return res

    # ------------------------------------------------ checking a body against its specification
    def check(self, name, spec, args, retty=None):
        c = C(self, self.st.copy(), 'define')
        spec(c, *args)
        outs = c.outs or [c.case(TRUE)]
        pre = c.st
        if not self.sat(pre):
            self.vacuous.append('%s: contradictory precondition' % name)
        ends = self.call(name, args, pre)
        if not ends:
            self.vacuous.append('%s: no path through the body' % name)
        live = False
        for e in ends:
            for o in outs:
                es = e.st.copy()
                es.assume(o.cond)
                if not es.feasible():
                    continue
                live = True
                self.compare(e, o, es, retty)
        if not live:
            self.vacuous.append('%s: no feasible outcome' % name)
        return ends

    def sat(self, st):
        return solver.check(st.pc, FALSE, st.facts, timeout=3000)[0] != 'proved'

    def compare(self, e, o, es, retty):
        ex = self.ex
        if e.kind != o.kind:
            ex.oblige(es, 'outcome: body %ss, specified %s' % (e.kind, o.kind), FALSE)
            return
        if o.kind == 'throw':
            want = o.val.ti if isinstance(o.val, Exc) else o.val
            if want and e.val is not None and e.val.ti != want and want not in ex.bases(e.val.ti):
                ex.oblige(es, 'outcome: exception type %s, specified %s' % (e.val.ti, want), FALSE)
        if o.kind == 'ret' and o.val is not None:
            self.same(es, 'result', e.val, o.val, retty)
        self.same_memory(es, o.st, o.free)

    def same(self, st, label, a, b, ty=None, conds=()):
        """obligation: values equal"""
        ex = self.ex
        if isinstance(a, PIte) or isinstance(b, PIte):
            p = a if isinstance(a, PIte) else b
            for cnd, pick in ((p.c, 'a'), (Not(p.c), 'b')):
                s2 = st.copy()
                s2.assume(cnd)
                for c in conds:
                    s2.assume(c)
                if s2.feasible():
                    self.same(s2, label, getattr(p, pick) if p is a else a, getattr(p, pick) if p is b else b, ty, conds)
            return
        if vsame(a, b):
            ex.oblige(st, label, TRUE)
            return
        if a is ZEROV and isinstance(b, T):
            a = zero_of(b.sort)
        if b is ZEROV and isinstance(a, T):
            b = zero_of(a.sort)
        if isinstance(a, Ptr) and (b is ZEROV):
            b = NULL
        if isinstance(b, Ptr) and (a is ZEROV):
            a = NULL
        if isinstance(a, T) and isinstance(b, T):
            if a.sort == 'B' and b.sort == 'I':
                a = ite(a, I(1), I(0))
            if b.sort == 'B' and a.sort == 'I':
                b = ite(b, I(1), I(0))
            if a.sort != b.sort:
                raise Unsupported('sort mismatch in %s' % label)
            if a.sort == 'I' and ty is not None and ty[0] == 'i':
                a, b = st.u(a, ty[1]), st.u(b, ty[1])
            ex.oblige(st, label, eq(a, b), conds)
            return
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            if a.reg is not b.reg:
                ex.oblige(st, label + ' (target %s, specified %s)' % (a.reg and a.reg.name, b.reg and b.reg.name), FALSE, conds)
                return
            ex.oblige(st, label, And(eq(a.off, b.off), *[eq(x, y) for x, y in zip(a.mem, b.mem)]), conds)
            return
        if isinstance(a, list) and isinstance(b, list) and len(a) == len(b):
            for i, (x, y) in enumerate(zip(a, b)):
                self.same(st, '%s[%d]' % (label, i), x, y, ty, conds)
            return
        if a is UNDEF or b is UNDEF:
            ex.oblige(st, label + ' (undefined value)', FALSE if b is not UNDEF else TRUE, conds)
            return
        raise Unsupported('cannot compare %r with %r in %s' % (a, b, label))

    def same_memory(self, es, os, free=(), regions=None):
        """every location of the pre-state regions has the specified final content"""
        regs = list(regions or self.regions)
        for rid in ([] if regions else list(es.mem)):
            r = GREG[rid]
            if getattr(r, 'isglobal', None) and r not in regs and r.base != 'const':
                regs.append(r)
        for r in regs:
            de, do = es.mem.get(r.id, {}), os.mem.get(r.id, {})
            fields = sorted(set(de) | set(do))
            for f in fields:
                le_, lo_ = de.get(f, ()), do.get(f, ())
                if le_ is lo_ or le_ == lo_:
                    continue
                size = (list(le_) + list(lo_))[-1].size
                nk = r.nkey()
                key = tuple(tm.fresh('at%d' % i, 'I') for i in range(nk))
                conds = []
                if r.extent is not None and nk:
                    conds.append(r.extent(*key))
                for fr, ff, fc in free:
                    if fr is r and (ff is None or ff == f):
                        conds.append(Not(fc(*key)))
                if any(c is FALSE for c in conds):
                    continue
                ty = leafty(r) if r.leafsort and size == r.leaf else None
                if ty is None:
                    from .loops import guess
                    ty = guess((list(lo_) + list(le_))[-1].val, size)
                s1 = es.copy()
                s1.rec = None
                for c in conds:
                    s1.assume(c)
                if not s1.feasible():
                    continue
                s2 = os.copy()
                s2.rec = None
                s2.pc, s2.known, s2.norms, s2.facts = s1.pc, set(s1.known), {}, s1.facts
                a = self._content(s1, r, f, size, ty, key)
                b = self._content(s2, r, f, size, ty, key)
                s1.pc, s1.known = s2.pc, s2.known
                self.same(s1, 'content(%s%s)' % (r.name, '+%d' % f if f else ''), a, b, ty)

    def same_memory_of(self, es, os, regions, free=()):
        self.same_memory(es, os, free, regions)

    def invariant(self, pat, inv):
        """invariant of the outermost loop of the functions whose demangled name matches"""
        if not hasattr(self.ex, 'invariants'):
            self.ex.invariants = []
        self.ex.invariants.append((re.compile(pat), inv))

    def _content(self, st, r, f, size, ty, key):
        return st.read_field(r, f, size, ty, key)

    def oblige(self, st, label, goal, conds=()):
        return self.ex.oblige(st, label, goal, conds)

    # ------------------------------------------------ results
    def result(self):
        ex = self.ex
        return {
            'unit': self.name,
            'obligs': [(o.name, o.fn, o.status, o.model, o.backend, round(o.time, 4), o.mode,
                        None if o.status == 'proved' else tm.show(o.goal)[:600]) for o in ex.obligs],
            'functions': sorted(self.functions), 'inlined': sorted(ex.inlined), 'applied': sorted(map(str, ex.applied)),
            'bounded': [list(map(str, b)) for b in ex.bounded], 'loops': len(ex.loops), 'ends': self.ends,
            'vacuous': self.vacuous, 'assumed': sorted(ex.assumed), 'opaque': sorted(ex.opaque_hits),
        }


# ---------------------------------------------------------------- class objects
def cleanty(t):
    t = re.sub(r'\b(class|struct|enum|const|volatile)\s+', '', t)
    return re.sub(r'\s+', '', t)


class Lay:
    """field offsets of the classes of a translation unit, by name, from the compiler"""

    def __init__(self, src):
        self.raw = {cleanty(k): v for k, v in front.layouts(src).items()}

    def cls(self, name):
        c = self.raw.get(cleanty(name))
        if c is None:
            raise Unsupported('class %s has no layout' % name)
        return c

    def size(self, name):
        return self.cls(name)['#size']

    def off(self, cls, path):
        """offset and type of a (possibly nested) field"""
        o = 0
        ty = cls
        for p in path.split('.'):
            c = self.cls(ty)
            hit = None
            if p in c:
                hit = c[p]
            else:
                for b, bo in c.get('#bases', []):
                    b = b.replace('(empty)', '').replace('(virtual)', '').strip()
                    try:
                        bo2, bt = self.off(b, p)
                        hit = (bo + bo2, bt)
                        break
                    except Unsupported:
                        continue
            if hit is None:
                raise Unsupported('class %s has no field %s' % (ty, p))
            o += hit[0]
            ty = hit[1]
        return o, ty


I64 = ('i', 64)
PTR = ('ptr',)


class Obj:
    """an object of a class under verification: one region of named fields"""

    def __init__(self, v, name, cls, lay, reg=None, base=0, init='undef'):
        self.v, self.name, self.cls, self.lay = v, name, cls, lay
        self.base = base
        if reg is None:
            reg = Region(name, size=lay.size(cls), base=init)
            GREG[reg.id] = reg
            v.regions.append(reg)
        self.reg = reg

    def ptr(self):
        return Ptr(self.reg, (), self.base)

    def p(self, path):
        return Ptr(self.reg, (), self.base + self.lay.off(self.cls, path)[0])

    def sub(self, path):
        o, t = self.lay.off(self.cls, path)
        return Obj(self.v, self.name + '.' + path, t, self.lay, self.reg, self.base + o)

    def set(self, path, val, ty=I64, st=None):
        (st or self.v.st).store(self.p(path), ty, val, 'setup')
        return self

    def get(self, path, ty=I64, st=None):
        return (st or self.v.st).load(self.p(path), ty, 'spec')
