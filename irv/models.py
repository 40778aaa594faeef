"""Models of intrinsics, the C/C++ runtime and opaque library calls (trusted)."""
import re
from . import terms as tm
from .terms import T, I, add, sub, mul, eq, And, Or, Not, ite, TRUE, FALSE, ge, lt, le
from .mem import *
from .state import *
from .exec import End, Exc, PtrInt

# library routines without effect on verified state (message composition, locale, strings)
OPAQUE = re.compile(r'''^(void\ )?(
   std::__cxx11::basic_string | std::basic_string | std::basic_ostream | std::__cxx11::basic_ostringstream | std::basic_ios
 | std::__cxx11::basic_stringstream
 | std::ostream | std::operator<<|std::basic_ostream<char.*operator<<
 | std::allocator<char>|std::__new_allocator<char>
 | std::runtime_error::|std::logic_error::|std::invalid_argument::|std::out_of_range::|std::length_error::|std::domain_error::|std::exception::|std::overflow_error::|std::range_error::
 | std::bad_alloc::|std::bad_cast::|std::bad_function_call
 | visr::detail::composeMessageString | visr::detail::composeMessageStringImpl
 | __gnu_cxx::__to_xstring|std::to_string|std::__detail::__to_chars
 | __clang_call_terminate | __cxa_free_exception | __cxa_guard
 | std::basic_ostream<char, std::char_traits<char> >
 | std::ios_base
 | std::char_traits<char>
 | void\ visr::detail::composeMessageString
)''', re.X)
OPAQUE2 = re.compile(r'''(^std::.*basic_string<char|^.*composeMessageString|^visr::efl::errorMessage\(|^__cxa_(begin|end)_catch|^__cxa_atexit|^bool\ std::operator==<char
  |^std::__cxx11::basic_string.*\ std::operator\+)''', re.X)
CONTAINER = re.compile(r'_Rb_tree|^std::(map|multimap|set|multiset|vector|deque|list|pair)<')
NOEFFECT = {'pthread_mutex_lock', 'pthread_mutex_unlock', 'pthread_mutex_init', 'pthread_mutex_destroy', '__gthread_mutex_lock', '__gthread_mutex_unlock'}


def ret(st, v=None):
    return [End('ret', st, v)]


def model(ex, name, dem, vals, st, ins):
    if name.startswith('llvm.'):
        return intrinsic(ex, name, vals, st, ins)
    h = TABLE.get(name)
    if h:
        return h(ex, vals, st, ins)
    if name.startswith('pthread_') or name.startswith('_ZNSt5mutex') or name in NOEFFECT or name.startswith('_ZL20__gthread') or '__gthread_mutex' in name or '__gthread_active' in name:
        ex.assumed.add('mutual exclusion primitives have no effect on sequential state')
        return ret(st, I(0))
    if (OPAQUE.match(dem) or OPAQUE2.match(dem)) and not CONTAINER.search(dem):
        ex.opaque_hits.add(dem.split('(')[0][:80])
        rt = ins.ty
        if rt[0] == 'void':
            return ret(st)
        if rt[0] == 'ptr':
            return ret(st, Opaque(dem[:40]))
        if rt[0] == 'i':
            if rt[1] == 1:
                return ret(st, tm.fresh('opq', 'B'))
            v = tm.fresh('opq', 'I')
            st.assume(And(ge(v, I(0)), lt(v, I(1 << rt[1]))))
            return ret(st, v)
        return ret(st, Opaque(dem[:40]))
    return None


def _new(ex, vals, st, ins):
    n = vals[0]
    if not isinstance(n, T):
        raise Unsupported('new size')
    n = st.u(n, 64)
    if n.op == 'int':
        reg = Region(tm.fresh('heap', 'I').args[0], size=n.args[0], base='undef')
    else:
        reg = Region(tm.fresh('heap', 'I').args[0], base='undef')
        reg.lazy = True
        reg.bytes = n
    reg.heap = True
    GREG[reg.id] = reg
    ex.assumed.add('memory allocation succeeds')
    return ret(st, Ptr(reg, (), 0))


def _delete(ex, vals, st, ins):
    p = st.resolve(vals[0])
    if isinstance(p, Ptr) and p.reg is not None and not p.mem:
        if p.reg.id in st.freed:
            ex.oblige(st, 'double-free(%s)' % p.reg.name, FALSE)
        st.freed = st.freed | {p.reg.id}
    return ret(st)


def _throw(ex, vals, st, ins):
    ti = vals[1]
    nm = ti.reg.name[1:] if isinstance(ti, Ptr) else getattr(ti, 'name', '?')
    return [End('throw', st, Exc(nm))]


def _assert_fail(ex, vals, st, ins):
    ex.oblige(st, 'assertion', FALSE)
    return []


def _throwstd(ti):
    def h(ex, vals, st, ins):
        return [End('throw', st, Exc(ti))]
    return h


def _alloc_exc(ex, vals, st, ins):
    reg = Region('exc', base='undef')
    GREG[reg.id] = reg
    return ret(st, Ptr(reg, (), 0))


def _abort(ex, vals, st, ins):
    ex.oblige(st, 'terminate', FALSE)
    return []


def f1(opname):
    def h(ex, vals, st, ins):
        a = vals[0]
        if a is UNDEF:
            return ret(st, UNDEF)
        return ret(st, mathfn(opname, a))
    return h


import math


def mathfn(opname, *a):
    so = a[0].sort
    if all(x.op == 'fconst' for x in a) and so == 'd':
        try:
            fn = {'sin': math.sin, 'cos': math.cos, 'sqrt': math.sqrt, 'floor': math.floor, 'ceil': math.ceil, 'fabs': abs, 'exp': math.exp, 'log': math.log}.get(opname)
            if fn:
                return tm.fnum(float(fn(tm.fval(a[0]))), so)
        except Exception:
            pass
    return tm.fop(opname, a, so)


def fN(opname):
    def h(ex, vals, st, ins):
        if any(v is UNDEF for v in vals):
            return ret(st, UNDEF)
        return ret(st, tm.fop(opname, tuple(vals), vals[0].sort))
    return h


def _mem(ex, st, dst, src, n, what):
    memcpy(ex, st, dst, src, n, what)
    return ret(st, dst)


TABLE = {
    '_Znwm': _new, '_Znam': _new, '_ZnwmSt11align_val_t': _new, 'malloc': _new,
    '_ZdlPv': _delete, '_ZdlPvm': _delete, '_ZdaPv': _delete, '_ZdaPvm': _delete, 'free': _delete, '_ZdlPvSt11align_val_t': _delete,
    '__cxa_throw': _throw, '__cxa_allocate_exception': _alloc_exc, '__assert_fail': _assert_fail,
    '_ZSt20__throw_length_errorPKc': _throwstd('_ZTISt12length_error'),
    '_ZSt24__throw_out_of_range_fmtPKcz': _throwstd('_ZTISt12out_of_range'),
    '_ZSt20__throw_out_of_rangePKc': _throwstd('_ZTISt12out_of_range'),
    '_ZSt17__throw_bad_allocv': _throwstd('_ZTISt9bad_alloc'),
    '_ZSt28__throw_bad_array_new_lengthv': _throwstd('_ZTISt9bad_alloc'),
    '_ZSt19__throw_logic_errorPKc': _throwstd('_ZTISt11logic_error'),
    '_ZSt25__throw_bad_function_callv': _throwstd('_ZTISt17bad_function_call'),
    '__cxa_rethrow': lambda ex, v, st, i: [End('throw', st, st.exc)],
    '__cxa_bad_typeid': _throwstd('_ZTISt10bad_typeid'), '__cxa_bad_cast': _throwstd('_ZTISt8bad_cast'),
    'abort': _abort, '_ZSt9terminatev': _abort, '__clang_call_terminate': _abort,
    '__cxa_guard_acquire': lambda ex, v, st, i: ret(st, I(1)), '__cxa_guard_release': lambda ex, v, st, i: ret(st),
    '__cxa_guard_abort': lambda ex, v, st, i: ret(st),
    '__cxa_begin_catch': lambda ex, v, st, i: ret(st, v[0]), '__cxa_end_catch': lambda ex, v, st, i: ret(st),
    '__cxa_atexit': lambda ex, v, st, i: ret(st, I(0)),
    'memmove': lambda ex, v, st, i: _mem(ex, st, v[0], v[1], v[2], 'memmove'),
    'memcpy': lambda ex, v, st, i: _mem(ex, st, v[0], v[1], v[2], 'memcpy'),
    '__gxx_personality_v0': lambda ex, v, st, i: ret(st, I(0)),
}
for n in ('sin', 'cos', 'tan', 'asin', 'acos', 'atan', 'exp', 'log', 'log10', 'log2', 'sqrt', 'floor', 'ceil', 'round', 'fabs', 'exp2', 'cbrt', 'trunc', 'rint', 'nearbyint'):
    TABLE[n] = f1(n)
    TABLE[n + 'f'] = f1(n)
def toint(ex, st, x, w=64):
    """round to nearest integer, ties to even (default rounding mode)"""
    while x.op == 'fop' and x.args[0] == 'fpext':
        x = x.args[1]
    t = tm.fop('llrint', (x,), 'I')
    st.assume(And(ge(t, I(-(1 << (w - 1)))), lt(t, I(1 << (w - 1)))))
    ex.assumed.add('lrint/llrint round to nearest (default rounding mode), argument in range of the result type')
    return t


for n in ('lrint', 'llrint'):
    for q in ('', 'f'):
        TABLE[n + q] = lambda ex, v, st, i: ret(st, toint(ex, st, v[0]))
def lround(ex, st, x):
    t = tm.fop('fptosi', (mathfn('round', x),), 'I')
    st.assume(And(ge(t, I(-(1 << 63))), lt(t, I(1 << 63))))
    ex.assumed.add('float-to-integer conversions are in range of the destination type')
    return t


for n in ('lround', 'llround'):
    for q in ('', 'f'):
        TABLE[n + q] = lambda ex, v, st, i: ret(st, lround(ex, st, v[0]))
for n in ('pow', 'atan2', 'fmod', 'hypot', 'fmin', 'fmax'):
    TABLE[n] = fN(n)
    TABLE[n + 'f'] = fN(n)


def memcpy(ex, st, dst, src, n, what):
    """copy n bytes"""
    dst = st.resolve(dst)
    src = st.resolve(src)
    n = st.u(n, 64) if isinstance(n, T) else n
    if not isinstance(n, T):
        raise Unsupported('memcpy length')
    if n.op == 'int' and n.args[0] == 0:
        return
    if isinstance(dst, Opaque) or isinstance(src, Opaque):
        if isinstance(dst, Opaque):
            return
        raise Unsupported('memcpy from opaque')
    if (src.reg is None or dst.reg is None):
        ex.oblige(st, 'null-dereference:' + what, eq(n, I(0)))
        return
    dr, sr = dst.reg, src.reg
    mod = ex.mod
    if n.op == 'int' and (dr.esize is None or sr.esize is None) and not getattr(dr, 'lazy', False):
        copy_concrete(ex, st, dst, src, n.args[0], what)
        return
    if getattr(dr, 'lazy', False) and dr.esize is None and sr.esize:
        st.locate(dst, sr.leaf or sr.esize)
        dr.leafsort = sr.leafsort
    if sr.esize is None and getattr(sr, 'lazy', False) and dr.esize:
        st.locate(src, dr.leaf or dr.esize)
    if sr.esize is None or dr.esize is None:
        raise Unsupported('symbolic memcpy with cells %s <- %s' % (dr.name, sr.name))
    leaf = min(dr.leaf or dr.esize, sr.leaf or sr.esize)
    if (dr.leaf or dr.esize) != (sr.leaf or sr.esize):
        raise Unsupported('memcpy leaf sizes')
    ty = leafty(dr) if dr.leafsort else (leafty(sr) if sr.leafsort else ('i', 8 * leaf))
    cnt = tm.divexact(n, leaf)
    if cnt is None:
        raise Unsupported('memcpy count %s' % n)
    if dr.esize != leaf:
        # several leaves per element: one bulk update per leaf position
        per = dr.esize // leaf
        cnt2 = tm.divexact(cnt, per)
        if cnt2 is None or sr.esize != dr.esize:
            raise Unsupported('memcpy of struct elements')
        snap = st.copy()
        snap.rec = st.rec
        for j in range(per):
            bulk_copy(ex, st, snap, dst.plus(j * leaf), src.plus(j * leaf), cnt2, ty, dr.esize, what)
        return
    if sr.esize != leaf:
        raise Unsupported('memcpy source struct elements')
    snap = st.copy()
    snap.rec = st.rec
    st.fill(dst, cnt, ty, lambda i, c: snap.read_at(src.plus(mul(i, I(leaf))), ty, c, what=what), what)


def bulk_copy(ex, st, snap, dst, src, n, ty, stride, what):
    i = tm.fresh('bi', 'I')
    q = dst.plus(mul(i, I(stride)))
    reg, f, key = st.locate(q, ex.mod.sizeof(ty))
    inr = And(ge(i, I(0)), lt(i, n))
    if reg.extent is not None:
        ex.oblige(st, 'in-bounds(%s):%s' % (reg.name, what), tm.Implies(inr, reg.extent(*key)))
    v = snap.read_at(src.plus(mul(i, I(stride))), ty, (inr,), what=what)
    base = sub(key[-1], i)
    g = sub(KV[len(key) - 1], base)
    cond = And(*([eq(KV[j], key[j]) for j in range(len(key) - 1)] + [ge(g, I(0)), lt(g, n)]))
    val = vsubst(v, {i: g})
    st.setlog(reg, f, st.log(reg, f) + (Upd(ex.mod.sizeof(ty), cond, val),))


def copy_concrete(ex, st, dst, src, n, what):
    """byte copy of constant length involving cell regions"""
    sr = src.reg
    if sr.id in st.freed:
        ex.oblige(st, 'use-after-free:' + what, FALSE)
    out = []
    if sr.esize is None:
        if src.off.op != 'int':
            raise Unsupported('memcpy symbolic cell offset')
        base = src.off.args[0]
        if sr.size is not None and (base < 0 or base + n > sr.size):
            ex.oblige(st, 'in-bounds(%s):%s' % (sr.name, what), FALSE)
        d = st.mem.get(sr.id, {})
        key = tuple(src.mem)
        known = sorted(g for g in set(d) | set(k for k in sr.ptrs if isinstance(k, int)) | set(getattr(sr, 'layout', {})) if base <= g < base + n)
        lay = getattr(sr, 'layout', {})
        if sr.base == 'const' and hasattr(sr, 'cells'):
            known = sorted(g for g in sr.cells if base <= g < base + n)
            for g in known:
                out.append((g - base, sr.cells[g][0], sr.cells[g][1]))
        else:
            # figure out the size of each cell
            pos = set()
            for g in known:
                if g in d and d[g]:
                    sz = d[g][-1].size
                    ty = None
                elif g in lay:
                    sz = ex.mod.sizeof(lay[g])
                    ty = lay[g]
                elif g in sr.ptrs:
                    sz, ty = 8, ('ptr',)
                else:
                    continue
                if g + sz > base + n:
                    if d.get(g) and (d[g][-1].val is UNDEF or d[g][-1].val is ZEROV):
                        sz = base + n - g
                        out.append((g - base, sz, d[g][-1].val))
                        continue
                    raise Unsupported('memcpy cuts a cell')
                v = st.read_field(sr, g, sz, ty or guess_ty(d[g][-1].val, sz), key)
                out.append((g - base, sz, v))
                pos.update(range(g, g + sz))
            if sr.base == 'uf' and not lay:
                for o in range(base, base + n, 4):
                    if o not in pos:
                        raise Unsupported('memcpy of undeclared cells %s+%d' % (sr.name, o))
    else:
        leaf = sr.leaf or sr.esize
        ty = leafty(sr) if sr.leafsort else ('i', 8 * leaf)
        for o in range(0, n - n % leaf, leaf):
            out.append((o, leaf, st.load(src.plus(o), ty, what)))
        if n % leaf:
            # part of a cell (e.g. a flag followed by padding): its value is unknown at the destination
            if dst.reg.esize is not None or not dst.reg.local:
                raise Unsupported('memcpy partial leaf')
            o = n - n % leaf
            st.load(src.plus(o), ty, what)
            out.append((o, n % leaf, tm.fresh('bytes', 'I')))
    for o, sz, v in out:
        q = dst.plus(o)
        dr = q.reg
        if dr.esize is not None:
            ty = guess_ty(v, sz) if not dr.leafsort or dr.leaf != sz else leafty(dr)
            st.store(q, ty, v, what)
        else:
            r_, f, key = st.locate(q, sz)
            if dr.size is not None and (f < 0 or f + sz > dr.size):
                ex.oblige(st, 'in-bounds(%s):%s' % (dr.name, what), FALSE)
            if dr.readonly:
                ex.oblige(st, 'frame(%s):%s' % (dr.name, what), FALSE)
            st.write_field(dr, f, sz, key, v)


def guess_ty(v, sz):
    if isinstance(v, T):
        if v.sort == 'f':
            return ('float',)
        if v.sort == 'd':
            return ('double',)
        return ('i', 8 * sz)
    if isinstance(v, (Ptr, PIte, Fn, Opaque)):
        return ('ptr',)
    return ('i', 8 * sz)


def memset(ex, st, dst, byte, n, what='memset'):
    dst = st.resolve(dst)
    n = st.u(n, 64)
    if isinstance(dst, Opaque):
        return
    if n.op == 'int' and n.args[0] == 0:
        return
    b = byte.args[0] if isinstance(byte, T) and byte.op == 'int' else None
    if dst.reg is None:
        ex.oblige(st, 'null-dereference:' + what, eq(n, I(0)))
        return
    reg = dst.reg
    if b != 0:
        if b is not None and n.op == 'int' and reg.esize is None:
            # constant byte pattern over cells
            st.store(dst, ('i', 8 * n.args[0]), I(int.from_bytes(bytes([b]) * n.args[0], 'little')), what)
            return
        raise Unsupported('memset value')
    if reg.esize is None and not getattr(reg, 'lazy', False):
        if n.op != 'int':
            raise Unsupported('memset symbolic cells')
        o = dst.off.args[0] if dst.off.op == 'int' else None
        if o is None:
            raise Unsupported('memset offset')
        if reg.size is not None and (o < 0 or o + n.args[0] > reg.size):
            ex.oblige(st, 'in-bounds(%s):%s' % (reg.name, what), FALSE)
        st.write_field(reg, o, n.args[0], tuple(dst.mem), ZEROV)
        return
    if reg.esize is None:
        st.locate(dst, 4)
    leaf = reg.leaf or reg.esize
    ty = leafty(reg) if reg.leafsort else ('i', 8 * leaf)
    if reg.esize != leaf:
        per = reg.esize
        cnt = tm.divexact(n, per)
        if cnt is None:
            raise Unsupported('memset struct elements')
        for j in range(0, per, leaf):
            i = tm.fresh('bi', 'I')
            q = dst.plus(add(mul(i, I(per)), I(j)))
            r_, f, key = st.locate(q, leaf)
            inr = And(ge(i, I(0)), lt(i, cnt))
            if reg.extent is not None:
                ex.oblige(st, 'in-bounds(%s):%s' % (reg.name, what), tm.Implies(inr, reg.extent(*key)))
            g = sub(KV[len(key) - 1], sub(key[-1], i))
            cond = And(*([eq(KV[jj], key[jj]) for jj in range(len(key) - 1)] + [ge(g, I(0)), lt(g, cnt)]))
            st.setlog(reg, f, st.log(reg, f) + (Upd(leaf, cond, coerce(ZEROV, ty)),))
        return
    cnt = tm.divexact(n, leaf)
    if cnt is None:
        raise Unsupported('memset count')
    st.fill(dst, cnt, ty, lambda i, c: coerce(ZEROV, ty), what)


def lanes(vals, fn):
    n = len(vals[0]) if isinstance(vals[0], list) else None
    if n is None:
        return fn(*vals)
    return [fn(*[v[i] if isinstance(v, list) else v for v in vals]) for i in range(n)]


def intrinsic(ex, name, vals, st, ins):
    b = name[5:]
    if b.startswith(('lifetime', 'dbg', 'assume', 'experimental.noalias', 'donothing', 'invariant', 'prefetch', 'stacksave', 'stackrestore', 'va_')):
        if b.startswith('assume') and isinstance(vals[0], T) and vals[0].sort == 'B':
            pass
        return ret(st, UNDEF)
    if b.startswith('memcpy') or b.startswith('memmove'):
        memcpy(ex, st, vals[0], vals[1], vals[2], b.split('.')[0])
        return ret(st)
    if b.startswith('memset'):
        memset(ex, st, vals[0], vals[1], vals[2])
        return ret(st)
    if b.startswith('trap') or b.startswith('ubsantrap'):
        ex.oblige(st, 'trap', FALSE)
        return []
    if b.startswith('eh.typeid.for'):
        ti = vals[0]
        nm = ti.reg.name[1:] if isinstance(ti, Ptr) else getattr(ti, 'name', '?')
        return ret(st, I(ex.typeid(nm)))
    if b.startswith('expect'):
        return ret(st, vals[0])
    if b.startswith(('fmuladd', 'fma.')):
        nm = 'fma' if b.startswith('fma.') else None

        def fn(x, y, z):
            if UNDEF in (x, y, z):
                return UNDEF
            if nm is None:
                return ex.fbin('fadd', ex.fbin('fmul', x, y), z)
            return tm.fop('fma', (x, y, z), x.sort)
        return ret(st, lanes(vals, fn))
    for nm, o in (('fabs', 'fabs'), ('sqrt', 'sqrt'), ('floor', 'floor'), ('ceil', 'ceil'), ('round', 'round'), ('sin', 'sin'), ('cos', 'cos'), ('exp', 'exp'), ('log10', 'log10'), ('log', 'log'), ('trunc', 'trunc'), ('rint', 'rint'), ('nearbyint', 'nearbyint')):
        if b.startswith(nm + '.'):
            return ret(st, lanes(vals, lambda x: UNDEF if x is UNDEF else mathfn(o, x)))
    for nm, o in (('minnum', 'fmin'), ('maxnum', 'fmax'), ('pow', 'pow'), ('copysign', 'copysign')):
        if b.startswith(nm + '.'):
            return ret(st, lanes(vals, lambda x, y: tm.fop(o, (x, y), x.sort)))
    m = re.match(r'(umin|umax|smin|smax)\.i(\d+)', b)
    if m:
        w = int(m.group(2))
        a, c = vals
        if a is UNDEF or c is UNDEF:
            return ret(st, UNDEF)
        n = st.u if m.group(1)[0] == 'u' else st.s
        a, c = n(a, w), n(c, w)
        d = st.decide(le(a, c))
        mn = m.group(1).endswith('min')
        if d is True:
            r = a if mn else c
        elif d is False:
            r = c if mn else a
        else:
            r = ite(le(a, c), a, c) if mn else ite(le(a, c), c, a)
        return ret(st, r)
    m = re.match(r'abs\.i(\d+)', b)
    if m:
        a = st.s(vals[0], int(m.group(1)))
        return ret(st, ite(ge(a, I(0)), a, tm.neg(a)))
    m = re.match(r'usub\.sat\.i(\d+)', b)
    if m:
        w = int(m.group(1))
        a, c = st.u(vals[0], w), st.u(vals[1], w)
        return ret(st, ite(ge(a, c), sub(a, c), I(0)))
    m = re.match(r'(u|s)(add|sub|mul)\.with\.overflow\.i(\d+)', b)
    if m:
        w = int(m.group(3))
        n = st.u if m.group(1) == 'u' else st.s
        a, c = n(vals[0], w), n(vals[1], w)
        r = {'add': add, 'sub': sub, 'mul': mul}[m.group(2)](a, c)
        lo, hi = (0, 1 << w) if m.group(1) == 'u' else (-(1 << (w - 1)), 1 << (w - 1))
        return ret(st, [r, Not(And(ge(r, I(lo)), lt(r, I(hi))))])
    m = re.match(r'ctpop\.i(\d+)', b)
    if m:
        w = int(m.group(1))
        a = st.u(vals[0], w)
        r = tm.uf('ctpop', (a,), 'I')
        st.assume(And(ge(r, I(0)), le(r, I(w)), eq(eq(r, I(0)), eq(a, I(0)))))
        return ret(st, r)
    if b.startswith('is.constant'):
        return ret(st, FALSE)
    if b.startswith('objectsize'):
        return ret(st, I(-1))
    if b.startswith('x86.'):
        return x86(ex, b, vals, st, ins)
    raise Unsupported('intrinsic ' + name)


def x86(ex, b, vals, st, ins):
    if b in ('x86.sse.max.ps', 'x86.sse2.max.pd', 'x86.avx.max.ps.256'):
        return ret(st, [vite(tm.fop('flt', (y, x), 'B'), x, y) for x, y in zip(*vals)])
    raise Unsupported('intrinsic llvm.' + b)
