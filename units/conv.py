"""efl::vectorConvert*: element type conversion of (strided) vectors."""
from irv.unit import *
from irv.models import toint
from .efl import use_alignment, aligned

TU = 'libefl/reference/vector_conversions.cpp'
TYPES = {'float': ('f', 4), 'double': ('d', 8), 'signed char': ('i', 1), 'short': ('i', 2), 'int': ('i', 4), 'long': ('i', 8)}
FN = {'vectorConvert': (False, False), 'vectorConvertInputStride': (True, False), 'vectorConvertOutputStride': (False, True), 'vectorConvertInputOutputStride': (True, True)}


def ity(t):
    so, es = TYPES[t]
    return ('i', es * 8) if so == 'i' else FTY[so]


def convert(ex, st, x, ti, to):
    """the conversion of one value: exact where the destination can represent it, rounded to nearest otherwise"""
    (si, ni), (so, no) = TYPES[ti], TYPES[to]
    if si == 'i':
        # x is the signed value of the element
        if so == 'i':
            return x            # modulo 2^width, compared as such
        return itof(x, so)
    if so == 'i':
        return toint(ex, st, x)
    if si == so:
        return x
    return tm.fop('fpext' if so == 'd' else 'fptrunc', (x,), so)


def spec_convert(ti, to, fn):
    (si, ni), (so, no) = TYPES[ti], TYPES[to]
    ist, ost = FN[fn]

    def spec(c, src, dest, n, *r):
        st = c.st
        src, dest, n = st.resolve(src), st.resolve(dest), st.u(n, 64)
        r = [st.u(x, 64) for x in r]
        is_ = r.pop(0) if ist else I(1)
        os_ = r.pop(0) if ost else I(1)
        al = r.pop(0)
        ok = And(aligned(c, src, al, ni), aligned(c, dest, al, no))
        c.require(ge(os_, I(1)), 'destination stride positive')
        c.case(Not(ok)).ret(I(1))
        o = c.case(ok)
        reg, f, key = st.locate(dest, no)
        rel = sub(KV[0], key[0])
        i = rel if os_ is I(1) else tm.div(rel, os_)
        cond = And(ge(rel, I(0)), lt(i, n), *([] if os_ is I(1) else [eq(mul(i, os_), rel)]))
        x = c.st.read_at(src.plus(mul(mul(i, is_), I(ni))), ity(ti), (cond,), check=(c.mode == 'apply'), what='source')
        o.st.setlog(reg, f, o.st.log(reg, f) + (Upd(no, cond, convert(c.ex, o.st, x, ti, to)),))
        o.ret(I(0))
    return spec


def unit(ti, to, fn):
    v = V([TU], 'efl::%s<%s,%s>' % (fn, ti, to))
    use_alignment(v)
    ist, ost = FN[fn]
    (si, ni), (so, no) = TYPES[ti], TYPES[to]
    n = v.int('n', 0, 1 << 30)
    arr = lambda nm, s, w: v.iarray(nm, 8 * w, signed=True) if s == 'i' else v.array(nm, s)
    s, d = arr('src', si, ni), arr('dest', so, no)
    s.readonly = True
    args = [s.ptr(), d.ptr(), n] + ([v.int('inputStride', 0, 1 << 20)] if ist else []) + ([v.int('outputStride', 1, 1 << 20)] if ost else []) + [v.int('alignment', 0, 1 << 32)]
    v.check(v.find(r'^visr::efl::ErrorCode visr::efl::reference::%s<%s, %s>\(' % (fn, ti, to)), spec_convert(ti, to, fn), args, ('i', 32))
    return v


def units(sel=None):
    return [('%s<%s,%s>' % (fn, a, b), lambda a=a, b=b, fn=fn: unit(a, b, fn)) for fn in FN for a in TYPES for b in TYPES]
