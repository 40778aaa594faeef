"""Contracts of the elementary function library (libefl)."""
from irv.unit import *

REF = 'libefl/reference/vector_functions.cpp'
SIMD = {
    'FMA': ('-DVISR_SIMD_FEATURE=FMA', '-mfma', '-mavx2', '-mavx', '-msse4.2'),
    'AVX': ('-DVISR_SIMD_FEATURE=AVX', '-mavx', '-msse4.2'),
    'SSE': ('-DVISR_SIMD_FEATURE=SSE', '-msse4.2'),
}
FEATNO = {'FMA': 0, 'AVX': 1, 'SSE': 2}
CTY = {'f': 'float', 'd': 'double', 'cf': r'std::complex<float> ', 'cd': r'std::complex<double> '}
POW = (1, 2, 4, 8, 16, 32, 64)


# ---------------------------------------------------------------- alignment
def aligned(c, p, al, es):
    """the alignment predicate decided by checkAlignment (its own contract is property P02)"""
    st = c.st
    ra = getattr(p.reg, 'rowaligned', None)
    if ra is not None and c.mode == 'apply' and any(x is al for x in (ra if isinstance(ra, tuple) else (ra,))) and len(p.mem) >= 1 and (st.proves(eq(p.off, I(0))) or st.proves(eq(st.locate(p, es)[2][-1], I(0)))):
        return TRUE         # every channel of an audio port is aligned to alignmentSamples()
    if p.reg is not None and c.mode == 'apply' and p.reg.esize and p.reg.align % es == 0 and p.reg.esize % es == 0 and st.proves(le(al, I(1))):
        # a pointer to an element of an array is a multiple of the element size
        if st.locate(p, es)[1] % es == 0:
            return TRUE
    a = c.ex.address(st, p)
    r = tm.uf('aligned', (a, al, I(es)), 'B')
    st.assume(Implies(eq(al, I(0)), r))
    st.assume(Implies(eq(al, I(1)), eq(r, eq(tm.mod(a, I(es)), I(0)))))
    for q in POW:
        st.assume(Implies(And(r, ge(al, I(q))), eq(tm.mod(a, I(q * es)), I(0))))
    return r


def spec_checkAlignment(es):
    def spec(c, p, al):
        r = aligned(c, c.st.resolve(p), c.st.u(al, 64), es)
        c.case().ret(r)
    return spec


def use_alignment(v):
    v.contract(r'^bool visr::efl::checkAlignment<(float|int|unsigned int)>\(', spec_checkAlignment(4), 'efl::checkAlignment')
    v.contract(r'^bool visr::efl::checkAlignment<(double|long|unsigned long|std::complex<float> )>\(', spec_checkAlignment(8), 'efl::checkAlignment')
    v.contract(r'^bool visr::efl::checkAlignment<(std::complex<double> |long double)>\(', spec_checkAlignment(16), 'efl::checkAlignment')
    v.contract(r'^bool visr::efl::checkAlignment<(short|unsigned short)>\(', spec_checkAlignment(2), 'efl::checkAlignment')
    v.contract(r'^bool visr::efl::checkAlignment<(signed char|unsigned char|char)>\(', spec_checkAlignment(1), 'efl::checkAlignment')


# ---------------------------------------------------------------- element-wise kernels
# name -> (argument roles, value of element i)
#   i: input vector   o: output vector   io: in-place vector   s: scalar   n: length   al: alignment   b: flag
KER = {
    'vectorZero': (('o', 'n', 'al'), lambda e, so: fnum(0.0, so)),
    'vectorFill': (('s', 'o', 'n', 'al'), lambda e, so: e[0]),
    'vectorCopy': (('i', 'o', 'n', 'al'), lambda e, so: e[0]),
    'vectorAdd': (('i', 'i', 'o', 'n', 'al'), lambda e, so: fadd(e[0], e[1])),
    'vectorAddInplace': (('i', 'io', 'n', 'al'), lambda e, so: fadd(e[1], e[0])),
    'vectorAddConstant': (('s', 'i', 'o', 'n', 'al'), lambda e, so: fadd(e[1], e[0])),
    'vectorAddConstantInplace': (('s', 'io', 'n', 'al'), lambda e, so: fadd(e[1], e[0])),
    'vectorSubtract': (('i', 'i', 'o', 'n', 'al'), lambda e, so: fsub(e[0], e[1])),
    'vectorSubtractInplace': (('i', 'io', 'n', 'al'), lambda e, so: fsub(e[0], e[1])),
    'vectorSubtractConstant': (('s', 'i', 'o', 'n', 'al'), lambda e, so: fsub(e[1], e[0])),
    'vectorSubtractConstantInplace': (('s', 'io', 'n', 'al'), lambda e, so: fsub(e[1], e[0])),
    'vectorMultiply': (('i', 'i', 'o', 'n', 'al'), lambda e, so: fmul(e[0], e[1])),
    'vectorMultiplyInplace': (('i', 'io', 'n', 'al'), lambda e, so: fmul(e[0], e[1])),
    'vectorMultiplyConstant': (('s', 'i', 'o', 'n', 'al'), lambda e, so: fmul(e[0], e[1])),
    'vectorMultiplyConstantInplace': (('s', 'io', 'n', 'al'), lambda e, so: fmul(e[0], e[1])),
    'vectorMultiplyAdd': (('i', 'i', 'i', 'o', 'n', 'al'), lambda e, so: fadd(e[2], fmul(e[0], e[1]))),
    'vectorMultiplyAddInplace': (('i', 'i', 'io', 'n', 'al'), lambda e, so: fadd(e[2], fmul(e[0], e[1]))),
    'vectorMultiplyConstantAdd': (('s', 'i', 'i', 'o', 'n', 'al'), lambda e, so: fadd(e[2], fmul(e[0], e[1]))),
    'vectorMultiplyConstantAddInplace': (('s', 'i', 'io', 'n', 'al'), lambda e, so: fadd(e[2], fmul(e[0], e[1]))),
}


def spec_kernel(name, so):
    roles, val = KER[name]
    es = FSZ[so]
    ty = FTY[so]

    def spec(c, *args):
        st = c.st
        n = st.u(args[roles.index('n')], 64)
        al = st.u(args[roles.index('al')], 64)
        ptrs = [st.resolve(a) if r in ('i', 'o', 'io') else None for a, r in zip(args, roles)]
        ok = TRUE
        if al is not I(0):
            for p in ptrs:
                if p is not None:
                    ok = And(ok, aligned(c, p, al, es))
        if ok is not TRUE:
            c.case(Not(ok)).ret(I(1))
        o = c.case(ok)
        oi = [j for j, r in enumerate(roles) if r in ('o', 'io')][0]

        def value(i):
            e = []
            for a, r, p in zip(args, roles, ptrs):
                if r == 's':
                    e.append(a)
                elif r in ('i', 'io'):
                    e.append(c.st.read_at(p.plus(mul(i, I(es))), ty, (ge(i, I(0)), lt(i, n)), check=(c.mode == 'apply'), what='efl argument'))
            return val(e, so)
        if ptrs[oi].reg is not None or c.mode == 'define':
            o.fill(ptrs[oi], n, ty, value)
        o.ret(I(0))
    return spec


def spec_ramp(so):
    es, ty = FSZ[so], FTY[so]

    def spec(c, dest, n, s, e, si, ei, al):
        st = c.st
        n = st.u(n, 64)
        al = st.u(al, 64)
        si = c.ex.boolean(st, si)
        ei = c.ex.boolean(st, ei)
        dest = st.resolve(dest)
        ok = aligned(c, dest, al, es) if al is not I(0) else TRUE
        if ok is not TRUE:
            c.case(Not(ok)).ret(I(1))
        one = And(ok, eq(n, I(1)))
        o1 = c.case(one)
        same = eq(si, ei)
        mid = fmul(fnum(0.5, so), fadd(s, e))
        o1.fill(dest, I(1), ty, lambda i: ite(same, mid, ite(si, s, e)))
        o1.ret(I(0))
        o = c.case(And(ok, ne(n, I(1))))
        steps = add(n, 1, tm.neg(ite(si, I(1), I(0))), tm.neg(ite(ei, I(1), I(0))))
        step = fdiv(fsub(e, s), itof(steps, so))
        o.fill(dest, n, ty, lambda i: fadd(s, fmul(itof(add(i, ite(si, I(0), I(1))), so), step)))
        o.ret(I(0))
    return spec


def spec_rampscaling(so):
    es, ty = FSZ[so], FTY[so]

    def spec(c, inp, ramp, out, bg, rg, n, acc, al):
        st = c.st
        n = st.u(n, 64)
        al = st.u(al, 64)
        acc = c.ex.boolean(st, acc)
        inp, ramp, out = [st.resolve(x) for x in (inp, ramp, out)]
        ok = And(*[aligned(c, p, al, es) for p in (inp, ramp, out)]) if al is not I(0) else TRUE
        if ok is not TRUE:
            c.case(Not(ok)).ret(I(1))
        for cond, a in ((acc, True), (Not(acc), False)):
            if cond is FALSE:
                continue
            o = c.case(And(ok, cond))

            def value(i, a=a):
                g = (ge(i, I(0)), lt(i, n))
                rd = lambda p: c.st.read_at(p.plus(mul(i, I(es))), ty, g, check=(c.mode == 'apply'), what='efl argument')
                x = fmul(fadd(bg, fmul(rg, rd(ramp))), rd(inp))
                return fadd(rd(out), x) if a else x
            o.fill(out, n, ty, value)
            o.ret(I(0))
    return spec


def spec_strided(so, copy):
    es, ty = FSZ[so], FTY[so]

    def spec(c, *args):
        st = c.st
        if copy:
            src, dest, ss, ds, n, al = args
            src = st.resolve(src)
            ss = st.u(ss, 64)
        else:
            val, dest, ds, n, al = args
        dest = st.resolve(dest)
        ds, n, al = st.u(ds, 64), st.u(n, 64), st.u(al, 64)
        ps = ([src] if copy else []) + [dest]
        ok = And(*[aligned(c, p, al, es) for p in ps]) if al is not I(0) else TRUE
        c.require(ge(ds, I(1)), 'destination stride positive')
        if ok is not TRUE:
            c.case(Not(ok)).ret(I(1))
        o = c.case(ok)
        # element x of dest is written iff x = i*ds for some 0<=i<n
        reg, f, key = st.locate(dest, es)
        if reg.pitches is not None and ds is reg.pitches[1]:
            # sample-strided matrix addressed by (channel, sample): successive elements are successive samples
            i = sub(KV[1], key[1])
            cond = And(eq(KV[0], key[0]), eq(KV[2], key[2]), ge(i, I(0)), lt(i, n))
            at = lambda b: (key[0], add(key[1], b), key[2])
        else:
            x = KV[len(key) - 1]
            rel = sub(x, key[-1])
            i = rel if ds is I(1) else tm.div(rel, ds)
            cond = And(*([eq(KV[j], key[j]) for j in range(len(key) - 1)] + [ge(rel, I(0)), lt(i, n)] + ([] if ds is I(1) else [eq(mul(i, ds), rel)])))
            at = lambda b: tuple(key[:-1]) + (add(key[-1], mul(b, ds)),)
        if c.mode == 'apply' and reg.extent is not None:
            b = tm.fresh('bi', 'I')
            c.ex.oblige(st, 'in-bounds(%s):strided' % reg.name, Implies(And(ge(b, I(0)), lt(b, n)), reg.extent(*at(b))))
        if copy:
            q = src.plus(mul(mul(i, ss), I(es)))
            v = c.st.read_at(q, ty, (cond,), check=(c.mode == 'apply'), what='strided')
        else:
            v = val
        o.st.setlog(reg, f, o.st.log(reg, f) + (Upd(es, cond, v),))
        o.ret(I(0))
    return spec


def use_kernels(v):
    """call sites of the efl dispatchers see the contracts, whatever implementation is selected"""
    use_alignment(v)
    for so in 'fd':
        t = CTY[so]
        for k in KER:
            v.contract(r'visr::efl::(reference::)?%s<%s>\(' % (k, t), spec_kernel(k, so), 'efl::%s<%s>' % (k, t))
        v.contract(r'visr::efl::(reference::)?vectorRamp<%s>\(' % t, spec_ramp(so), 'efl::vectorRamp')
        v.contract(r'visr::efl::(reference::)?vectorRampScaling<%s>\(' % t, spec_rampscaling(so), 'efl::vectorRampScaling')
        v.contract(r'visr::efl::(reference::)?vectorCopyStrided<%s>\(' % t, spec_strided(so, True), 'efl::vectorCopyStrided')
        v.contract(r'visr::efl::(reference::)?vectorFillStrided<%s>\(' % t, spec_strided(so, False), 'efl::vectorFillStrided')


# ---------------------------------------------------------------- units
def fname(name, so, feat=None):
    if feat is None:
        return r'^visr::efl::ErrorCode visr::efl::reference::%s<%s>\(' % (name, CTY[so])
    return r'^visr::efl::ErrorCode visr::efl::intel_x86_64::%s<%s, \(visr::efl::intel_x86_64::Feature\)\d>\(' % (name, CTY[so])


def unit_kernel(name, so, alias=None, feat=None, src=REF, modes=('uf', 'real')):
    """alias: index of the input vector that is the same memory as the output"""
    tus = [src if feat is None else (src, SIMD[feat])]
    v = V(tus, 'efl::%s<%s>%s%s' % (name, CTY[so], '' if feat is None else '[%s]' % feat, '' if alias is None else ' (argument %d is the output)' % alias), modes)
    use_alignment(v)
    roles, _ = KER[name]
    n = v.int('n')
    al = v.int('alignment', 0, 1 << 32)
    args = []
    for j, r in enumerate(roles):
        if r in ('i', 'o', 'io'):
            args.append(v.array('arg%d' % j, so, n).ptr())
        elif r == 's':
            args.append(v.flt('scalar%d' % j, so))
        else:
            args.append(n if r == 'n' else al)
    if alias is not None:
        oi = [j for j, r in enumerate(roles) if r in ('o', 'io')][0]
        args[alias] = args[oi]
    v.check(v.find(fname(name, so, feat)), spec_kernel(name, so), args, ('i', 32))
    return v


def unit_ramp(so):
    v = V([REF], 'efl::vectorRamp<%s>' % CTY[so])
    use_alignment(v)
    n = v.int('n')
    d = v.array('dest', so, n)
    v.check(v.find(fname('vectorRamp', so)), spec_ramp(so),
            [d.ptr(), n, v.flt('startVal', so), v.flt('endVal', so), v.bool('startInclusive'), v.bool('endInclusive'), v.int('alignment', 0, 1 << 32)], ('i', 32))
    return v


def unit_rampscaling(so, feat=None, alias=False):
    v = V([REF if feat is None else ('libefl/intel_x86_64/vector_ramp_scaling.cpp', SIMD[feat])],
          'efl::vectorRampScaling<%s>%s%s' % (CTY[so], '' if feat is None else '[%s]' % feat, ' (in place)' if alias else ''), ('uf', 'real'))
    use_alignment(v)
    n = v.int('n')
    i, r, o = [v.array(x, so, n) for x in ('input', 'ramp', 'output')]
    v.check(v.find(fname('vectorRampScaling', so, feat)), spec_rampscaling(so),
            [(o if alias else i).ptr(), r.ptr(), o.ptr(), v.flt('baseGain', so), v.flt('rampGain', so), n, v.bool('accumulate'), v.int('alignment', 0, 1 << 32)], ('i', 32))
    return v


def unit_strided(so, copy):
    v = V([REF], 'efl::vector%sStrided<%s>' % ('Copy' if copy else 'Fill', CTY[so]))
    use_alignment(v)
    n, ss, ds = v.int('n', 0, 1 << 30), v.int('srcStride', 0, 1 << 20), v.int('destStride', 0, 1 << 20)
    s, d = v.array('src', so), v.array('dest', so)
    al = v.int('alignment', 0, 1 << 32)
    args = [s.ptr(), d.ptr(), ss, ds, n, al] if copy else [v.flt('val', so), d.ptr(), ds, n, al]
    v.check(v.find(fname('vector%sStrided' % ('Copy' if copy else 'Fill'), so)), spec_strided(so, copy), args, ('i', 32))
    return v


def units(sel=None):
    out = []
    for so in 'fd':
        for k, (roles, _) in KER.items():
            out.append(('ref/%s<%s>' % (k, so), lambda k=k, so=so: unit_kernel(k, so)))
            for j, r in enumerate(roles):
                if r == 'i' and k not in ('vectorCopy',):
                    out.append(('ref/%s<%s>/alias%d' % (k, so, j), lambda k=k, so=so, j=j: unit_kernel(k, so, j)))
        out.append(('ref/vectorRamp<%s>' % so, lambda so=so: unit_ramp(so)))
        out.append(('ref/vectorRampScaling<%s>' % so, lambda so=so: unit_rampscaling(so)))
        out.append(('ref/vectorRampScaling<%s>/alias' % so, lambda so=so: unit_rampscaling(so, None, True)))
        out.append(('ref/vectorCopyStrided<%s>' % so, lambda so=so: unit_strided(so, True)))
        out.append(('ref/vectorFillStrided<%s>' % so, lambda so=so: unit_strided(so, False)))
    for feat in SIMD:
        for k, so, src in (('vectorMultiply', 'f', 'multiply'), ('vectorMultiply', 'd', 'multiply'),
                           ('vectorMultiplyAddInplace', 'f', 'multiply_add'), ('vectorMultiplyAddInplace', 'd', 'multiply_add'),
                           ('vectorMultiplyConstantAddInplace', 'f', 'multiply_add')):
            s = 'libefl/intel_x86_64/vector_%s.cpp' % src
            out.append(('%s/%s<%s>' % (feat, k, so), lambda k=k, so=so, s=s, feat=feat: unit_kernel(k, so, None, feat, s)))
        out.append(('%s/vectorRampScaling<f>' % feat, lambda feat=feat: unit_rampscaling('f', feat)))
    return out
