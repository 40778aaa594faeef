"""Values of pml parameters: assignment and cloning through the ParameterBase interface, copies of vectors, matrices and scalars."""
import re
from irv.unit import *
from .arrays import only, split_ends, Mat, Arr, ES, SO
from .efl import use_kernels
from .flow import ghost

TYPES = {
    'vector_parameter': ['VectorParameter<%s>' % t for t in ('float', 'double', 'std::complex<float>', 'std::complex<double>')],
    'matrix_parameter': ['MatrixParameter<%s>' % t for t in ('float', 'double', 'std::complex<float>', 'std::complex<double>')],
    'scalar_parameter': ['ScalarParameter<%s>' % t for t in ('bool', 'int', 'unsigned int', 'float', 'double')],
    'string_parameter': ['StringParameter'], 'signal_routing_parameter': ['SignalRoutingParameter'], 'interpolation_parameter': ['InterpolationParameter'],
    'object_vector': ['ObjectVector'], 'biquad_parameter': ['BiquadParameterMatrix<float>', 'BiquadParameterMatrix<double>', 'BiquadCoefficientListParameter<float>', 'BiquadCoefficientParameter<float>'],
    'filter_routing_parameter': ['FilterRoutingParameter', 'FilterRoutingListParameter'], 'sparse_gain_routing_parameter': ['SparseGainRoutingParameter', 'SparseGainRoutingListParameter'],
    'time_frequency_parameter': ['TimeFrequencyParameter<float>', 'TimeFrequencyParameter<double>'], 'listener_position': ['ListenerPosition'],
}
PML = 'visr::pml::'


def esc(t):
    return re.escape(PML + (t.replace('>>', '> >')))


def at(st, p, q):
    p, q = st.resolve(p), st.resolve(q)
    return tm.B(bool(p.reg is q.reg and st.proves(eq(p.off, q.off))))


def unit_dispatch(src):
    """assign() of equal types is the assignment of the concrete type, of others throws; clone() is a new object made by the copy constructor"""
    tu = 'libpml/%s.cpp' % src
    v = V([tu], 'assign and clone of ' + src, ('uf',))
    lay = Lay(tu)
    g = ghost(v, 2)
    CNT, OK = g.at(0), g.at(1)
    same = v.bool('sameType')
    now = {}

    def dc(c, p, s, dst, *a):
        nm = c.st.resolve(dst).reg.name
        base = re.match(r'\w+', now['t']).group(0)
        el = re.search(r'<(.*)>', now['t'])
        code = '%d%s' % (len(base), base) + ({'float': 'IfE', 'double': 'IdE', 'bool': 'IbE', 'int': 'IiE', 'unsigned int': 'IjE', 'std::complex<float>': 'ISt7complexIfEE', 'std::complex<double>': 'ISt7complexIdEE'}[el.group(1)] if el else '')
        c.require(tm.B(nm.endswith('3pml' + code + 'E')), 'checked for the own type')
        c.case(same).ret(p)
        c.case(Not(same)).ret(NULL)
    v.contract(r'^__dynamic_cast$', dc, 'dynamic_cast')
    for t in TYPES[src]:
        now['t'] = t
        cls = PML + t.replace('>>', '> >')
        for what in ('assign', 'clone'):
            sz = lay.size(cls) if 'bool' not in cls else 16
            a, b = v.reg(Region('this_' + t + what, size=sz)), v.reg(Region('other_' + t + what, size=sz))
            st = v.st.copy()
            for x in (CNT, OK):
                st.store(x, I64, I(0), 'setup')
            b.readonly = True
            tmpl = '<%s' % re.escape(cls)
            f = [n for n in v.find(r'^visr::TypedParameterBase%s, .*>::%s\(' % (tmpl, what), unique=False)]
            if len(f) != 1:
                raise Unsupported('%s of %s' % (what, t))

            def copied(c, this, rhs, a=a, b=b, what=what):
                n = c.rd(CNT, I64)
                if what == 'assign':
                    c.require(And(at(c.st, this, a.ptr()), at(c.st, rhs, b.ptr())), 'assigns the argument to this object')
                    c.case().put(CNT, I64, add(n, I(1))).ret(this)
                else:
                    p = c.st.resolve(this)
                    c.require(at(c.st, rhs, a.ptr()), 'copies this object')
                    c.require(And(tm.B(p.reg is not a and p.reg is not b), eq(p.off, I(0))), 'into a new object')
                    c.case().put(CNT, I64, add(n, I(1))).put(OK, PTR, this)
            short = t.split('<')[0]
            name = r'^%s::operator=\(%s const&\)' % (esc(t), esc(t)) if what == 'assign' else r'^%s::%s\(%s const&\)' % (esc(t), short, esc(t))
            v.contract(name, copied, t + (' assignment' if what == 'assign' else ' copy constructor'))
            if what == 'assign':
                ends = split_ends(v, v.call(f[0], [a.ptr(), b.ptr()], st), Not(same), 'throw', t + ': another type')
            else:
                res = v.reg(Region('result_' + t, size=8))
                st = v.st.copy()
                for x in (CNT, OK):
                    st.store(x, I64, I(0), 'setup')
                ends = only(v, v.call(f[0], [res.ptr(), a.ptr()], st), 'ret')
            for e in ends:
                v.oblige(e.st, '%s: %s once' % (t, 'assigned' if what == 'assign' else 'copied'), eq(e.st.load(CNT, I64, ''), I(1)))
                if what == 'clone':
                    v.oblige(e.st, t + ': the copy is returned', at(e.st, e.st.load(res.ptr(), PTR, ''), e.st.load(OK, PTR, '')))
    return v


def unit_scalar(t):
    v = V(['libpml/scalar_parameter.cpp'], 'ScalarParameter<%s>' % t, ('uf', 'real'))
    cls = PML + 'ScalarParameter<%s>' % t
    lay = Lay('libpml/scalar_parameter.cpp')
    a, b = Obj(v, 'this', cls, lay), Obj(v, 'other', cls, lay)
    ty = {'float': FTY['f'], 'double': FTY['d'], 'int': ('i', 32), 'unsigned int': ('i', 32), 'bool': ('i', 8)}[t]
    x, y = [v.flt(n, 'f' if t == 'float' else 'd') if t in ('float', 'double') else v.int(n, 0, 1 if t == 'bool' else (1 << 31) - 1) for n in ('value', 'otherValue')]
    for o, q in ((a, x), (b, y)):
        v.st.store(o.p('mValue'), ty, q, 'setup')
    v.contract(r'^visr::ParameterBase::operator=\(', lambda c, this, rhs: c.case().ret(this), 'ParameterBase assignment (no members)')
    f = v.find(r'^%s::operator=\(%s const&\)' % (re.escape(cls), re.escape(cls)))
    for e in only(v, v.call(f, [a.ptr(), b.ptr()]), 'ret'):
        for o, lab in ((a, 'assigned value'), (b, 'source value')):
            z = e.st.load(o.p('mValue'), ty, '')
            if t in ('float', 'double'):
                v.same(e.st, lab, z, y, ty)
            else:
                v.oblige(e.st, lab, eq(z, y))
    return v


def unit_vector(t):
    tu = 'libpml/vector_parameter.cpp'
    v = V([tu], 'VectorParameter<%s> assignment' % t, ('uf', 'real'))
    lay = Lay(tu)
    cls, bv = PML + 'VectorParameter<%s>' % t, 'visr::efl::BasicVector<%s>' % t
    off = dict(lay.cls(cls)['#bases'])[bv]
    o, q = v.reg(Region('target', size=lay.size(cls))), v.reg(Region('source', size=lay.size(cls)))
    n, m = v.int('size', 0, 1 << 30), v.int('sourceSize', 0, 1 << 30)
    for r, k in ((o, n), (q, m)):
        v.st.store(Ptr(r, (), off + lay.off(bv, 'mData.mLength')[0]), I64, k, 'setup')
    g = ghost(v, 1)
    v.st.store(g.at(0), I64, I(0), 'setup')

    def copy(c, this, rhs):
        c.require(And(at(c.st, this, Ptr(o, (), off)), at(c.st, rhs, Ptr(q, (), off))), 'copies the elements of the source')
        c.case(ne(n, m)).throw('_ZTISt16invalid_argument')
        c.case(eq(n, m)).put(g.at(0), I64, add(c.rd(g.at(0), I64), I(1)))
    v.contract(r'^%s::copy\(' % re.escape(bv), copy, 'BasicVector::copy')
    f = v.find(r'^%s::operator=\(' % re.escape(cls))
    for e in split_ends(v, v.call(f, [o.ptr(), q.ptr()]), ne(n, m), 'throw', 'vectors of different sizes'):
        v.oblige(e.st, 'elements are copied', eq(e.st.load(g.at(0), I64, ''), I(1)))
        v.oblige(e.st, 'returns the target', at(e.st, e.val, o.ptr()))
    return v


def unit_vector_copy(t):
    tu = 'libpml/vector_parameter.cpp'
    v = V([tu], 'VectorParameter<%s> copy constructor' % t, ('uf', 'real'))
    use_kernels(v)
    lay = Lay(tu)
    so, es = SO[t], ES[t]
    ty = FTY[so]
    cls, bv = PML + 'VectorParameter<%s>' % t, 'visr::efl::BasicVector<%s>' % t
    off = dict(lay.cls(cls)['#bases'])[bv]
    do = off + lay.off(bv, 'mData')[0]
    q, o = v.reg(Region('source', size=lay.size(cls))), v.reg(Region('copy', size=lay.size(cls)))
    a = Arr(v, 'source', t, lay, Obj(v, 'source', 'visr::efl::AlignedArray<%s>' % t, lay, q, do), al=I(16))
    a.reg.readonly = True
    fresh = v.reg(Region('new_elements', esize=es, leaf=es, leafsort=so, extent=lambda i: And(ge(i, I(0)), lt(i, a.n)), align=16))
    v.st.assume(tm.uf('multiple', (v.ex.address(v.st, fresh.ptr()), I(16 * es), ), 'B'))
    for p in (fresh.ptr(), a.data):
        ad = v.ex.address(v.st, p)
        v.st.assume(tm.uf('aligned', (ad, I(16), I(es)), 'B'))
    made = Obj(v, 'copy', 'visr::efl::AlignedArray<%s>' % t, lay, o, do)

    def ctor(c, this, n, al):
        c.require(at(c.st, this, Ptr(o, (), off)), 'the vector of the copy')
        c.require(And(eq(c.st.u(n, 64), a.n), eq(c.st.u(al, 64), a.al)), 'size and alignment of the source')
        c.case().put(made.p('mLength'), I64, n).put(made.p('mAlignment'), I64, al).put(made.p('mAlignedStorage'), PTR, fresh.ptr()).put(made.p('mRawStorage'), PTR, fresh.ptr())
    v.contract(r'^%s::BasicVector\(unsigned long, unsigned long\)' % re.escape(bv), ctor, 'BasicVector constructor')
    v.contract(r'^%s::BasicVector\(unsigned long, unsigned long\)' % re.escape(cls), lambda c, this, n, al: ctor(c, Ptr(c.st.resolve(this).reg, c.st.resolve(this).mem, add(c.st.resolve(this).off, I(off))), n, al), 'BasicVector constructor')
    f = v.find(r'^%s::VectorParameter\(%s const&\)' % (re.escape(cls), re.escape(cls)))
    for e in only(v, v.call(f, [o.ptr(), q.ptr()]), 'ret'):
        s = e.st.copy()
        i = tm.fresh('element', 'I')
        s.assume(And(ge(i, I(0)), lt(i, a.n)))
        v.same(s, 'element of the copy', s.read_at(s.resolve(made.get('mAlignedStorage', PTR, s)).plus(mul(i, I(es))), ty, (), check=False), v.st.read_at(a.data.plus(mul(i, I(es))), ty, (), check=False), ty)
        v.oblige(s, 'size of the copy', eq(s.u(made.get('mLength', I64, s), 64), a.n))
    return v


def unit_matrix(t, ctor):
    tu = 'libpml/matrix_parameter.cpp'
    v = V([tu], 'MatrixParameter<%s> %s' % (t, 'copy constructor' if ctor else 'assignment'), ('uf', 'real'))
    lay = Lay(tu)
    cls, bm = PML + 'MatrixParameter<%s>' % t, 'visr::efl::BasicMatrix<%s>' % t
    off = dict(lay.cls(cls)['#bases'])[bm]
    q, o = v.reg(Region('source', size=lay.size(cls))), v.reg(Region('target', size=lay.size(cls)))
    m = Mat(v, 'source', t, lay, obj=Obj(v, 'source', bm, lay, q, off))
    m.reg.readonly = True
    g = ghost(v, 2)
    for k in range(2):
        v.st.store(g.at(k), I64, I(0), 'setup')

    def make(c, this, r, k, al):
        c.require(at(c.st, this, o.ptr()), 'the copy is made')
        c.require(And(eq(c.st.u(r, 64), m.rows), eq(c.st.u(k, 64), m.cols), eq(c.st.u(al, 64), m.al)), 'dimensions and alignment of the source')
        c.case().put(g.at(0), I64, I(1))

    def copy(c, this, rhs):
        c.require(And(at(c.st, this, Ptr(o, (), off)), at(c.st, rhs, Ptr(q, (), off))), 'copies the elements of the source')
        c.require(eq(c.rd(g.at(0), I64), I(1 if ctor else 0)), 'the target exists')
        c.case().put(g.at(1), I64, add(c.rd(g.at(1), I64), I(1)))
    v.contract(r'^%s::MatrixParameter\(unsigned long, unsigned long, unsigned long\)' % re.escape(cls), make, 'MatrixParameter constructor')
    v.contract(r'^%s::copy\(' % re.escape(bm), copy, 'BasicMatrix::copy')
    f = v.find(r'^%s::%s\(%s const&\)' % (re.escape(cls), 'MatrixParameter' if ctor else 'operator=', re.escape(cls)))
    for e in only(v, v.call(f, [o.ptr(), q.ptr()]), 'ret'):
        v.oblige(e.st, 'elements are copied', eq(e.st.load(g.at(1), I64, ''), I(1)))
        if not ctor:
            v.oblige(e.st, 'returns the target', at(e.st, e.val, o.ptr()))
    return v


def units(sel=None):
    out = [('dispatch ' + s, lambda s=s: unit_dispatch(s)) for s in TYPES]
    out += [('scalar<%s>' % t, lambda t=t: unit_scalar(t)) for t in ('float', 'double', 'int', 'unsigned int')]
    for t in ('float', 'double'):
        out += [('vector<%s> assignment' % t, lambda t=t: unit_vector(t)), ('vector<%s> copy' % t, lambda t=t: unit_vector_copy(t))]
        out += [('matrix<%s> %s' % (t, 'copy' if c else 'assignment'), lambda t=t, c=c: unit_matrix(t, c)) for c in (0, 1)]
    return out
