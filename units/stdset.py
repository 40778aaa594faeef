"""std::set of 16 byte elements: the ordered sequence of its elements, kept as (first element, count) in the set object."""
from irv.unit import *

T2 = r'std::tuple<unsigned long, unsigned long>'


def obj(v, p, reg, n):
    """the set object at p holds the first n elements of reg"""
    v.st.store(p, PTR, reg.ptr(), 'setup')
    v.st.store(p.plus(8), I64, n, 'setup')


def elements(v, name, n, size=16):
    r = v.reg(Region(name, esize=size, leaf=8, leafsort='i', extent=lambda i: And(ge(i, I(0)), lt(i, n))))
    return r


def use_set(v, el, fresh=None, less=None, size=16):
    """contracts of the operations on std::set<el>"""
    A = v.contract
    first = lambda c, t: c.st.resolve(c.rd(t, PTR))
    count = lambda c, t: c.rd(t.plus(8), I64)
    S = r'^std::(?:multi)?set<%s,.*>::' % el
    begin = lambda c, t: c.case().ret(first(c, c.st.resolve(t)))

    def end(c, t):
        t = c.st.resolve(t)
        c.case().ret(first(c, t).plus(mul(count(c, t), I(size))))
    A(S + r'c?begin\(', begin, 'std::set::begin')
    A(S + r'c?end\(', end, 'std::set::end')
    A(S + r'size\(', lambda c, t: c.case().ret(count(c, c.st.resolve(t))), 'std::set::size')
    A(S + r'empty\(', lambda c, t: c.case().ret(eq(count(c, c.st.resolve(t)), I(0))), 'std::set::empty')
    It = r'std::_Rb_tree_const_iterator<%s ?>' % el
    A(r'^%s::operator(\*|->)\(\)' % It, lambda c, t: c.case().ret(first(c, c.st.resolve(t))), 'std::set iterator')

    def inc(c, t):
        t = c.st.resolve(t)
        c.case().put(t, PTR, first(c, t).plus(size)).ret(t)
    A(r'^%s::operator\+\+\(\)' % It, inc, 'std::set iterator')

    def cmp(neg):
        def f(c, a, b):
            p, q = first(c, c.st.resolve(a)), first(c, c.st.resolve(b))
            if p.reg is not q.reg:
                raise Unsupported('iterators of different sets')
            e = eq(p.off, q.off)
            c.case().ret(Not(e) if neg else e)
        return f
    for op, neg in (('==', 0), ('!=', 1)):
        A(r'^(bool )?(std::)?operator%s(<.*>)?\(%s const&, %s const&\)' % (op, It, It), cmp(neg), 'std::set iterator')
        A(r'^%s::operator%s\(' % (It, op), cmp(neg), 'std::set iterator')
    if fresh is not None:
        def ctor(c, t):
            t = c.st.resolve(t)
            o = c.case().put(t, PTR, fresh.ptr())
            for k in (8, 16, 24):
                o.put(t.plus(k), I64, I(0))
        A(S + r'set\(\)$', ctor, 'std::set constructor')
        A(S + r'~set\(\)$', lambda c, t: c.case(), 'std::set destructor')
        A(S + r'clear\(\)', ctor, 'std::set::clear')

    def swap(c, a, b):
        a, b = c.st.resolve(a), c.st.resolve(b)
        fa, na, fb, nb = first(c, a), count(c, a), first(c, b), count(c, b)
        c.case().put(a, PTR, fb).put(a.plus(8), I64, nb).put(b, PTR, fa).put(b.plus(8), I64, na)
    A(S + r'swap\(', swap, 'std::set::swap')

    def assign(c, a, b):
        a, b = c.st.resolve(a), c.st.resolve(b)
        c.case().put(a, PTR, first(c, b)).put(a.plus(8), I64, count(c, b)).ret(a)
    A(S + r'operator=\(', assign, 'std::set assignment')
    if less is not None:
        def insert(c, t, x):
            """insertion of an element beyond the last one"""
            t, x = c.st.resolve(t), c.st.resolve(x)
            p, n = first(c, t), count(c, t)
            new = (c.rd(x, I64), c.rd(x.plus(8), I64))
            last = (c.rd(t.plus(16), I64), c.rd(t.plus(24), I64))       # kept by the constructor and by insert
            c.require(Or(eq(n, I(0)), less(last, new)), 'elements are inserted in ascending order')
            q = p.plus(mul(n, I(size)))
            c.case().put(q, I64, new[0]).put(q.plus(8), I64, new[1]).put(t.plus(8), I64, add(n, I(1))).put(t.plus(16), I64, new[0]).put(t.plus(24), I64, new[1])
        A(S + r'insert\(', insert, 'std::set::insert (ascending)')
