"""pml parameter communication protocols: double buffering, message queue, shared data."""
from irv.unit import *
from .arrays import only, split_ends

D = 'visr::pml::DoubleBufferingProtocol'
Q = 'visr::pml::MessageQueueProtocol'
S = 'visr::pml::SharedDataProtocol'
TU = {D: 'libpml/double_buffering_protocol.cpp', Q: 'libpml/message_queue_protocol.cpp', S: 'libpml/shared_data_protocol.cpp'}
B8 = ('i', 8)


def cells(v, name, n, base=None):
    r = v.reg(Region(name, esize=8, leaf=8, leafsort='i', extent=lambda i: And(ge(i, I(0)), lt(i, I(n)))))
    for k in range(n):
        v.st.store(r.at(I(k)), I64, I(0) if base is None else base[k], 'setup')
    return r


def casts(v, ok):
    """dynamic_cast succeeds exactly for ports / protocols of the matching type"""
    def dc(c, p, *a):
        c.case(ok).ret(p)
        c.case(Not(ok)).ret(NULL)
    v.contract(r'^__dynamic_cast$', dc, 'dynamic_cast')


class Ports:
    """protocol with a list of n input ports: entries are distinct"""

    def __init__(self, v, cls):
        self.v, self.cls = v, cls
        self.lay = Lay(TU[cls])
        self.o = Obj(v, 'protocol', cls, self.lay)
        self.n = n = v.int('inputs', 0, 1 << 20)
        self.e = lambda i: i        # ports are named by their list position; the others have numbers from n on
        self.ports = v.reg(Region('inputPorts', nmem=1, size=24))
        ports, e = self.ports, self.e
        self.inv = lambda x: x
        self.vec = v.reg(Region('inputList', esize=8, leaf=8, leafsort='p', extent=lambda i: And(ge(i, I(0)), lt(i, n)), ptrs={0: lambda i: Ptr(ports, (e(i),), 0)}))
        b = self.o.lay.off(cls, 'mInputs')[0]
        for k, p in enumerate((self.vec.ptr(), self.vec.at(n), self.vec.at(n))):
            v.st.store(Ptr(self.o.reg, (), self.o.base + b + 8 * k), PTR, p, 'setup')
        self.vecp = self.o.p('mInputs')


def unit_swap():
    v = V([TU[D]], 'DoubleBufferingProtocol::swapBuffers')
    p = Ports(v, D)
    o = p.o
    # parameter objects with an abstract content; slot 4 of their vtable is assign()
    obj = v.reg(Region('parameters', nmem=1, size=16, member_ok=None))
    vt = v.reg(Region('parameterVtable', esize=8, leaf=8, leafsort='p', extent=lambda i: And(ge(i, I(0)), lt(i, I(8)))))
    A, Bk = Ptr(obj, (I(0),), 0), Ptr(obj, (I(1),), 0)
    c0 = {}
    for k, q in enumerate((A, Bk)):
        v.st.store(q, PTR, vt.ptr(), 'setup')
        c0[k] = v.int('content%d' % k)
        v.st.store(q.plus(I(8)), I64, c0[k], 'setup')
    o.set('mFrontData', A, PTR)
    o.set('mBackData', Bk, PTR)
    copy = v.bool('copyValue')

    def assign(ex, st, a, ins):
        dst, src = st.resolve(a[0]), st.resolve(a[1])
        st.store(dst.plus(I(8)), I64, st.load(src.plus(I(8)), I64, ''), 'assign')
        return [End('ret', st, None)]
    v.st.store(vt.at(I(4)), PTR, VFn('ParameterBase::assign', assign), 'setup')
    chg = Lay(TU[D]).off(D + '::InputBase', 'mChanged')[0]
    st0 = v.st.copy()
    for e in only(v, v.call(v.find(r'^%s::swapBuffers\(bool\)$' % D), [o.ptr(), copy]), 'ret'):
        f, b = e.st.resolve(o.get('mFrontData', PTR, e.st)), e.st.resolve(o.get('mBackData', PTR, e.st))
        v.oblige(e.st, 'receivers see the published value', eq(e.st.load(b.plus(I(8)), I64, ''), c0[0]))
        v.oblige(e.st, 'value is kept in the send buffer if requested', Implies(copy, eq(e.st.load(f.plus(I(8)), I64, ''), c0[0])))
        v.oblige(e.st, 'send and receive buffers are distinct', ne(f.mem[0], b.mem[0]))
        i, j = tm.fresh('i', 'I'), tm.fresh('j', 'I')
        s = e.st.copy()
        s.assume(And(ge(i, I(0)), lt(i, p.n)))
        v.oblige(s, 'every connected input is marked as changed', ne(s.load(Ptr(p.ports, (p.e(i),), chg), B8, ''), I(0)))
        s = e.st.copy()
        # a port that is not in the list (indexOf is the inverse of the list entries)
        s.assume(Not(And(ge(p.inv(j), I(0)), lt(p.inv(j), p.n))))
        v.oblige(s, 'no other port is marked', eq(s.load(Ptr(p.ports, (j,), chg), B8, ''), st0.load(Ptr(p.ports, (j,), chg), B8, '')))
    return v


def unit_flags():
    v = V([TU[D]], 'DoubleBufferingProtocol ports: changed, resetChanged, data')
    lay = Lay(TU[D])
    pr = Obj(v, 'protocol', D, lay)
    i, o = Obj(v, 'input', D + '::InputBase', lay), Obj(v, 'output', D + '::OutputBase', lay)
    obj = v.reg(Region('parameters', nmem=1, size=16))
    front, back = Ptr(obj, (I(0),), 0), Ptr(obj, (I(1),), 0)
    pr.set('mFrontData', front, PTR)
    pr.set('mBackData', back, PTR)
    i.set('mProtocol', pr.ptr(), PTR)
    o.set('mProtocol', pr.ptr(), PTR)
    ch = v.int('changedFlag', 0, 2)
    i.set('mChanged', ch, B8)
    for e in only(v, v.call(v.find(r'^%s::InputBase::changed\(' % D), [i.ptr()]), 'ret'):
        v.oblige(e.st, 'changed() reports the flag', eq(ite(e.val, I(1), I(0)) if e.val.sort == 'B' else e.val, ch))
    for e in only(v, v.call(v.find(r'^%s::InputBase::resetChanged\(' % D), [i.ptr()]), 'ret'):
        v.oblige(e.st, 'flag is cleared', eq(i.get('mChanged', B8, e.st), I(0)))
        v.same(e.st, 'protocol is kept', e.st.resolve(i.get('mProtocol', PTR, e.st)), pr.ptr())
    for f, a, w in ((r'^%s::InputBase::data\(' % D, i, back), (r'^%s::OutputBase::data\(' % D, o, front)):
        for e in only(v, v.call(v.find(f), [a.ptr()]), 'ret'):
            v.same(e.st, 'input reads the receive buffer, output writes the send buffer', e.st.resolve(e.val), w)
    done = []

    def sw(c, this, cv):
        c.v.same(c.st, 'protocol of the port', c.st.resolve(this), pr.ptr())
        c.v.oblige(c.st, 'copy flag is passed on', eq(cv, cpy) if cv.sort == 'I' else tm.iff(cv, cpy) if hasattr(tm, 'iff') else eq(ite(cv, I(1), I(0)), ite(cpy, I(1), I(0))))
        c.case().put(g.at(I(0)), I64, add(c.rd(g.at(I(0)), I64), 1))
    g = cells(v, 'ghost', 1)
    cpy = v.bool('copyValue')
    v.contract(r'^%s::swapBuffers\(' % D, sw, 'swapBuffers')
    for e in only(v, v.call(v.find(r'^%s::OutputBase::swapBuffers\(' % D), [o.ptr(), cpy]), 'ret'):
        v.oblige(e.st, 'one swap per request', eq(e.st.load(g.at(I(0)), I64, ''), I(1)))
    # construction: nothing is reported as changed
    v.contract(r'^visr::CommunicationProtocolBase::(Input|Output)::(Input|Output)\(', lambda c, t: c.case(), 'CommunicationProtocolBase::Input constructor')
    raw = Obj(v, 'raw', D + '::InputBase', lay)
    for e in only(v, v.call(v.find(r'^%s::InputBase::InputBase\(' % D), [raw.ptr()]), 'ret'):
        v.oblige(e.st, 'no change before the first swap', eq(raw.get('mChanged', B8, e.st), I(0)))
        v.same(e.st, 'not connected', e.st.resolve(raw.get('mProtocol', PTR, e.st)), NULL)
    return v


def unit_inputs(cls, what):
    """connectInput / disconnectInput of the protocols with several inputs"""
    nm = cls.split('::')[-1]
    v = V([TU[cls]], '%s::%sInput' % (nm, what))
    p = Ports(v, cls)
    ok = v.bool('matchingType')
    casts(v, ok)
    x = v.int('port', 0, 1 << 20)
    port = Ptr(p.ports, (x,), 0)
    j = ite(lt(x, p.n), x, p.n)
    found = lt(x, p.n)
    g = cells(v, 'ghost', 4)

    def find(c, b, e, val):
        c.v.same(c.st, 'search over the whole list', c.st.resolve(b), p.vec.ptr())
        c.v.same(c.st, 'search over the whole list', c.st.resolve(e), p.vec.at(p.n))
        c.v.same(c.st, 'search for the port', c.st.resolve(c.rd(val, PTR)), port)
        c.case().ret(p.vec.at(j))
    v.contract(r'std::find<', find, 'std::find')

    def push(c, this, val):
        c.v.same(c.st, 'list', c.st.resolve(this), p.vecp)
        c.v.same(c.st, 'the port is added', c.st.resolve(c.rd(val, PTR)), port)
        c.case().put(g.at(I(0)), I64, add(c.rd(g.at(I(0)), I64), 1))
    v.contract(r'std::vector<visr::pml::.*::InputBase\*.*::push_back\(', push, 'std::vector::push_back')
    v.contract(r'std::vector<visr::pml::.*::InputBase\*.*::emplace_back', push, 'std::vector::emplace_back')

    def erase(c, this, it):
        c.v.same(c.st, 'list', c.st.resolve(this), p.vecp)
        c.v.same(c.st, 'the found entry is removed', c.st.resolve(it), p.vec.at(j))
        c.require(found, 'only an existing entry is removed')
        c.case().put(g.at(I(1)), I64, add(c.rd(g.at(I(1)), I64), 1)).ret(it)
    v.contract(r'std::vector<visr::pml::.*::InputBase\*.*::erase\(', erase, 'std::vector::erase')

    def setp(c, this, pr):
        pr = c.st.resolve(pr)
        c.v.same(c.st, 'the port is updated', c.st.resolve(this), port)
        o = c.case()
        o.put(g.at(I(2)), I64, I(1) if pr is NULL or pr.reg is None else I(2))
    v.contract(r'^%s::InputBase::setProtocolInstance\(%s\*\)' % (cls, cls), setp, 'setProtocolInstance')
    ends = v.call(v.find(r'^%s::%sInput\(' % (cls, what)), [p.o.ptr(), port])
    G = lambda s, k: s.load(g.at(I(k)), I64, '')
    if what == 'connect':
        ends_ = split_ends(v, ends, Not(ok), 'throw', 'port of another protocol')
        for e in ends_:
            v.oblige(e.st, 'listed exactly once', eq(G(e.st, 0), ite(found, I(0), I(1))))
            v.oblige(e.st, 'attached to this protocol', Or(eq(G(e.st, 2), I(2)), And(found, eq(G(e.st, 2), I(0)))))
            v.oblige(e.st, 'nothing removed', eq(G(e.st, 1), I(0)))
    else:
        for e in only(v, ends, 'ret'):
            r = e.val if e.val.sort == 'B' else ne(e.val, I(0))
            c = And(ok, found)
            v.oblige(e.st, 'reports whether the port was connected', eq(ite(r, I(1), I(0)), ite(c, I(1), I(0))))
            v.oblige(e.st, 'entry removed exactly if present', eq(G(e.st, 1), ite(c, I(1), I(0))))
            v.oblige(e.st, 'port detached exactly if present', eq(G(e.st, 2), ite(c, I(1), I(0))))
            v.oblige(e.st, 'nothing added', eq(G(e.st, 0), I(0)))
    for e in ends:
        if e.kind == 'throw':
            for k in range(3):
                v.oblige(e.st, 'rejected port changes nothing', eq(G(e.st, k), I(0)))
    return v


def unit_single(cls, what, side):
    """connect / disconnect of a single port (outputs, and the input of the message queue)"""
    nm = cls.split('::')[-1]
    v = V([TU[cls]], '%s::%s%s' % (nm, what, side))
    lay = Lay(TU[cls])
    o = Obj(v, 'protocol', cls, lay)
    ports = v.reg(Region('ports', nmem=1, size=24))
    ok, have, same = v.bool('matchingType'), v.bool('alreadyConnected'), v.bool('samePort')
    casts(v, ok)
    port, other = Ptr(ports, (I(1),), 0), Ptr(ports, (I(2),), 0)
    f = 'm' + side
    res = []
    base = v.st
    for hv in (0, 1, 2):        # nothing / this port / another port is connected
        v.st = base.copy()
        g = cells(v, 'ghost%d' % hv, 2)
        o.set(f, (NULL, port, other)[hv], PTR)

        def setp(c, this, pr, g=g):
            pr = c.st.resolve(pr)
            c.v.same(c.st, 'the port is updated', c.st.resolve(this), port)
            c.case().put(g.at(I(0)), I64, I(1) if pr is NULL or pr.reg is None else I(2))
        v.ex.contracts = [x for x in v.ex.contracts if x[2] != 'setProtocolInstance']
        v.contract(r'^%s::%sBase::setProtocolInstance\(%s\*\)' % (cls, side, cls), setp, 'setProtocolInstance')
        ends = v.call(v.find(r'^%s::%s%s\(' % (cls, what, side)), [o.ptr(), port])
        G = lambda s: s.load(g.at(I(0)), I64, '')
        cur = lambda s: s.resolve(o.get(f, PTR, s))
        if what == 'connect':
            bad = Not(ok) if hv == 0 else TRUE
            for e in split_ends(v, ends, bad, 'throw', 'wrong type or already connected'):
                v.same(e.st, 'port is recorded', cur(e.st), port)
                v.oblige(e.st, 'port is attached to this protocol', eq(G(e.st), I(2)))
            for e in ends:
                if e.kind == 'throw':
                    v.same(e.st, 'rejected port changes nothing', cur(e.st), (NULL, port, other)[hv])
                    v.oblige(e.st, 'rejected port changes nothing', eq(G(e.st), I(0)))
        else:
            for e in only(v, ends, 'ret'):
                r = e.val if e.val.sort == 'B' else ne(e.val, I(0))
                c = ok if hv == 1 else FALSE
                v.oblige(e.st, 'reports whether the port was connected', eq(ite(r, I(1), I(0)), ite(c, I(1), I(0))))
                v.oblige(e.st, 'port detached exactly if connected', eq(G(e.st), ite(c, I(1), I(0))))
                if e.st.proves(c):
                    v.same(e.st, 'connection is removed', cur(e.st), NULL)
                else:
                    v.oblige(e.st, 'case split', Not(c))
                    v.same(e.st, 'other connections are kept', cur(e.st), (NULL, port, other)[hv])
    return v


def unit_queue():
    v = V([TU[Q]], 'MessageQueueProtocol: enqueue, nextElement, popNextElement, size, clear')
    lay = Lay(TU[Q])
    o = Obj(v, 'protocol', Q, lay)
    lo, hi = v.int('first', -(1 << 40), 1 << 40), v.int('last', -(1 << 40), 1 << 40)
    v.st.assume(le(lo, hi))
    msgs = v.reg(Region('messages', nmem=1, size=16))
    cell = v.reg(Region('queue', esize=8, leaf=8, leafsort='p', extent=lambda i: TRUE, ptrs={0: lambda i: Ptr(msgs, (i,), 0)}))
    g = cells(v, 'ghost', 2, (lo, hi))
    LO, HI = g.at(I(0)), g.at(I(1))
    v.signed = True
    rd = lambda c, p: c.st.s(c.rd(p, I64), 64)
    qp = o.p('mQueue')
    pat = r'std::deque<std::unique_ptr<visr::ParameterBase.*>::%s\('

    def chk(c, this):
        c.v.same(c.st, 'queue of this protocol', c.st.resolve(this), qp)

    def push(front):
        def f(c, this, val):
            chk(c, this)
            a = sub(rd(c, LO), 1) if front else rd(c, HI)
            x = c.st.resolve(c.rd(val, PTR))
            q = c.case()
            q.put(cell.at(a), PTR, x)
            q.put(val, PTR, NULL)
            q.put(LO if front else HI, I64, a if front else add(a, 1))
        return f
    for nm, fr in (('push_front', True), ('push_back', False)):
        v.contract(pat % nm, push(fr), 'std::deque::' + nm)

    def end(front, pop):
        def f(c, this):
            chk(c, this)
            a, b = rd(c, LO), rd(c, HI)
            c.require(lt(a, b), 'not called on an empty container')
            q = c.case()
            if not pop:
                q.ret(cell.at(a if front else sub(b, 1)))
            else:
                q.put(LO if front else HI, I64, add(a, 1) if front else sub(b, 1))
        return f
    for nm, fr, pp in (('front', 1, 0), ('back', 0, 0), ('pop_front', 1, 1), ('pop_back', 0, 1)):
        v.contract(pat % nm, end(fr, pp), 'std::deque::' + nm)

    def size(c, this):
        chk(c, this)
        c.case().ret(sub(rd(c, HI), rd(c, LO)))
    v.contract(pat % 'size', size, 'std::deque::size')

    def empty(c, this):
        chk(c, this)
        c.case().ret(eq(rd(c, HI), rd(c, LO)))
    v.contract(pat % 'empty', empty, 'std::deque::empty')

    def clear(c, this):
        chk(c, this)
        c.case().put(LO, I64, I(0)).put(HI, I64, I(0))
    v.contract(pat % 'clear', clear, 'std::deque::clear')
    F = lambda n: v.find(r'^%s::%s\(' % (Q, n))
    L = lambda s, p: s.s(s.load(p, I64, ''), 64)
    base = v.st.copy()
    nempty = lt(lo, hi)
    # which end is the oldest?  nextElement decides; enqueue and pop have to agree with it
    for e in split_ends(v, v.call(F('nextElement'), [o.ptr()]), Not(nempty), 'throw', 'access to an empty queue'):
        r = e.st.resolve(e.val)
        front = e.st.proves(eq(r.mem[0], lo))
        if not front:
            v.oblige(e.st, 'the next message is at one end of the queue', eq(r.mem[0], sub(hi, 1)))
        else:
            v.oblige(e.st, 'the next message is at one end of the queue', TRUE)
        v.oblige(e.st, 'reading does not change the queue', And(eq(L(e.st, LO), lo), eq(L(e.st, HI), hi)))
    v.st = base.copy()
    for e in split_ends(v, v.call(F('popNextElement'), [o.ptr()]), Not(nempty), 'throw', 'removal from an empty queue'):
        v.oblige(e.st, 'exactly the next message is removed', And(eq(L(e.st, LO), add(lo, 1) if front else lo), eq(L(e.st, HI), hi if front else sub(hi, 1))))
    v.st = base.copy()
    new = Ptr(msgs, (v.int('newMessage', 1 << 50, 1 << 51),), 0)
    arg = v.reg(Region('argument', esize=8, leaf=8, leafsort='p', extent=lambda i: And(ge(i, I(0)), lt(i, I(1)))))
    v.st.store(arg.ptr(), PTR, new, 'setup')
    for e in only(v, v.call(F('enqueue'), [o.ptr(), arg.ptr()]), 'ret'):
        v.oblige(e.st, 'one message is added behind all others', And(eq(L(e.st, LO), lo if front else sub(lo, 1)), eq(L(e.st, HI), add(hi, 1) if front else hi)))
        v.same(e.st, 'the new message is the last one to be delivered', e.st.resolve(e.st.load(cell.at(hi if front else sub(lo, 1)), PTR, '')), new)
        k = tm.fresh('k', 'I')
        s = e.st.copy()
        s.assume(And(ge(k, lo), lt(k, hi)))
        v.same(s, 'queued messages are kept in order', s.resolve(s.load(cell.at(k), PTR, '')), Ptr(msgs, (k,), 0))
        v.same(e.st, 'ownership is transferred', e.st.resolve(e.st.load(arg.ptr(), PTR, '')), NULL)
    for fn, want in (('numberOfElements', sub(hi, lo)), ('empty', ite(nempty, I(0), I(1)))):
        v.st = base.copy()
        for e in only(v, v.call(F(fn), [o.ptr()]), 'ret'):
            r = ite(e.val, I(1), I(0)) if e.val.sort == 'B' else e.val
            v.oblige(e.st, fn, eq(r, want))
            v.oblige(e.st, 'queue unchanged', And(eq(L(e.st, LO), lo), eq(L(e.st, HI), hi)))
    v.st = base.copy()
    for e in only(v, v.call(F('clear'), [o.ptr()]), 'ret'):
        v.oblige(e.st, 'queue is empty', eq(L(e.st, LO), L(e.st, HI)))
    return v


def unit_setproto(cls, side):
    """setProtocolInstance(CommunicationProtocolBase*): only protocols of the matching type"""
    nm = cls.split('::')[-1]
    v = V([TU[cls]], '%s::%sBase::setProtocolInstance' % (nm, side))
    lay = Lay(TU[cls])
    port = Obj(v, 'port', '%s::%sBase' % (cls, side), lay)
    pr = v.reg(Region('protocol', esize=8, leaf=8, leafsort='i', extent=lambda i: And(ge(i, I(0)), lt(i, I(20)))))
    ok = v.bool('matchingType')
    casts(v, ok)
    port.set('mProtocol', NULL, PTR)
    ends = v.call(v.find(r'^%s::%sBase::setProtocolInstance\(visr::CommunicationProtocolBase' % (cls, side)), [port.ptr(), pr.ptr()])
    for e in split_ends(v, ends, Not(ok), 'throw', 'protocol of another type'):
        v.same(e.st, 'port is attached to the protocol', e.st.resolve(port.get('mProtocol', PTR, e.st)), pr.ptr())
    return v


def units(sel=None):
    out = [('swapBuffers', unit_swap), ('port flags', unit_flags), ('message queue', unit_queue)]
    for cls in (D, S):
        for w in ('connect', 'disconnect'):
            out.append(('%s %sInput' % (cls.split('::')[-1], w), lambda cls=cls, w=w: unit_inputs(cls, w)))
    for cls, sides in ((D, ('Output',)), (S, ('Output',)), (Q, ('Input', 'Output'))):
        for side in sides:
            for w in ('connect', 'disconnect'):
                out.append(('%s %s%s' % (cls.split('::')[-1], w, side), lambda cls=cls, w=w, side=side: unit_single(cls, w, side)))
    for cls in (D, S, Q):
        for side in ('Input', 'Output'):
            out.append(('%s %s setProtocolInstance' % (cls.split('::')[-1], side), lambda cls=cls, side=side: unit_setproto(cls, side)))
    return out
