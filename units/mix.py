"""rcl::NullSource, rcl::Add, rcl::SignalRouting, rcl::GainMatrix: mixing and routing of whole channels."""
from irv.unit import *
from .arrays import only, split_ends, Arr, Mat
from .efl import use_kernels
from .component import Comp
from .flow import vec, ghost
from .comps import mkarr
from . import stdset
from .stdset import T2, elements
from irv.solver import Fact

F = FTY['f']
ADD, NUL, ROU = 'librcl/add.cpp', 'librcl/null_source.cpp', 'librcl/signal_routing.cpp'


def sample(v, e, out, width, period, want, label):
    s = e.st.copy()
    c, k = tm.fresh('channel', 'I'), tm.fresh('k', 'I')
    s.assume(And(ge(c, I(0)), lt(c, width), ge(k, I(0)), lt(k, period)))
    v.same(s, label, out.x(s, c, k), want(s, c, k), F)


def unit_null():
    v = V([NUL], 'NullSource::process', ('uf',))
    c = Comp(v, 'visr::rcl::NullSource', NUL)
    c.al = I(16)
    w = v.int('width', 0, 1 << 20)
    out = c.audio('mOutput', w, inp=False)
    use_kernels(v)
    for e in only(v, c.run(), 'ret'):
        sample(v, e, out, w, c.period, lambda s, ch, k: fnum(0.0, 'f'), 'every output sample is zero')
    return v


def unit_add(kind):
    v = V([ADD], 'Add::process (%s)' % dict([(0, 'no input'), (1, 'one input'), (2, 'two or more inputs')])[kind], ('uf', 'real'))
    c = Comp(v, 'visr::rcl::Add', ADD)
    c.al = I(16)
    w = v.int('width', 0, 1 << 20)
    n = v.int('numberOfInputs', 2, 1 << 20) if kind == 2 else I(kind)
    out = c.audio('mOutput', w, inp=False)
    P = c.period
    X = v.reg(Region('inputSamples', nmem=2, esize=4, leaf=4, leafsort='f', align=4,
                     extent=lambda i, ch, k: And(ge(i, I(0)), lt(i, n), ge(ch, I(0)), lt(ch, w), ge(k, I(0)), lt(k, P))))
    X.readonly, X.rowaligned = True, c.al
    ports = v.reg(Region('inputPorts', nmem=1, esize=8, leaf=8, leafsort='i', extent=lambda i, k: And(ge(i, I(0)), lt(i, n), ge(k, I(0)), lt(k, I(64)))))
    ptrs = v.reg(Region('inputPointers', esize=8, leaf=8, leafsort='p', extent=lambda i: And(ge(i, I(0)), lt(i, n)), ptrs={0: lambda i: Ptr(ports, (i,), 0)}))
    ptrs.readonly = ports.readonly = True
    vec(v, c.o, 'mInputs', ptrs, n)

    def at(cc, this, ch):
        p = cc.st.resolve(this)
        if p.reg is not ports:
            return c._at(cc, this, ch)
        cc.require(And(ge(ch, I(0)), lt(ch, w)), 'channel index below the port width')
        cc.case().ret(Ptr(X, (p.mem[0], ch), 0))
    for f in ('operator\\[\\]', 'at'):
        v.contract(r'^visr::AudioInputT<float>::%s\(' % f, at, 'AudioInput::at')
        v.ex.contracts.insert(0, v.ex.contracts.pop())
    use_kernels(v)
    for e in only(v, c.run(), 'ret'):
        def want(s, ch, k):
            x = lambda i: s.read_field(X, 0, 4, F, (i, ch, k))
            if kind == 0:
                return fnum(0.0, 'f')
            if kind == 1:
                return x(I(0))
            kk, acc = tm.var('?kk', 'I'), tm.var('?acc', 'f')
            return tm.fold(sub(n, I(2)), [acc], [fadd(x(I(0)), x(I(1)))], [fadd(acc, x(add(kk, 2)))], 0, kk)
        sample(v, e, out, w, P, want, 'output sample is the sum over all inputs')
    return v

INV = (1 << 64) - 1
T2L = lambda a, b: Or(lt(a[1], b[1]), And(eq(a[1], b[1]), lt(a[0], b[0])))      # tuple (out, in) stored as (in, out)


class Routing:
    def __init__(self, v, ctrl):
        self.v = v
        c = self.c = Comp(v, 'visr::rcl::SignalRouting', ROU)
        c.al = I(16)
        self.nin, self.nout = v.int('inputs', 0, 1 << 20), v.int('outputs', 0, 1 << 20)
        self.inp, self.out = c.audio('mInput', self.nin), c.audio('mOutput', self.nout, inp=False)
        self.n, self.m = v.int('routings', 0, 1 << 20), v.int('newRoutings', 0, 1 << 20)
        self.tab = elements(v, 'routings', self.n)
        self.par = elements(v, 'newRoutings', self.m)
        self.tmp = elements(v, 'temporaryTable', self.m)
        self.par.readonly = self.tab.readonly = True
        self.valid('routings', self.n, True)
        self.valid('newRoutings', self.m, False)
        self.tp = c.o.p('mRoutings')
        stdset.obj(v, self.tp, self.tab, self.n)
        self.param = v.reg(Region('parameter', size=64))
        stdset.obj(v, self.param.ptr(), self.par, self.m)
        self.port = v.reg(Region('controlPort', size=64))
        self.g = ghost(v, 2)
        c.o.set('mControlInput', self.port.ptr() if ctrl else NULL, PTR)
        stdset.use_set(v, T2, fresh=self.tmp, less=T2L)
        stdset.use_set(v, 'visr::pml::SignalRoutingParameter::Entry')
        P = r'^visr::pml::SignalRoutingParameter::'
        v.contract(P + r'begin\(', lambda c, t: c.case().ret(self.par.ptr()), 'SignalRoutingParameter::begin')
        v.contract(P + r'end\(', lambda c, t: c.case().ret(self.par.at(self.m)), 'SignalRoutingParameter::end')
        D = r'^visr::pml::DoubleBufferingProtocol::Input'
        self.changed = v.bool('changed')
        v.contract(D + r'Base::changed\(', lambda c, t: c.case().ret(self.changed), 'changed')
        v.contract(D + r'Base::resetChanged\(', lambda c, t: c.case().put(self.g.at(0), I64, add(c.rd(self.g.at(0), I64), I(1))), 'resetChanged')
        v.contract(D + r'<visr::pml::SignalRoutingParameter>::data\(', lambda c, t: c.case().ret(self.param.ptr()), 'data')

        v.contract(r'^visr::Component::fullName', lambda c, *a: c.case(), 'Component::fullName')
        use_kernels(v)

    def valid(self, name, n, table):
        """entries of the table are in range, those of a parameter have distinct ascending outputs"""
        i_, o_ = (lambda j: tm.uf(name, (j,), 'I')), (lambda j: tm.uf(name + '.8', (j,), 'I'))
        g = lambda j: And(ge(j, I(0)), lt(j, n))
        if table:
            fs = [Fact(name, lambda j: Implies(g(j), Or(eq(i_(j), I(INV)), And(ge(i_(j), I(0)), lt(i_(j), self.nin)))), 1, 'table in range'),
                  Fact(name + '.8', lambda j: Implies(g(j), And(ge(o_(j), I(0)), lt(o_(j), self.nout))), 1, 'table in range')]
        else:
            fs = [Fact(name + '.8', lambda j: Implies(And(g(j), ge(j, I(1))), lt(o_(sub(j, I(1))), o_(j))), 1, 'ascending outputs')]
        # the elements are 64 bit values
        fs += [Fact(nm, lambda j, nm=nm: And(ge(tm.uf(nm, (j,), 'I'), I(0)), le(tm.uf(nm, (j,), 'I'), I(INV))), 1, '64 bit values') for nm in (name, name + '.8')]
        self.v.st.facts = tuple(self.v.st.facts) + tuple(fs)

    def entry(self, st, reg, j):
        return tuple(st.u(st.read_at(reg.at(j).plus(o), I64, (), check=False), 64) for o in (0, 8))

    def bad(self, i, o):
        return Or(And(ne(i, I(INV)), ge(i, self.nin)), ge(o, self.nout), eq(o, I(INV)))

    def check_contract(self):
        def f(c, t, i, o):
            c.case(self.bad(i, o)).throw('_ZTISt16invalid_argument')
            c.case(Not(self.bad(i, o)))
        self.v.contract(r'^visr::rcl::SignalRouting::checkRoutingIndexRanges\(', f, 'SignalRouting::checkRoutingIndexRanges')

    def table(self, st):
        return st.resolve(st.load(self.tp, PTR, '')), st.u(st.load(self.tp.plus(8), I64, ''), 64)


def unit_range():
    v = V([ROU], 'SignalRouting::checkRoutingIndexRanges', ('uf',))
    r = Routing(v, False)
    i, o = v.int('in', 0, INV), v.int('out', 0, INV)
    ends = v.call(v.find(r'^visr::rcl::SignalRouting::checkRoutingIndexRanges\('), [r.c.o.ptr(), i, o])
    split_ends(v, ends, r.bad(i, o), 'throw', 'indices out of range are rejected')
    return v


def unit_routing(ctrl):
    v = V([ROU], 'SignalRouting::process (%s)' % ('with control port' if ctrl else 'without control port'), ('uf', 'real'))
    r = Routing(v, ctrl)
    r.check_contract()
    for e in only(v, r.c.run(), 'ret'):
        p, n = r.table(e.st)
        v.oblige(e.st, 'table starts at its first element', eq(p.off, I(0)))
        if p.reg is r.tab:
            v.oblige(e.st, 'table unchanged', eq(n, r.n))
            if ctrl:
                s = e.st.copy()
                s.assume(r.changed)
                s.facts = tuple(s.facts) + (Fact('newRoutings.8', lambda j: Implies(And(ge(j, I(0)), lt(j, r.m)), Not(r.bad(tm.uf('newRoutings', (j,), 'I'), tm.uf('newRoutings.8', (j,), 'I')))), 1, 'all entries valid'),)
                v.oblige(s, 'a changed parameter with valid entries replaces the table', FALSE)
        else:
            s = e.st.copy()
            j = tm.fresh('entry', 'I')
            s.assume(And(ge(j, I(0)), lt(j, r.m)))
            a, b = r.entry(s, r.par, j)
            x, y = r.entry(s, p.reg, j)
            v.oblige(s, 'the new table holds the entries of the parameter', And(eq(n, r.m), eq(a, x), eq(b, y)))
            v.oblige(s, 'the new table is in range', Not(r.bad(x, y)))
            v.oblige(s, 'the table is replaced only by a changed parameter', r.changed if ctrl else FALSE)
        if ctrl:
            v.oblige(e.st, 'the change is consumed once', eq(e.st.load(r.g.at(0), I64, ''), ite(r.changed, I(1), I(0))))

        def want(s, ch, k):
            kk, acc = tm.var('?kk', 'I'), tm.var('?acc', 'f')
            i, o = r.entry(s, p.reg, kk)
            t = fadd(acc, r.inp.x(s, i, k))
            return tm.fold(n, [acc], [fnum(0.0, 'f')], [ite(And(eq(o, ch), ne(i, I(INV))), t, acc)], 0, kk)
        sample(v, e, r.out, r.nout, r.c.period, want, 'output sample is the sum over the inputs routed to it')
    return v

def unit_gmatrix(ctrl, zin):
    """zin: width of the input is zero"""
    src = 'librcl/gain_matrix.cpp'
    v = V([src], 'rcl::GainMatrix::process (%s%s)' % ('gain input' if ctrl else 'no gain input', ', no audio inputs' if zin else ''), ('uf',))
    c = Comp(v, 'visr::rcl::GainMatrix', src)
    nin, nout = (I(0) if zin else v.int('inputs', 1, 1 << 20)), v.int('outputs', 0, 1 << 20)
    inp, out = c.audio('mInput', nin), c.audio('mOutput', nout, inp=False)
    port = v.reg(Region('gainPort', size=64))
    c.o.set('mGainInput', port.ptr() if ctrl else NULL, PTR)
    mat, data = v.reg(Region('matrix', size=256)), v.reg(Region('gains', size=64))
    c.o.set('mMatrix', mat.ptr(), PTR)
    arrs = {}
    for f, n in (('mInputChannels', nin), ('mOutputChannels', nout)):
        a = arrs[f] = v.reg(Region(f + '_data', esize=8, leaf=8, leafsort='p', extent=lambda i, n=n: And(ge(i, I(0)), lt(i, n)), ptrs={0: lambda i: NULL}))
        b = c.lay.off(c.cls, f)[0]
        v.st.store(Ptr(c.o.reg, (), c.o.base + b), I64, n, 'setup')
        v.st.store(Ptr(c.o.reg, (), c.o.base + b + 8), PTR, a.ptr(), 'setup')
    g = ghost(v, 2)     # number of gain updates, number of matrix evaluations
    v.contract(r'^visr::pml::SharedDataProtocol::Input<visr::pml::MatrixParameter<float> ?>::data\(', lambda cc, t: cc.case().ret(data.ptr()), 'SharedDataProtocol::Input::data')

    def setg(cc, t, m):
        cc.require(tm.B(cc.st.resolve(t).reg is mat and cc.st.resolve(m).reg is data), 'the gains of the port are set')
        cc.require(eq(cc.rd(g.at(1), I64), I(0)), 'new gains are set before the block is processed')
        cc.case().put(g.at(0), I64, add(cc.rd(g.at(0), I64), I(1)))
    v.contract(r'^visr::rbbl::GainMatrix<float>::setNewGains\(', setg, 'rbbl::GainMatrix::setNewGains')
    Y = lambda ch, k: tm.uf('product', (ch, k), 'f')

    def pointers(cls, p):
        def f(cc, t, it):
            cc.require(tm.B(c.port(cc, t) is p), 'pointers of the port')
            it = cc.st.resolve(it)
            o = cc.case()
            o.fill(it, p.width, PTR, lambda i: Ptr(p.reg, (i,), 0))
            o.ret(it.plus(mul(p.width, I(8))))
        v.contract(r'^.*visr::%s<float>::getChannelPointers<' % cls, f, 'getChannelPointers')
    pointers('AudioInputT', inp)
    pointers('AudioOutputT', out)

    def proc(cc, t, ip, op):
        st = cc.st
        cc.require(tm.B(st.resolve(t).reg is mat), 'the matrix of this component')
        for q, p, n in ((ip, inp, nin), (op, out, nout)):
            s = st.copy()
            i = tm.fresh('i', 'I')
            s.assume(And(ge(i, I(0)), lt(i, n)))
            v.same(s, 'channel pointers are those of the port', s.resolve(s.load(st.resolve(q).plus(mul(i, I(8))), PTR, '')), Ptr(p.reg, (i,), 0))
        o = cc.case()
        o.put(g.at(1), I64, add(cc.rd(g.at(1), I64), I(1)))
        cond = And(ge(KV[0], I(0)), lt(KV[0], nout), ge(KV[1], I(0)), lt(KV[1], c.period))
        o.st.setlog(out.reg, 0, o.st.log(out.reg, 0) + (Upd(4, cond, Y(KV[0], KV[1])),))
    v.contract(r'^visr::rbbl::GainMatrix<float>::process\(', proc, 'rbbl::GainMatrix::process')
    use_kernels(v)
    for e in only(v, c.run(), 'ret'):
        sample(v, e, out, nout, c.period, lambda s, ch, k: fnum(0.0, 'f') if zin else Y(ch, k), 'output is zero' if zin else 'output is the matrix product')
        v.oblige(e.st, 'the gains of the port are set once per block', eq(e.st.load(g.at(0), I64, ''), I(1 if ctrl else 0)))
        if not zin:
            v.oblige(e.st, 'the transition advances once per block', eq(e.st.load(g.at(1), I64, ''), ite(gt(nout, I(0)), I(1), I(0))))
    return v


SPA = 'librcl/sparse_gain_matrix.cpp'


class Sparse:
    def __init__(self, v):
        self.v = v
        c = self.c = Comp(v, 'visr::rcl::SparseGainMatrix', SPA)
        self.nin, self.nout, self.pts = v.int('inputs', 0, 1 << 20), v.int('outputs', 0, 1 << 20), v.int('routingPoints', 0, 1 << 20)
        self.inp, self.out = c.audio('mInput', self.nin), c.audio('mOutput', self.nout, inp=False)
        c.o.set('mNumRoutingPoints', self.pts)
        al = v.int('parameterAlignment', 1, 1 << 10)
        self.prev, self.next = (mkarr(v, f, c, c.o.sub(f), self.pts, al) for f in ('mPreviousGains', 'mNextGains'))
        self.per = v.int('interpolationPeriods', 0, 1 << 30)
        self.ramp = v.int('rampIndex', 0, 1 << 30)
        v.st.assume(le(self.ramp, self.per))
        c.o.set('mRampIndex', self.ramp)
        self.n, self.m = v.int('routings', 0, 1 << 20), v.int('newRoutings', 0, 1 << 20)
        self.tab = self.elems('routings', self.n, True)
        self.new = self.elems('newRoutings', self.m, False)
        self.tp = c.o.p('mRoutings')
        stdset.obj(v, self.tp, self.tab, self.n)
        self.list = v.reg(Region('newList', size=64))
        stdset.obj(v, self.list.ptr(8), self.new, self.m)
        stdset.use_set(v, 'visr::rbbl::SparseGainRouting', size=32)
        L = r'^visr::rbbl::SparseGainRoutingList::'
        for f, k in (('begin', 0), ('end', 1)):
            def h(cc, t, k=k):
                t = cc.st.resolve(t)
                p = cc.st.resolve(cc.rd(t, PTR))
                cc.case().ret(p.plus(mul(cc.rd(t.plus(8), I64), I(32))) if k else p)
            v.contract(L + f + r'\(', h, 'SparseGainRoutingList::' + f)

        def asg(cc, a, b):
            a, b = cc.st.resolve(a), cc.st.resolve(b)
            cc.case().put(a, PTR, cc.st.resolve(cc.rd(b, PTR))).put(a.plus(8), I64, cc.rd(b.plus(8), I64)).ret(a)
        v.contract(L + r'operator=\(', asg, 'SparseGainRoutingList::operator=')
        # Component::status with an error message throws
        c.onstatus = lambda cc: cc.case().throw('_ZTISt13runtime_error')
        use_kernels(v)

    def elems(self, name, n, valid):
        v = self.v
        r = v.reg(Region(name, esize=32, leaf=8, leafsort='i', extent=lambda i: And(ge(i, I(0)), lt(i, n))))
        r.readonly = True
        F_ = lambda o: (lambda j: tm.uf('%s.%d' % (name, o) if o else name, (j,), 'I'))
        g = lambda j: And(ge(j, I(0)), lt(j, n))
        lim = {0: self.pts, 8: self.nout, 16: self.nin}
        fs = []
        for o in (0, 8, 16):
            f = F_(o)
            nm = '%s.%d' % (name, o) if o else name
            fs.append(Fact(nm, lambda j, f=f: And(ge(f(j), I(0)), le(f(j), I(INV))), 1, '64 bit values'))
            if valid:
                fs.append(Fact(nm, lambda j, f=f, o=o: Implies(g(j), lt(f(j), lim[o])), 1, 'table in range'))
        v.st.facts = tuple(v.st.facts) + tuple(fs)
        return r

    def entry(self, st, reg, j):
        p = reg.at(j)
        rd = lambda o, ty: st.read_at(p.plus(o), ty, (), check=False)
        return tuple(st.u(rd(o, I64), 64) for o in (0, 8, 16)) + (rd(24, F),)

    def gains(self, st, f):
        """the vector member as it is now (vectors may have been exchanged)"""
        d = st.resolve(self.c.o.get(f + '.mData.mAlignedStorage', PTR, st))
        return lambda i: st.read_at(d.plus(mul(i, I(4))), F, (), check=False)

    def bad(self, t):
        return Or(ge(t[0], self.pts), ge(t[1], self.nout), ge(t[2], self.nin))


def unit_ssetroutings():
    v = V([SPA], 'SparseGainMatrix::setRoutings', ('uf',))
    s_ = Sparse(v)
    ends = v.call(v.find(r'^visr::rcl::SparseGainMatrix::setRoutings\('), [s_.c.o.ptr(), s_.list.ptr(8)])
    for e in ends:
        p, n = e.st.resolve(e.st.load(s_.tp, PTR, '')), e.st.u(e.st.load(s_.tp.plus(8), I64, ''), 64)
        s = e.st.copy()
        if e.kind == 'ret':
            j = tm.fresh('entry', 'I')
            s.assume(And(ge(j, I(0)), lt(j, s_.m)))
            v.oblige(s, 'only lists with all indices in range are accepted', Not(s_.bad(s_.entry(s, s_.new, j))))
            v.oblige(e.st, 'the new list is in effect', And(tm.B(p.reg is s_.new), eq(p.off, I(0)), eq(n, s_.m)))
            s = e.st.copy()
            i = tm.fresh('point', 'I')
            s.assume(And(ge(i, I(0)), lt(i, s_.pts)))
            kk, acc = tm.var('?kk', 'I'), tm.var('?acc', 'f')
            t = s_.entry(s, s_.new, kk)
            want = tm.fold(s_.m, [acc], [s_.next.x(v.st, i)], [ite(eq(t[0], i), t[3], acc)], 0, kk)
            v.same(s, 'target gains are those of the list, others are kept', s_.gains(s, 'mNextGains')(i), want, F)
            v.same(s, 'start gains are kept', s_.gains(s, 'mPreviousGains')(i), s_.prev.x(v.st, i), F)
        else:
            v.oblige(e.st, 'the list is kept when rejected', And(tm.B(p.reg is s_.tab), eq(n, s_.n)))
            for nm in ('newRoutings', 'newRoutings.8', 'newRoutings.16'):
                ok = lambda j: Implies(And(ge(j, I(0)), lt(j, s_.m)), Not(s_.bad(tuple(tm.uf(x, (j,), 'I') for x in ('newRoutings', 'newRoutings.8', 'newRoutings.16')))))
                s.facts = tuple(s.facts) + (Fact(nm, ok, 1, 'all entries valid'),)
            v.oblige(s, 'a list with all indices in range is not rejected', FALSE)
    return v


def unit_sparse(mode):
    """mode: control ports '' / 'G' (gains) / 'L' (routing list)"""
    v = V([SPA], 'SparseGainMatrix::process%s' % {'': '', 'G': ' (gain input)', 'L': ' (routing list input)'}[mode], ('uf', 'real'))
    s_ = Sparse(v)
    c = s_.c
    st0 = v.st.copy()
    g = ghost(v, 2)
    changed = v.bool('changed')
    port = v.reg(Region('controlPort', size=64))
    for f, k in (('mGainInput', 'G'), ('mRoutingListInput', 'L'), ('mRoutingPointInput', 'P')):
        c.o.set(f, port.ptr() if k == mode else NULL, PTR)
    D = r'^visr::pml::DoubleBufferingProtocol::Input'
    v.contract(D + r'Base::changed\(', lambda cc, t: cc.case().ret(changed), 'changed')
    v.contract(D + r'Base::resetChanged\(', lambda cc, t: cc.case().put(g.at(0), I64, add(cc.rd(g.at(0), I64), I(1))), 'resetChanged')
    pgn = v.reg(Region('newGains', esize=4, leaf=4, leafsort='f', extent=lambda i: And(ge(i, I(0)), lt(i, s_.pts))))
    par = v.reg(Region('gainParameter', size=64))
    v.contract(D + r'<visr::pml::VectorParameter<float> ?>::data\(', lambda cc, t: cc.case().ret(par.ptr()), 'data')
    v.contract(D + r'<visr::pml::SparseGainRoutingListParameter>::data\(', lambda cc, t: cc.case().ret(s_.list.ptr()), 'data')

    def assign(cc, t, src):
        cc.require(tm.B(cc.st.resolve(src).reg is par), 'the new gains of the port')
        d = cc.st.resolve(cc.rd(cc.st.resolve(t).plus(DOFF), PTR))
        cc.case().fill(d, s_.pts, F, lambda i: tm.uf('newGains', (i,), 'f'))
    DOFF = c.lay.off('visr::efl::BasicVector<float>', 'mData.mAlignedStorage')[0]
    v.contract(r'^visr::efl::BasicVector<float>::assign\(', assign, 'BasicVector::assign')
    NG = lambda i: tm.uf('listGains', (i,), 'f')

    def setr(cc, t, l):
        l = cc.st.resolve(l)
        cc.require(And(tm.B(l.reg is s_.list), eq(l.off, I(8))), 'the new list of the port')
        d = cc.st.resolve(c.o.get('mNextGains.mData.mAlignedStorage', PTR, cc.st))
        o = cc.case()
        o.fill(d, s_.pts, F, NG)
        o.put(s_.tp, PTR, s_.new.ptr()).put(s_.tp.plus(8), I64, s_.m)
        # established by setRoutings
        o.st.facts = tuple(o.st.facts) + tuple(Fact(nm, lambda j, nm=nm, lim=lim: Implies(And(ge(j, I(0)), lt(j, s_.m)), lt(tm.uf(nm, (j,), 'I'), lim)), 1, 'new list in range')
                                               for nm, lim in (('newRoutings', s_.pts), ('newRoutings.8', s_.nout), ('newRoutings.16', s_.nin)))
    v.contract(r'^visr::rcl::SparseGainMatrix::setRoutings\(', setr, 'SparseGainMatrix::setRoutings')
    W = lambda x, a, b, i, k: tm.uf('ramped', (x, a, b, i, k), 'f')

    def scale(cc, t, i, o_, a, b, idx):
        i, o_ = cc.st.resolve(i), cc.st.resolve(o_)
        o = cc.case()
        ix = cc.st.u(idx, 64)

        def val(k):
            gd = (ge(k, I(0)), lt(k, c.period))
            rd = lambda p: cc.st.read_at(p.plus(mul(k, I(4))), F, gd, what='signal')
            return fadd(rd(o_), W(rd(i), a, b, ix, k))
        o.fill(o_, c.period, F, val)
    v.contract(r'^visr::rbbl::GainFader<float>::scaleAndAccumulate\(', scale, 'GainFader::scaleAndAccumulate')
    v.contract(r'^visr::rbbl::GainFader<float>::interpolationPeriods\(', lambda cc, t: cc.case().ret(s_.per), 'GainFader::interpolationPeriods')
    for e in only(v, c.run(), 'ret'):
        st = e.st
        ch_ = st.proves(changed) if mode else False
        if mode and not ch_ and not st.proves(Not(changed)):
            v.oblige(st, 'a change of the parameter is handled', FALSE)
        p, n = st.resolve(st.load(s_.tp, PTR, '')), st.u(st.load(s_.tp.plus(8), I64, ''), 64)
        cl = ch_ and mode == 'L'
        v.oblige(st, 'routing list in effect', And(tm.B(p.reg is (s_.new if cl else s_.tab)), eq(p.off, I(0)), eq(n, s_.m if cl else s_.n)))
        i = tm.fresh('point', 'I')
        s = st.copy()
        s.assume(And(ge(i, I(0)), lt(i, s_.pts)))
        old = lambda j: s_.next.x(st0, j)
        if ch_:
            a, b = old, (NG if cl else (lambda j: tm.uf('newGains', (j,), 'f')))
        else:
            a, b = (lambda j: s_.prev.x(st0, j)), old
        v.same(s, 'start gains', s_.gains(s, 'mPreviousGains')(i), a(i), F)
        v.same(s, 'target gains', s_.gains(s, 'mNextGains')(i), b(i), F)
        r0 = I(0) if ch_ else s_.ramp
        v.oblige(st, 'the transition advances once per block until it is complete', eq(st.u(c.o.get('mRampIndex', I64, st), 64), ite(lt(r0, s_.per), add(r0, I(1)), s_.per)))
        v.oblige(st, 'a change is consumed once', eq(st.load(g.at(0), I64, ''), I(1 if ch_ else 0)))

        def want(s, ch, k):
            kk, acc = tm.var('?kk', 'I'), tm.var('?acc', 'f')
            t = s_.entry(s, p.reg, kk)
            w = W(s_.inp.x(s, t[2], k), a(t[0]), b(t[0]), r0, k)
            return tm.fold(n, [acc], [fnum(0.0, 'f')], [ite(eq(t[1], ch), fadd(acc, w), acc)], 0, kk)
        sample(v, e, s_.out, s_.nout, c.period, want, 'output sample is the sum of the faded inputs routed to it')
    return v

def unit_setrouting(kind):
    v = V([ROU], 'SignalRouting::%s' % dict(s='setRouting (entry)', p='setRouting (parameter)', r='removeRouting')[kind], ('uf',))
    r = Routing(v, False)
    r.check_contract()
    i, o = v.int('in', 0, INV), v.int('out', 0, INV)
    g = r.g
    S = r'^std::set<%s,.*>::' % T2
    had = v.bool('entryPresent')

    def one(cc, t, x):
        t, x = cc.st.resolve(t), cc.st.resolve(x)
        v.same(cc.st, 'the routing table is changed', t, r.tp)
        cc.require(And(eq(cc.rd(x, I64), i), eq(cc.rd(x.plus(8), I64), o)), 'the given entry is used')
        cc.case().put(g.at(0), I64, add(cc.rd(g.at(0), I64), I(1))).ret(ite(had, I(1), I(0)))
    if kind != 'p':
        v.contract(S + (r'insert\(' if kind == 's' else r'erase\('), one, 'std::set::insert/erase')
        v.ex.contracts.insert(0, v.ex.contracts.pop())
    if kind == 'p':
        ends = v.call(v.find(r'^visr::rcl::SignalRouting::setRouting\(visr::pml'), [r.c.o.ptr(), r.param.ptr()])
    else:
        ends = v.call(v.find(r'^visr::rcl::SignalRouting::%sRouting\(unsigned' % ('set' if kind == 's' else 'remove')), [r.c.o.ptr(), i, o])
    if kind == 'p':
        for e in ends:
            s = e.st.copy()
            p, n = r.table(e.st)
            if e.kind == 'ret':
                j = tm.fresh('entry', 'I')
                s.assume(And(ge(j, I(0)), lt(j, r.m)))
                a, b = r.entry(s, r.par, j)
                x, y = r.entry(s, p.reg, j)
                v.oblige(s, 'the table holds the entries of the parameter', And(eq(p.off, I(0)), eq(n, r.m), eq(a, x), eq(b, y)))
                v.oblige(s, 'only entries in range are accepted', Not(r.bad(a, b)))
            else:
                s.facts = tuple(s.facts) + tuple(Fact(nm, lambda j: Implies(And(ge(j, I(0)), lt(j, r.m)), Not(r.bad(tm.uf('newRoutings', (j,), 'I'), tm.uf('newRoutings.8', (j,), 'I')))), 1, 'all entries valid') for nm in ('newRoutings', 'newRoutings.8'))
                v.oblige(s, 'valid entries are not rejected', FALSE)
                if p.reg is r.tab:
                    v.oblige(e.st, 'table empty or unchanged', eq(n, r.n))
        return v
    for e in split_ends(v, ends, r.bad(i, o), 'throw', 'indices out of range are rejected'):
        v.oblige(e.st, 'the entry is inserted once' if kind == 's' else 'the entry is removed', eq(e.st.load(g.at(0), I64, ''), I(1)))
        if kind == 'r':
            x = e.val if e.val.sort == 'B' else ne(e.val, I(0))
            v.oblige(e.st, 'reports whether the entry was present', eq(ite(x, I(1), I(0)), ite(had, I(1), I(0))))
    for e in ends:
        if e.kind == 'throw':
            v.oblige(e.st, 'table unchanged when rejected', eq(e.st.load(g.at(0), I64, ''), I(0)))
    return v


def units(sel=None):
    out = [('NullSource process', unit_null)]
    out += [('Add process %d' % k, lambda k=k: unit_add(k)) for k in (0, 1, 2)]
    out += [('SignalRouting range', unit_range)] + [('SignalRouting process %d' % c, lambda c=c: unit_routing(c)) for c in (0, 1)]
    out += [('rcl::GainMatrix process %d%d' % a, lambda a=a: unit_gmatrix(*a)) for a in ((0, 0), (0, 1), (1, 0), (1, 1))]
    out += [('SparseGainMatrix setRoutings', unit_ssetroutings)] + [('SparseGainMatrix process ' + m, lambda m=m: unit_sparse(m)) for m in ('', 'G', 'L')]
    out += [('SignalRouting %s' % k, lambda k=k: unit_setrouting(k)) for k in 'spr']
    return out
