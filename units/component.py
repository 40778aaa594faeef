"""Processing components: audio ports and parameter ports as seen by process()."""
from irv.unit import *
from .arrays import only, split_ends, ES, SO, Mat
from .efl import use_kernels


class Comp:
    """component object with the environment contracts of its ports"""

    def __init__(self, v, cls, src, name='component'):
        self.v, self.cls, self.lay = v, cls, Lay(src)
        self.o = Obj(v, name, cls, self.lay)
        self.period = v.int('period', 1, 1 << 20)
        self.al = v.int('portAlignment', 1, 1 << 10)
        self.ports = []
        self.params = []
        A = lambda n, f, l: v.contract(n, f, l)
        A(r'^visr::Component::period\(', lambda c, this: c.case().ret(self.period), 'Component::period')
        A(r'^visr::AudioPortBase::alignmentSamples\(', lambda c, this: c.case().ret(self.al), 'AudioPortBase::alignmentSamples')
        A(r'^visr::AudioPortBase::alignmentBytes\(', lambda c, this: c.case().ret(mul(self.al, I(4))), 'AudioPortBase::alignmentBytes')
        A(r'^visr::AudioPortBase::width\(', lambda c, this: c.case().ret(self.port(c, this).width), 'AudioPortBase::width')
        A(r'^visr::AudioPortBase::channelStrideSamples\(', lambda c, this: c.case().ret(self.port(c, this).stride), 'AudioPortBase::channelStrideSamples')
        for cl in ('AudioInputT', 'AudioOutputT'):
            for t in ('float', 'double'):
                A(r'^visr::%s<%s>::operator\[\]\(' % (cl, t), self._at, cl + '::operator[]')
                A(r'^visr::%s<%s>::at\(' % (cl, t), self._at, cl + '::at')
                A(r'^visr::%s<%s>::data\(\)' % (cl, t), lambda c, this: c.case().ret(Ptr(self.port(c, this).reg, (I(0),), 0)), cl + '::data')
                A(r'^visr::%s<%s>::getVector\(' % (cl, t), lambda c, this: c.case().ret(Ptr(self.port(c, this).vec, (), 0)), cl + '::getVector')
        A(r'^void visr::Component::status<', lambda c, *a: self._status(c), 'Component::status')
        A(r'^visr::Component::status\(', lambda c, *a: self._status(c), 'Component::status')
        self.onstatus = None

    def _status(self, c):
        c.case() if self.onstatus is None else self.onstatus(c)

    def audio(self, field, width, so='f', inp=True):
        class Port:
            pass
        p = Port()
        v = self.v
        p.field, p.width, p.so = field, width, so
        es = {'f': 4, 'd': 8}[so]
        p.stride = v.int(field + '_channelStride', 1, 1 << 30)
        v.st.assume(ge(p.stride, self.period))
        n = self.period
        # only the addressed samples of each channel may be accessed
        p.reg = v.reg(Region(field + '_samples', nmem=1, esize=es, leaf=es, leafsort=so, pitch=p.stride, align=es,
                             extent=lambda c, k: And(ge(c, I(0)), lt(c, width), ge(k, I(0)), lt(k, n))))
        p.reg.readonly = inp
        p.reg.rowaligned = self.al
        reg = p.reg
        p.vec = v.reg(Region(field + '_channelPointers', esize=8, leaf=8, leafsort='p', extent=lambda i: And(ge(i, I(0)), lt(i, width)), ptrs={0: lambda i: Ptr(reg, (i,), 0)}))
        p.vec.readonly = True
        p.ptr = self.o.p(field)
        p.x = lambda st, c, k: st.read_field(p.reg, 0, es, FTY[so], (c, k))
        self.ports.append(p)
        return p

    def port(self, c, this):
        this = c.st.resolve(this)
        for p in self.ports:
            if p.ptr.reg is this.reg and c.st.proves(eq(p.ptr.off, this.off)):
                return p
        raise Unsupported('access to an unknown port')

    def _at(self, c, this, ch):
        p = self.port(c, this)
        c.require(And(ge(ch, I(0)), lt(ch, p.width)), 'channel index below the port width')
        c.case().ret(Ptr(p.reg, (ch,), 0))

    def run(self, fn=None, args=()):
        f = fn or self.v.find(r'^%s::process\(' % self.cls)
        return self.v.call(f, [self.o.ptr()] + list(args))
