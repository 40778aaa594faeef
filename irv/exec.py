"""Symbolic executor / verification condition generator over LLVM IR."""
import re
import time
from . import realpoly
from . import terms as tm
from . import solver
from . import irparse
from .terms import T, I, add, sub, mul, eq, And, Or, Not, ite, TRUE, FALSE, ge, lt, le, gt
from .mem import *
from .state import *


class End:
    __slots__ = ('kind', 'val', 'st', 'blk', 'prev')

    def __init__(self, kind, st, val=None, blk=None, prev=None):
        self.kind, self.st, self.val, self.blk, self.prev = kind, st, val, blk, prev


class Exc:
    def __init__(self, ti):
        self.ti = ti

    def __repr__(self):
        return 'exc:' + str(self.ti)


class Oblig:
    __slots__ = ('name', 'fn', 'status', 'model', 'goal', 'pc', 'backend', 'time', 'mode', 'facts')

    def __init__(self, name, fn, status, model, goal, pc, backend, t, mode, facts=()):
        self.name, self.fn, self.status, self.model, self.goal, self.pc = name, fn, status, model, goal, pc
        self.backend, self.time, self.mode = backend, t, mode
        self.facts = facts


class PathLimit(Exception):
    pass


TYPEINFO_BASES = {
    '_ZTISt16invalid_argument': ['_ZTISt11logic_error', '_ZTISt9exception'],
    '_ZTISt12out_of_range': ['_ZTISt11logic_error', '_ZTISt9exception'],
    '_ZTISt12length_error': ['_ZTISt11logic_error', '_ZTISt9exception'],
    '_ZTISt12domain_error': ['_ZTISt11logic_error', '_ZTISt9exception'],
    '_ZTISt11logic_error': ['_ZTISt9exception'],
    '_ZTISt13runtime_error': ['_ZTISt9exception'],
    '_ZTISt14overflow_error': ['_ZTISt13runtime_error', '_ZTISt9exception'],
    '_ZTISt11range_error': ['_ZTISt13runtime_error', '_ZTISt9exception'],
    '_ZTISt9bad_alloc': ['_ZTISt9exception'],
    '_ZTISt8bad_cast': ['_ZTISt9exception'],
}


class Executor:
    def __init__(self, mods, unroll=None):
        self.mods = list(mods)
        self.mod = self.mods[0]
        self.contracts = []     # (predicate(demangled), handler)
        self.models = []
        self.obligs = []
        self.mute = 0
        self.dcache = {}
        self.decide_timeout = 3000
        self.oblige_timeout = 10000
        self.max_ends = 400
        self.max_depth = 40
        self.depth = 0
        self.globals = {}
        self.cur_fn = '?'
        self.inlined = set()
        self.applied = set()
        self.unroll = unroll
        self.bounded = []       # loops handled by bounded unrolling
        self.loops = []
        self.path_count = 0
        self.modes = ('uf',)
        self.dem = {}
        self.deadline = None
        self.opaque_hits = set()
        self._cache_contract = {}
        self.assumed = set()

    # ------------------------------------------------ lookup
    def lookup(self, name):
        for m in self.mods:
            f = m.funcs.get(name)
            if f is not None and f.defined:
                return f
        return None

    def demangled(self, name):
        return self.dem.get(name, name)

    # ------------------------------------------------ obligations
    def oblige(self, st, name, goal, conds=()):
        if self.mute:
            return
        if conds:
            goal = tm.Implies(And(*conds), goal)
        if goal is TRUE:
            # trivially discharged by normalisation: count it
            self.obligs.append(Oblig(name, self.cur_fn, 'proved', None, goal, st.pc, 'normalisation', 0.0, 'uf'))
            return
        r = self.prove(st.pc, goal, st.facts, name)
        if r.status != 'proved' and r.status != 'cex':
            pass
        return r

    def prove(self, pc, goal, facts, name, modes=None):
        t0 = time.time()
        be = 'z3'
        status, model = 'unknown', None
        used = 'uf'
        if 'real' in (modes or self.modes) and realpoly.identity(goal, getattr(self, 'polytol', 0)):
            o = Oblig(name, self.cur_fn, 'proved', None, goal, pc, 'real-polynomial', time.time() - t0, 'real', facts)
            self.obligs.append(o)
            return o
        for mode in (modes or self.modes):
            used = mode
            status, model = solver.check(pc, goal, facts, mode=mode, timeout=self.oblige_timeout, want_model=True)
            if status == 'proved':
                break
        if status == 'cex' or status == 'unknown':
            alt = self.foldcong(pc, goal, facts)
            if alt:
                status, model = 'proved', None
        if status == 'unknown':
            simple = self.decided_ites(pc, goal, facts)
            if simple is not goal:
                for mode in (modes or self.modes):
                    used = mode
                    status, model = ('proved', None) if simple is TRUE else solver.check(pc, simple, facts, mode=mode, timeout=self.oblige_timeout, want_model=True)
                    if status == 'proved':
                        break
        if status == 'unknown':
            for mode in (modes or self.modes):
                r = solver.cvc5_check(pc, goal, facts, mode=mode)
                if r == 'proved':
                    status, model, be, used = 'proved', None, 'cvc5', mode
                    break
        o = Oblig(name, self.cur_fn, status, model, goal, pc, be, time.time() - t0, used, facts)
        self.obligs.append(o)
        return o

    def decided_ites(self, pc, goal, facts):
        """the goal without the case distinctions which the path condition decides"""
        seen = {}
        tm.subterms(goal, seen)
        known = {}
        bound = {x for x in seen.values() if x.op == 'var' and x.args[0].startswith('#')}
        for x in list(seen.values())[:2000]:
            if x.op != 'ite' or x.args[0].id in known or tm.fvs(x.args[0]) & bound or len(known) > 8:
                continue
            for val, c in ((TRUE, x.args[0]), (FALSE, Not(x.args[0]))):
                if solver.check(pc, c, facts, mode=self.modes[-1], timeout=3000)[0] == 'proved':
                    known[x.args[0].id] = val
                    break
        return tm._subst(goal, {}, frozenset(tm.fvs(goal)), dict(known)) if known else goal

    def foldcong(self, pc, goal, facts, depth=0):
        """equalities of folds by congruence: equal counts, initial values and steps"""
        pairs = []

        def collect(t, pos):
            if t.op == 'eq' and t.args[0].op == 'fold' and t.args[1].op == 'fold':
                pairs.append(t)
            for k in tm.kids(t):
                if k.sort == 'B':
                    collect(k, pos)
        # push equalities through ites over folds
        seen = {}
        tm.subterms(goal, seen)
        folds = [t for t in seen.values() if t.op == 'fold']
        for p in pc:
            s2 = {}
            tm.subterms(p, s2)
            folds += [t for t in s2.values() if t.op == 'fold' and t.id not in seen]
        if len(folds) < 2 or len(folds) > 12 or depth > 3:
            return False
        lem = []
        n = len(folds)
        for i in range(n):
            for j in range(i + 1, n):
                a, b = folds[i], folds[j]
                if a.sort != b.sort:
                    continue
                Ka, da, ia, ba = tm.fold_parts(a)
                Kb, db, ib, bb = tm.fold_parts(b)
                if len(ia) != len(ib):
                    continue
                l = self._fold_eq_cond(pc, a, b, facts, depth)
                if l is not None:
                    lem.append(tm.Implies(l, eq(a, b)))
        if not lem:
            return False
        for mode in self.modes:
            if solver.check(tuple(pc) + tuple(lem), goal, facts, mode=mode, timeout=self.oblige_timeout)[0] == 'proved':
                return True
        return False

    def _fold_eq_cond(self, pc, a, b, facts, depth):
        Ka, da, ia, ba = tm.fold_parts(a)
        Kb, db, ib, bb = tm.fold_parts(b)
        k = tm.fresh('fk', 'I')
        ss = [tm.fresh('fs', x.sort) for x in ia]
        ma = {tm.var('#k%d' % da, 'I'): k}
        mb = {tm.var('#k%d' % db, 'I'): k}
        for r in range(len(ia)):
            ma[tm.var('#s%d_%d' % (da, r), ia[r].sort)] = ss[r]
            if ia[r].sort != ib[r].sort:
                return None
            mb[tm.var('#s%d_%d' % (db, r), ib[r].sort)] = ss[r]
        goals = [eq(tm.subst(x, ma), tm.subst(y, mb)) for x, y in zip(ba, bb)]
        g = And(*goals)
        hyp = tuple(pc) + (ge(k, I(0)), lt(k, Ka))
        ok = False
        for mode in self.modes:
            if solver.check(hyp, g, facts, mode=mode, timeout=self.oblige_timeout)[0] == 'proved':
                ok = True
                break
        if not ok and self.foldcong(hyp, g, facts, depth + 1):
            ok = True
        if not ok:
            return None
        return And(eq(Ka, Kb), *[eq(x, y) for x, y in zip(ia, ib)])

    # ------------------------------------------------ globals
    def global_region(self, name):
        r = self.globals.get(name)
        if r is not None:
            return r
        g = None
        mod = self.mod
        for m in self.mods:
            if name in m.globals:
                gg = m.globals[name]
                p = gg.parse()
                if g is None or p[3] == 'def':
                    g, mod = gg, m
                if p[3] == 'def':
                    break
        reg = Region('@' + name, base='uf')
        reg.isglobal = name
        if g is not None:
            ty, init, const, kind = g.parse()
            if kind == 'alias':
                v = self.const_val(init, ('ptr',))
                self.globals[name] = v
                return v
            reg.gty = ty
            reg.gmod = mod
            if const and init is not None:
                cells = {}
                self._flatten(mod, ty, init, 0, cells)
                reg.base = 'const'
                reg.cells = cells
                reg.size = mod.sizeof(ty)

                def cfun(f, size, ty_, key, reg=reg):
                    if key:
                        idx = key[-1]
                        n = len(reg.elems)
                        if idx.op == 'int' and 0 <= idx.args[0] < n:
                            return reg.elems[idx.args[0]]
                        out = reg.elems[n - 1]
                        for j in range(n - 2, -1, -1):
                            out = vite(eq(idx, I(j)), reg.elems[j], out)
                        return out
                    c = reg.cells.get(f)
                    if c is None:
                        return ZEROV
                    return c[1]
                reg.const = cfun
                rt = mod.resolve(ty)
                if rt[0] == 'array' and rt[2][0] in ('i', 'float', 'double') and rt[1] <= 64 and len(cells) >= rt[1]:
                    es = mod.sizeof(rt[2])
                    reg.esize = reg.leaf = es
                    reg.elems = [cells[i * es][1] for i in range(rt[1])]
                    reg.extent = lambda i, n=rt[1]: And(ge(i, I(0)), lt(i, I(n)))
                    reg.size = None
            else:
                reg.size = None
        self.globals[name] = reg
        GREG[reg.id] = reg
        return reg

    def _flatten(self, mod, ty, op, off, cells):
        rt = mod.resolve(ty)
        k = op[0]
        if rt[0] == 'array':
            es = mod.sizeof(rt[2])
            if k == 'str':
                for i, b in enumerate(op[1][:4096]):
                    cells[off + i] = (1, I(b))
            elif k == 'agg':
                for i, (t, o) in enumerate(op[1]):
                    self._flatten(mod, t, o, off + i * es, cells)
            elif k == 'zero':
                for i in range(min(rt[1], 512)):
                    self._flatten(mod, rt[2], op, off + i * es, cells)
            return
        if rt[0] == 'struct':
            lay = mod._lay(rt)[2]
            if k == 'agg':
                for i, (t, o) in enumerate(op[1]):
                    self._flatten(mod, t, o, off + lay[i], cells)
            elif k == 'zero':
                for i, e in enumerate(rt[1]):
                    self._flatten(mod, e, op, off + lay[i], cells)
            return
        cells[off] = (mod.sizeof(ty), self.const_val(op, ty, mod))

    def const_val(self, op, ty, mod=None):
        mod = mod or self.mod
        k = op[0]
        if k == 'int':
            if ty == ('i', 1):
                return tm.B(op[1] != 0)
            return I(op[1])
        if k == 'fp':
            return tm.fconst(op[1], 'f' if op[2][0] == 'float' else 'd')
        if k == 'null':
            return NULL
        if k == 'undef':
            return UNDEF
        if k == 'zero':
            rt = mod.resolve(ty)
            if rt[0] == 'vec':
                return [coerce(ZEROV, rt[2])] * rt[1]
            if rt[0] in ('struct', 'array'):
                es = rt[1] if rt[0] == 'struct' else [rt[2]] * rt[1]
                return [self.const_val(op, e, mod) for e in es]
            return coerce(ZEROV, ty)
        if k == 'agg':
            return [self.const_val(o, t, mod) for t, o in op[1]]
        if k == 'global':
            n = op[1]
            for m in self.mods:
                if n in m.globals:
                    r = self.global_region(n)
                    return r if isinstance(r, (Ptr, Fn)) else Ptr(r, (), 0)
            return Fn(n)
        if k == 'cgep':
            base = self.const_val(op[2][0][1], ('ptr',), mod)
            if isinstance(base, Fn):
                raise Unsupported('gep on function')
            return self.gep(None, mod, op[1], base, [(t, self.const_val(o, t, mod)) for t, o in op[2][1:]])
        if k == 'ccast':
            v = self.const_val(op[3], op[2], mod)
            return v
        if k == 'str':
            return [I(b) for b in op[1]]
        if k == 'fpx':
            return Opaque('x86_fp80')
        if k == 'asm':
            return Opaque('asm')
        if k == 'cbin':
            a = self.const_val(op[3], op[2], mod)
            b = self.const_val(op[4], op[2], mod)
            if isinstance(a, T) and isinstance(b, T):
                if op[1] == 'add':
                    return add(a, b)
                if op[1] == 'sub':
                    return sub(a, b)
        raise Unsupported('constant %r' % (op[:3],))

    def val(self, st, op, ty):
        if op[0] == 'local':
            try:
                return st.env[op[1]]
            except KeyError:
                raise Unsupported('undefined local %s' % op[1])
        return self.const_val(op, ty, self.cmod)

    # ------------------------------------------------ gep
    def gep(self, st, mod, bty, base, idxs):
        if isinstance(base, PIte):
            return PIte(base.c, self.gep(st, mod, bty, base.a, idxs), self.gep(st, mod, bty, base.b, idxs))
        if base is UNDEF or isinstance(base, Opaque):
            return base
        if base is ZEROV:
            base = NULL
        if not isinstance(base, Ptr):
            raise Unsupported('gep base %r' % (base,))
        off = base.off
        t = bty
        first = True
        for (ity, v) in idxs:
            if isinstance(v, list):
                raise Unsupported('vector gep')
            if first:
                sz = mod.sizeof(t)
                off = add(off, mul(self.sidx(st, v, ity), I(sz)))
                first = False
                continue
            rt = mod.resolve(t)
            if rt[0] == 'struct':
                i = v.args[0]
                off = add(off, I(mod._lay(rt)[2][i]))
                t = rt[1][i]
            elif rt[0] in ('array', 'vec'):
                t = rt[2]
                off = add(off, mul(self.sidx(st, v, ity), I(mod.sizeof(t))))
            else:
                raise Unsupported('gep into %r' % (rt,))
        return Ptr(base.reg, base.mem, off)

    def sidx(self, st, v, ity):
        if not isinstance(v, T):
            raise Unsupported('gep index %r' % (v,))
        if v.sort == 'B':
            return ite(v, I(-1), I(0))
        if v.op == 'int' or st is None:
            w = ity[1]
            x = v.args[0] % (1 << w)
            return I(x - (1 << w) if x >= 1 << (w - 1) else x)
        return st.s(v, ity[1])

    # ------------------------------------------------ running
    def call_function(self, f, args, st):
        """inline a defined function; returns ends of kind ret/throw"""
        if self.depth > self.max_depth:
            raise Unsupported('inline depth')
        f.parse()
        save_env = st.env
        save_mod, save_cmod = self.mod, getattr(self, 'cmod', None)
        st = st.copy()
        st.env = {}
        for n, v in zip(f.args, args):
            st.env[n] = v
        self.depth += 1
        self.cmod = f.module
        self.mod = f.module
        try:
            ends = self.run_from(f, f.order[0], None, st, None)
        finally:
            self.depth -= 1
            self.mod = save_mod
            self.cmod = save_cmod
        for e in ends:
            e.st.env = dict(save_env)
        return ends

    def run_from(self, f, blk, prev, st, ctx, skip_phis=False):
        loops = irparse.loops_of(f)
        if '!irreducible' in loops:
            raise Unsupported('irreducible control flow')
        ends = []
        work = [(blk, prev, -2 if skip_phis else -1, st)]
        first = True
        while work:
            if self.deadline and time.time() > self.deadline:
                raise PathLimit('time limit')
            b, pv, idx, st = work.pop()
            if idx == -1:
                if ctx is not None and not (first):
                    if b == ctx[0]:
                        ends.append(End('back', st, blk=b, prev=pv))
                        continue
                    if b not in ctx[1]:
                        ends.append(End('exit', st, blk=b, prev=pv))
                        continue
                if b in loops and not (ctx is not None and b == ctx[0]):
                    for e in self.summarise(f, b, pv, st):
                        if e.kind == 'exit':
                            work.append((e.blk, e.prev, -1, e.st))
                        else:
                            ends.append(e)
                    first = False
                    continue
            first = False
            block = f.blocks[b]
            if idx == -1:
                vals = []
                for ph in block.phis:
                    for v, pb in ph.a:
                        if pb == pv:
                            vals.append(self.val(st, v, ph.ty))
                            break
                    else:
                        raise Unsupported('phi')
                for ph, v in zip(block.phis, vals):
                    st.env[ph.res] = v
            if idx < 0:
                idx = 0
            n = len(block.ins)
            stop = False
            while idx < n:
                ins = block.ins[idx]
                try:
                    r = self.step(f, ins, st)
                except NeedSplit as e:
                    for c in (e.cond, Not(e.cond)):
                        d = st.decide(c)
                        if d is False:
                            continue
                        s2 = st.copy()
                        s2.branch(c)
                        work.append((b, pv, idx if idx else -2, s2))
                    stop = True
                    break
                if r is not None:
                    # call outcomes
                    stop = True
                    for e in r:
                        if e.kind == 'ret':
                            if ins.res is not None:
                                e.st.env[ins.res] = e.val
                            work.append((b, pv, idx + 1, e.st))
                        elif e.kind == 'throw':
                            ends.append(End('throw', e.st, e.val))
                        elif e.kind == 'abort':
                            pass
                    break
                idx += 1
            if stop:
                if len(ends) + len(work) > self.max_ends:
                    raise PathLimit('too many paths')
                continue
            try:
                self.terminator(f, b, block.term, st, work, ends)
            except NeedSplit as e:
                for c in (e.cond, Not(e.cond)):
                    if st.decide(c) is False:
                        continue
                    s2 = st.copy()
                    s2.branch(c)
                    work.append((b, pv, n, s2) if n else (b, pv, -2, s2))
            if len(ends) + len(work) > self.max_ends:
                raise PathLimit('too many paths')
        return ends

    def terminator(self, f, b, t, st, work, ends):
        if t.op == 'br':
            work.append((t.a[0], b, -1, st))
        elif t.op == 'condbr':
            c = self.val(st, t.a[0], ('i', 1))
            c = self.boolean(st, c)
            d = st.decide(c)
            if d is True:
                work.append((t.a[1], b, -1, st))
            elif d is False:
                work.append((t.a[2], b, -1, st))
            else:
                if t.a[1] == t.a[2]:
                    work.append((t.a[1], b, -1, st))
                    return
                s2 = st.copy()
                s2.branch(Not(c))
                st.branch(c)
                work.append((t.a[2], b, -1, s2))
                work.append((t.a[1], b, -1, st))
        elif t.op == 'switch':
            v = self.val(st, t.a[0], t.ty)
            if not isinstance(v, T):
                raise Unsupported('switch on %r' % (v,))
            w = t.ty[1]
            v = st.u(v, w) if v.sort == 'I' else ite(v, I(1), I(0))
            rem = []
            for cv, lb in t.a[2]:
                c = eq(v, I(cv[1] % (1 << w)))
                d = st.decide(c)
                if d is False:
                    continue
                s2 = st.copy()
                for x in rem:
                    s2.branch(Not(x))
                s2.branch(c)
                if s2.feasible():
                    work.append((lb, b, -1, s2))
                rem.append(c)
                if d is True:
                    return
            s2 = st.copy()
            for x in rem:
                s2.branch(Not(x))
            if s2.feasible():
                work.append((t.a[1], b, -1, s2))
        elif t.op == 'ret':
            v = self.val(st, t.a[0], t.ty) if t.a else None
            ends.append(End('ret', st, v))
        elif t.op == 'unreachable':
            if not st.ghost.get('!dead'):
                self.oblige(st, 'unreachable-reached', FALSE)
        elif t.op == 'resume':
            ends.append(End('throw', st, st.exc))
        elif t.op == 'invoke':
            r = self.call(f, t, st)
            for e in r:
                if e.kind == 'ret':
                    if t.res is not None:
                        e.st.env[t.res] = e.val
                    work.append((t.x[0], b, -1, e.st))
                elif e.kind == 'throw':
                    e.st.exc = e.val
                    work.append((t.x[1], b, -1, e.st))
        else:
            raise Unsupported('terminator ' + t.op)

    def boolean(self, st, c):
        if c is UNDEF:
            raise Unsupported('branch on undef')
        if isinstance(c, PIte):
            c = st.resolve(c)
        if isinstance(c, T):
            if c.sort == 'B':
                return c
            return eq(tm.mod(c, I(2)), I(1))
        raise Unsupported('branch on %r' % (c,))

    # ------------------------------------------------ instructions
    def step(self, f, ins, st):
        op = ins.op
        if op in ('call',):
            return self.call(f, ins, st)
        r = self.simple(f, ins, st)
        if ins.res is not None:
            st.env[ins.res] = r
        return None

    def simple(self, f, ins, st):
        op = ins.op
        mod = self.cmod
        if op == 'load':
            v = st.load(self.val(st, ins.a[0], ('ptr',)), ins.ty, 'load')
            if ins.ty[0] == 'vec' and ins.x:
                self.align_oblige(st, self.val(st, ins.a[0], ('ptr',)), ins.x, mod.sizeof(ins.ty))
            return v
        if op == 'store':
            v = self.val(st, ins.a[0], ins.ty)
            p = self.val(st, ins.a[1], ('ptr',))
            if isinstance(v, T) and v.sort == 'B' and ins.ty[0] == 'i':
                v = ite(v, I(1), I(0))
            st.store(p, ins.ty, v, 'store', ins.text[:60])
            if ins.ty[0] == 'vec' and ins.x:
                self.align_oblige(st, p, ins.x, mod.sizeof(ins.ty))
            return None
        if op == 'getelementptr':
            base = self.val(st, ins.a[0][1], ('ptr',))
            return self.gep(st, mod, ins.ty, base, [(t, self.val(st, o, t)) for t, o in ins.a[1:]])
        if op in irparse.BIN:
            a = self.val(st, ins.a[0], ins.ty)
            b = self.val(st, ins.a[1], ins.ty)
            if ins.ty[0] == 'vec':
                a = self.aslist(a, ins.ty)
                b = self.aslist(b, ins.ty)
                return [self.binop(st, op, ins.ty[2], x, y, ins.x) for x, y in zip(a, b)]
            return self.binop(st, op, ins.ty, a, b, ins.x)
        if op == 'fneg':
            a = self.val(st, ins.a[0], ins.ty)
            if isinstance(a, list):
                return [self.fneg(x) for x in a]
            return self.fneg(a)
        if op == 'icmp':
            a = self.val(st, ins.a[0], ins.ty)
            b = self.val(st, ins.a[1], ins.ty)
            if ins.ty[0] == 'vec':
                return [self.icmp(st, ins.x, ins.ty[2], x, y) for x, y in zip(self.aslist(a, ins.ty), self.aslist(b, ins.ty))]
            return self.icmp(st, ins.x, ins.ty, a, b)
        if op == 'fcmp':
            a = self.val(st, ins.a[0], ins.ty)
            b = self.val(st, ins.a[1], ins.ty)
            if ins.ty[0] == 'vec':
                return [self.fcmp(ins.x, x, y) for x, y in zip(a, b)]
            return self.fcmp(ins.x, a, b)
        if op == 'select':
            c = self.val(st, ins.a[0], ins.x)
            a = self.val(st, ins.a[1], ins.ty)
            b = self.val(st, ins.a[2], ins.ty)
            if isinstance(c, list):
                return [vite(x, y, z) for x, y, z in zip(c, self.aslist(a, ins.ty), self.aslist(b, ins.ty))]
            c = self.boolean(st, c)
            d = st.decide(c)
            if d is True:
                return a
            if d is False:
                return b
            if a is UNDEF or b is UNDEF:
                raise NeedSplit(c)
            if isinstance(a, T) and isinstance(b, T) and a.sort != b.sort:
                if 'B' in (a.sort, b.sort) and 'I' in (a.sort, b.sort):
                    a = ite(a, I(1), I(0)) if a.sort == 'B' else a
                    b = ite(b, I(1), I(0)) if b.sort == 'B' else b
            return vite(c, a, b)
        if op in irparse.CAST:
            a = self.val(st, ins.a[0], ins.x)
            if ins.ty[0] == 'vec' and op not in ('bitcast',) and ins.x[0] == 'vec':
                return [self.cast(st, op, ins.x[2], ins.ty[2], x) for x in self.aslist(a, ins.x)]
            return self.cast(st, op, ins.x, ins.ty, a)
        if op == 'alloca':
            n = 1
            if ins.a is not None:
                nv = self.val(st, ins.a[1], ins.a[0])
                if nv.op != 'int':
                    raise Unsupported('dynamic alloca')
                n = nv.args[0]
            reg = Region('%s' % (ins.res,), size=mod.sizeof(ins.ty) * n, base='undef', local=True)
            rt = mod.resolve(ins.ty)
            if rt[0] == 'array' and rt[2][0] in ('float', 'double', 'i') and rt[1] > 1:
                reg.lazyarr = (mod.sizeof(rt[2]), rt[1])
                es = mod.sizeof(rt[2])
                reg.esize = reg.leaf = es
                reg.leafsort = {'float': 'f', 'double': 'd'}.get(rt[2][0], 'i')
                reg.extent = lambda i, nn=rt[1]: And(ge(i, I(0)), lt(i, I(nn)))
            GREG[reg.id] = reg
            return Ptr(reg, (), 0)
        if op == 'extractvalue':
            v = self.val(st, ins.a[0], ins.ty)
            for i in ins.a[1]:
                if v is UNDEF:
                    return UNDEF
                if isinstance(v, (Opaque, ZeroT)):
                    return v
                if isinstance(v, PIte):
                    v = st.resolve(v)
                v = v[i]
            return v
        if op == 'insertvalue':
            v = self.val(st, ins.a[0], ins.ty)
            e = self.val(st, ins.a[1], ins.x)
            return self._insert(v, e, ins.a[2], mod, ins.ty)
        if op == 'extractelement':
            v = self.aslist(self.val(st, ins.a[0], ins.ty), ins.ty)
            i = self.val(st, ins.a[1], ('i', 64))
            if i.op != 'int':
                out = v[-1]
                for j in range(len(v) - 2, -1, -1):
                    out = vite(eq(i, I(j)), v[j], out)
                return out
            return v[i.args[0]]
        if op == 'insertelement':
            v = list(self.aslist(self.val(st, ins.a[0], ins.ty), ins.ty))
            e = self.val(st, ins.a[1], ins.ty[2])
            i = self.val(st, ins.a[2], ('i', 64))
            if i.op != 'int':
                return [vite(eq(i, I(j)), e, x) for j, x in enumerate(v)]
            v[i.args[0]] = e
            return v
        if op == 'shufflevector':
            a = self.aslist(self.val(st, ins.a[0], ins.ty), ins.ty)
            b = self.aslist(self.val(st, ins.a[1], ins.ty), ins.ty)
            m = self.const_val(ins.a[2], ins.x, mod)
            al = list(a) + list(b)
            out = []
            if isinstance(m, list):
                for x in m:
                    out.append(UNDEF if x is UNDEF else al[x.args[0]])
            else:
                out = [al[0]] * ins.x[1]
            return out
        if op == 'freeze':
            v = self.val(st, ins.a[0], ins.ty)
            return v
        if op == 'landingpad':
            exc = st.exc
            sel = I(0)
            for cl in ins.a:
                if cl[0] == 'catch':
                    if cl[1][0] in ('null',):
                        sel = I(self.typeid('null'))
                        break
                    tn = cl[1][1]
                    if exc is not None and (tn == exc.ti or tn in self.bases(exc.ti)):
                        sel = I(self.typeid(tn))
                        break
            return [Opaque('exception'), sel]
        if op == 'atomicrmw':
            p = self.val(st, ins.a[0], ('ptr',))
            v = self.val(st, ins.a[1], ins.ty)
            old = st.load(p, ins.ty, 'atomicrmw')
            nv = {'add': lambda: add(old, v), 'sub': lambda: sub(old, v), 'xchg': lambda: v}.get(ins.x)
            if nv is None:
                raise Unsupported('atomicrmw ' + ins.x)
            st.store(p, ins.ty, nv(), 'atomicrmw')
            return old
        if op == 'unsupported' and ins.x == 'fence':
            return None
        raise Unsupported('instruction ' + ins.text[:80])

    def bases(self, ti):
        b = TYPEINFO_BASES.get(ti)
        if b is None:
            b = []
        return b

    _tids = {}

    def typeid(self, n):
        if n not in self._tids:
            self._tids[n] = len(self._tids) + 1
        return self._tids[n]

    def _insert(self, v, e, idx, mod, ty):
        rt = mod.resolve(ty)
        n = len(rt[1]) if rt[0] == 'struct' else rt[1]
        if not isinstance(v, list):
            v = [v] * n
        v = list(v)
        if len(idx) == 1:
            v[idx[0]] = e
        else:
            et = rt[1][idx[0]] if rt[0] == 'struct' else rt[2]
            v[idx[0]] = self._insert(v[idx[0]], e, idx[1:], mod, et)
        return v

    def aslist(self, v, ty):
        if isinstance(v, list):
            return v
        if v is UNDEF or v is ZEROV:
            return [coerce(v, ty[2])] * ty[1]
        if isinstance(v, Concat):
            return split_parts(v, self.mod.sizeof(ty[2]))
        raise Unsupported('vector value %r' % (v,))

    def fneg(self, a):
        if a is UNDEF:
            return a
        if a.op == 'fconst':
            return tm.fconst(a.args[0] ^ (1 << (31 if a.sort == 'f' else 63)), a.sort)
        return tm.fop('fneg', (a,), a.sort)

    def align_oblige(self, st, p, al, size):
        """aligned vector access"""
        p = st.resolve(p)
        if not isinstance(p, Ptr) or p.reg is None:
            return
        ok = eq(tm.mod(self.address(st, p), I(al)), I(0))
        # natural element alignment is always given
        if al <= 4:
            return
        self.oblige(st, 'aligned-access(%d,%s)' % (al, p.reg.name), ok)

    def address(self, st, p):
        """numeric address of a pointer"""
        p = st.resolve(p)
        if p.reg is None:
            return p.off
        if isinstance(p, Opaque):
            raise Unsupported('address of opaque')
        mem, off = p.mem, p.off
        if p.reg.pitch is not None:
            off = add(off, mul(mul(mem[-1], p.reg.pitch), I(p.reg.esize * p.reg.pitchmul)))
            mem = mem[:-1]
        if mem:
            base = tm.uf('addr!' + p.reg.name, mem, 'I')
        else:
            base = tm.var('addr!' + p.reg.name, 'I')
        st.assume(And(ge(base, I(4096)), lt(base, I(1 << 62))))
        a = getattr(p.reg, 'align', 1)
        if a and a > 1:
            st.assume(eq(tm.mod(base, I(a)), I(0)))
        return add(base, off)

    def binop(self, st, op, ty, a, b, flags):
        if a is UNDEF or b is UNDEF:
            return UNDEF
        if op[0] == 'f':
            if a is ZEROV or b is ZEROV:
                a = coerce(a, ty)
                b = coerce(b, ty)
            if not (isinstance(a, T) and isinstance(b, T)):
                raise Unsupported('float op on %r %r' % (a, b))
            return self.fbin(op, a, b)
        w = ty[1]
        if isinstance(a, PIte):
            a = st.resolve(a)
        if isinstance(b, PIte):
            b = st.resolve(b)
        if w == 1:
            if not (isinstance(a, T) and isinstance(b, T)):
                raise Unsupported('i1 op')
            if op == 'and':
                return And(a, b)
            if op == 'or':
                return Or(a, b)
            if op in ('xor', 'add', 'sub'):
                return Not(eq(a, b)) if op == 'xor' or True else None
            raise Unsupported('i1 ' + op)
        # pointer arithmetic through integers
        if isinstance(a, PtrInt) or isinstance(b, PtrInt):
            return self.ptrint(st, op, a, b, w)
        if isinstance(a, Bits) and isinstance(b, T) and b.op == 'int':
            c = b.args[0] % (1 << w)
            so = a.t.sort
            if op == 'and' and c == (1 << (w - 1)) - 1:
                return Bits(tm.fop('fabs', (a.t,), so))
            if op == 'xor' and c == 1 << (w - 1):
                return Bits(self.fneg(a.t))
            raise Unsupported('bit operation on float')
        if isinstance(a, Concat) or isinstance(b, Concat):
            if op == 'lshr' and isinstance(a, Concat) and b.op == 'int' and b.args[0] % 8 == 0:
                o = 0
                parts = []
                for s_, v in a.parts:
                    if o >= b.args[0] // 8:
                        parts.append((s_, v))
                    o += s_
                return Concat(parts)
            if op == 'or' and isinstance(a, Concat) and isinstance(b, Concat):
                pass
            raise Unsupported('op on concat')
        if not (isinstance(a, T) and isinstance(b, T)):
            raise Unsupported('%s on %r %r' % (op, a, b))
        if op == 'add':
            return add(a, b)
        if op == 'sub':
            return sub(a, b)
        if op == 'mul':
            return mul(a, b)
        if op == 'shl':
            if b.op == 'int':
                return mul(a, I(1 << (b.args[0] % (1 << w))))
            return tm.uf('shl%d' % w, (st.u(a, w), st.u(b, w)), 'I')
        if op == 'lshr':
            ua = st.u(a, w)
            if b.op == 'int':
                return tm.div(ua, I(1 << b.args[0]))
            return tm.uf('lshr%d' % w, (ua, st.u(b, w)), 'I')
        if op == 'ashr':
            if b.op == 'int':
                k = 1 << b.args[0]
                if 'exact' in flags:
                    d = tm.divexact(a, k)
                    if d is not None:
                        return d
                return tm.div(st.s(a, w), I(k))
            raise Unsupported('ashr')
        if op == 'udiv':
            ua, ub = st.u(a, w), st.u(b, w)
            self.oblige(st, 'division-by-zero', Not(eq(ub, I(0))))
            st.assume(Not(eq(ub, I(0))))
            if ub.op != 'int':
                st.assume(ge(ub, I(1)))
                return self.symdiv(st, ua, ub)
            return tm.div(ua, ub)
        if op == 'urem':
            ua, ub = st.u(a, w), st.u(b, w)
            self.oblige(st, 'division-by-zero', Not(eq(ub, I(0))))
            st.assume(ge(ub, I(1)))
            if ub.op != 'int' and st.proves(lt(ua, ub)):
                return ua
            return tm.mod(ua, ub)
        if op == 'sdiv':
            if b.op == 'int' and 'exact' in flags:
                bv = st.s(b, w).args[0]
                if bv > 0:
                    d = tm.divexact(a, bv)
                    if d is not None:
                        return d
            sa, sb = st.s(a, w), st.s(b, w)
            if sb.op == 'int' and sb.args[0] == 0:
                self.oblige(st, 'division-by-zero', FALSE)
            self.oblige(st, 'division-by-zero', Not(eq(sb, I(0))))
            st.assume(Not(eq(sb, I(0))))
            if st.proves(And(ge(sa, I(0)), ge(sb, I(1)))):
                return self.symdiv(st, sa, sb)
            if sb.op == 'int' and sb.args[0] > 0:
                return ite(ge(sa, I(0)), tm.div(sa, sb), tm.neg(tm.div(tm.neg(sa), sb)))
            raise NeedSplit(ge(sa, I(0))) if st.proves(ge(sb, I(1))) and st.decide(ge(sa, I(0))) is None else Unsupported('sdiv')
        if op == 'srem':
            sa, sb = st.s(a, w), st.s(b, w)
            self.oblige(st, 'division-by-zero', Not(eq(sb, I(0))))
            st.assume(Not(eq(sb, I(0))))
            if st.proves(And(ge(sa, I(0)), ge(sb, I(1)))):
                if st.proves(lt(sa, sb)):
                    return sa
                return tm.mod(sa, sb)
            if sb.op == 'int' and sb.args[0] > 0:
                return ite(ge(sa, I(0)), tm.mod(sa, sb), tm.neg(tm.mod(tm.neg(sa), sb)))
            raise Unsupported('srem')
        if op == 'and':
            for x, y in ((a, b), (b, a)):
                if y.op == 'int':
                    m = y.args[0] % (1 << w)
                    if m == 0:
                        return I(0)
                    lo = (m & -m).bit_length() - 1
                    hi = m.bit_length()
                    if m == (1 << hi) - (1 << lo):
                        ux = x if hi == w and False else st.u(x, w)
                        top = ux if hi == w else tm.mod(ux, I(1 << hi))
                        if lo == 0:
                            return top
                        return sub(top, tm.mod(ux, I(1 << lo)))
            ua, ub = st.u(a, w), st.u(b, w)
            if ua.id > ub.id:
                ua, ub = ub, ua
            r = tm.uf('and%d' % w, (ua, ub), 'I')
            st.assume(And(ge(r, I(0)), le(r, ua), le(r, ub)))
            # x & (x-1) == 0 iff x is zero or a power of two: left to the ispow2 predicate
            return r
        if op == 'or':
            if 'disjoint' in flags:
                return add(a, b)
            for x, y in ((a, b), (b, a)):
                if y.op == 'int' and y.args[0] == 0:
                    return x
                if y.op == 'int':
                    m = y.args[0] % (1 << w)
                    hi = m.bit_length()
                    if m == (1 << hi) - 1 and hi < w:
                        ux = st.u(x, w)
                        return add(sub(ux, tm.mod(ux, I(1 << hi))), m)
            ua, ub = st.u(a, w), st.u(b, w)
            r = tm.uf('or%d' % w, (ua, ub) if ua.id < ub.id else (ub, ua), 'I')
            st.assume(And(ge(r, ua), ge(r, ub), le(r, add(ua, ub))))
            return r
        if op == 'xor':
            for x, y in ((a, b), (b, a)):
                if y.op == 'int' and y.args[0] % (1 << w) == (1 << w) - 1:
                    return sub(I(-1), x)
            ua, ub = st.u(a, w), st.u(b, w)
            r = tm.uf('xor%d' % w, (ua, ub) if ua.id < ub.id else (ub, ua), 'I')
            st.assume(And(ge(r, I(0)), tm.Implies(eq(ua, ub), eq(r, I(0))), tm.Implies(eq(r, I(0)), eq(ua, ub))))
            return r
        raise Unsupported('binop ' + op)

    def symdiv(self, st, a, b):
        if b.op == 'int':
            return tm.div(a, b)
        # exact symbolic division of a polynomial multiple
        q = {}
        ok = b.op not in ('poly',)
        if ok:
            for m, c in tm.poly(a).items():
                if b in m:
                    mm = list(m)
                    mm.remove(b)
                    q[tuple(mm)] = q.get(tuple(mm), 0) + c
                else:
                    ok = False
                    break
        if ok:
            return tm._mk_poly(q)
        return tm.div(a, b)

    def fbin(self, op, a, b):
        so = a.sort
        if a.op == 'fconst' and b.op == 'fconst':
            x, y = tm.fval(a), tm.fval(b)
            try:
                r = {'fadd': lambda: x + y, 'fsub': lambda: x - y, 'fmul': lambda: x * y, 'fdiv': lambda: x / y}[op]()
                if r == r and abs(r) < 1e38 and (r != 0 or True):
                    return tm.fnum(r, so)
            except Exception:
                pass
        if op == 'fsub' and a.op == 'fconst' and tm.fval(a) == 0 and (a.args[0] >> (31 if so == 'f' else 63)):
            return self.fneg(b)
        return tm.fop(op, (a, b), so)

    def ptrint(self, st, op, a, b, w):
        # PtrInt: integer value of a pointer
        if op == 'sub' and isinstance(a, PtrInt) and isinstance(b, PtrInt):
            p, q = st.resolve(a.p), st.resolve(b.p)
            if isinstance(p, Opaque) or isinstance(q, Opaque):
                raise Unsupported('opaque pointer difference')
            if p.reg is q.reg:
                if p.mem == q.mem:
                    return sub(p.off, q.off)
                if p.reg.pitch is not None:
                    return add(sub(p.off, q.off), mul(mul(sub(p.mem[-1], q.mem[-1]), p.reg.pitch), I(p.reg.esize * p.reg.pitchmul)))
        av = self.address(st, a.p) if isinstance(a, PtrInt) else a
        bv = self.address(st, b.p) if isinstance(b, PtrInt) else b
        return self.binop(st, op, ('i', w), av, bv, set())

    def icmp(self, st, pred, ty, a, b):
        if a is UNDEF or b is UNDEF:
            return UNDEF
        if isinstance(a, PtrInt):
            a = self.address(st, a.p) if ty[0] != 'ptr' else a.p
        if isinstance(b, PtrInt):
            b = self.address(st, b.p) if ty[0] != 'ptr' else b.p
        if ty[0] == 'ptr' or isinstance(a, (Ptr, Fn)) or isinstance(b, (Ptr, Fn)):
            return self.ptrcmp(st, pred, a, b)
        if isinstance(a, PIte) or isinstance(b, PIte):
            a = st.resolve(a) if isinstance(a, PIte) else a
            b = st.resolve(b) if isinstance(b, PIte) else b
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            raise Unsupported('compare opaque %r %r' % (a, b))
        if not (isinstance(a, T) and isinstance(b, T)):
            raise Unsupported('icmp %r %r' % (a, b))
        w = ty[1]
        if a.sort == 'B' or b.sort == 'B':
            a = a if a.sort == 'B' else Not(eq(a, I(0)))
            b = b if b.sort == 'B' else Not(eq(b, I(0)))
            if pred == 'eq':
                return eq(a, b)
            if pred == 'ne':
                return Not(eq(a, b))
            raise Unsupported('i1 icmp')
        if pred in ('eq', 'ne'):
            d = sub(a, b)
            if d.op == 'int':
                r = tm.B(d.args[0] % (1 << w) == 0)
            elif st.proves(And(lt(d, I(1 << w)), gt(d, I(-(1 << w))))):
                r = eq(a, b)
            else:
                r = eq(st.u(a, w), st.u(b, w))
            return r if pred == 'eq' else Not(r)
        if pred[0] == 'u':
            x, y = st.u(a, w), st.u(b, w)
        else:
            x, y = st.s(a, w), st.s(b, w)
        k = pred[1:]
        return {'lt': lambda: lt(x, y), 'le': lambda: le(x, y), 'gt': lambda: lt(y, x), 'ge': lambda: le(y, x)}[k]()

    def ptrcmp(self, st, pred, a, b):
        if isinstance(a, PIte) and pred in ('eq', 'ne'):
            x = self.ptrcmp(st, pred, a.a, b)
            y = self.ptrcmp(st, pred, a.b, b)
            return ite(a.c, x, y)
        if isinstance(b, PIte) and pred in ('eq', 'ne'):
            return self.ptrcmp(st, pred, b, a)
        a, b = st.resolve(a), st.resolve(b)
        if isinstance(a, T) and a.op == 'int':
            a = Ptr(None, (), a)
        if isinstance(b, T) and b.op == 'int':
            b = Ptr(None, (), b)
        if isinstance(a, Fn) or isinstance(b, Fn):
            same = isinstance(a, Fn) and isinstance(b, Fn) and a.name == b.name
            return tm.B(same == (pred == 'eq'))
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            raise Unsupported('compare opaque pointer %r %r' % (a, b))
        if pred in ('eq', 'ne'):
            if a.reg is b.reg:
                r = And(eq(a.off, b.off), *[eq(x, y) for x, y in zip(a.mem, b.mem)])
                if a.reg is not None and a.reg.pitch is not None and a.mem != b.mem:
                    es = a.reg.esize * a.reg.pitchmul
                    r = eq(add(a.off, mul(mul(a.mem[-1], a.reg.pitch), I(es))), add(b.off, mul(mul(b.mem[-1], b.reg.pitch), I(es))))
            else:
                r = FALSE
            return r if pred == 'eq' else Not(r)
        if a.reg is b.reg and a.mem == b.mem:
            x, y = a.off, b.off
            return {'lt': lambda: lt(x, y), 'le': lambda: le(x, y), 'gt': lambda: lt(y, x), 'ge': lambda: le(y, x)}[pred[1:]]()
        x, y = self.address(st, a), self.address(st, b)
        return {'lt': lambda: lt(x, y), 'le': lambda: le(x, y), 'gt': lambda: lt(y, x), 'ge': lambda: le(y, x)}[pred[1:]]()

    def fcmp(self, pred, a, b):
        if a is UNDEF or b is UNDEF:
            return UNDEF
        F = lambda n, x, y: tm.fop(n, (x, y), 'B')
        if a.op == 'fconst' and b.op == 'fconst':
            x, y = tm.fval(a), tm.fval(b)
            un = x != x or y != y
            base = {'eq': x == y, 'lt': x < y, 'le': x <= y, 'gt': x > y, 'ge': x >= y, 'ne': x != y}
            if pred in ('ord', 'uno'):
                return tm.B(un == (pred == 'uno'))
            if pred == 'true':
                return TRUE
            if pred == 'false':
                return FALSE
            return tm.B((base[pred[1:]] and not un) if pred[0] == 'o' else (base[pred[1:]] or un))
        if pred == 'oeq':
            return F('feq', a, b)
        if pred == 'une':
            return Not(F('feq', a, b))
        if pred == 'olt':
            return F('flt', a, b)
        if pred == 'ogt':
            return F('flt', b, a)
        if pred == 'ole':
            return F('fle', a, b)
        if pred == 'oge':
            return F('fle', b, a)
        if pred == 'ult':
            return Not(F('fle', b, a))
        if pred == 'ule':
            return Not(F('flt', b, a))
        if pred == 'ugt':
            return Not(F('fle', a, b))
        if pred == 'uge':
            return Not(F('flt', a, b))
        nan = lambda x: FALSE if x.op == 'fconst' and tm.fval(x) == tm.fval(x) else tm.fop('fnan', (x,), 'B')
        if pred == 'uno':
            return Or(nan(a), nan(b))
        if pred == 'ord':
            return Not(Or(nan(a), nan(b)))
        if pred == 'ueq':
            return Or(nan(a), nan(b), F('feq', a, b))
        if pred == 'one':
            return And(Not(Or(nan(a), nan(b))), Not(F('feq', a, b)))
        raise Unsupported('fcmp ' + pred)

    def cast(self, st, op, t1, t2, a):
        if a is UNDEF:
            return UNDEF
        if isinstance(a, PIte) and op not in ('bitcast',):
            a = st.resolve(a)
        if op == 'bitcast':
            if t1[0] == 'vec' and t2[0] == 'vec':
                s1, s2 = self.mod.sizeof(t1[2]), self.mod.sizeof(t2[2])
                a = self.aslist(a, t1)
                if s1 == s2:
                    return [coerce(x, t2[2]) for x in a]
                if s1 < s2:
                    n = s2 // s1
                    return [coerce(Concat([(s1, a[i * n + j]) for j in range(n)]), t2[2]) for i in range(len(a) // n)]
                parts = split_parts(Concat([(s1, x) for x in a]), s2)
                return [coerce(x, t2[2]) for x in parts]
            if t1[0] == 'vec':
                a = self.aslist(a, t1)
                s1 = self.mod.sizeof(t1[2])
                return coerce(Concat([(s1, x) for x in a]), t2)
            if t2[0] == 'vec':
                s2 = self.mod.sizeof(t2[2])
                if isinstance(a, Concat):
                    return [coerce(x, t2[2]) for x in split_parts(a, s2)]
                if isinstance(a, T) and a.op == 'int' and a.args[0] == 0:
                    return [coerce(ZEROV, t2[2])] * t2[1]
                if isinstance(a, T) and a.sort in 'fd':
                    raise Unsupported('bitcast')
            return coerce(a, t2)
        if op == 'ptrtoint':
            if isinstance(a, list):
                raise Unsupported('ptrtoint vec')
            if isinstance(a, Ptr) and a.reg is None:
                return a.off
            if isinstance(a, (Opaque, Fn)):
                return a
            return PtrInt(a)
        if op == 'inttoptr':
            if isinstance(a, PtrInt):
                return a.p
            if isinstance(a, (Ptr, Fn, Opaque)):
                return a
            if isinstance(a, T) and a.op == 'int':
                return Ptr(None, (), a)
            if isinstance(a, T):
                # address arithmetic: find the region whose base address occurs
                for m, c in tm.poly(a).items():
                    if len(m) == 1 and c == 1 and m[0].op == 'var' and m[0].args[0].startswith('addr!'):
                        nm = m[0].args[0][5:]
                        for r in GREG.values():
                            if r.name == nm:
                                return Ptr(r, (), sub(a, m[0]))
            raise Unsupported('inttoptr')
        if isinstance(a, PtrInt):
            a = self.address(st, a.p)
        if op == 'trunc':
            w = t2[1]
            if isinstance(a, Concat):
                acc = []
                o = 0
                for s_, v in a.parts:
                    if o * 8 < w:
                        acc.append((s_, v))
                    o += s_
                return coerce(Concat(acc), t2)
            if isinstance(a, Bits):
                return a
            if w == 1:
                if a.op == 'ite' and a.args[1].op == 'int' and a.args[2].op == 'int':
                    return ite(a.args[0], tm.B(a.args[1].args[0] % 2), tm.B(a.args[2].args[0] % 2))
                return eq(tm.mod(a, I(2)), I(1))
            return a  # lazily modular
        if op in ('zext', 'sext'):
            if isinstance(a, T) and a.sort == 'B':
                return ite(a, I(1 if op == 'zext' else -1), I(0))
            if isinstance(a, Bits):
                return Concat([(self.mod.sizeof(t1), a), (self.mod.sizeof(t2) - self.mod.sizeof(t1), ZEROV)])
            if not isinstance(a, T):
                raise Unsupported('%s of %r' % (op, a))
            return st.u(a, t1[1]) if op == 'zext' else st.s(a, t1[1])
        if op in ('uitofp', 'sitofp'):
            so = 'f' if t2[0] == 'float' else 'd'
            if a.sort == 'B':
                return ite(a, tm.fnum(1.0 if op == 'uitofp' else -1.0, so), tm.fnum(0.0, so))
            v = st.u(a, t1[1]) if op == 'uitofp' else st.s(a, t1[1])
            if v.op == 'int' and abs(v.args[0]) < (1 << 24 if so == 'f' else 1 << 53):
                return tm.fnum(float(v.args[0]), so)
            return tm.fop('uitofp' if True else op, (v,), so)
        if op in ('fptoui', 'fptosi'):
            w = t2[1]
            if a.op == 'fconst':
                return I(int(tm.fval(a)))
            b = a
            while b.op == 'fop' and b.args[0] == 'fpext':
                b = b.args[1]
            if b.op == 'fop' and b.args[0] in ('rint', 'nearbyint'):
                from .models import toint
                return toint(self, st, b.args[1])
            t = tm.fop('fptosi', (a,), 'I')
            lo, hi = (0, 1 << w) if op == 'fptoui' else (-(1 << (w - 1)), 1 << (w - 1))
            st.assume(And(ge(t, I(lo)), lt(t, I(hi))))
            self.assumed.add('float-to-integer conversions are in range of the destination type')
            return t
        if op == 'fpext':
            if a.op == 'fconst':
                return tm.fnum(tm.fval(a), 'd')
            return tm.fop('fpext', (a,), 'd')
        if op == 'fptrunc':
            if a.op == 'fconst':
                return tm.fconst(irparse.fbits(tm.fval(a), ('float',)), 'f')
            return tm.fop('fptrunc', (a,), 'f')
        raise Unsupported('cast ' + op)

    # ------------------------------------------------ calls
    def call(self, f, ins, st):
        callee, args = ins.a
        if callee[0] == 'local':
            tgt = st.resolve(st.env[callee[1]])
        elif callee[0] == 'asm':
            raise Unsupported('inline asm')
        else:
            tgt = self.const_val(callee, ('ptr',), self.cmod)
        if isinstance(tgt, Ptr) and tgt.reg is not None and getattr(tgt.reg, 'isglobal', None):
            tgt = Fn(tgt.reg.isglobal)
        vals = []
        for t, o, at in args:
            v = self.val(st, o, t)
            bv = [x for x in at if isinstance(x, tuple) and x[0] == 'byval']
            vals.append(v)
        if isinstance(tgt, VFn):
            return tgt.handler(self, st, vals, ins)
        if isinstance(tgt, Opaque) and tgt.name == 'exception' and ins.ty == ('ptr',) and len(vals) == 1:
            # what() of a caught exception: message text only
            self.opaque_hits.add('std::exception::what')
            return [End('ret', st, Opaque('message'))]
        if not isinstance(tgt, Fn):
            raise Unsupported('indirect call through %r' % (tgt,))
        return self.call_named(f, tgt.name, vals, st, ins, args)

    def call_named(self, f, name, vals, st, ins, args):
        from . import models
        key = name
        h = self._cache_contract.get(key, 0)
        if h == 0:
            h = None
            d = self.demangled(name)
            for pred, hh, label in self.contracts:
                if pred(name, d):
                    h = (hh, label)
                    break
            self._cache_contract[key] = h
        if h is not None:
            s2 = st.copy()
            r = h[0](self, s2, vals, ins)
            self.applied.add(h[1] or self.demangled(name))
            return self.norm_outcome(r, s2)
        r = models.model(self, name, self.demangled(name), vals, st, ins)
        if r is not None:
            return r
        fn = self.lookup(name)
        if fn is None:
            raise Unsupported('call to external function %s' % self.demangled(name)[:160])
        self.inlined.add(self.demangled(name))
        return self.call_function(fn, vals, st)

    def norm_outcome(self, r, st):
        if isinstance(r, list) and (not r or isinstance(r[0], End)):
            return r
        return [End('ret', st, r)]

    # ------------------------------------------------ loops
    def summarise(self, f, H, prev, st):
        from . import loops
        return loops.summarise(self, f, H, prev, st)


class PtrInt:
    __slots__ = ('p',)

    def __init__(self, p):
        self.p = p


class VFn:
    """function pointer with an abstract behaviour (interface method / opaque callable)"""

    def __init__(self, name, handler):
        self.name = name
        self.handler = handler
