"""Loop handling: closed forms for inductive values, summaries of memory effects,
folds for recurrences.  Every summary is justified by proof obligations on an
arbitrary iteration k (0 <= k < K), never by sampling."""
from . import terms as tm
from . import irparse
from .terms import T, I, add, sub, mul, eq, And, Or, Not, ite, TRUE, FALSE, ge, lt, le, gt
from .mem import *
from .state import *
from .exec import End, Unsupported, PathLimit, PtrInt

MAXUNROLL = 24


class LV:
    """loop-carried value: header phi or memory cell"""

    def __init__(self, kind, key, init, ty=None, size=None):
        self.kind = kind      # 'phi' / 'cell'
        self.key = key        # phi result name / (region, field)
        self.init = init
        self.ty = ty
        self.size = size
        self.cls = None       # None / 'const' / 'aff' / 'lag' / 'fold'
        self.delta = None
        self.sym = None
        self.body = None
        self.inv = None

    def mksym(self, ex, st):
        self.sym = fresh_like(self.init, self.ty, st)
        return self.sym

    def rangeinv(self, k):
        """candidate invariant: the mathematical value of an affine counter stays in the unsigned range"""
        if self.cls == 'aff' and self.inv and isinstance(self.init, T):
            v = self.value(k)
            return And(ge(v, I(0)), lt(v, I(1 << self.inv)))
        return None

    def value(self, k):
        """closed form at iteration k (for const/aff/lag)"""
        if self.cls == 'const':
            return self.init
        if self.cls == 'aff':
            return plus(self.init, self.delta, k)
        if self.cls == 'lag':
            kv, e = self.delta
            if k.op == 'int' and k.args[0] == 0:
                return self.init
            return vite(eq(k, I(0)), self.init, vsubst(e, {kv: sub(k, I(1))}))
        raise AssertionError


def fresh_like(v, ty, st):
    if isinstance(v, T):
        if ty is not None and ty[0] == 'i' and v.sort == 'I':
            s = tm.fresh('lv', 'I')
            return s
        return tm.fresh('lv', v.sort)
    if isinstance(v, Ptr):
        if v.reg is None:
            raise Unsupported('null loop pointer')
        g = v.reg.esize or 1
        return Ptr(v.reg, [tm.fresh('lm', 'I') for _ in v.mem], add(v.off, mul(tm.fresh('lo', 'I'), I(g))))
    if isinstance(v, list):
        return [fresh_like(x, ty[2] if ty and ty[0] == 'vec' else None, st) for x in v]
    if v is ZEROV and ty is not None:
        return fresh_like(coerce(v, ty), ty, st)
    raise Unsupported('loop-carried value %r' % (v,))


def stride_of(ex, f, body, name):
    """constant byte stride of the pointer phi `name` in a loop body"""
    for b in body:
        for ins in f.blocks[b].ins:
            if ins.op == 'getelementptr' and ins.a[0][1] == ('local', name) and len(ins.a) == 2 and ins.a[1][1][0] == 'int':
                return abs(f.module.sizeof(ins.ty) * ins.a[1][1][1])
    return None


def step_of(f, body, block, name):
    """constant step of the integer phi `name`, from the instruction text"""
    ph = [p for p in block.phis if p.res == name][0]
    steps = set()
    for v, pb in ph.a:
        if pb not in body:
            continue
        d = None
        for b in body:
            for ins in f.blocks[b].ins:
                if v == ('local', ins.res) and ins.op == 'add' and len(ins.a) == 2:
                    a = [x[1] if isinstance(x, tuple) and len(x) == 2 and isinstance(x[1], tuple) else x for x in ins.a]
                    if ('local', name) in a:
                        o = a[1 - a.index(('local', name))]
                        if o[0] == 'int':
                            d = o[1]
        steps.add(d)
    return steps.pop() if len(steps) == 1 else None


def delta_of(nv, sym):
    """nv - sym as a structure, or None"""
    if isinstance(sym, T):
        if not isinstance(nv, T) or nv.sort != sym.sort:
            return None
        if sym.sort == 'I':
            return sub(nv, sym)
        return None if nv is not sym else I(0)
    if isinstance(sym, Ptr):
        if not isinstance(nv, Ptr) or nv.reg is not sym.reg:
            return None
        return Ptr(sym.reg, [sub(a, b) for a, b in zip(nv.mem, sym.mem)], sub(nv.off, sym.off))
    return None


def plus(init, d, k):
    if isinstance(init, Ptr):
        return Ptr(init.reg, [add(a, mul(b, k)) for a, b in zip(init.mem, d.mem)], add(init.off, mul(d.off, k)))
    return add(init, mul(d, k))


def l_plain(l, k):
    return plus(l.init, l.delta, k)


def symset(lvs):
    s = set()
    for l in lvs:
        if l.sym is not None:
            s |= set(vfvs(l.sym))
    return s


def summarise(ex, f, H, prev, st):
    if ex.unroll is not None:
        return unroll(ex, f, H, prev, st, ex.unroll)
    body = irparse.loops_of(f)[H]
    ctx = (H, body)
    block = f.blocks[H]
    inv = manual_for(ex, f, H)
    if inv is not None:
        return manual(ex, f, H, prev, st, inv, ctx)
    inits = []
    for ph in block.phis:
        for v, pb in ph.a:
            if pb == prev:
                inits.append(ex.val(st, v, ph.ty))
                break
    lvs = []
    for ph, v in zip(block.phis, inits):
        if isinstance(v, PIte):
            v = st.resolve(v)
        lvs.append(LV('phi', ph.res, v, ph.ty))
    for l in lvs:
        p = l.init
        if isinstance(p, Ptr) and p.reg is not None and p.reg.esize is None and getattr(p.reg, 'lazy', False):
            g = stride_of(ex, f, body, l.key)
            if g and g > 1:
                p.reg.esize = g
                p.reg.leaf = None
                b = getattr(p.reg, 'bytes', None)
                if b is not None:
                    p.reg.extent = lambda *kk, n=g, b=b: And(ge(kk[-1], I(0)), le(mul(add(kk[-1], 1), I(n)), b))
    # integer counters stepped by a constant in the text: start with the closed form (checked below like any other)
    for l in lvs:
        if isinstance(l.init, T) and l.init.sort == 'I' and l.ty and l.ty[0] == 'i':
            d = step_of(f, body, block, l.key)
            if d:
                l.cls, l.delta = 'aff', I(d)
                if st.proves(And(ge(l.init, I(0)), lt(l.init, I(1 << l.ty[1])))):
                    l.inv = l.ty[1]
    # trivially concrete loops: try to execute them (bounded by constants, not by us)
    r = try_concrete(ex, f, H, prev, st, ctx, lvs)
    if r is not None:
        return r
    k = tm.fresh('k', 'I')
    recur = {}      # (region, field) -> uf name for pointwise recurrences
    oldmem = {}

    def header(state_pc_extra, useK):
        hs = st.copy()
        hs.assume(ge(k, I(0)))
        hs.path = ()
        for c in state_pc_extra:
            hs.assume(c)
        for l in lvs:
            if l.cls in ('const', 'aff', 'lag'):
                v = l.value(k)
            else:
                v = l.mksym(ex, hs) if l.sym is None else l.sym
            if l.kind == 'phi':
                hs.env[l.key] = v
            else:
                reg, fo = l.key
                hs.write_field(reg, fo, l.size, (), v)
        for l in lvs:
            c = l.rangeinv(k)
            if c is not None:
                hs.assume(c)
        for (reg, fo), (nm, size, ty, g) in recur.items():
            so = sort_of(ty)
            # locations outside of the range every iteration stays in keep the content they had before the loop
            hs.setlog(reg, fo, (() if g is TRUE else hs.log(reg, fo)) + (Upd(size, g, tm.uf(nm, KV[:reg.nkey()], so)),))
        hs.rec = []
        return hs

    def run(hs):
        return ex.run_from(f, H, prev, hs, ctx, skip_phis=True)

    def newvals(e):
        out = []
        for l in lvs:
            if l.kind == 'phi':
                ph = [p for p in block.phis if p.res == l.key][0]
                for v, pb in ph.a:
                    if pb == e.prev:
                        out.append(ex.val(e.st, v, ph.ty))
                        break
            else:
                reg, fo = l.key
                lst = e.st.log(reg, fo)
                out.append(lst[-1].val if lst else None)
        return out

    ex.mute += 1
    try:
        Kinfo = None
        for rnd in range(12):
            extra = []
            if Kinfo is not None:
                extra = [lt(k, Kinfo['K'])] + Kinfo['assume'](k)
            else:
                extra = [lt(k, I(1 << 40))]
            hs = header(extra, True)
            hmem = dict(hs.mem)
            ends = run(hs)
            backs = [e for e in ends if e.kind == 'back']
            outs = [e for e in ends if e.kind != 'back']
            if not backs:
                # the body never reaches the back edge: no loop at all
                if all(l.cls for l in lvs) or rnd == 0:
                    pass
                ex.mute -= 1
                try:
                    s0 = st.copy()
                    for l in lvs:
                        if l.kind == 'phi':
                            s0.env[l.key] = l.init
                    rr = ex.run_from(f, H, prev, s0, ctx, skip_phis=True)
                    if any(e.kind == 'back' for e in rr):
                        raise Unsupported('inconsistent loop exploration')
                    return rr
                finally:
                    ex.mute += 1
            # newly modified cells
            grown = False
            have = set(l.key for l in lvs if l.kind == 'cell')
            for e in backs:
                for rid, d in e.st.mem.items():
                    reg = GREG[rid]
                    od = hmem.get(rid, {})
                    if rid not in hmem and reg.base == 'undef' and reg.local:
                        # a local of the loop body (or untouched before): dead across iterations unless read first
                        continue
                    for fo, lst in d.items():
                        if od.get(fo, ()) is lst or (not lst and not od.get(fo, ())):
                            continue
                        if reg.nkey() == 0:
                            if (reg, fo) in have:
                                continue
                            size = lst[-1].size
                            v0 = cell_init(ex, st, reg, fo, size, lst[-1].val)
                            if v0 is None:
                                continue
                            l = LV('cell', (reg, fo), v0, guess(lst[-1].val, size), size)
                            lvs.append(l)
                            have.add((reg, fo))
                            grown = True
                    for fo in od:
                        if fo not in d and reg.nkey() == 0 and od[fo]:
                            raise Unsupported('loop changes cell structure of %s' % reg.name)
            if grown:
                continue
            # classification
            syms = symset(lvs)
            changed = False
            nvs = [newvals(e) for e in backs]
            for i, l in enumerate(lvs):
                vals = [nv[i] for nv in nvs]
                if l.cls is None:
                    ds = [delta_of(v, l.sym) for v in vals]
                    if all(d is not None for d in ds) and all(vsame(d, ds[0]) for d in ds):
                        d = ds[0]
                        fv = vfvs(d)
                        if not (fv & syms) and k not in fv:
                            zero = (d.off is I(0) and all(m is I(0) for m in d.mem)) if isinstance(d, Ptr) else d is I(0)
                            l.cls = 'const' if zero else 'aff'
                            if not zero and isinstance(l.init, T) and l.ty and l.ty[0] == 'i' and not getattr(l, 'noinv', False) \
                                    and st.proves(And(ge(l.init, I(0)), lt(l.init, I(1 << l.ty[1])))):
                                l.inv = l.ty[1]
                            l.delta = d
                            l.sym = None
                            changed = True
                            continue
                elif l.cls in ('const', 'aff', 'lag'):
                    if l.inv:
                        nx = add(k, I(1))
                        iv = And(ge(l_plain(l, nx), I(0)), lt(l_plain(l, nx), I(1 << l.inv)))
                        if not all(e.st.proves(iv) for e in backs):
                            l.inv = None
                            l.noinv = True
                            Kinfo = None
                            changed = True
                            continue
                    want = l.value(add(k, I(1)))
                    for e, v in zip(backs, vals):
                        if not same_value(e.st, v, want):
                            l.cls = None
                            l.sym = None
                            l.bad = getattr(l, 'bad', 0) + 1
                            changed = True
                            break
            if changed:
                continue
            for i, l in enumerate(lvs):
                if l.cls is None:
                    # value that only depends on the iteration: lag
                    vals = [nv[i] for nv in nvs]
                    mv = merge_ends(backs, vals, st)
                    fv = vfvs(mv) if mv is not None else None
                    if mv is not None and not (fv & syms) and not isinstance(l.init, Ptr) and not mentions(mv, recur) and getattr(l, 'bad', 0) < 2:
                        l.cls = 'lag'
                        l.delta = (k, mv)
                        l.sym = None
                    else:
                        l.cls = 'fold'
                    changed = True
            if changed:
                continue
            # all classified; trip count
            if Kinfo is None:
                Kinfo = tripcount(ex, st, hs, k, ends, lvs, f, H)
                if Kinfo['K'].op == 'int' and Kinfo['K'].args[0] <= MAXUNROLL and not Kinfo['fresh']:
                    return finish_unrolled(ex, f, H, prev, st, ctx, lvs, Kinfo['K'].args[0])
                continue
            # memory effects
            writes = collect_writes(backs, hmem, st, lvs)
            again = False
            reads = hs.rec
            for (reg, fo), ws in writes.items():
                if (reg, fo) in recur:
                    nm, size, ty, g = recur[(reg, fo)]
                    if g is not TRUE and not all(set(c.id for c in conj(g)) <= set(c.id for c in conj(w.cond)) for w in ws):
                        recur[(reg, fo)] = (nm, size, ty, TRUE)
                        again = True
                    continue
                if not independent(ex, st, hs, k, Kinfo, reg, fo, ws, reads) or any(k in tm.fvs(w.cond) and solve_k(w.cond, k, st, Kinfo) is None for w in ws):
                    u = ws[0]
                    recur[(reg, fo)] = ('cur!%s.%d!%d' % (reg.name, fo, k.id), u.size, guess(u.val, u.size) if not reg.leafsort else leafty(reg), fixed_range(reg, ws, k, recur))
                    again = True
            if again:
                continue
            break
        else:
            raise Unsupported('loop classification does not converge')
        # consistency of folds
        folds = [l for l in lvs if l.cls == 'fold']
        for l in folds:
            if isinstance(l.sym, (Ptr, list)):
                raise Unsupported('non-affine loop pointer/vector %s' % (l.key,))
        for i, l in enumerate(lvs):
            if l.cls == 'fold':
                l.body = merge_ends(backs, [nv[i] for nv in nvs], st)
                if not isinstance(l.body, T):
                    raise Unsupported('fold of non-term')
        lifted = lift(ex, st, hs, k, Kinfo, writes, recur, backs, hmem, folds)
    finally:
        ex.mute -= 1
    # obligations for an arbitrary iteration
    hs = header([lt(k, Kinfo['K'])] + Kinfo['assume'](k), True)
    hs.rec = st.rec if st.rec is not None else None
    hs.path = st.path
    for t_ in Kinfo['oblig']:
        ex.oblige(st, 'termination', t_)
    run(hs)
    # state after K iterations
    K = Kinfo['K']
    es = st.copy()
    es.assume(ge(K, I(0)))
    for c in Kinfo['after']:
        es.assume(c)
    es.facts = es.facts + tuple(Kinfo['facts'])
    for l in lvs:
        c = l.rangeinv(K)
        if c is not None:
            es.assume(c)
    fsyms = [l.sym for l in folds]
    for l in lvs:
        if l.cls == 'fold':
            j = folds.index(l)
            v = tm.fold(K, fsyms, [coerce(x.init, x.ty) if x.init is ZEROV else x.init for x in folds], [x.body for x in folds], j, k)
        else:
            v = l.value(K)
        if l.kind == 'phi':
            es.env[l.key] = v
        else:
            reg, fo = l.key
            es.write_field(reg, fo, l.size, (), v)
    lifted(es)
    ex.loops.append((ex.cur_fn, f.name, H, 'summarised'))
    out = ex.run_from(f, H, prev, es, ctx, skip_phis=True)
    res = []
    for e in out:
        if e.kind == 'back':
            if Kinfo['fresh']:
                continue
            if e.st.feasible():
                raise Unsupported('loop continues beyond its trip count')
            continue
        res.append(e)
    return res


def fixed_range(reg, ws, k, recur):
    """conjuncts shared by all write conditions that are the same in every iteration (over keys and variables older than the loop)"""
    kv = set(KV[:reg.nkey()])
    if not reg.nkey():
        return TRUE
    common = None
    for w in ws:
        c = {x.id: x for x in conj(w.cond) if (tm.fvs(x) & kv) and all(y in kv or y.id < k.id for y in tm.fvs(x)) and not mentions(x, recur) and not any(n.startswith('cur!') for n in _ufs(x))}
        common = c if common is None else {i: x for i, x in common.items() if i in c}
    return And(*common.values()) if common else TRUE


def mentions(v, recur):
    names = set(x[0] for x in recur.values())
    if not names:
        return False
    return bool(_ufs(v) & names)


def _ufs(v):
    out = set()
    ts = []
    if isinstance(v, T):
        ts = [v]
    elif isinstance(v, Ptr):
        ts = [v.off] + list(v.mem)
    elif isinstance(v, PIte):
        return _ufs(v.c) | _ufs(v.a) | _ufs(v.b)
    elif isinstance(v, list):
        for x in v:
            out |= _ufs(x)
        return out
    seen = {}
    for t in ts:
        tm.subterms(t, seen)
    for t in seen.values():
        if t.op == 'uf':
            out.add(t.args[0])
    return out


def guess(v, size):
    if isinstance(v, T):
        if v.sort == 'f':
            return ('float',)
        if v.sort == 'd':
            return ('double',)
        return ('i', 8 * size)
    if isinstance(v, (Ptr, PIte, Fn, Opaque)):
        return ('ptr',)
    return ('i', 8 * size)


def cell_init(ex, st, reg, fo, size, like):
    d = st.mem.get(reg.id, {})
    if fo in d and d[fo]:
        if d[fo][-1].size != size:
            return coerce(st._compose(reg, fo, size, guess(like, size)), guess(like, size))
        v = d[fo][-1].val
        if v is UNDEF:
            return None
        return v
    if reg.base == 'undef':
        return None
    return st.base_read(reg, fo, size, guess(like, size), ())


def same_value(st, a, b):
    if vsame(a, b):
        return True
    if isinstance(a, T) and isinstance(b, T) and a.sort == b.sort:
        return st.proves(eq(a, b))
    if isinstance(a, Ptr) and isinstance(b, Ptr) and a.reg is b.reg:
        return all(st.proves(eq(x, y)) for x, y in zip(list(a.mem) + [a.off], list(b.mem) + [b.off]))
    if isinstance(a, list) and isinstance(b, list):
        return all(same_value(st, x, y) for x, y in zip(a, b))
    return False


def same_reg(st, a, b, ty):
    if same_value(st, a, b):
        return True
    if isinstance(a, T) and isinstance(b, T) and a.sort == b.sort == 'I' and ty[0] == 'i':
        return same_value(st, st.u(a, ty[1]), st.u(b, ty[1]))
    return False


def merge_ends(backs, vals, st):
    out = vals[-1]
    for e, v in list(zip(backs, vals))[-2::-1]:
        c = And(*e.st.path)
        if out is None or v is None:
            return None
        if isinstance(out, UndefT):
            out = v
        elif not isinstance(v, UndefT):
            out = vite(c, v, out)
    return out


def try_concrete(ex, f, H, prev, st, ctx, lvs):
    """execute loops whose control is decided by constants"""
    if not lvs:
        pass
    # only attempt when some integer/pointer phi starts at a constant and the exit test folds
    ok = False
    for l in lvs:
        if isinstance(l.init, T) and l.init.op == 'int':
            ok = True
        if isinstance(l.init, Ptr) and l.init.off.op == 'int':
            ok = True
    if not ok and not any(i.op in ('call', 'load') for i in f.blocks[H].ins):
        return None
    # probe: exit decision at the header must be syntactically constant
    term = f.blocks[H].term
    if term.op != 'condbr':
        return None
    ex.mute += 1
    try:
        s0 = st.copy()
        for l in lvs:
            if l.kind == 'phi':
                s0.env[l.key] = l.init
        try:
            blk = f.blocks[H]
            for ins in blk.ins:
                r = ex.step(f, ins, s0)
                if r is not None:
                    if len(r) != 1 or r[0].kind != 'ret':
                        return None
                    s0 = r[0].st
                    if ins.res is not None:
                        s0.env[ins.res] = r[0].val
            c = ex.val(s0, term.a[0], ('i', 1))
        except (Unsupported, NeedSplit):
            return None
        if c is not TRUE and c is not FALSE:
            return None
        # the bound must be constant too: operands of the compare
    finally:
        ex.mute -= 1
    save = list(ex.obligs)
    try:
        return unroll(ex, f, H, prev, st, MAXUNROLL, strict=True)
    except _NotConcrete:
        ex.obligs[:] = save
        return None


class _NotConcrete(Exception):
    pass


def unroll(ex, f, H, prev, st, n, strict=False):
    body = irparse.loops_of(f)[H]
    ctx = (H, body)
    block = f.blocks[H]
    cur = [(prev, st.copy())]
    res = []
    for it in range(n + 1):
        nxt = []
        for pv, s in cur:
            vals = []
            for ph in block.phis:
                for v, pb in ph.a:
                    if pb == pv:
                        vals.append(ex.val(s, v, ph.ty))
                        break
            for ph, v in zip(block.phis, vals):
                s.env[ph.res] = v
            p0 = len(s.path)
            ends = ex.run_from(f, H, pv, s, ctx, skip_phis=True)
            nb = 0
            for e in ends:
                if e.kind == 'back':
                    nb += 1
                    nxt.append((e.prev, e.st))
                else:
                    res.append(e)
            if strict and len(ends) > 1 and nb and any(e.kind == 'exit' and e.prev == H for e in ends):
                # symbolic exit decision: not a concrete loop
                raise _NotConcrete()
        cur = nxt
        if not cur:
            ex.loops.append((ex.cur_fn, f.name, H, 'executed'))
            return res
    if strict:
        raise _NotConcrete()
    # bounded: drop longer executions
    ex.bounded.append((f.name, H, n))
    return res


def finish_unrolled(ex, f, H, prev, st, ctx, lvs, n):
    ex.mute -= 1
    try:
        r = unroll(ex, f, H, prev, st, n + 1)
        if ex.bounded and ex.bounded[-1] == (f.name, H, n + 1):
            ex.bounded.pop()
            raise Unsupported('constant trip count mismatch')
        return r
    finally:
        ex.mute += 1


def ceildiv(a, s):
    return tm.div(add(a, s - 1), I(s))


def tripcount(ex, st, hs, k, ends, lvs, f, H):
    """-> dict K, fresh, assume(k) facts inside, after, oblig, facts"""
    outs = [e for e in ends if e.kind != 'back']
    folds = set()
    for l in lvs:
        if l.cls == 'fold':
            folds |= set(vfvs(l.sym))
    cands = []
    others = []
    for e in outs:
        path = e.st.path
        c = path[0] if len(path) == 1 else None
        kk = None
        if c is not None:
            kk = solve_exit(ex, st, c, k, folds)
        if kk is not None:
            cands.append((kk, e))
        else:
            others.append(e)
    if len(cands) >= 1:
        # smallest of the closed forms
        K, obl, after = cands[0][0]
        if len(cands) > 1 and not all(x[0][0] is K for x in cands):
            others += [x[1] for x in cands[1:]]
        # other exits feasible before K?
        feas = []
        for e in others:
            s2 = st.copy()
            s2.assume(ge(k, I(0)))
            s2.assume(lt(k, K))
            for c in obl:
                s2.assume(c)
            for c in e.st.path:
                s2.assume(c)
            s2.facts = e.st.facts
            for c in e.st.pc:
                s2.assume(c)
            if s2.feasible():
                feas.append(e)
        if not feas:
            return {'K': K, 'fresh': False, 'assume': lambda k_: [], 'after': after, 'oblig': obl, 'facts': []}
        Kmain = K
    else:
        feas = others
        Kmain = None
        obl, after = [], []
    # data dependent exit: K is the first iteration at which an exit is taken
    Kf = tm.fresh('K', 'I')
    ex_cond = Or(*[And(*e.st.path) for e in (feas + [x[1] for x in cands])])
    side = Or(*[And(*e.st.path) for e in feas])
    if any(v in folds for v in tm.fvs(ex_cond)):
        raise Unsupported('loop exit depends on a recurrence')
    aft = [ge(Kf, I(0)), lt(Kf, I(1 << 62)), tm.subst(ex_cond, {k: Kf})]
    if Kmain is not None:
        aft.append(le(Kf, Kmain))
    nside = Not(side)
    names = set()
    seen = {}
    tm.subterms(side, seen)
    facts = []
    from .solver import Fact
    for t in seen.values():
        if t.op == 'uf' and k in tm.fvs(t):
            # invert: one argument is k + c
            for ai, a in enumerate(t.args[1:]):
                p = tm.poly(a)
                if p.get((k,), 0) == 1:
                    rest = sub(a, k)
                    if k in tm.fvs(rest):
                        continue

                    def fn(*args, ai=ai, rest=rest):
                        kk = sub(args[ai], rest)
                        return tm.Implies(And(ge(kk, I(0)), lt(kk, Kf)), tm.subst(nside, {k: kk}))
                    facts.append(Fact(t.args[0], fn, 2, 'loop-not-exited'))
                    break
    ex.assumed.add('data-dependent loops terminate')
    return {'K': Kf, 'fresh': True, 'assume': lambda k_: aft + [tm.subst(Not(ex_cond), {k: k_})] + [tm.subst(nside, {k: I(0)}) if False else TRUE],
            'after': aft, 'oblig': [], 'facts': facts, 'infacts': facts}


def solve_exit(ex, st, c, k, folds):
    """closed form for the first k>=0 satisfying c(k); -> (K, obligations, after) or None"""
    fv = tm.fvs(c)
    if k not in fv or (fv & folds):
        return None
    if c.op == 'ge0':
        p = c.args[0]
        d = tm.poly(p)
        s = d.get((k,), 0)
        rest = sub(p, mul(k, I(s)))
        if k in tm.fvs(rest):
            return symbolic_step(st, c, p, k)
        if s > 0:
            # rest + s k >= 0  <=> k >= ceil(-rest/s)
            q = ceildiv(tm.neg(rest), s)
            if st.proves(ge(q, I(0))):
                return (q, [], [])
            if st.proves(le(q, I(0))):
                return (I(0), [], [])
            return (ite(ge(q, I(0)), q, I(0)), [], [])
        # s<0: true at the start or never
        return (I(0), [ge(rest, I(0))], []) if st.proves(ge(rest, I(0))) else None
    if c.op == 'eq0':
        p = c.args[0]
        d = tm.poly(p)
        s = d.get((k,), 0)
        rest = sub(p, mul(k, I(s)))
        if k in tm.fvs(rest):
            return symbolic_step_eq(st, p, k)
        if s < 0:
            s, rest = -s, tm.neg(rest)
        # k = -rest/s
        q = tm.divexact(tm.neg(rest), s)
        if q is None:
            q = tm.div(tm.neg(rest), I(s))
        obl = [ge(q, I(0))]
        if s != 1:
            obl.append(eq(add(mul(q, I(s)), rest), I(0)))
        return (q, obl, list(obl))
    return None


def symbolic_step_eq(st, p, k):
    # p = rest + k*step, step symbolic
    A = {}
    R = {}
    for m, c in tm.poly(p).items():
        if k in m:
            mm = list(m)
            mm.remove(k)
            if k in mm:
                return None
            A[tuple(mm)] = c
        else:
            R[m] = c
    step, rest = tm._mk_poly(A), tm._mk_poly(R)
    # try exact polynomial division of -rest by step when step is a single monomial
    if len(A) == 1:
        (sm, sc), = A.items()
        q = {}
        for m, c in R.items():
            mm = list(m)
            good = True
            for a in sm:
                if a in mm:
                    mm.remove(a)
                else:
                    good = False
                    break
            if not good or c % sc:
                return None
            q[tuple(mm)] = -c // sc
        Q = tm._mk_poly(q)
        if st.proves(Not(eq(step, I(0)))):
            return (Q, [ge(Q, I(0))], [ge(Q, I(0))])
        # step zero: exit holds at once iff rest == 0
    return None


def symbolic_step(st, c, p, k):
    return None


# ---------------------------------------------------------------- memory effects

class W:
    __slots__ = ('size', 'cond', 'val', 'order', 'pathc')

    def __init__(self, size, cond, val, order):
        self.size, self.cond, self.val, self.order = size, cond, val, order


def collect_writes(backs, hmem, st, lvs):
    """guarded updates of one arbitrary iteration, keyed fields only"""
    out = {}
    n = 0
    # every completed iteration took one of these paths: conditions common to all of them hold and are dropped
    common = None
    for e in backs:
        ids = set(c.id for c in conj(And(*e.st.path)))
        common = ids if common is None else common & ids
    for e in backs:
        pc = And(*[c for c in conj(And(*e.st.path)) if c.id not in common])
        for rid, d in e.st.mem.items():
            reg = GREG[rid]
            if reg.nkey() == 0:
                continue
            if rid not in hmem and (reg.base == 'undef') and (reg.local or getattr(reg, 'heap', False)):
                continue
            od = hmem.get(rid, {})
            for fo, lst in d.items():
                o = od.get(fo, ())
                if lst is o:
                    continue
                if lst[:len(o)] != o:
                    raise Unsupported('memory log rewritten in loop')
                for u in lst[len(o):]:
                    n += 1
                    out.setdefault((reg, fo), []).append(W(u.size, And(pc, u.cond), u.val, n))
    return out


def independent(ex, st, hs, k, Kinfo, reg, fo, ws, reads):
    """no read of this field sees a write of an earlier iteration"""
    k2 = tm.fresh('kk', 'I')
    base = st.copy()
    base.assume(And(ge(k, I(0)), lt(k, Kinfo['K']), ge(k2, I(0)), lt(k2, k)))
    for c in Kinfo['after']:
        base.assume(c)
    seen = set()
    for (r, f2, key, path) in reads:
        if r is not reg or f2 != fo:
            continue
        sig = (tuple(x.id for x in key), tuple(c.id for c in path))
        if sig in seen:
            continue
        seen.add(sig)
        # rename the bulk key variables of the read
        ren = {v: tm.fresh('rx', 'I') for v in KV}
        key_ = [tm.subst(x, ren) for x in key]
        conds = [tm.subst(c, ren) for c in path]
        m = {KV[i]: x for i, x in enumerate(key_)}
        for w in ws:
            wc = tm.subst(tm.subst(w.cond, {k: k2}), m)
            s2 = base.copy()
            for c in conds:
                s2.assume(c)
            s2.assume(wc)
            if wc is not FALSE and s2.feasible():
                return False
    return True


def lift(ex, st, hs, k, Kinfo, writes, recur, backs, hmem, folds):
    K = Kinfo['K']
    plans = []
    fsy = set(l.sym for l in folds)
    fsyms = [l.sym for l in folds]
    finit = [coerce(x.init, x.ty) if x.init is ZEROV else x.init for x in folds]
    fbody = [x.body for x in folds]

    def close(v, at):
        """replace fold symbols by their value at iteration `at`"""
        fv = vfvs(v)
        m = {}
        for j, s in enumerate(fsyms):
            if s in fv:
                m[s] = tm.fold(at, fsyms, finit, fbody, j, k)
        return vsubst(v, m) if m else v

    for (reg, fo), ws in writes.items():
        if (reg, fo) in recur:
            nm, size, ty, _ = recur[(reg, fo)]
            so = sort_of(ty)
            nk = reg.nkey()
            cur = tm.uf(nm, KV[:nk], so)
            sv = tm.fresh('acc', so)
            # new content at key x
            content = cur
            conds = []
            for w in ws:
                v = coerce(w.val, ty)
                if isinstance(v, T):
                    # under the write condition a read at an equal key is a read of this location
                    eqs = set(c_.id for c_ in conj(w.cond))
                    sub_ = {}
                    tm.subterms(v, sub_)
                    for t in list(sub_.values()):
                        if t.op == 'uf' and t.args[0] == nm and t is not cur and all(a is b or eq(a, b).id in eqs for a, b in zip(t.args[1:], KV[:nk])):
                            v = replace_term(v, t, cur)
                content = vite(w.cond, v, content)
                conds.append(w.cond)
            if not isinstance(content, T):
                raise Unsupported('recurrence on non-term content')
            # pull out an iteration independent guard
            guard = Or(*conds)
            if k in tm.fvs(guard):
                gi = [c for c in conj(guard) if k not in tm.fvs(c)]
                guard = And(*gi)
            body = content
            seen = {}
            tm.subterms(body, seen)
            others = []
            for t in list(seen.values()):
                if t.op == 'uf' and t.args[0] == nm and t is not cur:
                    if not (set(KV[:nk]) & tm.fvs(t)) and not any(mentions(a, recur) for a in t.args[1:]) and untouched(st, k, Kinfo, ws, t, body):
                        # a location that no iteration writes keeps its content
                        ph = tm.fresh('kept', so)
                        body = replace_term(body, t, ph)
                        others.append((ph, tuple(t.args[1:])))
                        continue
                    raise Unsupported('recurrence reads other locations of %s: %s under %s' % (reg.name, t, [str(c) for c in conds]))
                if t.op == 'uf' and t.args[0].startswith('cur!') and t.args[0] != nm and t.args[0] in [x[0] for x in recur.values()]:
                    raise Unsupported('coupled recurrences')
            if fsy & tm.fvs(body):
                raise Unsupported('recurrence coupled with scalar fold')
            if guard is not TRUE:
                body = assume_in(body, guard)
            body = replace_term(body, cur, sv)
            once = None
            if len(ws) == 1 and k in tm.fvs(ws[0].cond) and not (fsy & tm.fvs(ws[0].cond)):
                g = solve_k(ws[0].cond, k, st, Kinfo)
                if g is not None:
                    s2 = st.copy()
                    s2.assume(And(ge(k, I(0)), lt(k, K), ws[0].cond))
                    for c in Kinfo['after']:
                        s2.assume(c)
                    if s2.proves(eq(k, g)):
                        # every location is updated by one iteration only
                        once = (And(tm.subst(ws[0].cond, {k: g}), ge(g, I(0)), lt(g, K)), g, assume_in(body, ws[0].cond))
            plans.append(('rec', reg, fo, size, guard, body, sv, ty, others, once))
            continue
        lifted = []
        for w in ws:
            if mentions(w.val, recur) or mentions(w.cond, recur):
                raise Unsupported('write depends on a recurrence')
            lifted.append(lift_one(ex, st, hs, k, Kinfo, w, reg, close))
        # order between sites and iterations
        if not (len(ws) == 1 and lifted[0][2] == 'inj'):
            check_order(ex, st, k, Kinfo, ws, reg)
        plans.append(('log', reg, fo, [(w.size, c, v) for w, (c, v, _) in zip(ws, lifted)]))

    def apply(es):
        for p in plans:
            if p[0] == 'log':
                _, reg, fo, lst = p
                cur = es.log(reg, fo)
                es.setlog(reg, fo, cur + tuple(Upd(s, c, v) for s, c, v in lst if c is not FALSE))
            else:
                _, reg, fo, size, guard, body, sv, ty, others, once = p
                nk = reg.nkey()
                if once:
                    body = once[2]
                for ph, key in others:
                    new = es.read_field(reg, fo, size, ty, key)
                    if tm.fold_depth(new) and any(x.args[0].startswith('#') for y in key for x in tm.fvs(y)):
                        raise Unsupported('nested recurrences on %s' % reg.name)
                    body = replace_term(body, ph, new)
                if once:
                    init = es.read_field(reg, fo, size, ty, tuple(KV[:nk]), (once[0],))
                    if tm.fold_depth(init):
                        inner = {}
                        tm.subterms(body, inner)
                        for f in inner.values():
                            if f.op == 'fold' and any(sv in tm.fvs(x) for x in tm.fold_parts(f)[3]):
                                raise Unsupported('nested recurrences on %s' % reg.name)
                    v = tm.subst(tm.subst(body, {sv: init}), {k: once[1]})
                    es.setlog(reg, fo, es.log(reg, fo) + (Upd(size, once[0], v),))
                    continue
                init = es.read_field(reg, fo, size, ty, tuple(KV[:nk]), (guard,) if guard is not TRUE else ())
                v = tm.fold(K, [sv], [init], [body], 0, k)
                es.setlog(reg, fo, es.log(reg, fo) + (Upd(size, guard, v),))
    return apply


def conj(c):
    return list(c.args) if c.op == 'and' else [c]


def assume_in(t, g):
    """simplify ites whose condition is among the conjuncts of g"""
    m = set(x.id for x in conj(g)) | {g.id}
    memo = {}

    def go(x):
        r = memo.get(x.id)
        if r is not None:
            return r
        if x.op == 'ite':
            c = x.args[0]
            cc = And(*[y for y in conj(c) if y.id not in m])
            r = ite(cc, go(x.args[1]), go(x.args[2])) if cc is not TRUE else go(x.args[1])
        else:
            r = x
        memo[x.id] = r
        return r
    return go(t)


def replace_term(t, old, new):
    memo = {}

    def go(x):
        if x is old:
            return new
        r = memo.get(x.id)
        if r is not None:
            return r
        ks = tm.kids(x)
        if not ks:
            r = x
        else:
            # rebuild through subst machinery: map children to placeholders
            op = x.op
            if op == 'poly':
                tot = []
                for mono, c in x.args:
                    y = I(c)
                    for a in mono:
                        y = mul(y, go(a))
                    tot.append(y)
                r = add(*tot)
            elif op == 'ge0':
                r = tm.ge0(go(x.args[0]))
            elif op == 'eq0':
                r = eq(go(x.args[0]), I(0))
            elif op == 'eq':
                r = eq(go(x.args[0]), go(x.args[1]))
            elif op == 'not':
                r = Not(go(x.args[0]))
            elif op == 'and':
                r = And(*[go(a) for a in x.args])
            elif op == 'or':
                r = Or(*[go(a) for a in x.args])
            elif op == 'ite':
                r = ite(go(x.args[0]), go(x.args[1]), go(x.args[2]))
            elif op == 'fop':
                r = tm.fop(x.args[0], tuple(go(a) for a in x.args[1:]), x.sort)
            elif op == 'uf':
                r = tm.uf(x.args[0], [go(a) for a in x.args[1:]], x.sort)
            else:
                r = tm.mk(op, tuple(go(a) if isinstance(a, T) else a for a in x.args), x.sort)
        memo[x.id] = r
        return r
    return go(t)


def lift_one(ex, st, hs, k, Kinfo, w, reg, close):
    """-> (cond over key variables, value, kind)"""
    K = Kinfo['K']
    c = w.cond
    if k not in tm.fvs(c):
        if k not in vfvs(w.val):
            v = w.val
            fv = vfvs(v)
            last = sub(K, I(1))
            return (And(c, gt(K, I(0))), close(v, last), 'last')
        last = sub(K, I(1))
        # the value of the last iteration
        v = close(w.val, k)
        return (And(c, gt(K, I(0))), vsubst(v, {k: last}), 'last')
    if any(s for s in tm.fvs(c) if False):
        pass
    sol = solve_k(c, k, st, Kinfo)
    if sol is None:
        raise Unsupported('cannot invert loop write guard %s' % c)
    g = sol
    v = close(w.val, k)
    cc = And(tm.subst(c, {k: g}), ge(g, I(0)), lt(g, K))
    # uniqueness: cond(k,x) and 0<=k<K imply k == g(x)
    s2 = st.copy()
    s2.assume(And(ge(k, I(0)), lt(k, K)))
    for a in Kinfo['after']:
        s2.assume(a)
    s2.assume(c)
    if not s2.proves(eq(k, g)):
        raise Unsupported('loop write not injective: %s' % c)
    return (cc, vsubst(v, {k: g}), 'inj')


# uf name -> (arguments, value) -> the argument with that value (the unit states injectivity as a fact)
INVERSE = {}


def solve_k(c, k, st, Kinfo):
    cs = conj(c)
    for x in cs:
        if x.op == 'eq0':
            p = x.args[0]
            s = tm.poly(p).get((k,), 0)
            if not s:
                continue
            rest = sub(p, mul(k, I(s)))
            if k in tm.fvs(rest):
                continue
            if not any(v in KV for v in tm.fvs(rest)):
                continue
            if s < 0:
                s, rest = -s, tm.neg(rest)
            q = tm.divexact(tm.neg(rest), s)
            if q is None:
                q = tm.div(tm.neg(rest), I(s))
            return q
    # injective index functions with a stated inverse
    for x in cs:
        if x.op == 'eq0':
            ps = tm.poly(x.args[0])
            for m, co in ps.items():
                if len(m) == 1 and abs(co) == 1 and m[0].op == 'uf' and m[0].args[0] in INVERSE and k in m[0].args[1:]:
                    rest = sub(x.args[0], mul(m[0], I(co)))
                    if k not in tm.fvs(rest):
                        rest = tm.neg(rest) if co > 0 else rest
                        return INVERSE[m[0].args[0]](m[0].args[1:], rest)
    # chunk pattern: lo + s*k <= x < lo + s*k + w
    for x in cs:
        if x.op == 'ge0':
            p = x.args[0]
            s = tm.poly(p).get((k,), 0)
            if s >= 0:
                continue
            rest = add(p, mul(k, I(-s)))
            if k in tm.fvs(rest) or not any(v in KV for v in tm.fvs(rest)):
                continue
            return tm.div(rest, I(-s))
    # symbolic stride
    for x in cs:
        if x.op in ('ge0', 'eq0'):
            p = x.args[0]
            A, R = {}, {}
            ok = True
            for m, co in tm.poly(p).items():
                if k in m:
                    mm = list(m)
                    mm.remove(k)
                    if k in mm:
                        ok = False
                    A[tuple(mm)] = co
                else:
                    R[m] = co
            if not ok or not A:
                continue
            step, rest = tm._mk_poly(A), tm._mk_poly(R)
            if not any(v in KV for v in tm.fvs(rest)):
                continue
            if st.proves(lt(step, I(0))):
                return tm.div(rest, tm.neg(step))
            if x.op == 'eq0' and st.proves(gt(step, I(0))):
                return tm.div(tm.neg(rest), step)
    return None


def untouched(st, k, Kinfo, ws, t, body):
    """no iteration writes the location that term t of iteration k reads"""
    bound = [x for x in tm.fvs(t) if x.args[0].startswith('#')]
    ranges = [()]
    if bound:
        # index bound by an enclosing fold: prove it for every fold around t
        if len(bound) > 1 or not bound[0].args[0].startswith('#k'):
            return False
        ranges = []
        seen = {}
        tm.subterms(body, seen)
        for f in seen.values():
            if f.op == 'fold' and '#k%d' % f.args[1] == bound[0].args[0]:
                K, _, inits, bodies = tm.fold_parts(f)
                sub_ = {}
                for x in bodies:
                    tm.subterms(x, sub_)
                if t.id in sub_:
                    if any(x.args[0].startswith('#') for x in tm.fvs(K)):
                        return False
                    ranges.append((And(ge(bound[0], I(0)), lt(bound[0], K)),))
    k2 = tm.fresh('kk', 'I')
    s = st.copy()
    s.assume(And(ge(k, I(0)), lt(k, Kinfo['K']), ge(k2, I(0)), lt(k2, Kinfo['K'])))
    m = {KV[i]: x for i, x in enumerate(t.args[1:])}
    for r in ranges:
        for w in ws:
            s2 = s.copy()
            for c in r:
                s2.assume(c)
            s2.assume(tm.subst(tm.subst(w.cond, {k: k2}), m))
            if s2.feasible():
                return False
    return True


def check_order(ex, st, k, Kinfo, ws, reg):
    k2 = tm.fresh('kk', 'I')
    base = st.copy()
    base.assume(And(ge(k, I(0)), lt(k, Kinfo['K']), gt(k2, k), lt(k2, Kinfo['K'])))
    for c in Kinfo['after']:
        base.assume(c)
    for i, a in enumerate(ws):
        for b in ws[i:]:
            if a is b and k not in tm.fvs(a.cond):
                continue
            # a (earlier in the log) at the later iteration k2 must not hit what b wrote at k
            s2 = base.copy()
            s2.assume(tm.subst(a.cond, {k: k2}))
            s2.assume(b.cond)
            if s2.feasible():
                raise Unsupported('overlapping loop writes in %s' % reg.name)


# ---------------------------------------------------------------- invariants given by the specification
class Inv:
    """Invariant of an outermost loop: the state at the loop head as a function of ghost values.
      ghosts: names; first: name -> entry witness; nxt(e_state, g): ghosts after one iteration
      constraint(g): Bool;  measure(g): decreasing natural number
      cells: [(ptr, type, g -> value)];  logs: [(region, field, g -> log)]
      phis: [g -> value] candidates for the loop-carried registers
      witness: {ghost: index into phis}: the ghost's next value is that register's value after the iteration
      free_regs: sorts of loop-carried registers that may be left unconstrained (any value at the loop head)"""

    def __init__(self, v, ghosts, first, nxt, constraint, cells=(), logs=(), phis=(), measure=None, free=(), witness=None, free_regs=''):
        self.witness, self.free_regs, self.gs = witness or {}, free_regs, []
        self.v, self.ghosts, self.first, self.nxt, self.constraint = v, ghosts, first, nxt, constraint
        self.cells, self.logs, self.phis, self.measure, self.free = list(cells), list(logs), list(phis), measure, list(free)

    def put(self, st, g):
        for p, ty, fn in self.cells:
            st.store(p, ty, fn(g), 'invariant')
        for reg, fo, fn in self.logs:
            st.setlog(reg, fo, tuple(fn(g)))


def manual_for(ex, f, H):
    for rx, inv in getattr(ex, 'invariants', ()):
        if rx.search(ex.demangled(f.name)):
            ls = irparse.loops_of(f)
            if len([h for h, b in ls.items() if h != '!irreducible' and H in b and h != H]) == getattr(inv, 'depth', 0):
                if callable(inv):
                    return inv(H)
                return inv
    return None


def manual(ex, f, H, prev, st, inv, ctx):
    block = f.blocks[H]
    v = inv.v
    if getattr(inv, 'find_cells', None):
        inv.cells = inv.find_cells(st)
    if getattr(inv, 'setup', None):
        # loop inside of other loops: the counters of the enclosing loops
        ls = irparse.loops_of(f)
        outer = [h for h, b in ls.items() if h != '!irreducible' and H in b and h != H]
        inv.setup(st, [(st.env[ph.res], ph.ty) for h in outer for ph in f.blocks[h].phis if ph.res in st.env])

    def phivals(s, pb_):
        out = []
        for ph in block.phis:
            for x, pb in ph.a:
                if pb == pb_:
                    out.append(ex.val(s, x, ph.ty))
                    break
        return out
    inits = phivals(st, prev)
    g0 = dict(inv.first)
    g = {n: tm.fresh(n, 'I') for n in inv.ghosts}
    inv.gs.append(g)
    # entry: constraint, cells, logs
    ex.oblige(st, 'loop invariant holds on entry', inv.constraint(g0))
    s0 = st.copy()
    inv.put(s0, g0)
    compare_inv(v, st, s0, inv, 'on entry')
    # header state
    def head():
        hs = st.copy()
        inv.put(hs, g)
        hs.assume(inv.constraint(g))
        return hs
    # choose a closed form for every phi: entry value must agree, then preservation decides
    cands = []
    for ph, iv in zip(block.phis, inits):
        cs = []
        for j, c in enumerate(inv.phis):
            w = c(g0)
            if type(w) is type(iv) and same_reg(st, iv, w, ph.ty):
                cs.append(j)
        if inv.free_regs and isinstance(iv, T) and iv.sort in inv.free_regs:
            cs.append(-1)
        cands.append(cs)

    def pick(j, ph, iv):
        return tm.fresh('any', iv.sort) if j < 0 else inv.phis[j](g)

    def advance(s, pb, combo):
        g1 = inv.nxt(s, g)
        if inv.witness:
            g1 = dict(g1)
            for nm, w in inv.witness.items():
                for ph, nv, j in zip(block.phis, phivals(s, pb), combo):
                    if j == w:
                        g1[nm] = s.u(nv, ph.ty[1])
        return g1
    ex.mute += 1
    try:
        import itertools
        good = None
        known = [x for x in getattr(inv, 'found', []) if len(x) == len(cands)]
        if inv.free_regs:
            # every ghost value stands for at most one register; combinations with few unconstrained registers first
            allc = [x for x in itertools.islice(itertools.product(*cands), 200000) if len([j for j in x if j >= 0]) == len(set(j for j in x if j >= 0))]
            allc.sort(key=lambda x: x.count(-1))
            tries, known = allc[:700], [x for x in known if allc and x.count(-1) == allc[0].count(-1)]
        else:
            tries = list(itertools.islice(itertools.product(*cands), 24))
        for combo in known + tries:
            hs = head()
            hs.rec = None
            hs.path = ()
            for ph, j, iv in zip(block.phis, combo, inits):
                hs.env[ph.res] = pick(j, ph, iv)
            ends = ex.run_from(f, H, prev, hs, ctx, skip_phis=True)
            ok = True
            for e in ends:
                if e.kind != 'back':
                    continue
                g1 = advance(e.st, e.prev, combo)
                for ph, nv, j in zip(block.phis, phivals(e.st, e.prev), combo):
                    if j >= 0 and not same_reg(e.st, nv, inv.phis[j](g1), ph.ty):
                        ok = False
                        break
                if not ok:
                    break
            if ok:
                good = combo
                inv.found = [combo]
                break
    finally:
        ex.mute -= 1
    if good is None:
        raise Unsupported('loop-carried registers do not match the stated invariant')
    listed = set((r.id, fo) for r, fo, _ in inv.logs)
    cellset = set()
    for p, ty, _ in inv.cells:
        r, fo, key = st.locate(st.resolve(p), ex.mod.sizeof(ty))
        cellset.add((r.id, fo))
    scratch = set()

    def start():
        hs = head()
        hs.rec = st.rec
        for ph, j, iv in zip(block.phis, good, inits):
            hs.env[ph.res] = pick(j, ph, iv)
        for rid, fo in scratch:
            # local variables which the loop changes without being part of the invariant: no known content
            hs.setlog(GREG[rid], fo, ())
        return hs

    def changed(hs, ends):
        r = set()
        for e in ends:
            if e.kind == 'back':
                for rid, d in e.st.mem.items():
                    reg, od = GREG[rid], hs.mem.get(rid, {})
                    if reg.local and reg.base == 'undef' and rid in hs.mem:
                        r |= set((rid, fo) for fo, lst in d.items() if od.get(fo, ()) is not lst and od.get(fo, ()) != lst and (rid, fo) not in listed and (rid, fo) not in cellset)
        return r
    ex.mute += 1
    try:
        for _ in range(4):
            hs = start()
            new = changed(hs, ex.run_from(f, H, prev, hs, ctx, skip_phis=True)) - scratch
            if not new:
                break
            scratch |= new
    finally:
        ex.mute -= 1
    hs = start()
    hmem = dict(hs.mem)
    ends = ex.run_from(f, H, prev, hs, ctx, skip_phis=True)
    res = []
    ex.loops.append((ex.cur_fn, f.name, H, 'invariant'))
    for e in ends:
        if e.kind != 'back':
            for nm, x in getattr(inv, 'exit', {}).items():
                # the value of a ghost after the last iteration
                if e.st.proves(eq(g[nm], x)):
                    m = {g[nm]: x}
                    for rid, d in list(e.st.mem.items()):
                        od = st.mem.get(rid, {})
                        e.st.mem[rid] = {fo: lst if od.get(fo) is lst else tuple(u if any(u is w for w in od.get(fo, ())) else Upd(u.size, tm.subst(u.cond, m), vsubst(u.val, m)) for u in lst) for fo, lst in d.items()}
            res.append(e)
            continue
        es = e.st
        g1 = advance(es, e.prev, good)
        ex.oblige(es, 'loop invariant preserved', inv.constraint(g1))
        if inv.measure:
            ex.oblige(es, 'termination', And(ge(inv.measure(g1), I(0)), lt(inv.measure(g1), inv.measure(g))))
        for ph, nv, j in zip(block.phis, phivals(es, e.prev), good):
            if j < 0:
                continue
            v.same(es, 'loop invariant preserved: register', nv, inv.phis[j](g1), ph.ty)
        for rid, d in es.mem.items():
            reg = GREG[rid]
            if rid not in hmem and (reg.local or getattr(reg, 'heap', False)):
                continue
            od = hmem.get(rid, {})
            for fo, lst in d.items():
                if od.get(fo, ()) is lst or (rid, fo) in listed or (rid, fo) in cellset:
                    continue
                if reg.local and reg.base == 'undef' and (rid, fo) in scratch:
                    continue
                raise Unsupported('loop changes %s+%s, which its invariant does not mention' % (reg.name, fo))
        s1 = es.copy()
        inv.put(s1, g1)
        compare_inv(v, es, s1, inv, 'preserved')
    return res


def compare_inv(v, es, want, inv, label):
    for p, ty, fn in inv.cells:
        v.same(es, 'loop invariant %s: %s' % (label, p.reg.name), es.load(p, ty, 'invariant'), want.load(p, ty, 'invariant'), ty)
    regs = []
    for r, fo, fn in inv.logs:
        if r not in regs:
            regs.append(r)
    if regs:
        a, b = es.copy(), want.copy()
        # only the listed regions
        v.same_memory_of(a, b, regs, inv.free)
