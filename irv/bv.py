"""Bit-precise verification of small loop-free functions: the IR is translated to bit vectors."""
import time
import z3
from . import irparse
from .mem import Unsupported


class BV:
    """symbolic evaluation of loop-free integer functions over bit vectors"""

    def __init__(self, mods, dem):
        self.mods = mods
        self.dem = dem
        self.side = []      # (label, condition that must hold) under path conditions

    def lookup(self, n):
        for m in self.mods:
            f = m.funcs.get(n)
            if f is not None and f.defined:
                return f
        raise Unsupported('external ' + n)

    def run(self, name, args, pc=None):
        """-> list of (path condition, result)"""
        f = self.lookup(name)
        f.parse()
        if len(f.args) != len(args):
            raise Unsupported('signature of %s changed' % self.dem.get(name, name))
        return self.block(f, f.order[0], None, dict(zip(f.args, args)), pc if pc is not None else z3.BoolVal(True), 0)

    def val(self, env, op, ty):
        if op[0] == 'local':
            return env[op[1]]
        if op[0] == 'int':
            if ty == ('i', 1):
                return z3.BoolVal(op[1] != 0)
            return z3.BitVecVal(op[1], ty[1])
        if op[0] == 'null':
            return z3.BitVecVal(0, 64)
        if op[0] == 'undef':
            return z3.BitVecVal(0, ty[1]) if ty[0] == 'i' and ty[1] > 1 else z3.BoolVal(False)
        raise Unsupported('bv constant %r' % (op,))

    def block(self, f, b, prev, env, pc, depth):
        if depth > 200:
            raise Unsupported('loop in bit-vector function')
        if z3.is_false(z3.simplify(pc)):
            return []
        blk = f.blocks[b]
        new = {}
        for ph in blk.phis:
            for v, pb in ph.a:
                if pb == prev:
                    new[ph.res] = self.val(env, v, ph.ty)
        env = dict(env)
        env.update(new)
        states = [(pc, env)]
        for ins in blk.ins:
            nxt = []
            for p, e in states:
                if ins.op == 'call':
                    callee, args = ins.a
                    vals = [self.val(e, o, t) for t, o, _ in args]
                    nm = callee[1]
                    if nm.startswith('llvm.'):
                        r = self.intr(nm, vals)
                        if ins.res:
                            e[ins.res] = r
                        nxt.append((p, e))
                        continue
                    for p2, r in self.run(nm, vals, p):
                        e2 = dict(e)
                        if ins.res:
                            e2[ins.res] = r
                        nxt.append((p2, e2))
                    continue
                e[ins.res] = self.ins(ins, e, p)
                nxt.append((p, e))
            states = nxt
        out = []
        for p, e in states:
            t = blk.term
            if t.op == 'ret':
                out.append((p, self.val(e, t.a[0], t.ty) if t.a else None))
            elif t.op == 'br':
                out += self.block(f, t.a[0], b, e, p, depth + 1)
            elif t.op == 'condbr':
                c = self.val(e, t.a[0], ('i', 1))
                out += self.block(f, t.a[1], b, e, z3.And(p, c), depth + 1)
                out += self.block(f, t.a[2], b, e, z3.And(p, z3.Not(c)), depth + 1)
            elif t.op == 'unreachable':
                self.side.append(('unreachable', z3.Not(p)))
            else:
                raise Unsupported('bv terminator ' + t.op)
        return out

    def intr(self, nm, v):
        if 'ctpop' in nm:
            w = v[0].size()
            return sum([z3.ZeroExt(w - 1, z3.Extract(i, i, v[0])) for i in range(w)], z3.BitVecVal(0, w))
        if '.umin.' in nm:
            return z3.If(z3.ULE(v[0], v[1]), v[0], v[1])
        if '.umax.' in nm:
            return z3.If(z3.ULE(v[0], v[1]), v[1], v[0])
        if 'lifetime' in nm or 'assume' in nm:
            return z3.BoolVal(False)
        raise Unsupported('bv intrinsic ' + nm)

    def ins(self, ins, e, p):
        op = ins.op
        if op in irparse.BIN:
            a, b = self.val(e, ins.a[0], ins.ty), self.val(e, ins.a[1], ins.ty)
            if ins.ty == ('i', 1):
                return {'and': z3.And, 'or': z3.Or, 'xor': z3.Xor}[op](a, b)
            if op in ('udiv', 'urem', 'sdiv', 'srem'):
                self.side.append(('division-by-zero', z3.Implies(p, b != 0)))
            return {'add': lambda: a + b, 'sub': lambda: a - b, 'mul': lambda: a * b, 'and': lambda: a & b, 'or': lambda: a | b,
                    'xor': lambda: a ^ b, 'shl': lambda: a << b, 'lshr': lambda: z3.LShR(a, b), 'ashr': lambda: a >> b,
                    'udiv': lambda: z3.UDiv(a, b), 'urem': lambda: z3.URem(a, b), 'sdiv': lambda: a / b, 'srem': lambda: z3.SRem(a, b)}[op]()
        if op == 'icmp':
            a, b = self.val(e, ins.a[0], ins.ty), self.val(e, ins.a[1], ins.ty)
            if z3.is_bool(a):
                return (a == b) if ins.x == 'eq' else (a != b)
            return {'eq': lambda: a == b, 'ne': lambda: a != b, 'ult': lambda: z3.ULT(a, b), 'ule': lambda: z3.ULE(a, b), 'ugt': lambda: z3.UGT(a, b),
                    'uge': lambda: z3.UGE(a, b), 'slt': lambda: a < b, 'sle': lambda: a <= b, 'sgt': lambda: a > b, 'sge': lambda: a >= b}[ins.x]()
        if op == 'select':
            return z3.If(self.val(e, ins.a[0], ins.x), self.val(e, ins.a[1], ins.ty), self.val(e, ins.a[2], ins.ty))
        if op in irparse.CAST:
            a = self.val(e, ins.a[0], ins.x)
            if op in ('ptrtoint', 'inttoptr', 'bitcast'):
                return a
            if op == 'zext':
                if z3.is_bool(a):
                    return z3.If(a, z3.BitVecVal(1, ins.ty[1]), z3.BitVecVal(0, ins.ty[1]))
                return z3.ZeroExt(ins.ty[1] - a.size(), a)
            if op == 'sext':
                if z3.is_bool(a):
                    return z3.If(a, z3.BitVecVal(-1, ins.ty[1]), z3.BitVecVal(0, ins.ty[1]))
                return z3.SignExt(ins.ty[1] - a.size(), a)
            if op == 'trunc':
                if ins.ty == ('i', 1):
                    return z3.Extract(0, 0, a) == 1
                return z3.Extract(ins.ty[1] - 1, 0, a)
        if op == 'freeze':
            return self.val(e, ins.a[0], ins.ty)
        raise Unsupported('bv instruction ' + ins.text[:80])


def prove(hyp, goal, timeout=60000):
    s = z3.SolverFor('QF_BV')
    s.set('timeout', timeout)
    for h in hyp:
        s.add(h)
    s.add(z3.Not(goal))
    t0 = time.time()
    r = s.check()
    if r == z3.unsat:
        return 'proved', None, time.time() - t0
    if r == z3.sat:
        m = s.model()
        return 'cex', {d.name(): str(m[d].as_long()) if z3.is_bv_value(m[d]) else str(m[d]) for d in m.decls()}, time.time() - t0
    return 'unknown', None, time.time() - t0
