"""Parser for the textual LLVM 18 IR produced by clang (opaque pointers)."""
import re
import struct

TOK = re.compile(r'''
   (?P<ws>[ \t]+)
 | (?P<cstr>c"(?:[^"\\]|\\.)*")
 | (?P<local>%(?:"(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+))
 | (?P<global>@(?:"(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+))
 | (?P<comdat>\$(?:"(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+))
 | (?P<meta>![a-zA-Z0-9._]*)
 | (?P<attr>\#[0-9]+)
 | (?P<str>"(?:[^"\\]|\\.)*")
 | (?P<hex>0x[KMLHR]?[0-9A-Fa-f]+)
 | (?P<num>-?[0-9]+(?:\.[0-9]+(?:[eE][-+]?[0-9]+)?)?)
 | (?P<word>[a-zA-Z_][a-zA-Z0-9_.]*)
 | (?P<dots>\.\.\.)
 | (?P<punct>[=,(){}\[\]<>*:|])
''', re.X)


def tokenize(s):
    out = []
    i = 0
    n = len(s)
    while i < n:
        if s[i] == ';':
            break
        m = TOK.match(s, i)
        if not m:
            raise SyntaxError('token at %r' % s[i:i + 40])
        k = m.lastgroup
        v = m.group()
        i = m.end()
        if k == 'ws':
            continue
        if k in ('local', 'global', 'comdat') and len(v) > 1 and v[1] == '"':
            v = v[0] + v[2:-1]
        out.append((k, v))
    return out


class Instr:
    __slots__ = ('op', 'res', 'ty', 'a', 'text', 'x')

    def __repr__(self):
        return self.text


class Block:
    def __init__(self, name):
        self.name = name
        self.phis = []
        self.ins = []
        self.term = None


class Func:
    def __init__(self):
        self.blocks = {}
        self.order = []
        self.args = []
        self.argtys = []
        self.argattrs = []
        self.name = None
        self.ret = None
        self.defined = False
        self._loops = None
        self.body_lines = None
        self.module = None

    def parse(self):
        if self.body_lines is not None:
            bl = self.body_lines
            self.body_lines = None
            parse_body(self, bl)
        return self


class Module:
    def __init__(self):
        self.types = {}
        self.globals = {}
        self.funcs = {}
        self._layout = {}

    # ------------------------------------------------ layout
    def sizeof(self, t):
        return self._lay(t)[0]

    def alignof(self, t):
        return self._lay(t)[1]

    def _lay(self, t):
        k = repr(t)
        r = self._layout.get(k)
        if r is None:
            r = self._lay0(t)
            self._layout[k] = r
        return r

    def _lay0(self, t):
        k = t[0]
        if k == 'i':
            n = t[1]
            b = 1 if n <= 8 else 2 if n <= 16 else 4 if n <= 32 else 8 if n <= 64 else 16
            if n > 128:
                b = (n + 63) // 64 * 8
            return (b, min(b, 16), None)
        if k == 'float':
            return (4, 4, None)
        if k == 'double':
            return (8, 8, None)
        if k == 'half':
            return (2, 2, None)
        if k == 'x86_fp80':
            return (16, 16, None)
        if k == 'ptr':
            return (8, 8, None)
        if k == 'array':
            s, a, _ = self._lay(t[2])
            return (s * t[1], a, None)
        if k == 'vec':
            s, a, _ = self._lay(t[2])
            if t[2] == ('i', 1):
                return (max(1, t[1] // 8), 1, None)
            return (s * t[1], s * t[1], None)
        if k == 'named':
            return self._lay(self.types[t[1]])
        if k == 'struct':
            off = 0
            al = 1
            offs = []
            for e in t[1]:
                s, a, _ = self._lay(e)
                if t[2]:
                    a = 1
                off = (off + a - 1) // a * a
                offs.append(off)
                off += s
                al = max(al, a)
            off = (off + al - 1) // al * al
            return (off, al, offs)
        if k == 'opaque':
            return (0, 1, [])
        raise NotImplementedError('layout %r' % (t,))

    def resolve(self, t):
        while t[0] == 'named':
            t = self.types[t[1]]
        return t

    def field_off(self, t, i):
        return self._lay(self.resolve(t))[2][i]


class P:
    def __init__(self, toks):
        self.t = toks
        self.i = 0

    def peek(self, k=0):
        j = self.i + k
        return self.t[j] if j < len(self.t) else ('eof', '')

    def next(self):
        r = self.peek()
        self.i += 1
        return r

    def accept(self, v):
        if self.peek()[1] == v and self.peek()[0] != 'str':
            self.i += 1
            return True
        return False

    def expect(self, v):
        if not self.accept(v):
            raise SyntaxError('expected %s got %r in %s' % (v, self.peek(), self.t[max(0, self.i - 6):self.i + 6]))

    # types
    def type(self):
        k, v = self.next()
        if k == 'word':
            m = re.match(r'i(\d+)$', v)
            if m:
                t = ('i', int(m.group(1)))
            elif v in ('float', 'double', 'void', 'ptr', 'label', 'metadata', 'token', 'half', 'x86_fp80', 'x86_mmx', 'opaque', 'bfloat', 'fp128'):
                t = (v,)
            else:
                raise SyntaxError('type %r' % v)
            if v == 'ptr' and self.accept('addrspace'):
                self.expect('(')
                self.next()
                self.expect(')')
        elif k == 'local':
            t = ('named', v[1:])
        elif v == '[':
            n = int(self.next()[1])
            self.expect('x')
            e = self.type()
            self.expect(']')
            t = ('array', n, e)
        elif v == '<':
            if self.peek()[1] == '{':
                self.next()
                t = self._struct(True)
                self.expect('>')
            else:
                n = int(self.next()[1])
                self.expect('x')
                e = self.type()
                self.expect('>')
                t = ('vec', n, e)
        elif v == '{':
            t = self._struct(False)
        else:
            raise SyntaxError('type at %r %r' % (k, v))
        while True:
            if self.peek()[1] == '(' :
                # function type
                save = self.i
                self.next()
                args = []
                va = False
                if not self.accept(')'):
                    while True:
                        if self.accept('...'):
                            va = True
                        else:
                            args.append(self.type())
                        if self.accept(')'):
                            break
                        self.expect(',')
                t = ('fn', t, args, va)
            elif self.peek()[1] == '*':
                self.next()
                t = ('ptr',)
            else:
                break
        return t

    def _struct(self, packed):
        es = []
        if self.accept('}'):
            return ('struct', es, packed)
        while True:
            es.append(self.type())
            if self.accept('}'):
                break
            self.expect(',')
        return ('struct', es, packed)

    # constants / operands, given the type
    def operand(self, ty):
        k, v = self.next()
        if k == 'local':
            return ('local', v[1:])
        if k == 'global':
            return ('global', v[1:])
        if k == 'num':
            if ty[0] in ('float', 'double'):
                return ('fp', fbits(float(v), ty), ty)
            return ('int', int(v))
        if k == 'hex':
            if v.startswith('0xK') or v.startswith('0xM') or v.startswith('0xL') or v.startswith('0xH'):
                return ('fpx', v)
            b = int(v, 16)
            if ty[0] == 'float':
                d = struct.unpack('<d', struct.pack('<Q', b))[0]
                return ('fp', fbits(d, ty), ty)
            if ty[0] == 'double':
                return ('fp', b, ty)
            return ('int', b)
        if k == 'cstr':
            return ('str', unescape(v[2:-1]))
        if k == 'word':
            if v in ('true', 'false'):
                return ('int', 1 if v == 'true' else 0)
            if v == 'null':
                return ('null',)
            if v in ('undef', 'poison'):
                return ('undef',)
            if v == 'zeroinitializer':
                return ('zero',)
            if v == 'none':
                return ('undef',)
            if v in ('getelementptr',):
                inb = False
                while self.peek()[0] == 'word' and self.peek()[1] in ('inbounds', 'inrange', 'nuw', 'nusw'):
                    self.next()
                if self.peek()[1] == 'inrange':
                    self.next()
                self.expect('(')
                bt = self.type()
                ops = []
                while self.accept(','):
                    if self.accept('inrange'):
                        pass
                    t = self.type()
                    ops.append((t, self.operand(t)))
                self.expect(')')
                return ('cgep', bt, ops)
            if v in ('inttoptr', 'ptrtoint', 'bitcast', 'trunc', 'zext', 'sext', 'addrspacecast'):
                self.expect('(')
                t = self.type()
                o = self.operand(t)
                self.expect('to')
                t2 = self.type()
                self.expect(')')
                return ('ccast', v, t, o, t2)
            if v in ('add', 'sub', 'mul', 'shl', 'lshr', 'and', 'or', 'xor'):
                while self.peek()[1] in ('nuw', 'nsw', 'exact'):
                    self.next()
                self.expect('(')
                t = self.type()
                a = self.operand(t)
                self.expect(',')
                t2 = self.type()
                b = self.operand(t2)
                self.expect(')')
                return ('cbin', v, t, a, b)
            if v == 'icmp':
                pr = self.next()[1]
                self.expect('(')
                t = self.type()
                a = self.operand(t)
                self.expect(',')
                t2 = self.type()
                b = self.operand(t2)
                self.expect(')')
                return ('cicmp', pr, t, a, b)
            if v in ('dso_local_equivalent', 'no_cfi'):
                return self.operand(ty)
            if v == 'splat':
                self.expect('(')
                t = self.type()
                o = self.operand(t)
                self.expect(')')
                return ('agg', [(t, o)] * ty[1])
            if v == 'asm':
                while self.peek()[0] == 'word':
                    self.next()
                s = self.next()
                self.expect(',')
                c = self.next()
                return ('asm', s[1], c[1])
            raise SyntaxError('operand word %r in %r' % (v, self.t[:12]))
        if v in ('{', '[', '<'):
            pk = False
            if v == '<' and self.peek()[1] == '{':
                self.next()
                pk = True
            close = {'{': '}', '[': ']', '<': '>'}[v]
            if pk:
                close = '}'
            es = []
            if not self.accept(close):
                while True:
                    t = self.type()
                    es.append((t, self.operand(t)))
                    if self.accept(close):
                        break
                    self.expect(',')
            if pk:
                self.expect('>')
            return ('agg', es)
        if k == 'meta':
            return ('meta', v)
        raise SyntaxError('operand %r %r' % (k, v))


def fbits(d, ty):
    if ty[0] == 'float':
        try:
            return struct.unpack('<I', struct.pack('<f', d))[0]
        except OverflowError:
            return 0x7f800000 if d > 0 else 0xff800000
    return struct.unpack('<Q', struct.pack('<d', d))[0]


def unescape(s):
    out = bytearray()
    i = 0
    while i < len(s):
        if s[i] == '\\':
            if s[i + 1] == '\\':
                out.append(92)
                i += 2
            else:
                out.append(int(s[i + 1:i + 3], 16))
                i += 3
        else:
            out.append(ord(s[i]) & 255)
            i += 1
    return bytes(out)


PARAM_ATTRS = {'noundef', 'nonnull', 'noalias', 'nocapture', 'readonly', 'writeonly', 'readnone', 'zeroext', 'signext',
               'inreg', 'returned', 'immarg', 'noext', 'nofree', 'dead_on_unwind', 'writable', 'swiftself', 'allocalign', 'allocptr', 'nest'}
PARAM_ATTRS_P = {'align', 'dereferenceable', 'dereferenceable_or_null', 'sret', 'byval', 'elementtype', 'preallocated', 'inalloca', 'byref', 'range', 'memory', 'nofpclass', 'initializes'}


def skip_attrs(p):
    at = []
    while True:
        k, v = p.peek()
        if k == 'word' and v in PARAM_ATTRS:
            p.next()
            at.append(v)
        elif k == 'word' and v in PARAM_ATTRS_P:
            p.next()
            if v == 'align' and p.peek()[0] == 'num':
                at.append(('align', int(p.next()[1])))
            elif p.peek()[1] == '(':
                d = 0
                s = []
                while True:
                    t = p.next()
                    s.append(t)
                    if t[1] == '(':
                        d += 1
                    elif t[1] == ')':
                        d -= 1
                        if d == 0:
                            break
                at.append((v, s))
        elif k == 'str' and p.peek(1)[1] != ':' :
            p.next()
            if p.accept('='):
                p.next()
        else:
            return at


LINKAGE = {'private', 'internal', 'available_externally', 'linkonce', 'weak', 'common', 'appending', 'extern_weak', 'linkonce_odr', 'weak_odr', 'external',
           'dso_local', 'dso_preemptable', 'hidden', 'protected', 'default', 'dllimport', 'dllexport', 'thread_local', 'local_unnamed_addr', 'unnamed_addr',
           'externally_initialized', 'noundef', 'tail', 'musttail', 'notail', 'fastcc', 'ccc', 'coldcc', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc', 'fast'}


def parse_module(text):
    m = Module()
    lines = text.split('\n')
    i = 0
    n = len(lines)
    while i < n:
        ln = lines[i]
        if ln.startswith('%') and ' = type ' in ln:
            p = P(tokenize(ln))
            name = p.next()[1][1:]
            p.expect('=')
            p.expect('type')
            m.types[name] = p.type()
        elif ln.startswith('@'):
            name = None
            m_ = re.match(r'@("(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+) =', ln)
            name = m_.group(1).strip('"')
            m.globals[name] = Global(name, ln)
        elif ln.startswith('define ') or ln.startswith('declare '):
            defined = ln.startswith('define ')
            f = parse_header(ln, defined)
            f.module = m
            m.funcs[f.name] = f
            if defined:
                body = []
                i += 1
                while lines[i] != '}':
                    body.append(lines[i])
                    i += 1
                f.body_lines = body
                f.defined = True
        i += 1
    return m


class Global:
    def __init__(self, name, line):
        self.name = name
        self.line = line
        self._p = None

    def parse(self):
        if self._p is None:
            p = P(tokenize(self.line))
            p.next()
            p.expect('=')
            const = False
            ext = False
            alias = False
            while True:
                k, v = p.peek()
                if v == 'external' or v == 'extern_weak' or v == 'available_externally':
                    ext = v != 'available_externally'
                    p.next()
                elif v == 'thread_local':
                    p.next()
                    if p.accept('('):
                        p.next()
                        p.expect(')')
                elif v in LINKAGE:
                    p.next()
                elif v in ('global', 'constant'):
                    const = v == 'constant'
                    p.next()
                    break
                elif v == 'alias' or v == 'ifunc':
                    alias = True
                    p.next()
                    break
                elif v == 'comdat':
                    p.next()
                else:
                    raise SyntaxError('global %r' % (self.line[:200]))
            ty = p.type()
            init = None
            if alias:
                p.expect(',')
                p.type()
                init = p.operand(('ptr',))
                self._p = (ty, init, const, 'alias')
                return self._p
            if not ext and p.peek()[1] != ',' and p.peek()[0] != 'eof':
                init = p.operand(ty)
            self._p = (ty, init, const, 'ext' if ext else 'def')
        return self._p


def parse_header(ln, defined):
    p = P(tokenize(ln))
    p.next()
    f = Func()
    while True:
        k, v = p.peek()
        if k == 'word' and v in LINKAGE:
            p.next()
        elif k == 'word' and v in PARAM_ATTRS:
            p.next()
        elif k == 'word' and v in PARAM_ATTRS_P:
            skip_attrs(p)
        elif k == 'word' and v.startswith('cc') and p.peek(1)[0] == 'num':
            p.next()
            p.next()
        else:
            break
    # the return type must not swallow the '(' of the arguments: the global name is between
    f.ret = p.type()
    k, v = p.next()
    assert k == 'global', (k, v, ln[:100])
    f.name = v[1:]
    p.expect('(')
    idx = 0
    if not p.accept(')'):
        while True:
            if p.accept('...'):
                pass
            else:
                t = p.type()
                at = skip_attrs(p)
                nm = None
                if p.peek()[0] == 'local':
                    nm = p.next()[1][1:]
                else:
                    nm = str(idx)
                f.args.append(nm)
                f.argtys.append(t)
                f.argattrs.append(at)
                idx += 1
            if p.accept(')'):
                break
            p.expect(',')
    return f


LABEL = re.compile(r'^("(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+):')


def parse_body(f, lines):
    # the entry block has an implicit name if unlabeled
    cur = None
    # join continued lines: switch [ ... ], landingpad clauses, invoke 'to label'
    joined = []
    i = 0
    while i < len(lines):
        ln = lines[i]
        s = ln.strip()
        if not s or s.startswith(';'):
            i += 1
            continue
        if s.startswith('switch ') and not s.rstrip().endswith(']'):
            while not lines[i].strip().startswith(']') :
                i += 1
                s += ' ' + lines[i].strip()
                if lines[i].strip().startswith(']'):
                    break
        elif ' landingpad ' in s or s.startswith('landingpad') or '= invoke ' in s or s.startswith('invoke '):
            while i + 1 < len(lines) and re.match(r'\s+(catch|filter|cleanup|to label)\b', lines[i + 1]) and lines[i + 1].startswith('          '):
                i += 1
                s += ' ' + lines[i].strip()
        joined.append((ln, s))
        i += 1
    first = True
    for ln, s in joined:
        if not ln.startswith(' '):
            m = LABEL.match(s)
            if m:
                nm = m.group(1).strip('"')
                cur = Block(nm)
                f.blocks[nm] = cur
                f.order.append(nm)
                first = False
                continue
        if first:
            nm = str(len(f.args))
            cur = Block(nm)
            f.blocks[nm] = cur
            f.order.append(nm)
            first = False
        ins = parse_instr(s)
        if ins.op == 'phi':
            cur.phis.append(ins)
        elif ins.op in ('br', 'condbr', 'switch', 'ret', 'invoke', 'resume', 'unreachable', 'indirectbr'):
            cur.term = ins
        else:
            cur.ins.append(ins)


BIN = {'add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor', 'fadd', 'fsub', 'fmul', 'fdiv', 'frem'}
CAST = {'trunc', 'zext', 'sext', 'fptrunc', 'fpext', 'fptoui', 'fptosi', 'uitofp', 'sitofp', 'ptrtoint', 'inttoptr', 'bitcast', 'addrspacecast'}


def parse_instr(s):
    ins = Instr()
    ins.text = s
    ins.res = None
    ins.x = None
    p = P(tokenize(s))
    if p.peek()[0] == 'local' and p.peek(1)[1] == '=':
        ins.res = p.next()[1][1:]
        p.next()
    op = p.next()[1]
    while op in ('tail', 'musttail', 'notail'):
        op = p.next()[1]
    ins.op = op
    if op in BIN:
        flags = set()
        while p.peek()[0] == 'word' and (p.peek()[1] in ('nuw', 'nsw', 'exact', 'disjoint') or p.peek()[1] in LINKAGE):
            flags.add(p.next()[1])
        t = p.type()
        a = p.operand(t)
        p.expect(',')
        b = p.operand(t)
        ins.ty = t
        ins.a = (a, b)
        ins.x = flags
    elif op == 'fneg':
        while p.peek()[1] in LINKAGE:
            p.next()
        ins.ty = p.type()
        ins.a = (p.operand(ins.ty),)
    elif op in ('icmp', 'fcmp'):
        while p.peek()[1] in LINKAGE:
            p.next()
        ins.x = p.next()[1]
        t = p.type()
        a = p.operand(t)
        p.expect(',')
        b = p.operand(t)
        ins.ty = t
        ins.a = (a, b)
    elif op in CAST:
        while p.peek()[1] in ('nneg', 'nuw', 'nsw') or p.peek()[1] in LINKAGE:
            p.next()
        t = p.type()
        a = p.operand(t)
        p.expect('to')
        t2 = p.type()
        ins.ty = t2
        ins.x = t
        ins.a = (a,)
    elif op == 'load':
        p.accept('atomic')
        p.accept('volatile')
        ins.ty = p.type()
        p.expect(',')
        p.expect('ptr')
        ins.a = (p.operand(('ptr',)),)
        al = re.search(r', align (\d+)', s)
        ins.x = int(al.group(1)) if al else None
    elif op == 'store':
        p.accept('atomic')
        p.accept('volatile')
        ins.ty = p.type()
        v = p.operand(ins.ty)
        p.expect(',')
        p.expect('ptr')
        ins.a = (v, p.operand(('ptr',)))
        al = re.search(r', align (\d+)', s)
        ins.x = int(al.group(1)) if al else None
    elif op == 'alloca':
        p.accept('inalloca')
        ins.ty = p.type()
        ins.a = None
        if p.accept(','):
            if p.peek()[1] != 'align' and p.peek()[1] != 'addrspace' and p.peek()[0] != 'meta':
                t = p.type()
                ins.a = (t, p.operand(t))
    elif op == 'getelementptr':
        fl = set()
        while p.peek()[1] in ('inbounds', 'nuw', 'nusw'):
            fl.add(p.next()[1])
        ins.x = fl
        ins.ty = p.type()
        ops = []
        while p.accept(','):
            if p.peek()[0] == 'meta':
                break
            t = p.type()
            ops.append((t, p.operand(t)))
        ins.a = ops
    elif op == 'select':
        while p.peek()[1] in LINKAGE:
            p.next()
        ct = p.type()
        c = p.operand(ct)
        p.expect(',')
        t = p.type()
        a = p.operand(t)
        p.expect(',')
        t2 = p.type()
        b = p.operand(t2)
        ins.ty = t
        ins.a = (c, a, b)
        ins.x = ct
    elif op == 'phi':
        while p.peek()[1] in LINKAGE:
            p.next()
        ins.ty = p.type()
        inc = []
        while True:
            p.expect('[')
            v = p.operand(ins.ty)
            p.expect(',')
            b = p.next()[1][1:]
            p.expect(']')
            inc.append((v, b))
            if p.peek()[1] == ',' and p.peek(1)[1] == '[':
                p.next()
            else:
                break
        ins.a = inc
    elif op == 'br':
        if p.accept('label'):
            ins.a = (p.next()[1][1:],)
        else:
            t = p.type()
            c = p.operand(t)
            p.expect(',')
            p.expect('label')
            a = p.next()[1][1:]
            p.expect(',')
            p.expect('label')
            b = p.next()[1][1:]
            ins.op = 'condbr'
            ins.a = (c, a, b)
    elif op == 'switch':
        t = p.type()
        v = p.operand(t)
        p.expect(',')
        p.expect('label')
        d = p.next()[1][1:]
        p.expect('[')
        cs = []
        while not p.accept(']'):
            t2 = p.type()
            cv = p.operand(t2)
            p.expect(',')
            p.expect('label')
            cs.append((cv, p.next()[1][1:]))
        ins.ty = t
        ins.a = (v, d, cs)
    elif op == 'ret':
        t = p.type()
        ins.ty = t
        ins.a = None if t[0] == 'void' else (p.operand(t),)
    elif op in ('call', 'invoke'):
        while True:
            k, v = p.peek()
            if k == 'word' and (v in LINKAGE):
                p.next()
            elif k == 'word' and (v in PARAM_ATTRS or v in PARAM_ATTRS_P):
                skip_attrs(p)
            else:
                break
        t = p.type()
        if t[0] == 'fn':
            rt = t[1]
        else:
            rt = t
        callee = p.operand(('ptr',))
        p.expect('(')
        args = []
        if not p.accept(')'):
            while True:
                at_ = p.type()
                ats = skip_attrs(p)
                if at_[0] == 'metadata':
                    # skip metadata operand
                    d = 0
                    while True:
                        k, v = p.peek()
                        if d == 0 and v in (',', ')'):
                            break
                        if v in '([{':
                            d += 1
                        if v in ')]}':
                            d -= 1
                        p.next()
                    args.append((at_, ('undef',), ats))
                else:
                    args.append((at_, p.operand(at_), ats))
                if p.accept(')'):
                    break
                p.expect(',')
        ins.ty = rt
        ins.a = (callee, args)
        if op == 'invoke':
            while p.peek()[1] != 'to':
                p.next()
            p.next()
            p.expect('label')
            n = p.next()[1][1:]
            p.expect('unwind')
            p.expect('label')
            u = p.next()[1][1:]
            ins.x = (n, u)
    elif op == 'landingpad':
        ins.ty = p.type()
        cl = []
        while p.peek()[0] == 'word':
            k, v = p.next()
            if v == 'cleanup':
                cl.append(('cleanup',))
            elif v == 'catch':
                t = p.type()
                cl.append(('catch', p.operand(t)))
            elif v == 'filter':
                t = p.type()
                cl.append(('filter', p.operand(t)))
        ins.a = cl
    elif op == 'resume':
        t = p.type()
        ins.ty = t
        ins.a = (p.operand(t),)
    elif op == 'unreachable':
        ins.a = ()
        ins.ty = None
    elif op in ('extractvalue',):
        t = p.type()
        v = p.operand(t)
        idx = []
        while p.accept(','):
            if p.peek()[0] == 'num':
                idx.append(int(p.next()[1]))
            else:
                break
        ins.ty = t
        ins.a = (v, idx)
    elif op == 'insertvalue':
        t = p.type()
        v = p.operand(t)
        p.expect(',')
        t2 = p.type()
        e = p.operand(t2)
        idx = []
        while p.accept(','):
            if p.peek()[0] == 'num':
                idx.append(int(p.next()[1]))
            else:
                break
        ins.ty = t
        ins.a = (v, e, idx)
        ins.x = t2
    elif op == 'extractelement':
        t = p.type()
        v = p.operand(t)
        p.expect(',')
        t2 = p.type()
        i = p.operand(t2)
        ins.ty = t
        ins.a = (v, i)
    elif op == 'insertelement':
        t = p.type()
        v = p.operand(t)
        p.expect(',')
        t2 = p.type()
        e = p.operand(t2)
        p.expect(',')
        t3 = p.type()
        i = p.operand(t3)
        ins.ty = t
        ins.a = (v, e, i)
    elif op == 'shufflevector':
        t = p.type()
        a = p.operand(t)
        p.expect(',')
        t2 = p.type()
        b = p.operand(t2)
        p.expect(',')
        t3 = p.type()
        c = p.operand(t3)
        ins.ty = t
        ins.a = (a, b, c)
        ins.x = t3
    elif op == 'freeze':
        ins.ty = p.type()
        ins.a = (p.operand(ins.ty),)
    elif op == 'atomicrmw':
        p.accept('volatile')
        ins.x = p.next()[1]
        p.expect('ptr')
        q = p.operand(('ptr',))
        p.expect(',')
        ins.ty = p.type()
        ins.a = (q, p.operand(ins.ty))
    else:
        ins.op = 'unsupported'
        ins.x = op
        ins.ty = None
        ins.a = ()
    return ins


# ---------------------------------------------------------------- loops

def successors(b):
    t = b.term
    if t.op == 'br':
        return [t.a[0]]
    if t.op == 'condbr':
        return [t.a[1], t.a[2]]
    if t.op == 'switch':
        return [t.a[1]] + [c[1] for c in t.a[2]]
    if t.op == 'invoke':
        return list(t.x)
    return []


def loops_of(f):
    """header -> set of blocks (natural loops)"""
    if f._loops is not None:
        return f._loops
    f.parse()
    entry = f.order[0]
    # reachable + postorder
    seen = set()
    po = []
    st = [(entry, iter(successors(f.blocks[entry])))]
    seen.add(entry)
    while st:
        b, it = st[-1]
        for s in it:
            if s not in seen:
                seen.add(s)
                st.append((s, iter(successors(f.blocks[s]))))
                break
        else:
            po.append(b)
            st.pop()
    rpo = po[::-1]
    idx = {b: i for i, b in enumerate(rpo)}
    preds = {b: [] for b in rpo}
    for b in rpo:
        for s in successors(f.blocks[b]):
            preds[s].append(b)
    idom = {entry: entry}
    ch = True
    while ch:
        ch = False
        for b in rpo[1:]:
            new = None
            for p in preds[b]:
                if p in idom:
                    if new is None:
                        new = p
                    else:
                        x, y = p, new
                        while x != y:
                            while idx[x] > idx[y]:
                                x = idom[x]
                            while idx[y] > idx[x]:
                                y = idom[y]
                        new = x
            if idom.get(b) != new:
                idom[b] = new
                ch = True

    def dom(a, b):
        while True:
            if a == b:
                return True
            if b == entry:
                return False
            b = idom[b]
    loops = {}
    for b in rpo:
        for s in successors(f.blocks[b]):
            if dom(s, b):
                body = loops.setdefault(s, set([s]))
                st = [b]
                while st:
                    x = st.pop()
                    if x not in body:
                        body.add(x)
                        st.extend(preds[x])
            elif idx[s] <= idx[b]:
                loops.setdefault('!irreducible', set())
    f._loops = loops
    return loops
