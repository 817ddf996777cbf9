"""Parser for the textual LLVM IR that clang 18 emits for the C code under test."""
import re

TOK = re.compile(r'''c"(?:[^"\\]|\\[0-9A-Fa-f]{2}|\\\\)*"|[%@]"[^"]*"|[%@$][-\w.$]+|"[^"]*"|-?\d+\.\d+e[+-]\d+|0x[0-9A-Fa-f]+|-?\d+|[A-Za-z_][\w.]*|\.\.\.|![\w.]*|\#\d+|[(){}\[\]<>,=*:|]''')


class IRError(Exception):
    pass


# ---- types: ('i',bits) ('ptr',) ('void',) ('arr',n,t) ('struct',[t],packed) ('named',n) ('fp',size) ('label',) ('vec',n,t)
I1, I8, I16, I32, I64 = [('i', n) for n in (1, 8, 16, 32, 64)]
PTR = ('ptr',)
VOID = ('void',)


class Toks:
    __slots__ = ('t', 'i')

    def __init__(self, s):
        self.t = TOK.findall(s)
        self.i = 0

    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else None

    def next(self):
        v = self.t[self.i]
        self.i += 1
        return v

    def accept(self, s):
        if self.i < len(self.t) and self.t[self.i] == s:
            self.i += 1
            return True
        return False

    def expect(self, s):
        v = self.next()
        if v != s:
            raise IRError('expected %r got %r in %r' % (s, v, ' '.join(self.t)))

    def end(self):
        return self.i >= len(self.t)


def unescape(tok):
    b = tok[2:-1]
    out = bytearray()
    i = 0
    while i < len(b):
        if b[i] == '\\':
            if b[i + 1] == '\\':
                out.append(92)
                i += 2
            else:
                out.append(int(b[i + 1:i + 3], 16))
                i += 3
        else:
            out.append(ord(b[i]))
            i += 1
    return bytes(out)


class Func:
    __slots__ = ('name', 'ret', 'params', 'blocks', 'entry', 'module', 'internal', 'vararg')


class Program:
    """Several modules linked together; internal symbols are kept apart per module."""

    def __init__(self):
        self.types = {}
        self.sizes = {}
        self.globals = {}     # key -> (type, init operand or None, const)
        self.funcs = {}       # key -> Func
        self.declared = set()

    # ---- sizes
    def sizeof(self, t):
        k = t[0]
        if k == 'i':
            n = (t[1] + 7) // 8
            return n if n in (1, 2, 4, 8) else (16 if n <= 16 else (n + 7) // 8 * 8)
        if k == 'ptr':
            return 8
        if k == 'fp':
            return t[1]
        if k in ('arr', 'vec'):
            return t[1] * self.sizeof(t[2])
        if k == 'named':
            r = self.sizes.get(t[1])
            if r is None:
                r = self.sizes[t[1]] = self.sizeof(self.types[t[1]])
            return r
        if k == 'struct':
            off, al = 0, 1
            for m in t[1]:
                a = 1 if t[2] else self.alignof(m)
                off = (off + a - 1) // a * a + self.sizeof(m)
                al = max(al, a)
            return (off + al - 1) // al * al
        raise IRError('sizeof %r' % (t,))

    def alignof(self, t):
        k = t[0]
        if k in ('i', 'ptr', 'fp'):
            return min(self.sizeof(t), 16)
        if k in ('arr', 'vec'):
            return self.alignof(t[2])
        if k == 'named':
            r = self.sizes.get(('a', t[1]))
            if r is None:
                r = self.sizes['a', t[1]] = self.alignof(self.types[t[1]])
            return r
        if k == 'struct':
            return 1 if t[2] else max([self.alignof(m) for m in t[1]] or [1])
        raise IRError('alignof %r' % (t,))

    def resolve(self, t):
        while t[0] == 'named':
            t = self.types[t[1]]
        return t

    def field(self, t, idx):
        """(offset, type) of member idx of a struct type"""
        off = 0
        for k, m in enumerate(t[1]):
            a = 1 if t[2] else self.alignof(m)
            off = (off + a - 1) // a * a
            if k == idx:
                return off, m
            off += self.sizeof(m)
        raise IRError('no field %d' % idx)


class Module:
    def __init__(self, prog, text, name):
        self.prog = prog
        self.name = name
        self.internal = set()
        self.load(text)

    def gname(self, tok):
        n = tok[1:].strip('"')
        return self.name + ':' + n if n in self.internal else n

    # ---- types
    def type(self, t):
        v = t.next()
        if v[0] == 'i' and v[1:].isdigit():
            r = ('i', int(v[1:]))
        elif v == 'ptr':
            r = PTR
        elif v == 'void':
            r = VOID
        elif v in ('float', 'double', 'x86_fp80'):
            r = ('fp', {'float': 4, 'double': 8, 'x86_fp80': 16}[v])
        elif v == 'label':
            r = ('label',)
        elif v == 'metadata':
            r = ('metadata',)
        elif v == 'opaque':
            r = ('struct', [], False)
        elif v == '[':
            n = int(t.next())
            t.expect('x')
            e = self.type(t)
            t.expect(']')
            r = ('arr', n, e)
        elif v == '{':
            r = ('struct', self._members(t, '}'), False)
        elif v == '<':
            if t.peek() == '{':
                t.next()
                r = ('struct', self._members(t, '}'), True)
                t.expect('>')
            else:
                n = int(t.next())
                t.expect('x')
                e = self.type(t)
                t.expect('>')
                r = ('vec', n, e)
        elif v[0] == '%':
            r = ('named', v[1:].strip('"'))
        else:
            raise IRError('type? %r in %r' % (v, ' '.join(t.t)))
        # function type suffix
        while t.peek() == '(' and r[0] in ('i', 'ptr', 'void', 'fp', 'named', 'struct'):
            t.next()
            depth = 1
            while depth:
                x = t.next()
                depth += (x == '(') - (x == ')')
            r = ('fn', r)
            break
        return r

    def _members(self, t, close):
        ms = []
        if t.accept(close):
            return ms
        while True:
            ms.append(self.type(t))
            if t.accept(close):
                return ms
            t.expect(',')

    # ---- operands: ('r',name) ('c',int) ('null',) ('g',name) ('undef',) ('zero',type) ('agg',[ops]) ('str',bytes) ('ce',...)
    def operand(self, t, ty):
        v = t.next()
        if v[0] == '%':
            return ('r', v[1:].strip('"'))
        if v[0] == '@':
            return ('g', self.gname(v))
        if v == 'null':
            return ('c', 0)
        if v in ('true', 'false'):
            return ('c', int(v == 'true'))
        if v in ('undef', 'poison'):
            return ('undef',)
        if v == 'zeroinitializer':
            return ('zero', ty)
        if v[0] == '-' or v[0].isdigit():
            if ty[0] == 'fp':
                return ('fpc', v)
            return ('c', int(v) & ((1 << ty[1]) - 1)) if ty[0] == 'i' else ('c', int(v))
        if v.startswith('c"'):
            return ('str', unescape(v))
        if v in ('{', '[', '<'):
            packed = v == '<' and t.accept('{')
            close = {'{': '}', '[': ']', '<': '}' if packed else '>'}[v]
            ops = []
            if not t.accept(close):
                while True:
                    et = self.type(t)
                    ops.append((et, self.operand(t, et)))
                    if t.accept(close):
                        break
                    t.expect(',')
            if packed:
                t.expect('>')
            return ('agg', ops)
        if v == 'getelementptr':
            while t.peek() != '(':
                t.next()
            t.next()
            bt = self.type(t)
            t.expect(',')
            args = []
            while True:
                while t.peek() == 'inrange':
                    t.next()
                et = self.type(t)
                args.append((et, self.operand(t, et)))
                if t.accept(')'):
                    break
                t.expect(',')
            return ('cegep', bt, args)
        if v in ('ptrtoint', 'inttoptr', 'bitcast', 'trunc', 'zext', 'sext'):
            t.expect('(')
            et = self.type(t)
            o = self.operand(t, et)
            t.expect('to')
            dt = self.type(t)
            t.expect(')')
            return ('cecast', v, et, o, dt)
        if v in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr'):
            while t.peek() != '(':
                t.next()
            t.next()
            et = self.type(t)
            a = self.operand(t, et)
            t.expect(',')
            self.type(t)
            b = self.operand(t, et)
            t.expect(')')
            return ('cebin', v, et, a, b)
        raise IRError('operand? %r in %r' % (v, ' '.join(t.t)))

    ARGATTR = {'noundef', 'nonnull', 'nocapture', 'readonly', 'writeonly', 'readnone', 'signext', 'zeroext', 'returned',
               'noalias', 'immarg', 'inreg', 'nofree', 'nest', 'swiftself', 'noext', 'dead_on_unwind', 'writable', 'allocptr',
               'allocalign'}

    def skip_attrs(self, t):
        while True:
            p = t.peek()
            if p in self.ARGATTR:
                t.next()
            elif p == 'align':
                t.next()
                if t.peek() == '(':
                    t.next(); t.next(); t.next()
                else:
                    t.next()
            elif p in ('dereferenceable', 'dereferenceable_or_null', 'byval', 'sret', 'elementtype', 'range', 'preallocated'):
                t.next()
                t.expect('(')
                d = 1
                while d:
                    x = t.next()
                    d += (x == '(') - (x == ')')
            else:
                return

    # ---- module
    def load(self, text):
        lines = text.split('\n')
        P = self.prog
        for ln in lines:
            m = re.match(r'^(@[-\w.$]+|@"[^"]*") = (private|internal) ', ln)
            if m:
                self.internal.add(m.group(1)[1:].strip('"'))
            m = re.match(r'^define (?:internal|private) .*?(@[-\w.$]+)\(', ln)
            if m:
                self.internal.add(m.group(1)[1:])
        i = 0
        while i < len(lines):
            ln = lines[i]
            if ln.startswith('%') and ' = type ' in ln:
                n, d = ln.split(' = type ', 1)
                P.types[n[1:].strip('"')] = self.type(Toks(d))
            elif ln.startswith('@'):
                self.global_(ln)
            elif ln.startswith('declare'):
                m = re.search(r'@([-\w.$]+)\(', ln)
                P.declared.add(m.group(1))
            elif ln.startswith('define'):
                j = i
                while lines[j] != '}':
                    j += 1
                self.function(lines[i:j])
                i = j
            i += 1

    def global_(self, ln):
        name, rest = ln.split(' = ', 1)
        key = self.gname(name)
        t = Toks(rest)
        ext = False
        while t.peek() not in ('global', 'constant'):
            v = t.next()
            if v in ('external', 'extern_weak'):
                ext = True
            if v == 'alias':
                return
        const = t.next() == 'constant'
        ty = self.type(t)
        if ext:
            if key not in self.prog.globals:
                self.prog.globals[key] = (ty, None, const)
            return
        init = self.operand(t, ty)
        self.prog.globals[key] = (ty, init, const)

    def function(self, lines):
        head = lines[0]
        t = Toks(re.sub(r'"[^"]*"', '', head) if '@"' not in head else head)
        f = Func()
        f.internal = False
        avail = False
        t.expect('define')
        while True:
            v = t.peek()
            if v in ('internal', 'private'):
                f.internal = True
            if v == 'available_externally':
                avail = True
            save = t.i
            if v in ('dso_local', 'internal', 'private', 'available_externally', 'linkonce_odr', 'weak', 'hidden', 'fastcc',
                     'unnamed_addr', 'local_unnamed_addr', 'weak_odr', 'protected', 'ccc', 'coldcc', 'linkonce'):
                t.next()
                continue
            self.skip_attrs(t)
            if t.i == save:
                break
        f.ret = self.type(t)
        n = t.next()
        f.name = self.gname(n)
        f.module = self
        f.params = []
        f.vararg = False
        t.expect('(')
        k = 0
        if not t.accept(')'):
            while True:
                if t.accept('...'):
                    f.vararg = True
                else:
                    ty = self.type(t)
                    self.skip_attrs(t)
                    if t.peek() and t.peek()[0] == '%':
                        f.params.append((ty, t.next()[1:].strip('"')))
                    else:
                        f.params.append((ty, str(k)))
                    k += 1
                if t.accept(')'):
                    break
                t.expect(',')
        # body
        nparams = len(f.params)
        blocks = {}
        cur = str(nparams)
        m = re.match(r'^([-\w.$]+|"[^"]*"):', lines[1]) if len(lines) > 1 else None
        f.entry = m.group(1) if m else cur
        body = []
        if not m:
            blocks[cur] = body
        i = 1
        while i < len(lines):
            ln = lines[i]
            m = re.match(r'^([-\w.$]+|"[^"]*"):', ln)
            if m:
                cur = m.group(1)
                body = []
                blocks[cur] = body
            elif ln.startswith('  '):
                s = ln.strip()
                if s.startswith('switch') or ' switch ' in s:
                    while ']' not in lines[i]:
                        i += 1
                        s += ' ' + lines[i].strip()
                if s and not s.startswith(';'):
                    s = re.sub(r'(, )?![\w.]+ !\d+', '', s)
                    body.append(self.instr(s))
            i += 1
        f.blocks = blocks
        if avail:
            self.prog.funcs.setdefault('~' + f.name, f)   # inline copy: used only when nothing else defines it
        else:
            self.prog.funcs[f.name] = f

    # ---- instructions
    def tv(self, t):
        ty = self.type(t)
        self.skip_attrs(t)
        return ty, self.operand(t, ty)

    def instr(self, s):
        t = Toks(s)
        dest = None
        if t.peek(1) == '=' and t.peek()[0] == '%':
            dest = t.next()[1:].strip('"')
            t.next()
        op = t.next()
        while op in ('tail', 'notail', 'musttail'):
            op = t.next()
        if op == 'alloca':
            if t.peek() == 'inalloca':
                t.next()
            ty = self.type(t)
            cnt = ('c', 1)
            if t.accept(',') and t.peek() != 'align':
                ct, cnt = self.tv(t)
            return ('alloca', dest, ty, cnt)
        if op == 'load':
            while t.peek() in ('volatile', 'atomic'):
                t.next()
            ty = self.type(t)
            t.expect(',')
            pt, p = self.tv(t)
            return ('load', dest, ty, p)
        if op == 'store':
            while t.peek() in ('volatile', 'atomic'):
                t.next()
            ty, v = self.tv(t)
            t.expect(',')
            pt, p = self.tv(t)
            return ('store', ty, v, p)
        if op == 'getelementptr':
            while t.peek() in ('inbounds', 'nuw', 'nusw'):
                t.next()
            bt = self.type(t)
            t.expect(',')
            args = [self.tv(t)]
            while t.accept(','):
                args.append(self.tv(t))
            return ('gep', dest, bt, args[0][1], args[1:])
        if op in ('add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor'):
            flags = set()
            while t.peek() in ('nsw', 'nuw', 'exact', 'disjoint'):
                flags.add(t.next())
            ty = self.type(t)
            a = self.operand(t, ty)
            t.expect(',')
            b = self.operand(t, ty)
            return ('bin', dest, op, ty, a, b, frozenset(flags))
        if op == 'icmp':
            while t.peek() == 'samesign':
                t.next()
            pred = t.next()
            ty = self.type(t)
            a = self.operand(t, ty)
            t.expect(',')
            b = self.operand(t, ty)
            return ('icmp', dest, pred, ty, a, b)
        if op in ('zext', 'sext', 'trunc', 'ptrtoint', 'inttoptr', 'bitcast', 'freeze', 'sitofp', 'uitofp', 'fptosi', 'fptoui',
                  'fpext', 'fptrunc'):
            while t.peek() in ('nneg', 'nuw', 'nsw'):
                t.next()
            ty, v = self.tv(t)
            dt = ty
            if t.accept('to'):
                dt = self.type(t)
            return ('cast', dest, op, ty, v, dt)
        if op == 'select':
            ct, c = self.tv(t)
            t.expect(',')
            at, a = self.tv(t)
            t.expect(',')
            bt, b = self.tv(t)
            return ('select', dest, c, a, b, at)
        if op == 'phi':
            ty = self.type(t)
            inc = {}
            while True:
                t.expect('[')
                v = self.operand(t, ty)
                t.expect(',')
                lab = t.next()[1:].strip('"')
                t.expect(']')
                inc[lab] = v
                if not t.accept(','):
                    break
            return ('phi', dest, ty, inc)
        if op == 'br':
            if t.peek() == 'label':
                t.next()
                return ('jmp', t.next()[1:].strip('"'))
            ct, c = self.tv(t)
            t.expect(',')
            t.expect('label')
            a = t.next()[1:].strip('"')
            t.expect(',')
            t.expect('label')
            b = t.next()[1:].strip('"')
            return ('br', c, a, b)
        if op == 'switch':
            ty, v = self.tv(t)
            t.expect(',')
            t.expect('label')
            d = t.next()[1:].strip('"')
            t.expect('[')
            cases = []
            while not t.accept(']'):
                ct, cv = self.tv(t)
                t.expect(',')
                t.expect('label')
                cases.append((cv[1], t.next()[1:].strip('"')))
            return ('switch', ty, v, d, cases)
        if op == 'ret':
            if t.peek() == 'void':
                return ('ret', None, None)
            ty, v = self.tv(t)
            return ('ret', ty, v)
        if op == 'unreachable':
            return ('unreachable',)
        if op == 'call':
            while True:
                save = t.i
                if t.peek() in ('fastcc', 'ccc', 'coldcc', 'nnan', 'ninf'):
                    t.next()
                self.skip_attrs(t)
                if save == t.i:
                    break
            ty = self.type(t)
            if ty[0] == 'fn':
                ty = ty[1]
            if t.peek() == 'asm':
                return ('asm', dest, s)
            callee = self.operand(t, PTR)
            t.expect('(')
            args = []
            if not t.accept(')'):
                while True:
                    if t.peek() == 'metadata':
                        while t.peek() not in (',', ')'):
                            t.next()
                        args.append((('metadata',), ('undef',)))
                    else:
                        args.append(self.tv(t))
                    if t.accept(')'):
                        break
                    t.expect(',')
            return ('call', dest, ty, callee, args)
        if op == 'extractvalue':
            ty, v = self.tv(t)
            idx = []
            while t.accept(','):
                idx.append(int(t.next()))
            return ('extract', dest, v, idx)
        if op == 'insertvalue':
            ty, v = self.tv(t)
            t.expect(',')
            et, e = self.tv(t)
            idx = []
            while t.accept(','):
                idx.append(int(t.next()))
            return ('insert', dest, ty, v, e, idx)
        if op in ('fence',):
            return ('nop',)
        if op in ('fadd', 'fsub', 'fmul', 'fdiv', 'fcmp', 'fneg', 'frem', 'cmpxchg', 'atomicrmw', 'va_arg', 'landingpad',
                  'invoke', 'extractelement', 'insertelement', 'shufflevector', 'indirectbr'):
            return ('unsupported', dest, s)
        raise IRError('instruction? ' + s)
