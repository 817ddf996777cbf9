"""The Go package, executed symbolically: the SSA form of the real Go code (dumped by gossa from the current tree) is interpreted on top of
the executor that runs the real C code it calls; big integers, hashes and the garbage collector's finalizers are modelled.  The same
harness interface implemented by the real Go program (a server built from the current tree) is used for replay."""
import base64, re, threading
from vf import *
from sym import sgn, MASK

PKG = '?'


def goenv():
    c = os.path.join(scratch(), 'gocache')
    e = dict(os.environ, GOCACHE=os.environ.get('VF_GOCACHE', c), GOPROXY='off', GOTOOLCHAIN='local', CGO_ENABLED='1', CC='gcc', CGO_CFLAGS='-w -I' + REPO + '/include', CGO_LDFLAGS='')
    e.setdefault('HOME', '/root')
    for k in ('GOFLAGS', 'LD_PRELOAD', 'ASAN_OPTIONS', 'MALLOC_PERTURB_', 'PYTHONMALLOC'):
        e.pop(k, None)
    return e


def gosources():
    return sorted(f for f in glob.glob(REPO + '/ecgo/*.go') if not f.endswith('_test.go'))


_ssa = {}


def gossa():
    """SSA of the package as a dict"""
    f = os.path.join(scratch(), 'ecgo.json')
    if 'd' not in _ssa:
        if not os.path.exists(f):
            b = os.path.join(scratch(), 'gossa')
            sh(['go', 'build', '-o', b, '.'], cwd=os.path.join(HERE, 'gossa'), env=dict(goenv(), GOFLAGS='-mod=mod', GO111MODULE='on'))
            d = os.path.join(scratch(), 'gopath', 'src', 'ecgo')
            os.makedirs(d, exist_ok=True)
            for s in gosources():
                shutil.copy(s, d)
            r = subprocess.run([b, d], env=dict(goenv(), GO111MODULE='off', GOPATH=os.path.join(scratch(), 'gopath')), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
            if r.returncode:
                raise BuildError(r.stderr[-3000:])
            open(f, 'w').write(r.stdout)
        d = json.load(open(f))
        for fn in d['funcs'].values():
            for b in fn['blocks'] or []:
                for i in b['i']:
                    i.setdefault('r', None)
        _ssa['d'] = d
    return _ssa['d']


def preambles():
    """the C code in the comments above import "C", one file per Go file"""
    out = []
    for s in gosources():
        t = open(s).read()
        m = re.search(r'((?:^//[^\n]*\n)+|/\*.*?\*/\s*)import "C"', t, re.S | re.M)
        if not m:
            continue
        c = m.group(1)
        c = c.strip()[2:-2] if c.startswith('/*') else '\n'.join(l[2:] for l in c.splitlines())
        c = '\n'.join('' if l.strip().startswith('#cgo') else l for l in c.splitlines())
        f = os.path.join(scratch(), 'preamble_' + os.path.basename(s)[:-3] + '.c')
        open(f, 'w').write(c + '\n')
        out.append(f)
    return out


def goprogram():
    if 'p' not in _ssa:
        gossa()
        _ssa['p'] = program(lib_sources() + preambles())
    return _ssa['p']


# ------------------------------------------------------------------------------------------------ values
class GoPanic(Exception):
    pass


class Panicked:
    pass


class Cell:
    """a Go variable that holds no C data: a list of slots (fields, elements) or one slot"""
    __slots__ = ('v', 'fin', 'tid', 'big')

    def __init__(self, v, tid=None):
        self.v, self.fin, self.tid, self.big = v, None, tid, None


class GoPtr:
    __slots__ = ('c', 'path')

    def __init__(self, c, path=()):
        self.c, self.path = c, path


class Big:
    """a big.Int: sign and magnitude; bits: its exact length where known"""
    __slots__ = ('neg', 'm', 'bits', 'fin')

    def __init__(self, neg=False, m=0, bits=None):
        self.neg, self.m, self.bits, self.fin = neg, m, bits, None


class Slice:
    __slots__ = ('base', 'off', 'n', 'cap', 'esz')

    def __init__(self, base, off, n, cap, esz):
        self.base, self.off, self.n, self.cap, self.esz = base, off, n, cap, esz


class Iface:
    __slots__ = ('t', 'v')

    def __init__(self, t, v):
        self.t, self.v = t, v


class Func:
    __slots__ = ('name', 'binds')

    def __init__(self, name, binds=()):
        self.name, self.binds = name, binds


class Error:
    pass


class Hash:
    """a hash.Hash whose sum is given; what is written since the last reset is recorded; something was written before"""

    def __init__(self, g, size, total):
        self.g, self.size, self.total, self.written = g, size, list(total), [0x5a]     # used before

    def Reset(self):
        self.written = []

    def Write(self, s):
        self.written += self.g.data(s)
        return (s.n, None)

    def Size(self):
        return self.size

    def BlockSize(self):
        return 64

    def Sum(self, s):
        return self.g.bytes((self.g.data(s) if s is not None else []) + self.total)


def zbool(c):
    c = simp(c) if is_z3(c) else c
    return bool(c) if isinstance(c, int) else c


# ------------------------------------------------------------------------------------------------ the interpreter
class GoSym:
    native = False

    def __init__(self, x):
        self.x = x
        d = gossa()
        self.T, self.F, self.pkg = d['types'], d['funcs'], d['pkg']
        self.fins = []
        self.depth = 0
        x.ctx['go'] = self

    # ---- harness side
    def big(self, m, neg=False, bits=None):
        if not is_z3(m):
            return Big(neg or m < 0, abs(m), abs(m).bit_length())
        return Big(neg, m, bits)

    def bytes(self, l):
        p = self.x.alloc(len(l), 'Go bytes', kind='go', fill=0)
        for i, b in enumerate(l):
            self.x.st(p, i, 1, b)
        return Slice(p, 0, len(l), len(l), 1)

    def string(self, l):
        return tuple(l.encode() if isinstance(l, str) else l)

    def hash(self, size, total):
        return Iface(None, Hash(self, size, total))

    def hashed(self, h):
        return h.v.written

    def draws(self, vals, n):
        """the next random integers, drawn from [0, n)"""
        self.x.ctx['draws'] = [(v, n) for v in vals]
        self.x.ctx['more'] = 'draw after a usable one'

    def call(self, name, *args):
        return self._top(self.pkg + '.' + name, args)

    def method(self, o, name, *args):
        tn = self._tname(o)
        return self._top('(*%s.%s).%s' % (self.pkg, tn, name), (o,) + args)

    def _tname(self, o):
        if not isinstance(o, GoPtr) or o.c.tid is None:
            raise Inconclusive('receiver %r' % (o,))
        return self.T[o.c.tid].get('named')

    def _top(self, name, args):
        try:
            f = self.F.get(name)
            if f is None:
                raise Inconclusive('no Go function ' + name)
            a = []
            for v, t in zip(args, self._ptypes(f)):
                if isinstance(v, int) and not isinstance(v, bool) and self.T[t]['kind'] == 'basic':
                    v &= (1 << 8 * self.T[t]['size']) - 1
                a.append(v)
            r = self.fn(name, a)
        except GoPanic:
            return Panicked()
        return r

    def _ptypes(self, f):
        s = self.T[f['sig']]
        p = self.T[s['params']]['elems'] if s['params'] >= 0 else []
        return ([f['recv']] if 'recv' in f else []) + list(p or [])

    def panicked(self, r):
        return isinstance(r, Panicked)

    def isnil(self, v):
        return v is None or isinstance(v, int) and not isinstance(v, bool) and v == 0

    def bigval(self, b):
        return b.neg, b.m

    def data(self, s):
        if s is None:
            return []
        return [self.x.ld(s.base, (s.off + i), 1) for i in range(s.n)]

    def text(self, s):
        return list(s)

    def strings(self, s):
        return [bytes(simp(b) if is_z3(b) else b for b in self._elem(s, i)).decode('latin1') for i in range(s.n)]

    def _elem(self, s, i):
        return s.base[s.off + i]

    def boolean(self, v):
        return self.x.branch(v) if is_z3(v) else bool(v)

    def int(self, v, bits=64):
        return v

    def gc(self, *keep):
        """everything but keep becomes garbage: run the finalizers, dependants first"""
        while True:
            live = set()
            self._mark(list(keep), live)
            dead = [p for p in self.fins if p.c.fin is not None and id(p.c) not in live]
            if not dead:
                return
            refd = set()
            for p in dead:
                sub = set()
                self._mark([w for w in self._slots(p.c)], sub)
                refd |= sub - {id(p.c)}
            for p in [q for q in dead if id(q.c) not in refd]:
                f, p.c.fin = p.c.fin, None
                try:
                    self.call_val(f, [p])
                except GoPanic:
                    raise Fault('panic', 'a finalizer panics')

    def _slots(self, c):
        return c.v if isinstance(c.v, list) else [c.v]

    def _mark(self, todo, live):
        while todo:
            v = todo.pop()
            if isinstance(v, GoPtr):
                if id(v.c) not in live:
                    live.add(id(v.c))
                    todo += self._slots(v.c)
            elif isinstance(v, (list, tuple)):
                todo += [w for w in v if not is_z3(w)]
            elif isinstance(v, Iface):
                todo.append(v.v)
            elif isinstance(v, Func):
                todo += list(v.binds)
            elif isinstance(v, Slice) and isinstance(v.base, list):
                todo += v.base

    def done(self):
        self.gc()

    # ---- types
    def ct(self, t):
        """does the type hold C data (lives in the executor's memory)?"""
        T = self.T[t]
        k = T['kind']
        if k == 'basic':
            return T['int'] and T['size'] in (1, 2, 4, 8)
        if k == 'struct':
            return T.get('named', '').startswith('_Ctype') or T['name'].startswith('_Ctype') or '/_Ctype' in T['name'] or '._Ctype' in T['name']
        if k == 'array':
            return self.ct(T['elem'])
        return False

    def zero(self, t):
        T = self.T[t]
        k = T['kind']
        if k == 'basic':
            return () if T['str'] else False if T['basic'] == 'bool' else 0
        if k == 'struct':
            return [self.zero(f[2]) for f in T['fields'] or []]
        if k == 'array':
            return [self.zero(T['elem']) for i in range(T['len'])]
        return None

    def width(self, t):
        return 8 * self.T[t]['size']

    # ---- memory
    def load(self, p, t):
        T = self.T[t]
        if isinstance(p, Ptr):
            k = T['kind']
            if k == 'basic' and T['int'] or k in ('ptr', 'func') or T.get('basic') == 'unsafe.Pointer' or T.get('basic') == 'Pointer':
                v = self.x.load(p, T['size'])
                if isinstance(v, Undef):
                    raise Fault('uninit', 'Go reads uninitialised C memory')
                return v
            if k == 'struct':
                return ('C', p, T['size'])
            raise Inconclusive('load of %s from C memory' % T['name'])
        if isinstance(p, Big):
            return p
        if not isinstance(p, GoPtr):
            if p is None or p == 0:
                raise GoPanic('nil dereference')
            raise Inconclusive('load through %r' % (p,))
        v = p.c.v
        for i in p.path:
            v = v[i]
        return list(v) if isinstance(v, list) else v

    def store(self, p, v, t):
        T = self.T[t]
        if isinstance(p, Ptr):
            if isinstance(v, tuple) and len(v) == 3 and v[0] == 'C':
                self.x.copy(p, v[1], v[2])
                return
            if T['kind'] == 'struct' or T['kind'] == 'array':
                raise Inconclusive('store of %s to C memory' % T['name'])
            self.x.store(p, T['size'], 0 if v is None else int(v) if isinstance(v, bool) else v)
            return
        if not isinstance(p, GoPtr):
            if p is None or p == 0:
                raise GoPanic('nil dereference')
            raise Inconclusive('store through %r' % (p,))
        v = list(v) if isinstance(v, list) else v
        if not p.path:
            p.c.v = v
            return
        c = p.c.v
        for i in p.path[:-1]:
            c = c[i]
        c[p.path[-1]] = v

    def alloc(self, t):
        T = self.T[t]
        if T['name'] == 'math/big.Int':
            return Big()
        if self.ct(t):
            return self.x.alloc(T['size'], 'Go variable ' + T['name'][-20:], kind='go', fill=0)
        return GoPtr(Cell(self.zero(t), t))

    # ---- values
    def val(self, v, R):
        k = v['k']
        if k == 'r':
            return R[v['n']]
        if k == 'const':
            T = self.T[v['t']]
            if 's' in v:
                return tuple(base64.b64decode(v['s'] or ''))
            if v.get('i'):
                return int(v['v']) & ((1 << 8 * T['size']) - 1)
            if v.get('other'):
                raise Inconclusive('constant ' + v['v'])
            if v['v'] is None:
                return self.zero(v['t'])
            return v['v']
        if k == 'fn':
            return Func(v['n'])
        if k == 'builtin':
            return Func('builtin ' + v['n'])
        if k == 'global':
            n = v['n']
            if n.startswith('_Cfpvar_fp_'):
                return GoPtr(Cell(FnPtr(n[len('_Cfpvar_fp_'):])))
            g = self.x.ctx.setdefault('goglobals', {})
            if n not in g:
                if not v['pkg'].endswith('ecgo'):
                    raise Inconclusive('variable %s.%s' % (v['pkg'], n))
                g[n] = self.alloc(self.T[v['t']]['elem'])
                g['?' + n] = True
            return g[n]
        raise Inconclusive('value ' + k)

    def vals(self, l, R):
        return [self.val(v, R) for v in l]

    # ---- execution
    def fn(self, name, args, binds=()):
        f = self.F.get(name)
        short = name.rsplit('.', 1)[-1] if not name.startswith('(') else name
        if f is None or not f['blocks'] or not f['pkg'].endswith('ecgo') or short.startswith(('_Cfunc_', '_cgo', '_Cgo')):
            return self.ext(name, short, args)
        self.depth += 1
        if self.depth > 60:
            raise Inconclusive('Go recursion')
        self.x.stats.functions.add('go ' + name.replace(self.pkg, 'ecgo'))
        R = dict(zip(f['params'], args))
        R.update(zip(f['free'], binds))
        defers = []
        try:
            r = self.body(f, R, defers)
        except GoPanic:
            for c, a in reversed(defers):
                self.call_val(c, a)
            raise
        finally:
            self.depth -= 1
        return r

    def body(self, f, R, defers):
        b, prev = 0, None
        x = self.x
        while True:
            B = f['blocks'][b]
            new = {}
            for i in B['i']:
                if i['op'] != 'Phi':
                    break
                new[i['r']] = self.val(i['edges'][B['p'].index(prev)], R)
            R.update(new)
            for i in B['i']:
                op = i['op']
                if op == 'Phi':
                    continue
                x.steps += 1
                if x.steps > x.cfg.max_steps:
                    raise Inconclusive('too many steps')
                if op == 'If':
                    c = self.val(i['c'], R)
                    c = x.branch(c) if is_z3(c) else bool(c)
                    prev, b = b, B['s'][0 if c else 1]
                    break
                if op == 'Jump':
                    prev, b = b, B['s'][0]
                    break
                if op == 'Return':
                    r = self.vals(i['res'], R)
                    return r[0] if len(r) == 1 else tuple(r)
                if op == 'Panic':
                    raise GoPanic('panic')
                if op == 'RunDefers':
                    while defers:
                        c, a = defers.pop()
                        self.call_val(c, a)
                    continue
                if op == 'Defer':
                    c = i['call']
                    if 'invoke' in c:
                        raise Inconclusive('deferred method')
                    defers.append((self.val(c['fn'], R), self.vals(c['args'], R)))
                    continue
                r = self.step(i, op, R)
                if i['r'] is not None:
                    R[i['r']] = r
            else:
                raise Inconclusive('block without end')

    def step(self, i, op, R):
        x = self.x
        if op == 'Alloc':
            return self.alloc(self.T[i['t']]['elem'])
        if op == 'Store':
            a = self.val(i['a'], R)
            if isinstance(a, Big):
                v = self.val(i['v'], R)
                if not isinstance(v, Big):
                    raise Inconclusive('assignment to a big.Int')
                a.neg, a.m, a.bits = v.neg, v.m, v.bits
                return
            return self.store(a, self.val(i['v'], R), i['vt'])
        if op == 'Call':
            return self.docall(i['call'], R)
        if op == 'UnOp':
            v = self.val(i['x'], R)
            o = i['o']
            if o == '*':
                return self.load(v, i['t'])
            if o == '!':
                return zbool(z3.Not(v)) if is_z3(v) else not v
            w = self.width(i['t'])
            if o == '-':
                return simp(-bv(v, w)) if is_z3(v) else -v & MASK[w]
            if o == '^':
                return simp(~bv(v, w)) if is_z3(v) else ~v & MASK[w]
            raise Inconclusive('operator ' + o)
        if op == 'BinOp':
            return self.binop(i['o'], self.val(i['x'], R), self.val(i['y'], R), i['xt'], i['yt'])
        if op in ('ChangeType', 'ChangeInterface'):
            return self.val(i['x'], R)
        if op == 'Convert':
            return self.convert(self.val(i['x'], R), i['xt'], i['t'])
        if op == 'MakeInterface':
            return Iface(i['xt'], self.val(i['x'], R))
        if op == 'MakeClosure':
            return Func(self.val(i['fn'], R).name, self.vals(i['binds'], R))
        if op == 'MakeSlice':
            n, c = self.conc(self.val(i['len'], R)), self.conc(self.val(i['cap'], R))
            if n > 1 << 40 or c < n:
                raise GoPanic('makeslice')
            e = self.T[i['t']]['elem']
            if self.ct(e):
                z = self.T[e]['size']
                return Slice(x.alloc(c * z, 'Go slice', kind='go', fill=0), 0, n, c, z)
            return Slice([self.zero(e) for k in range(c)], 0, n, c, None)
        if op == 'Slice':
            return self.slice(i, R)
        if op == 'FieldAddr':
            v = self.val(i['x'], R)
            T = self.T[self.T[i['xt']]['elem']]
            if isinstance(v, Ptr):
                return x.padd(v, T['fields'][i['f']][1])
            if isinstance(v, GoPtr):
                return GoPtr(v.c, v.path + (i['f'],))
            if v is None or v == 0:
                raise GoPanic('nil dereference')
            raise Inconclusive('field of %r' % (v,))
        if op == 'Field':
            v = self.val(i['x'], R)
            if isinstance(v, tuple) and len(v) == 3 and v[0] == 'C':
                f = self.T[i['xt']]['fields'][i['f']]
                return self.load(x.padd(v[1], f[1]), f[2])
            return v[i['f']]
        if op == 'IndexAddr':
            s, k = self.val(i['x'], R), self.val(i['i'], R)
            k = self.conc(k)
            T = self.T[i['xt']]
            if isinstance(s, Slice):
                if k >= s.n:
                    raise GoPanic('index out of range')
                if isinstance(s.base, list):
                    return GoPtr(Cell(s.base), (s.off + k,))
                return x.padd(s.base, s.off + k * s.esz)
            if T['kind'] == 'ptr' and self.T[T['elem']]['kind'] == 'array':
                A = self.T[T['elem']]
                if k >= A['len']:
                    raise GoPanic('index out of range')
                if isinstance(s, Ptr):
                    return x.padd(s, k * self.T[A['elem']]['size'])
                if isinstance(s, GoPtr):
                    return GoPtr(s.c, s.path + (k,))
            if s is None:
                raise GoPanic('index out of range')
            raise Inconclusive('element of %r' % (s,))
        if op in ('Index', 'Lookup'):
            s, k = self.val(i['x'], R), self.conc(self.val(i['i'], R))
            if k >= len(s):
                raise GoPanic('index out of range')
            return s[k]
        if op == 'Extract':
            return self.val(i['x'], R)[i['i']]
        if op == 'TypeAssert':
            v = self.val(i['x'], R)
            T = self.T[i['at']]
            ok = v is not None and (T['kind'] == 'interface' or v.t == i['at'])
            r = v if T['kind'] == 'interface' else (v.v if ok else self.zero(i['at']))
            if i['ok']:
                return (r if ok else self.zero(i['at']), ok)
            if not ok:
                raise GoPanic('type assertion')
            return r
        raise Inconclusive('Go instruction ' + op)

    def conc(self, v):
        return self.x.concretize(v, 64, what='Go size') if is_z3(v) else v

    def slice(self, i, R):
        s = self.val(i['x'], R)
        lo, hi, mx = [None if i[k] is None else self.conc(self.val(i[k], R)) for k in ('low', 'high', 'max')]
        T = self.T[i['xt']]
        lo = lo or 0
        if T['kind'] == 'basic':
            hi = len(s) if hi is None else hi
            if not lo <= hi <= len(s):
                raise GoPanic('slice bounds')
            return s[lo:hi]
        if T['kind'] == 'ptr':
            A = self.T[T['elem']]
            e = self.T[A['elem']]['size'] if isinstance(s, Ptr) else None
            if isinstance(s, Ptr):
                s = Slice(s, 0, A['len'], A['len'], e)
            elif isinstance(s, GoPtr):
                l = s.c.v
                for k in s.path:
                    l = l[k]
                s = Slice(l, 0, A['len'], A['len'], None)
            else:
                raise GoPanic('nil array')
        elif s is None:
            s = Slice([], 0, 0, 0, None)
        hi = s.n if hi is None else hi
        mx = s.cap if mx is None else mx
        if not lo <= hi <= mx <= s.cap:
            raise GoPanic('slice bounds')
        return Slice(s.base, s.off + lo * (s.esz or 1), hi - lo, mx - lo, s.esz)

    def convert(self, v, ft, tt):
        F, T = self.T[ft], self.T[tt]
        if F['kind'] == 'basic' and T['kind'] == 'basic' and F['int'] and T['int']:
            if T['basic'] == 'uintptr' or F['basic'] == 'uintptr':
                if not isinstance(v, int) and not is_z3(v):
                    return v
            a, b = self.width(ft), self.width(tt)
            if isinstance(v, bool):
                v = int(v)
            if isinstance(v, int):
                return (sgn(v, a) if F['signed'] else v) & MASK[b]
            if b <= a:
                return simp(z3.Extract(b - 1, 0, bv(v, a)))
            return simp(z3.SignExt(b - a, bv(v, a)) if F['signed'] else z3.ZeroExt(b - a, bv(v, a)))
        if F['kind'] == 'basic' and F['str'] and T['kind'] == 'slice':
            return self.bytes(list(v))
        if F['kind'] == 'slice' and T['kind'] == 'basic' and T['str']:
            return tuple(self.data(v))
        if F['kind'] == 'basic' and F['str'] and T['kind'] == 'basic' and T['str']:
            return v
        return v         # pointers

    def norm(self, v):
        return 0 if v is None else v

    def binop(self, o, a, b, ta, tb):
        T = self.T[ta]
        k = T['kind']
        if k == 'basic' and T['str'] and o == '+':
            return tuple(a) + tuple(b)
        if k == 'basic' and T['str'] and o in ('==', '!='):
            r = z3.And(*[bv(p, 8) == bv(q, 8) for p, q in zip(a, b)]) if len(a) == len(b) else z3.BoolVal(False)
            r = zbool(r)
            return r if o == '==' else (z3.Not(r) if is_z3(r) else not r)
        if k == 'basic' and T['basic'] in ('bool', 'untyped bool') and o in ('==', '!='):
            r = zbool(boolz(a) == boolz(b))
            return r if o == '==' else (z3.Not(r) if is_z3(r) else not r)
        if k == 'basic' and T['int'] and not isinstance(a, (Ptr, GoPtr)) and not isinstance(b, (Ptr, GoPtr)):
            w, s = self.width(ta), T['signed']
            if o in ('<<', '>>'):
                wb = self.width(tb)
                if is_z3(b):
                    b = self.x.concretize(b, wb, what='shift')
                if self.T[tb]['signed'] and sgn(b, wb) < 0:
                    raise GoPanic('negative shift')
                b = min(b, w)
                A = bv(a, w)
                if b == w:
                    r = A >> (w - 1) if o == '>>' and s else bv(0, w)
                else:
                    r = A << b if o == '<<' else (A >> b if s else z3.LShR(A, b))
                return simp(r)
            A, B = bv(a, w), bv(b, w)
            if o in ('/', '%'):
                if self.x.branch(B == 0):
                    raise GoPanic('division by zero')
            f = {'+': lambda: A + B, '-': lambda: A - B, '*': lambda: A * B, '&': lambda: A & B, '|': lambda: A | B, '^': lambda: A ^ B, '&^': lambda: A & ~B,
                 '/': lambda: A / B if s else z3.UDiv(A, B), '%': lambda: z3.SRem(A, B) if s else z3.URem(A, B)}.get(o)
            if f:
                return simp(f())
            f = {'==': lambda: A == B, '!=': lambda: A != B, '<': lambda: A < B if s else z3.ULT(A, B), '<=': lambda: A <= B if s else z3.ULE(A, B),
                 '>': lambda: A > B if s else z3.UGT(A, B), '>=': lambda: A >= B if s else z3.UGE(A, B)}.get(o)
            return zbool(f())
        if o in ('==', '!='):
            a, b = self.norm(a), self.norm(b)
            return self.same(a, b) == (o == '==')
        raise Inconclusive('operator %s on %s' % (o, T['name']))

    def same(self, a, b):
        if isinstance(a, Iface) and isinstance(b, Iface):
            return a.v is b.v
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            return a.o is b.o and a.off == b.off
        if isinstance(a, GoPtr) and isinstance(b, GoPtr):
            return a.c is b.c and a.path == b.path
        if isinstance(a, int) and isinstance(b, int):
            return a == b
        if isinstance(a, FnPtr) and isinstance(b, FnPtr):
            return a.name == b.name
        if is_z3(a) or is_z3(b):
            raise Inconclusive('comparison of symbolic pointers')
        return a is b

    # ---- calls
    def docall(self, c, R):
        a = self.vals(c['args'], R)
        if 'invoke' in c:
            v = self.val(c['fn'], R)
            if v is None:
                raise GoPanic('nil interface')
            if isinstance(v.v, Hash):
                return getattr(v.v, c['invoke'])(*a)
            if isinstance(v.v, Error):
                return tuple(b'error')
            T = self.T[v.t]
            if T['kind'] == 'ptr':
                return self.fn('(*%s).%s' % (self.T[T['elem']]['name'], c['invoke']), [v.v] + a)
            return self.fn('(%s).%s' % (T['name'], c['invoke']), [v.v] + a)
        return self.call_val(self.val(c['fn'], R), a, c)

    def call_val(self, f, a, c=None):
        if isinstance(f, Iface):
            f = f.v
        if f is None:
            raise GoPanic('nil function')
        if not isinstance(f, Func):
            raise Inconclusive('call of %r' % (f,))
        if f.name.startswith('builtin '):
            return self.builtin(f.name[8:], a)
        return self.fn(f.name, a, f.binds)

    def builtin(self, n, a):
        if n in ('len', 'cap'):
            v = a[0]
            return 0 if v is None else len(v) if isinstance(v, (tuple, list)) else (v.n if n == 'len' else v.cap)
        if n == 'append':
            s, t = a[0] or Slice([], 0, 0, 0, None), a[1]
            if t is None:
                return a[0]
            if isinstance(t, tuple):
                t = self.bytes(list(t))
            if isinstance(t.base, Ptr) and t.esz == 1:
                return self.bytes(self.data(a[0]) + self.data(t))
            if isinstance(t.base, list) and isinstance(s.base, list):
                l = s.base[s.off:s.off + s.n] + t.base[t.off:t.off + t.n]
                return Slice(l, 0, len(l), len(l), None)
        if n == 'copy':
            d, s = a
            m = min(d.n, len(s) if isinstance(s, tuple) else s.n)
            l = list(s) if isinstance(s, tuple) else self.data(s)
            for k in range(m):
                self.x.st(d.base, d.off + k, 1, l[k])
            return m
        if n == 'ssa:wrapnilchk':
            return a[0]
        raise Inconclusive('builtin ' + n)

    def carg(self, v):
        if v is None:
            return 0
        if isinstance(v, bool):
            return int(v)
        if isinstance(v, z3.BoolRef):
            return bv(v, 8)
        if isinstance(v, (GoPtr, Big, Slice)):
            raise Inconclusive('Go pointer passed to C')
        return v

    def ext(self, name, short, a):
        x = self.x
        if short.startswith('_Cfunc_') or short.startswith('_C2func_'):
            return self.cfunc(short.split('func_', 1)[1], a)
        if short.startswith(('_cgoCheck', '_Cgo_ptr', '_cgo_runtime_cgocall', '_Cgo_use', '_Cgo_keepalive', '_Cgo_no_callback')):
            return a[0] if a else None
        if name == 'runtime.SetFinalizer':
            p, f = a[0].v if a[0] else None, a[1]
            if isinstance(p, GoPtr):
                if f is not None and p.c.fin is not None:
                    raise Fault('panic', 'finalizer already set')
                p.c.fin = f.v if f is not None else None
                self.fins.append(p)
                return
            raise Inconclusive('finalizer of %r' % (p,))
        if name in ('runtime.KeepAlive', 'runtime.GC'):
            return
        if name in ('errors.New', 'fmt.Errorf'):
            return Iface(None, Error())
        if name.startswith('(*math/big.Int).'):
            if not isinstance(a[0], Big):
                raise GoPanic('nil big.Int')
            return self.bigm(name.rsplit('.', 1)[1], *a)
        if name == 'math/big.NewInt':
            b = Big()
            return self.bigm('SetInt64', b, a[0])
        if name.endswith('.init'):
            return None
        raise Inconclusive('call of %s, for which there is no model' % name)

    def cfunc(self, n, a):
        x = self.x
        if n == 'CString':
            p = x.alloc(len(a[0]) + 1, 'C string')
            for i, b in enumerate(tuple(a[0]) + (0,)):
                x.st(p, i, 1, b)
            return p
        if n == 'CBytes':
            d = self.data(a[0])
            p = x.alloc(len(d), 'C bytes')
            for i, b in enumerate(d):
                x.st(p, i, 1, b)
            return p
        if n == 'GoString':
            return tuple(x.cstr(a[0]))
        if n in ('GoBytes', 'GoStringN'):
            k = self.conc(a[1])
            if k >> 31:
                raise GoPanic('negative length')
            l = []
            for i in range(k):
                b = x.ld(a[0], i, 1)
                if isinstance(b, Undef):
                    raise Fault('uninit', 'uninitialised byte handed to Go')
                l.append(b)
            return self.bytes(l) if n == 'GoBytes' else tuple(l)
        cn = n if n in x.prog.funcs or not n.startswith(('mpz_', 'mpq_')) else '__g' + n
        return x.call(cn, *[self.carg(v) for v in a])

    # ---- big integers
    def bigm(self, m, z, *a):
        x = self.x
        for v in a:
            if v is None and m not in ('SetBytes',):
                raise GoPanic('nil big.Int')
        if m == 'SetInt64':
            v = a[0]
            if is_z3(v):
                z.neg, z.m, z.bits = zbool(bv(v, 64) < 0), simp(z3.If(bv(v, 64) < 0, -bv(v, 64), bv(v, 64))), None
            else:
                v = sgn(v, 64)
                z.neg, z.m, z.bits = v < 0, abs(v), abs(v).bit_length()
            return z
        if m == 'SetUint64':
            z.neg, z.m, z.bits = False, a[0], None
            return z
        if m == 'Set':
            z.neg, z.m, z.bits = a[0].neg, a[0].m, a[0].bits
            return z
        if m in ('Neg', 'Abs'):
            s = a[0]
            nz = self.nonzero(s)
            n = False if m == 'Abs' else zbool(z3.And(boolz(nz), z3.Not(boolz(s.neg))))
            z.m, z.bits = s.m, s.bits
            z.neg = n
            return z
        if m == 'Sign':
            nz, ng = boolz(self.nonzero(z)), boolz(z.neg)
            return simp(z3.If(z3.Not(nz), bv(0, 64), z3.If(ng, bv(MASK[64], 64), bv(1, 64))))
        if m in ('Cmp', 'CmpAbs'):
            b = a[0]
            w = max(gmpsym.width(z.m), gmpsym.width(b.m), 1) if is_z3(z.m) or is_z3(b.m) else max(z.m.bit_length(), b.m.bit_length(), 1)
            A, B = bv(z.m, w), bv(b.m, w)
            if b.m == 0 if not is_z3(b.m) else False:
                # comparison with zero: the sign
                return self.bigm('Sign', z) if m == 'Cmp' else simp(z3.If(boolz(self.nonzero(z)), bv(1, 64), bv(0, 64)))
            cmpu = lambda p, q: z3.If(p == q, bv(0, 64), z3.If(z3.ULT(p, q), bv(MASK[64], 64), bv(1, 64)))
            if m == 'CmpAbs':
                return simp(cmpu(A, B))
            an, bn = boolz(z.neg), boolz(b.neg)
            return simp(z3.If(an, z3.If(bn, cmpu(B, A), bv(MASK[64], 64)), z3.If(bn, bv(1, 64), cmpu(A, B))))
        if m == 'BitLen':
            return self.bitlen(z)
        if m in ('Bytes', 'FillBytes'):
            n = (self.bitlen(z) + 7) // 8
            if m == 'FillBytes':
                if n > a[0].n:
                    raise GoPanic('too large')
                n = a[0].n
            v = bv(z.m, 8 * n) if n and (not is_z3(z.m) or z.m.size() <= 8 * n) else (z3.Extract(8 * n - 1, 0, z.m) if n else None)
            l = [simp(z3.Extract(8 * (n - i) - 1, 8 * (n - i - 1), v)) for i in range(n)]
            if m == 'Bytes':
                return self.bytes(l)
            for i, b in enumerate(l):
                x.st(a[0].base, a[0].off + i, 1, b)
            return a[0]
        if m == 'SetBytes':
            l = self.data(a[0])
            for b in l:
                if isinstance(b, Undef):
                    raise Fault('uninit', 'byte of a big integer')
            z.m = simp(z3.Concat(*[bv(b, 8) for b in l])) if len(l) > 1 else (l[0] if l else 0)
            z.neg, z.bits = False, None
            return z
        if m == 'Mod':
            s, q = a
            if is_z3(q.m) or q.neg is not False:
                raise Inconclusive('big.Int.Mod')
            if q.m == 0:
                raise GoPanic('division by zero')
            r = kmod(x, s.m, q.m)
            w = q.m.bit_length() + 1
            r = bv(r, w)
            z.m, z.neg, z.bits = simp(z3.If(z3.And(boolz(s.neg), r != 0), q.m - r, r)), False, None
            return z
        raise Inconclusive('no model of big.Int.' + m)

    def nonzero(self, b):
        if b.bits is not None:
            return b.bits > 0
        return zbool(b.m != 0) if is_z3(b.m) else b.m != 0

    def bitlen(self, b):
        if b.bits is not None:
            return b.bits
        if not is_z3(b.m):
            return b.m.bit_length()
        m = b.m
        for k in range((m.size() + 7) // 8):      # by bytes
            hi = min(8 * k + 8, m.size())
            if hi == m.size() or self.x.branch(z3.LShR(m, hi) == 0):
                if k == 0 and self.x.branch(m == 0):
                    return 0
                return hi
        return m.size()


# ------------------------------------------------------------------------------------------------ the real package
SERVER = r'''package ecgo
// #include <stdlib.h>
// extern void vf_draws(const char *s);
import "C"
import ("bufio"; "encoding/hex"; "encoding/json"; "hash"; "math/big"; "os"; "reflect"; "runtime"; "time"; "runtime/debug")
var vfFuncs = map[string]any{ %s }
type vfHash struct { size int; sum []byte; log []byte }
func (h *vfHash) Write(p []byte) (int, error) { h.log = append(h.log, p...); return len(p), nil }
func (h *vfHash) Sum(b []byte) []byte { return append(b, h.sum...) }
func (h *vfHash) Reset() { h.log = nil }
func (h *vfHash) Size() int { return h.size }
func (h *vfHash) BlockSize() int { return 64 }
type vfArg struct { H *int; I *string; S *string; B *string }
type vfReq struct { Op, Name string; Args []vfArg; Obj int; Keep []int; V string; N int }
var vfH = map[int]reflect.Value{}
var vfN int
func vfDraws(s string) { C.vf_draws(C.CString(s)) }
func vfPut(v reflect.Value) int { vfN++; vfH[vfN] = v; return vfN }
func vfArgs(t reflect.Type, as []vfArg, skip int) []reflect.Value {
	var r []reflect.Value
	for i, a := range as {
		pt := t.In(i + skip)
		switch {
		case a.H != nil:
			v := vfH[*a.H]
			if !v.IsValid() { v = reflect.Zero(pt) }
			r = append(r, v)
		case a.I != nil:
			n := new(big.Int); n.SetString(*a.I, 10)
			v := reflect.New(pt).Elem()
			if pt.Kind() >= reflect.Uint && pt.Kind() <= reflect.Uintptr { v.SetUint(n.Uint64()) } else { v.SetInt(n.Int64()) }
			r = append(r, v)
		case a.S != nil:
			b, _ := hex.DecodeString(*a.S); r = append(r, reflect.ValueOf(string(b)))
		case a.B != nil:
			b, _ := hex.DecodeString(*a.B); r = append(r, reflect.ValueOf(b))
		}
	}
	return r
}
func vfShow(v reflect.Value) map[string]any {
	if !v.IsValid() { return map[string]any{"k": "nil"} }
	switch v.Kind() {
	case reflect.Ptr, reflect.Interface, reflect.Slice:
		if v.IsNil() && v.Kind() != reflect.Slice { return map[string]any{"k": "nil"} }
	}
	switch x := v.Interface().(type) {
	case *big.Int: return map[string]any{"k": "big", "v": x.String()}
	case []byte: return map[string]any{"k": "bytes", "v": hex.EncodeToString(x)}
	case string: return map[string]any{"k": "string", "v": hex.EncodeToString([]byte(x))}
	case bool: return map[string]any{"k": "bool", "b": x}
	case []string: return map[string]any{"k": "strings", "l": x}
	case error: return map[string]any{"k": "error"}
	}
	switch v.Kind() {
	case reflect.Int, reflect.Int64, reflect.Int32: return map[string]any{"k": "int", "v": big.NewInt(v.Int()).String()}
	case reflect.Uint, reflect.Uint64, reflect.Uint32: return map[string]any{"k": "int", "v": new(big.Int).SetUint64(v.Uint()).String()}
	}
	return map[string]any{"k": "obj", "v": v.Type().String()}
}
func vfDo(q *vfReq) (rep map[string]any) {
	defer func() { if e := recover(); e != nil { rep = map[string]any{"panic": true} } }()
	var out []reflect.Value
	switch q.Op {
	case "big": n := new(big.Int); n.SetString(q.V, 10); out = append(out, reflect.ValueOf(n))
	case "hash": b, _ := hex.DecodeString(q.V); var h hash.Hash = &vfHash{size: q.N, sum: b, log: []byte{0x5a}}; out = append(out, reflect.ValueOf(h))
	case "hashed": out = append(out, reflect.ValueOf(append([]byte{}, vfH[q.Obj].Interface().(*vfHash).log...)))
	case "call": f := reflect.ValueOf(vfFuncs[q.Name]); out = f.Call(vfArgs(f.Type(), q.Args, 0))
	case "method": f := vfH[q.Obj].MethodByName(q.Name); out = f.Call(vfArgs(f.Type(), q.Args, 0))
	case "show": out = append(out, vfH[q.Obj])
	case "draws": vfDraws(q.V)
	case "gc":
		k := map[int]reflect.Value{}
		for _, i := range q.Keep { k[i] = vfH[i] }
		vfH = k
		for i := 0; i < 6; i++ { runtime.GC(); time.Sleep(5 * time.Millisecond) }
	}
	var l []any
	for _, v := range out { m := vfShow(v); m["h"] = vfPut(v); l = append(l, m) }
	return map[string]any{"r": l}
}
func VFServe() {
	debug.SetPanicOnFault(false)
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	for {
		line, err := in.ReadBytes('\n')
		if err != nil { return }
		var q vfReq
		if e := json.Unmarshal(line, &q); e != nil { panic(e) }
		b, _ := json.Marshal(vfDo(&q))
		os.Stdout.Write(append(b, '\n'))
	}
}
'''


def goserver(variant):
    """the server program of one variant; returned as the path of the C library next to it"""
    with _lock:
        return _goserver(variant)


_lock = threading.Lock()


def _goserver(variant):
    lib = os.path.join(scratch(), 'libgo_%s.so' % variant)
    out = lib + '.goserver'
    if os.path.exists(out):
        return lib
    fl = ['-O1', '-fsanitize=address,undefined', '-fno-sanitize-recover=undefined', '-fno-omit-frame-pointer'] if variant == 'asan' else ['-O2']
    sh(['gcc', '-g', '-w', '-fPIC', '-shared', '-Wl,--wrap=mpz_urandom', *fl, '-I' + REPO + '/include', *lib_sources(), os.path.join(HERE, 'native', 'gorandom.c'), '-lgmp', '-o', lib])
    d = os.path.join(scratch(), 'gosrv_%s_%d' % (variant, os.getpid()))
    src = os.path.join(d, 'src', 'ecgo')
    os.makedirs(src)
    for s in gosources():
        t = re.sub(r'#cgo\s+LDFLAGS:.*-lecc', '#cgo LDFLAGS: ', open(s).read())
        open(os.path.join(src, os.path.basename(s)), 'w').write(t)
    names = [n for n in gossa()['members'] if not n.startswith(('_', 'init')) and not gossa()['funcs'][gossa()['members'][n]]['name'].startswith('init')]
    open(os.path.join(src, 'vfserver.go'), 'w').write(SERVER % ', '.join('"%s": %s' % (n, n) for n in names))
    os.makedirs(os.path.join(d, 'src', 'vfmain'))
    open(os.path.join(d, 'src', 'vfmain', 'main.go'), 'w').write('package main\nimport "ecgo"\nfunc main() { ecgo.VFServe() }\n')
    env = dict(goenv(), GO111MODULE='off', GOPATH=d, CGO_LDFLAGS='%s -lgmp -Wl,-rpath,%s' % (lib, os.path.dirname(lib)))
    fl = ['-asan'] if variant == 'asan' else []
    sh(['go', 'build', *fl, '-o', out + '.tmp', 'vfmain'], env=env, cwd=d)
    os.rename(out + '.tmp', out)
    return lib


class GoReal:
    native = True

    def __init__(self, x, lib):
        self.x = x
        e = dict(os.environ)
        e.pop('LD_PRELOAD', None)
        self.p = subprocess.Popen([lib + '.goserver'], stdin=subprocess.PIPE, stdout=subprocess.PIPE, env=e, text=True)

    def req(self, **q):
        try:
            self.p.stdin.write(json.dumps(q) + '\n')
            self.p.stdin.flush()
            l = self.p.stdout.readline()
        except BrokenPipeError:
            l = ''
        if not l:
            print('ERROR: the Go program died')
            sys.stdout.flush()
            os.abort()
        r = json.loads(l)
        if r.get('panic'):
            return Panicked()
        r = r['r'] or []
        return r[0] if len(r) == 1 else tuple(r)

    def big(self, m, neg=False, bits=None):
        m = simp(m) if is_z3(m) else m
        n = self.x.branch(neg) if is_z3(neg) else neg
        return self.req(Op='big', V=str(-m if n else m))

    def bytes(self, l):
        return {'b': bytes(simp(v) if is_z3(v) else v for v in l).hex()}

    def string(self, l):
        return {'s': (l.encode() if isinstance(l, str) else bytes(simp(v) if is_z3(v) else v for v in l)).hex()}

    def hash(self, size, total):
        return self.req(Op='hash', N=size, V=bytes(simp(v) if is_z3(v) else v for v in total).hex())

    def hashed(self, h):
        return list(bytes.fromhex(self.req(Op='hashed', Obj=h['h'])['v']))

    def draws(self, vals, n):
        self.req(Op='draws', V=','.join('%x' % (simp(v) if is_z3(v) else v) for v in vals))

    def _args(self, a):
        out = []
        for v in a:
            v = simp(v) if is_z3(v) else v
            if isinstance(v, int):
                out.append({'I': str(v)})
            elif 'b' in v and 'k' not in v:
                out.append({'B': v['b']})
            elif 's' in v:
                out.append({'S': v['s']})
            else:
                out.append({'H': v['h']})
        return out

    def call(self, name, *a):
        return self.req(Op='call', Name=name, Args=self._args(a))

    def method(self, o, name, *a):
        return self.req(Op='method', Obj=o['h'], Name=name, Args=self._args(a))

    def panicked(self, r):
        return isinstance(r, Panicked)

    def isnil(self, v):
        return v['k'] == 'nil'

    def _show(self, v):
        return self.req(Op='show', Obj=v['h']) if v['k'] == 'big' else v

    def bigval(self, b):
        v = int(self._show(b)['v'])
        return v < 0, abs(v)

    def data(self, s):
        return list(bytes.fromhex(s['v'] if 'v' in s else s['b']))

    def text(self, s):
        return list(bytes.fromhex(s['v']))

    def strings(self, s):
        return s['l']

    def boolean(self, v):
        return v['b']

    def int(self, v, bits=64):
        return int(v['v']) & MASK[64]

    def gc(self, *keep):
        self.req(Op='gc', Keep=[k['h'] for k in keep])

    def done(self):
        self.gc()
        self.p.stdin.close()
        if self.p.wait():
            print('ERROR: the Go program died')
            sys.stdout.flush()
            os.abort()


def make(x):
    return GoReal(x, x.lib._name) if x.native else GoSym(x)


def gotask(name, fn, **kw):
    kw.setdefault('variants', ('plain', 'asan'))
    return Task(name, fn, prog=goprogram, native_lib=goserver, **kw)
