"""CPython 3.12 as seen by an extension module: a symbolic model of the API entry points the binding uses, on objects with
CPython's own layout (reference counts and type slots are real memory that the real code reads and writes), and the same
interface implemented by the real interpreter with the real extension for replay."""
import gc, importlib.machinery, importlib.util, sys as _sys, threading, types as _types
from vf import *
from sym import sgn, MASK

PYINC = '/usr/include/python3.12'
IMMORTAL = 0xffffffff
OFF = dict(basicsize=32, dealloc=48, getattr=64, repr=88, as_number=96, hash=120, str=136, getattro=144, flags=168, richcompare=200, methods=232, base=256, init=296,
           alloc=304, new=312, free=320)
NB = dict(add=0, sub=8, mul=16, pow=40, neg=48, int=128)
FLAG = dict(int=1 << 24, bool=1 << 24, list=1 << 25, tuple=1 << 26, bytes=1 << 27, str=1 << 28, dict=1 << 29)
TYPES = ('FieldElement', 'ECurve', 'ECPoint', 'ECDSASignature', 'ECDSASignatureScheme', 'ECElgamalCiphertext')
CMP = {'<': 0, '<=': 1, '==': 2, '!=': 3, '>': 4, '>=': 5}
SYM = {'+': 'add', '-': 'sub', '*': 'mul'}


def pysources():
    return sorted(glob.glob(REPO + '/python/*.c')) + lib_sources()


def pyflags():
    return ['-I' + REPO + '/python', '-I' + PYINC]


def pyprogram():
    return program(pysources(), cflags=pyflags())


def pynative(variant, extra=(), tag=''):
    """the extension with the library linked in"""
    with _lock:
        out = os.path.join(scratch(), 'ECC_%s%s.so' % (variant, tag))
        return out if os.path.exists(out) else _pynative(variant, extra, out)


_lock = threading.Lock()


def _pynative(variant, extra, out):
    fl = {'plain': ['-O1', '-fstack-protector-all'], 'zero': ['-O1', '-ftrivial-auto-var-init=zero'], 'pattern': ['-O1', '-ftrivial-auto-var-init=pattern'],
          'asan': ['-O1', '-fsanitize=address', '-fno-omit-frame-pointer']}[variant]
    tmp = out + '.%d' % os.getpid()
    sh(['gcc', '-g', '-w', '-fPIC', '-shared', *fl, *extra, '-I' + REPO + '/include', *pyflags(), *pysources(), '-lgmp', '-o', tmp])
    os.rename(tmp, out)
    return out


def pynative_random(variant):
    return pynative(variant, ('-Wl,--wrap=mpz_urandom', os.path.join(HERE, 'native', 'fakerandom.c')), '_r')


class Exc:
    def __init__(self, kind):
        self.kind = kind

    def __repr__(self):
        return 'Exc(%s)' % self.kind


class PySym:
    """the model"""
    native = False

    def __init__(self, x):
        self.x = x
        self.err = None
        self.types = {}
        self.ints, self.strs, self.byts, self.seqs, self.extra = {}, {}, {}, {}, {}
        x.ctx['py'] = self
        x.ctx['extern_global'] = self._extern
        x.cfg.stubs.update(STUBS)
        x.cfg.globals_extra = True
        self.T, self.objs, self.bad = {}, [], set()
        m = x.call('PyInit_ECC')
        for t in TYPES:
            self.T[t] = x.gptr(t + 'Type')
        self.none = x.gptr('_Py_NoneStruct')

    # ---- objects
    def _typeobj(self, name):
        t = self.types.get(name)
        if t is None:
            x = self.x
            t = x.alloc(416, 'type ' + name, kind='global', fill=0)
            self.types[name] = t
            x.st(t, 0, 8, IMMORTAL)
            x.st(t, OFF['flags'], 8, FLAG.get(name, 0))
            x.st(t, OFF['dealloc'], 8, FnPtr('~py_dealloc'))
            if name in ('int', 'bool', 'float', 'str', 'bytes', 'NoneType', 'dict'):
                nb = x.alloc(288, 'number methods of ' + name, kind='global', fill=0)
                x.st(t, OFF['as_number'], 8, nb)
                if name in ('int', 'bool', 'float'):
                    for k in ('add', 'sub', 'mul', 'pow'):
                        x.st(nb, NB[k], 8, FnPtr('~py_notimpl'))
                    x.st(nb, NB['neg'], 8, FnPtr('~py_neg'))
            x.st(t, OFF['repr'], 8, FnPtr('~py_repr'))
        return t

    def _extern(self, ex, key, o):
        name = {'_Py_NoneStruct': 'NoneType', '_Py_TrueStruct': 'bool', '_Py_FalseStruct': 'bool', '_Py_NotImplementedStruct': 'NotImplementedType'}.get(key)
        o.fill = 0
        p = Ptr(o, 0)
        if name:
            ex.st(p, 0, 8, IMMORTAL)
            ex.st(p, 8, 8, self._typeobj(name))
            if name == 'bool':
                self.ints[id(o)] = (False, int(key == '_Py_TrueStruct'), None)
        elif key.startswith('PyExc_'):
            e = ex.alloc(16, key, kind='global', fill=0)
            ex.st(e, 0, 8, IMMORTAL)
            self.extra[id(e.o)] = key[6:]
            ex.st(p, 0, 8, e)
        elif key in ('PyFunction_Type', 'PyModule_Type'):
            ex.st(p, 0, 8, IMMORTAL)
            ex.st(p, OFF['dealloc'], 8, FnPtr('~py_dealloc'))
            ex.st(p, OFF['repr'], 8, FnPtr('~py_repr'))
            self.types[key] = p

    def obj(self, tname, size=32):
        o = self.x.alloc(size, 'py ' + tname, fill=0)
        self.x.st(o, 0, 8, 1)
        self.x.st(o, 8, 8, self._typeobj(tname))
        self.objs.append(o)
        return o

    def sweep(self):
        """what the garbage collector relies on: containers refer to live objects only"""
        for o in self.objs:
            if o.o.alive:
                for i in self.seqs.get(id(o.o), ()):
                    if i is not None and not i.o.alive:
                        raise Fault('use-after-free', 'a container still refers to a released object')

    def tname(self, o):
        t = self.x.ld(o, 8, 8)
        for n, p in list(self.types.items()) + list(self.T.items()):
            if isinstance(t, Ptr) and p.o is t.o:
                return n
        raise Inconclusive('object of unknown type')

    def incref(self, o):
        c = self.x.ld(o, 0, 8)
        if isinstance(c, Undef):
            raise Fault('uninit', 'reference count')
        if isinstance(c, int) and not (c & 0x80000000):
            self.x.st(o, 0, 8, c + 1)

    def decref(self, o):
        if isinstance(o, Exc):
            return
        c = self.x.ld(o, 0, 8)
        if isinstance(c, int) and c & 0x80000000:
            return
        c = (c - 1) & MASK64
        self.x.st(o, 0, 8, c)
        if c == 0:
            self.dealloc(o)

    def dealloc(self, o):
        t = self.x.ld(o, 8, 8)
        f = self.x.ld(t, OFF['dealloc'], 8)
        self.x.call_fn(f, [o])

    def refs(self, o):
        return simp(self.x.ld(o, 0, 8))

    def hold(self, o):
        """one more reference held by the harness"""
        self.incref(o)

    # ---- constructors of ordinary values
    def int(self, v, neg=False, bits=None):
        o = self.obj('int')
        self.ints[id(o.o)] = (neg, v if is_z3(v) else abs(v), bits)
        if not is_z3(v) and v < 0:
            self.ints[id(o.o)] = (True, -v, bits)
        return o

    def str(self, s):
        o = self.obj('str', 56)
        self.strs[id(o.o)] = list(s.encode('latin1')) if isinstance(s, str) else list(s)
        return o

    def badstr(self):
        """a string no encoding exists for (a lone surrogate)"""
        o = self.str('?')
        self.bad.add(id(o.o))
        return o

    def bytes(self, b):
        o = self.obj('bytes', 40)
        self.byts[id(o.o)] = list(b)
        self.extra[id(o.o)] = self.x.mkbytes(list(b) + [0], 'bytes data')
        return o

    def tuple(self, items, own=False):
        o = self.obj('tuple', 40)
        for i in items:
            if i is not None:
                self.incref(i)
        self.seqs[id(o.o)] = list(items)
        return o

    def list(self, items=()):
        o = self.tuple(items)
        self.x.st(o, 8, 8, self._typeobj('list'))
        return o

    def other(self, kind):
        """an operand of an unrelated type"""
        if kind == 'none':
            return self.none
        if kind == 'str':
            return self.str('abc')
        if kind == 'bytes':
            return self.bytes(b'abc')
        if kind == 'list':
            return self.list([])
        if kind == 'tuple':
            return self.tuple([])
        if kind == 'dict':
            return self.obj('dict')
        return self.obj({'float': 'float', 'object': 'object'}[kind])

    def module(self, digest_size, hashbytes, broken=()):
        """a hash module in the style of Crypto.Hash: digest_size, new(msg).digest()"""
        x = self.x
        x.gptr('PyModule_Type'), x.gptr('PyFunction_Type')
        m = self.obj('PyModule_Type')
        d = self.obj('dict')
        f = self.obj('PyFunction_Type')
        ents = {'new': f, 'digest_size': self.int(digest_size) if digest_size is not None else None}
        if 'new-missing' in broken:
            ents['new'] = None
        if 'new-int' in broken:
            ents['new'] = self.int(3)
        if 'size-str' in broken:
            ents['digest_size'] = self.str('20')
        self.extra[id(m.o)] = ('module', d, list(hashbytes), [])
        self.extra[id(d.o)] = ('dict', ents)
        self.extra[id(f.o)] = ('hashnew', m, tuple(broken))
        return m

    def hashed(self, m):
        """the messages the hash module was given"""
        return self.extra[id(m.o)][3]

    # ---- operations
    def ret(self, r):
        """outcome of a call that returns an object"""
        if isinstance(r, Undef):
            raise Fault('uninit', 'returned object')
        err, self.err = self.err, None
        if isinstance(r, int):
            if r != 0:
                raise Inconclusive('integer object pointer')
            return Exc(err or 'SystemError')
        if err is not None:
            self.decref(r)
            return Exc('SystemError')
        return r

    def _argtuple(self, args):
        return self.tuple(args)

    def new(self, tname, *args):
        x, T = self.x, self.T[tname]
        a = self.tuple(args)
        o = self.ret(x.call_fn(x.ld(T, OFF['new'], 8), [T, a, 0]))
        if not isinstance(o, Exc):
            r = simp(x.call_fn(x.ld(T, OFF['init'], 8), [o, a, 0]))
            err, self.err = self.err, None
            if not isinstance(r, int):
                raise Inconclusive('symbolic tp_init status')
            if r & 0xffffffff:
                self.decref(o)
                o = Exc(err or 'SystemError')
            elif err:
                self.decref(o)
                o = Exc('SystemError')
        self.decref(a)
        return o

    def _slot(self, o, k):
        nb = self.x.ld(self.x.ld(o, 8, 8), OFF['as_number'], 8)
        f = self.x.ld(nb, NB[k], 8) if isinstance(nb, Ptr) else 0
        return f if not isinstance(f, int) else None

    def isni(self, r):
        return isinstance(r, Ptr) and r.o.name == '@_Py_NotImplementedStruct'

    def binop(self, op, a, b, third=None):
        k = SYM.get(op, op)
        extra = [] if third is None else [third]
        ta, tb = self.x.ld(a, 8, 8), self.x.ld(b, 8, 8)
        fa, fb = self._slot(a, k), self._slot(b, k)
        if ta.o is tb.o or (fa is not None and fb is not None and fa.name == fb.name):
            fb = None
        for f in (fa, fb):
            if f is None:
                continue
            r = self.x.call_fn(f, [a, b] + extra)
            if not self.isni(r):
                return self.ret(r)
            if self.err:
                self.err = None
                return Exc('SystemError')
        return Exc('TypeError')

    def pow(self, a, b, c=None):
        return self.binop('pow', a, b, self.none if c is None else c)

    def neg(self, a):
        f = self._slot(a, 'neg')
        return self.ret(self.x.call_fn(f, [a]))

    def int_of(self, a):
        return self.ret(self.x.call_fn(self._slot(a, 'int'), [a]))

    def cmp(self, op, a, b):
        k = CMP[op]
        swap = [0, 0, 2, 3, 0, 0]
        swap = {0: 4, 1: 5, 2: 2, 3: 3, 4: 0, 5: 1}
        for p, q, kk in ((a, b, k), (b, a, swap[k])):
            f = self.x.ld(self.x.ld(p, 8, 8), OFF['richcompare'], 8)
            if isinstance(f, int):
                continue
            r = self.x.call_fn(f, [p, q, kk])
            if not self.isni(r):
                return self.ret(r)
        if op in ('==', '!='):
            same = a.o is b.o
            return self.bool(same if op == '==' else not same)
        return Exc('TypeError')

    def bool(self, v):
        return self.x.gptr('_Py_TrueStruct' if v else '_Py_FalseStruct')

    def _methods(self, T):
        x = self.x
        p = x.ld(T, OFF['methods'], 8)
        while True:
            n = x.ld(p, 0, 8)
            if isinstance(n, int):
                return
            yield x.pystr(n), x.ld(p, 8, 8), x.ld(p, 16, 4)
            p = x.padd(p, 32)

    def method(self, o, name, *args):
        x = self.x
        if isinstance(o, str):
            T, recv = self.T[o], 0
        else:
            T, recv = x.ld(o, 8, 8), o
        for n, f, fl in self._methods(T):
            if n != name:
                continue
            if fl & 0x20:
                recv = 0
            if fl & 4:
                return self.ret(x.call_fn(f, [recv, 0]))
            if fl & 8:
                return self.ret(x.call_fn(f, [recv, args[0]]))
            a = self.tuple(args)
            r = x.call_fn(f, [recv, a] + ([0] if fl & 2 else []))
            self.decref(a)
            return self.ret(r)
        raise Inconclusive('no method ' + name)

    def getattr(self, o, name):
        s = self.str(name)
        r = self.getattr_o(o, s)
        self.decref(s)
        return r

    def getattr_o(self, o, s):
        T = self.x.ld(o, 8, 8)
        f = self.x.ld(T, OFF['getattro'], 8)
        return self.ret(self.x.call_fn(f, [o, s]))

    def repr(self, o, slot='repr'):
        f = self.x.ld(self.x.ld(o, 8, 8), OFF[slot], 8)
        return self.ret(self.x.call_fn(f, [o]))

    def str_of(self, o):
        return self.repr(o, 'str')

    # ---- reading values back
    def kind(self, o):
        return o.kind if isinstance(o, Exc) else self.tname(o)

    def is_true(self, o):
        if o.o.name == '@_Py_TrueStruct':
            return True
        if o.o.name == '@_Py_FalseStruct':
            return False
        raise Inconclusive('not a truth value')

    def intval(self, o):
        self.x.ld(o, 0, 8)
        return self.ints[id(o.o)][:2]

    def text(self, o):
        """pieces of a string: byte values, and (neg, magnitude) for a printed integer"""
        self.x.ld(o, 0, 8)
        return self.strs[id(o.o)]

    def data(self, o):
        self.x.ld(o, 0, 8)
        return self.byts[id(o.o)]

    def items(self, o):
        self.x.ld(o, 0, 8)
        return self.seqs[id(o.o)]

    def tokens(self, o):
        return normal(self.text(o))


MASK64 = (1 << 64) - 1


def normal(ps):
    """pieces with literal runs joined"""
    out, run = [], []
    for p in ps:
        if isinstance(p, tuple):
            if run:
                out.append(run)
            run = []
            out.append(p)
        else:
            run.append(p)
    if run:
        out.append(run)
    return out


# ------------------------------------------------------------------------------------------------ API model
STUBS = {}


def api(*names):
    def d(f):
        for n in names:
            STUBS[n] = lambda ex, a, f=f: f(ex, ex.ctx['py'], a)
        return f
    return d


@api('PyType_Ready')
def _(ex, py, a):
    for k, fn in (('alloc', 'PyType_GenericAlloc'), ('free', 'PyObject_Free')):
        if isinstance(ex.ld(a[0], OFF[k], 8), int):
            ex.store(ex.padd(a[0], OFF[k]), 8, FnPtr(fn))
    return 0


@api('PyModule_Create2')
def _(ex, py, a):
    return py.obj('module')


@api('PyModule_AddObject')
def _(ex, py, a):
    return 0


@api('PyType_GenericAlloc')
def _(ex, py, a):
    n = ex.ld(a[0], OFF['basicsize'], 8)
    o = ex.alloc(n, 'instance', fill=0)
    ex.st(o, 0, 8, 1)
    ex.st(o, 8, 8, a[0])
    return o


@api('PyObject_Free')
def _(ex, py, a):
    ex.free(a[0])


@api('_Py_Dealloc')
def _(ex, py, a):
    py.dealloc(a[0])


@api('~py_dealloc')
def _(ex, py, a):
    k = id(a[0].o)
    items = py.seqs.get(k, ())
    ex.free(a[0])
    for i in items:
        if i is not None:
            py.decref(i)


@api('~py_notimpl')
def _(ex, py, a):
    return ex.gptr('_Py_NotImplementedStruct')


@api('~py_neg')
def _(ex, py, a):
    if py.tname(a[0]) == 'float':
        return py.obj('float')
    n, m, b = py.ints[id(a[0].o)]
    r = py.int(m, bits=b)
    py.ints[id(r.o)] = (notz(n), m, b)
    return r


def notz(n):
    return (not n) if isinstance(n, bool) else simp_bool(z3.Not(n))


def simp_bool(b):
    b = z3.simplify(b)
    return True if z3.is_true(b) else False if z3.is_false(b) else b


@api('~py_repr')
def _(ex, py, a):
    t = py.tname(a[0])
    if t in ('int', 'bool'):
        return py.str([py.ints[id(a[0].o)][:2]])
    return py.str('<%s>' % t)


@api('PyArg_ParseTuple')
def _(ex, py, a):
    items = py.items(a[0])
    fmt = ex.pystr(a[1])
    fmt = fmt.split(':')[0].split(';')[0]
    req, k, opt = 0, 0, False
    units = fmt.replace('|', '')
    need = len(fmt.split('|')[0])
    if not need <= len(items) <= len(units):
        py.err = 'TypeError'
        return 0
    for u, it, dst in zip(units, items, a[2:]):
        if u == 'O':
            ex.store(dst, 8, it)
        elif u == 'i':
            if py.tname(it) not in ('int', 'bool'):
                py.err = 'TypeError'
                return 0
            n, m, b = py.ints[id(it.o)]
            W = max(gmpsym.width(m) + 1, 64)
            v = bv(m, W)
            if n is not False:
                v = z3.If(z3.BoolVal(n) if isinstance(n, bool) else n, -v, v)
            v = z3.simplify(v)
            if ex.branch(z3.Or(v > (1 << 31) - 1, v < -(1 << 31))):
                py.err = 'OverflowError'
                return 0
            ex.store(dst, 4, simp(z3.Extract(31, 0, v)))
        elif u == 's':
            if py.tname(it) != 'str':
                py.err = 'TypeError'
                return 0
            if any(isinstance(b, int) and b == 0 for b in py.strs[id(it.o)]):
                py.err = 'ValueError'
                return 0
            u8 = utf8(ex, py, it)
            if isinstance(u8, int):
                return 0
            ex.store(dst, 8, u8)
        else:
            raise Inconclusive('argument format ' + fmt)
    return 1


def utf8(ex, py, o):
    k = id(o.o)
    if k in py.bad:
        py.err = 'UnicodeEncodeError'
        return 0
    if k not in py.extra:
        bs = py.strs[k]
        if any(isinstance(b, tuple) for b in bs):
            raise Inconclusive('text of a formatted string')
        py.extra[k] = ex.mkbytes(bs + [0], 'utf8')
    return py.extra[k]


@api('PyErr_SetString')
def _(ex, py, a):
    py.err = py.extra[id(a[0].o)]


@api('PyErr_Clear')
def _(ex, py, a):
    py.err = None


@api('PyErr_ExceptionMatches')
def _(ex, py, a):
    return int(py.err == py.extra[id(a[0].o)])


@api('PyErr_Occurred')
def _(ex, py, a):
    return 0 if py.err is None else ex.gptr('_Py_NoneStruct')


@api('PyErr_NoMemory')
def _(ex, py, a):
    py.err = 'MemoryError'
    return 0


@api('PyType_IsSubtype')
def _(ex, py, a):
    return int(a[0].o is a[1].o)


@api('_PyLong_NumBits')
def _(ex, py, a):
    n, m, b = py.ints[id(a[0].o)]
    if b is not None:
        return b
    if isinstance(m, int):
        return m.bit_length()
    w = m.size()
    r = z3.BitVecVal(0, 64)
    for i in range(w):
        r = z3.If(z3.Extract(i, i, m) == 1, z3.BitVecVal(i + 1, 64), r)
    return ex.concretize(simp(r), 64, what='bit length')


@api('_PyLong_Sign')
def _(ex, py, a):
    n, m, b = py.ints[id(a[0].o)]
    if (b is None or b == 0) and ex.branch(bv(m, max(1, gmpsym.width(m))) == 0 if is_z3(m) else z3.BoolVal(m == 0)):
        return 0
    return 0xffffffff if (n if isinstance(n, bool) else ex.branch(n)) else 1


@api('_PyLong_AsByteArray')
def _(ex, py, a):
    n, m, _b = py.ints[id(a[0].o)]
    cnt, little, signed = ex.concretize(a[2], 64), ex.concretize(a[3], 32), ex.concretize(a[4], 32)
    n = n if isinstance(n, bool) else ex.branch(n)
    if n and isinstance(m, int) and m == 0:
        n = False
    w = max(8 * cnt + 1, gmpsym.width(m) + 1, 2)
    mm = bv(m, w)
    if not signed and n:
        py.err = 'OverflowError'
        return 0xffffffff
    lim = 1 << (8 * cnt - (1 if signed else 0)) if cnt else 1
    fits = z3.ULE(mm, z3.BitVecVal(lim, w)) if n else z3.ULT(mm, z3.BitVecVal(lim, w))
    ok = ex.branch(simp_bool(fits)) if not isinstance(simp_bool(fits), bool) else simp_bool(fits)
    v = -mm if n else mm
    bs = [simp(z3.Extract(8 * i + 7, 8 * i, v)) for i in range(cnt)]
    if not little:
        bs.reverse()
    for i, b in enumerate(bs):
        ex.store(ex.padd(a[1], i), 1, b)
    if not ok:
        py.err = 'OverflowError'
        return 0xffffffff
    return 0


@api('_PyLong_FromByteArray')
def _(ex, py, a):
    little, signed = ex.concretize(a[2], 32), simp(a[3])
    cnt = simp(a[1])
    if not isinstance(cnt, int):
        k = ex.ctx.get('export_count', {}).get(cnt.get_id())
        if k and k[0] is a[0].o and little and signed == 0:
            cnt = k[1]              # the bytes from the (symbolic) count up to this are zero
        else:
            cnt = ex.concretize(cnt, 64, what='byte count')
    bs = [ex.load(ex.padd(a[0], i), 1) for i in range(cnt)]
    if any(isinstance(b, Undef) for b in bs):
        raise Fault('uninit', 'integer made from uninitialised bytes')
    if not little:
        bs.reverse()
    if not isinstance(signed, int):
        signed = ex.branch(bv(signed, 32) != 0)
    if not bs:
        return py.int(0)
    if all(isinstance(b, int) for b in bs):
        v = int.from_bytes(bytes(bs), 'little', signed=bool(signed))
        return py.int(v)
    v = z3.Concat(*[bv(b, 8) for b in reversed(bs)]) if len(bs) > 1 else bs[0]
    if signed:
        neg = simp_bool(z3.Extract(v.size() - 1, v.size() - 1, v) == 1)
        return py.int(simp(z3.If(neg, -v, v)) if not isinstance(neg, bool) else simp(-v) if neg else v, neg=neg)
    return py.int(gmpsym.narrow(v))


_export = sym.BUILTIN['__gmpz_export']


@api('__gmpz_export')
def _(ex, py, a):
    """export of a value with a symbolic number of bytes into a buffer that can hold the longest: one path"""
    p, cp, order, size, endian, nails, z = a
    n, v = gmpsym.zread(ex, z)
    if isinstance(v, int) or isinstance(p, int) or isinstance(cp, int) or sgn(order & MASK[32], 32) != -1 or size != 1:
        return _export(ex, a)
    nb = (v.size() + 7) // 8
    if not isinstance(p.off, int) or p.off + nb > p.o.size:
        return _export(ex, a)
    vv = bv(v, 8 * nb)
    c = z3.BitVecVal(0, 64)
    for i in range(nb):
        b = z3.Extract(8 * i + 7, 8 * i, vv)
        c = z3.If(b != 0, z3.BitVecVal(i + 1, 64), c)
        ex.store(ex.padd(p, i), 1, simp(b))
    c = simp(c)
    ex.store(cp, 8, c)
    ex.ctx.setdefault('export_keep', []).append(c)
    c = ex.load(cp, 8)
    ex.ctx.setdefault('export_count', {})[c.get_id() if is_z3(c) else -1] = (p.o, nb)
    ex.ctx['export_keep'].append(c)
    return p


@api('PyBool_FromLong')
def _(ex, py, a):
    v = simp(a[0])
    return py.bool(bool(v) if isinstance(v, int) else ex.branch(bv(v, 64) != 0))


@api('PyNumber_Negative')
def _(ex, py, a):
    if id(a[0].o) in py.ints:
        n, m, b = py.ints[id(a[0].o)]
        n = simp_bool(z3.And(z3.Not(n if is_z3(n) else z3.BoolVal(n)), bv(m, max(gmpsym.width(m), 1)) != 0)) if not isinstance(m, int) else (not n and m != 0 if isinstance(n, bool) else simp_bool(z3.And(z3.Not(n), z3.BoolVal(m != 0))))
        return py.int(m, n, b)
    f = py._slot(a[0], 'neg')
    if f is None:
        py.err = 'TypeError'
        return 0
    return ex.call_fn(f, [a[0]])


@api('Py_IncRef')
def _(ex, py, a):
    if not isinstance(a[0], int):
        py.hold(a[0])
    return None


@api('Py_DecRef')
def _(ex, py, a):
    if not isinstance(a[0], int):
        py.decref(a[0])
    return None


@api('PyLong_FromLong', 'PyLong_FromSsize_t')
def _(ex, py, a):
    v = simp(a[0])
    if isinstance(v, int):
        v = sgn(v, 64)
        return py.int(abs(v), v < 0)
    neg = simp_bool(v < 0)
    return py.int(simp(z3.If(v < 0, -v, v)), neg)


@api('PyLong_FromUnsignedLong', 'PyLong_FromSize_t', 'PyLong_FromUnsignedLongLong')
def _(ex, py, a):
    return py.int(simp(a[0]))


@api('PyLong_AsLong')
def _(ex, py, a):
    n, m, b = py.ints[id(a[0].o)]
    n = n if isinstance(n, bool) else ex.branch(n)
    w = max(66, gmpsym.width(m) + 1)
    fits = simp_bool(z3.ULE(bv(m, w), (1 << 63) - (0 if n else 1)))
    if not (fits if isinstance(fits, bool) else ex.branch(fits)):
        py.err = 'OverflowError'
        return MASK64
    v = simp(z3.Extract(63, 0, bv(m, w)))
    return (-v & MASK64 if isinstance(v, int) else simp(-v)) if n else v


@api('PyTuple_New')
def _(ex, py, a):
    n = ex.concretize(a[0], 64)
    return py.tuple([None] * n)


@api('PyTuple_Size')
def _(ex, py, a):
    return len(py.items(a[0]))


@api('PyTuple_SetItem')
def _(ex, py, a):
    py.items(a[0])[ex.concretize(a[1], 64)] = a[2]
    return 0


@api('PyTuple_GetItem')
def _(ex, py, a):
    it = py.items(a[0])
    i = ex.concretize(a[1], 64)
    if i >= len(it):
        py.err = 'IndexError'
        return 0
    return it[i]


@api('PyList_New')
def _(ex, py, a):
    return py.list([None] * ex.concretize(a[0], 64))


@api('PyList_Append')
def _(ex, py, a):
    py.incref(a[1])
    py.items(a[0]).append(a[1])
    return 0


@api('PyUnicode_FromString')
def _(ex, py, a):
    return py.str(ex.cstr(a[0]))


@api('PyUnicode_FromStringAndSize')
def _(ex, py, a):
    n = ex.concretize(a[1], 64)
    bs = [ex.load(ex.padd(a[0], i), 1) for i in range(n)]
    if any(isinstance(b, Undef) for b in bs):
        raise Fault('uninit', 'string made from uninitialised bytes')
    return py.str(bs)


@api('PyUnicode_AsUTF8')
def _(ex, py, a):
    py.text(a[0])
    return utf8(ex, py, a[0])


@api('PyUnicode_AsUTF8AndSize')
def _(ex, py, a):
    if id(a[0].o) in py.bad:
        py.err = 'UnicodeEncodeError'
        return 0
    if not isinstance(a[1], int):
        ex.store(a[1], 8, len(py.text(a[0])))
    return utf8(ex, py, a[0])


@api('PyUnicode_AsUTF8String')
def _(ex, py, a):
    if id(a[0].o) in py.bad:
        py.err = 'UnicodeEncodeError'
        return 0
    return py.bytes(py.text(a[0]))


@api('PyUnicode_FromFormat')
def _(ex, py, a):
    fmt = ex.pystr(a[0])
    args = list(a[1:])
    out, i = [], 0
    while i < len(fmt):
        if fmt[i] != '%':
            out.append(ord(fmt[i]))
            i += 1
            continue
        c = fmt[i + 1]
        i += 2
        if c == '%':
            out.append(37)
            continue
        v = args.pop(0)
        if c == 'S':
            if isinstance(v, int):
                raise Fault('null', '%S of a null object')
            if py.tname(v) == 'str':
                out += py.text(v)
            elif py.tname(v) in ('int', 'bool'):
                out.append(py.intval(v))
            else:
                f = ex.ld(ex.ld(v, 8, 8), OFF['str'], 8)
                r = ex.call_fn(f, [v])
                out += py.text(r)
                py.decref(r)
        elif c == 's':
            out += ex.cstr(v)
        elif c in 'di':
            out.append((False, simp(v)))
        else:
            raise Inconclusive('format %' + c)
    return py.str(out)


@api('PyBytes_FromStringAndSize')
def _(ex, py, a):
    n = ex.concretize(a[1], 64)
    bs = [ex.load(ex.padd(a[0], i), 1) for i in range(n)]
    if any(isinstance(b, Undef) for b in bs):
        raise Fault('uninit', 'bytes made from uninitialised memory')
    return py.bytes(bs)


@api('PyBytes_AsStringAndSize')
def _(ex, py, a):
    d = py.data(a[0])
    if not isinstance(a[2], int):
        ex.store(a[2], 8, len(d))
    elif any(ex.branch(bv(b, 8) == 0) if is_z3(b) else b == 0 for b in d):
        py.err = 'ValueError'
        return 0xffffffff
    ex.store(a[1], 8, py.extra[id(a[0].o)])
    return 0


@api('PyBytes_AsString')
def _(ex, py, a):
    py.data(a[0])
    return py.extra[id(a[0].o)]


@api('PyBytes_Size')
def _(ex, py, a):
    return len(py.data(a[0]))


@api('PyCallable_Check')
def _(ex, py, a):
    return 0 if isinstance(a[0], int) else int(py.tname(a[0]) == 'PyFunction_Type')


@api('PyModule_GetDict')
def _(ex, py, a):
    ex.ld(a[0], 0, 8)
    return py.extra[id(a[0].o)][1]


@api('PyDict_GetItemString')
def _(ex, py, a):
    return py.extra[id(a[0].o)][1].get(ex.pystr(a[1])) or 0


@api('PyObject_CallObject')
def _(ex, py, a):
    kind, m, broken = py.extra[id(a[0].o)]
    msg = py.items(a[1])[0]
    py.extra[id(m.o)][3].append(list(py.data(msg)))
    if 'new-raises' in broken:
        py.err = 'ValueError'
        return 0
    h = py.obj('object')
    py.extra[id(h.o)] = ('hash', m, broken)
    return h


@api('PyObject_CallMethod')
def _(ex, py, a):
    ex.ld(a[0], 0, 8)
    kind, m, broken = py.extra[id(a[0].o)]
    assert ex.pystr(a[1]) == 'digest'
    if 'digest-raises' in broken:
        py.err = 'ValueError'
        return 0
    if 'digest-str' in broken:
        return py.str('x')
    return py.bytes(py.extra[id(m.o)][2])


@api('PyObject_GenericGetAttr')
def _(ex, py, a):
    name = py.text(a[1])
    for n, f, fl in py._methods(ex.ld(a[0], 8, 8)):
        if len(n) == len(name):
            same = simp_bool(z3.And(*[bv(c, 8) == ord(d) for c, d in zip(name, n)]))
            if same if isinstance(same, bool) else ex.branch(same):
                return py.obj('object')
    py.err = 'AttributeError'
    return 0


# ------------------------------------------------------------------------------------------------ the real interpreter
class H:
    def __init__(self, o):
        self.o = o


class PyReal:
    native = True

    def __init__(self, x, lib):
        self.x = x
        ld = importlib.machinery.ExtensionFileLoader('ECC', lib)
        spec = importlib.util.spec_from_loader('ECC', ld)
        self.M = importlib.util.module_from_spec(spec)
        ld.exec_module(self.M)
        self.none = H(None)
        self.hashlog = {}

    def int(self, v, neg=False, bits=None):
        v = simp(v) if is_z3(v) else v
        if neg is not False and (neg is True or self.x.branch(neg)):
            v = -v
        return H(v)

    def str(self, s):
        return H(s if isinstance(s, str) else bytes(simp(b) for b in s).decode('latin1'))

    def bytes(self, b):
        return H(bytes(bytearray(simp(v) if is_z3(v) else v for v in b)))

    def badstr(self):
        return H('a' + chr(0xd800))

    def sweep(self):
        gc.collect()

    def tuple(self, items):
        return H(tuple(i.o for i in items))

    def list(self, items=()):
        return H([i.o for i in items])

    def other(self, kind):
        return H({'none': None, 'str': ''.join(['ab', 'c']), 'bytes': bytes(bytearray(b'abc')), 'list': [], 'tuple': (), 'dict': {}, 'float': float('1.5'), 'object': object()}[kind])

    def module(self, digest_size, hashbytes, broken=()):
        m = _types.ModuleType('vfhash')
        hb = bytes(simp(b) if is_z3(b) else b for b in hashbytes)
        log = []

        class Hash:
            def digest(s):
                if 'digest-raises' in broken:
                    raise ValueError
                return 'x' if 'digest-str' in broken else bytes(bytearray(hb))

        def new(msg=b''):
            log.append(list(msg))
            if 'new-raises' in broken:
                raise ValueError
            return Hash()
        if digest_size is not None:
            m.digest_size = '20' if 'size-str' in broken else digest_size
        if 'new-missing' not in broken:
            m.new = 3 if 'new-int' in broken else new
        self.hashlog[id(m)] = log
        return H(m)

    def hashed(self, m):
        return self.hashlog[id(m.o)]

    def _do(self, f):
        try:
            return H(f())
        except Exception as e:
            return Exc(type(e).__name__)

    def new(self, tname, *args):
        return self._do(lambda: getattr(self.M, tname)(*[a.o for a in args]))

    def binop(self, op, a, b, third=None):
        import operator
        f = {'+': operator.add, '-': operator.sub, '*': operator.mul}[op]
        return self._do(lambda: f(a.o, b.o))

    def pow(self, a, b, c=None):
        return self._do(lambda: pow(a.o, b.o) if c is None else pow(a.o, b.o, c.o))

    def neg(self, a):
        return self._do(lambda: -a.o)

    def int_of(self, a):
        return self._do(lambda: int(a.o))

    def cmp(self, op, a, b):
        import operator
        f = {'<': operator.lt, '<=': operator.le, '==': operator.eq, '!=': operator.ne, '>': operator.gt, '>=': operator.ge}[op]
        return self._do(lambda: f(a.o, b.o))

    def method(self, o, name, *args):
        recv = getattr(self.M, o) if isinstance(o, str) else o.o
        return self._do(lambda: getattr(recv, name)(*[a.o for a in args]))

    def getattr(self, o, name):
        return self._do(lambda: getattr(o.o, name))

    def getattr_o(self, o, s):
        return self._do(lambda: getattr(o.o, s.o))

    def repr(self, o):
        return self._do(lambda: repr(o.o))

    def str_of(self, o):
        return self._do(lambda: str(o.o))

    def refs(self, o):
        return _sys.getrefcount(o.o) - 1

    def hold(self, o):
        self.x.keep.append(o.o)

    def decref(self, o):
        if isinstance(o, H):
            o.o = None

    def kind(self, o):
        return o.kind if isinstance(o, Exc) else type(o.o).__name__

    def is_true(self, o):
        return bool(o.o)

    def intval(self, o):
        return o.o < 0, abs(o.o)

    def text(self, o):
        return list(o.o.encode('latin1'))

    def data(self, o):
        return list(o.o)

    def items(self, o):
        return [H(i) for i in o.o]


def make(x):
    if x.native:
        return PyReal(x, x.lib._name)
    return PySym(x)


PYENV = {'PYTHONMALLOC': 'malloc'}


def pytask(name, fn, native=pynative, **kw):
    st = dict(kw.pop('stubs', {}) or {})
    return Task(name, fn, prog=pyprogram, native_lib=native, stubs=st, **kw)
