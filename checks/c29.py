"""C29 random integers: fresh device bytes, twice the length of the range, reduced; no result when the device fails."""
import ctypes, threading
from htiny import *
import vf, c17, hecdsa
from libcsym import BUILTIN

BOUNDS = 'ranges of 1 to 521 bits (every 16-bit range symbolically), every device output, two or three calls in a row, failing to open the device and every short read; random field elements and random points ' \
         '(groups of order 7 to 23, every draw); the range given as the result variable'
OUTSIDE = 'the quality of the device; ranges that are zero or negative'
ASSUMES = ['the C library reads the device faithfully', 'point arithmetic (C11 to C18) for random points']
_lock = threading.Lock()


def lib(variant):
    out = os.path.join(scratch(), 'libdev_%s.so' % variant)
    with _lock:
        if not os.path.exists(out):
            fl = {'plain': ['-O2'], 'zero': ['-O1', '-ftrivial-auto-var-init=zero'], 'pattern': ['-O1', '-ftrivial-auto-var-init=pattern'],
                  'asan': ['-O1', '-fsanitize=address,undefined', '-fno-sanitize-recover=undefined', '-fno-omit-frame-pointer']}[variant]
            w = ['-Wl,--wrap=' + f for f in ('fopen', 'open', 'open64', 'close', 'fread', 'fgetc', 'getc', 'read', 'getrandom')]
            vf.sh(['gcc', '-g', '-w', '-fPIC', '-shared', *w, *fl, '-I' + vf.REPO + '/include', *lib_sources(), os.path.join(vf.HERE, 'native', 'fakefile.c'), '-lgmp', '-o', out])
        return out


class Device:
    """a stream of arbitrary bytes; opens and reads may fail when the harness says so"""
    def __init__(self, x, openfail=False, short=None):
        self.x, self.used, self.openfail, self.short, self.opens, self.reads = x, [], openfail, short, 0, 0
        x.ctx['dev'] = self
        if x.native:
            def op(name):
                return int(self.open(name.decode('latin1')))

            def rd(buf, n):
                bs = self.read(n)
                ctypes.memmove(buf, bytes(simp(b) for b in bs), len(bs))
                return len(bs)
            a = ctypes.CFUNCTYPE(ctypes.c_int, ctypes.c_char_p)(op)
            b = ctypes.CFUNCTYPE(ctypes.c_long, ctypes.c_void_p, ctypes.c_size_t)(rd)
            x.keep.append((a, b))
            x.call('vf_set_device', ctypes.cast(a, ctypes.c_void_p).value, ctypes.cast(b, ctypes.c_void_p).value)

    def open(self, name):
        self.opens += 1
        self.x.check(z3.BoolVal(name in ('/dev/urandom', '/dev/random')), 'the random bytes come from something else than the random device')
        return not self.openfail

    def read(self, n):
        self.reads += 1
        if self.short is not None:
            n = self.short(self.reads, n)
        out = []
        for i in range(n):
            b = self.x.sym('dev%d' % len(self.used), 8)
            self.used.append(b)
            out.append(b)
        return out


def st_open(isfile):
    def st(ex, a):
        ok = ex.ctx['dev'].open(ex.pystr(a[0]))
        if not ok:
            return 0 if isfile else 0xffffffff
        return ex.alloc(8, 'FILE', fill=0) if isfile else 77
    return st


def rd(ex, p, n):
    bs = ex.ctx['dev'].read(ex.concretize(n, 64, what='read size'))
    for i, b in enumerate(bs):
        ex.store(ex.padd(p, i), 1, b)
    return len(bs)


def st_fread(ex, a):
    s = ex.concretize(a[1], 64)
    n = ex.concretize(a[2], 64)
    return rd(ex, a[0], s * n) // s if s else 0


def st_getc(ex, a):
    bs = ex.ctx['dev'].read(1)
    return simp(z3.ZeroExt(24, bv(bs[0], 8))) if bs else 0xffffffff


DEV = {'fopen': st_open(True), 'open': st_open(False), 'open64': st_open(False), 'fread': st_fread, 'read': lambda ex, a: rd(ex, a[1], a[2]), 'getrandom': lambda ex, a: rd(ex, a[0], a[1]),
       'fgetc': st_getc, 'getc': st_getc, 'close': lambda ex, a: 0, 'fclose': lambda ex, a: 0, 'setvbuf': lambda ex, a: 0, 'setbuf': lambda ex, a: 0, 'feof': lambda ex, a: 0, 'ferror': lambda ex, a: 0}


def number(bs):
    return simp(z3.Concat(*[bv(b, 8) for b in bs])) if len(bs) > 1 else bv(bs[0], 8)


def expect(x, dev, start, m, W):
    """the value the bytes read since `start` stand for, as a W-bit number"""
    bs = dev.used[start:]
    need = 2 * ((m.bit_length() + 7) // 8) if isinstance(m, int) else 2
    x.check(z3.BoolVal(len(bs) >= need), 'fewer random bytes than twice the length of the range: values are not evenly likely')
    if not bs:
        raise PathEnd('no bytes')
    w = max(W, 8 * len(bs))
    v = kmod(x, fit(number(bs), w), m)
    return fit(v, W)


def fit(v, W):
    v = simp(v)
    if isinstance(v, int):
        return z3.BitVecVal(v, W)
    return z3.ZeroExt(W - v.size(), v) if v.size() < W else z3.Extract(W - 1, 0, v) if v.size() > W else v


def draw(m, calls, alias=False):
    W = (m.bit_length() + 63) // 64 * 64
    def h(x):
        dev = Device(x)
        for c in range(calls):
            start = len(dev.used)
            lim = mpz(x, m)
            r = lim if alias else mpz(x, 5 + c)
            x.call('mpz_urandom', r, lim)
            neg, v = zval(x, r)
            x.check(z3.Not(neg) if is_z3(neg) else z3.BoolVal(not neg), 'a negative random integer')
            v = fit(v, W)
            x.check(z3.ULT(v, bv(m, W)), 'random integer outside [0, max)')
            x.check(v == expect(x, dev, start, m, W), 'the random integer is not the fresh device bytes reduced' + (' (range given as the result variable)' if alias else ''))
            if not alias:
                x.check(fit(zval(x, lim)[1], W) == bv(m, W), 'the range was changed')
        x.check(z3.BoolVal(dev.opens <= calls), 'device opened too often')
        x.reach()
    return h


def draw_sym(bits):
    """every range of this many bits"""
    def h(x):
        dev = Device(x)
        m = x.sym('m', bits)
        x.assume(z3.And(m != 0, z3.Extract(bits - 1, bits - 1, m) == 1))
        r, lim = mpz(x, 1), mpz(x, m)
        x.call('mpz_urandom', r, lim)
        neg, v = zval(x, r)
        x.check(z3.BoolVal(neg is False or neg == 0) if not is_z3(neg) else z3.Not(neg), 'a negative random integer')
        bs = dev.used
        x.check(z3.BoolVal(len(bs) >= 2 * ((bits + 7) // 8)), 'fewer random bytes than twice the length of the range: values are not evenly likely')
        if not bs:
            raise PathEnd('no bytes')
        w = max(64, 8 * len(bs))
        x.check(fit(v, w) == z3.URem(fit(number(bs), w), fit(m, w)), 'the random integer is not the fresh device bytes reduced')
        x.reach()
    return h


def failing(kind, m, before):
    """the device cannot be opened, or a read gives less than asked for: no result is returned"""
    def h(x):
        if kind == 'open':
            dev = Device(x, openfail=True)
        else:
            bad = before + 1
            k = x.sym('short', 16)
            x.assume(z3.ULT(k, 4096))

            def short(i, n):
                if i < bad:
                    return n
                if i > bad + 3:
                    return 0
                return x.concretize(z3.If(z3.ULT(k, n), k, bv(n - 1, 16)), 16, what='bytes read') if i == bad else 0
            dev = Device(x, short=short)
        for c in range(before):
            x.call('mpz_urandom', mpz(x, 1), mpz(x, m))
        x.call('mpz_urandom', mpz(x, 1), mpz(x, m))
        x.check(z3.BoolVal(False), 'a result although the device ' + ('cannot be opened' if kind == 'open' else 'did not deliver enough bytes'))
    return h


def field(p, q):
    """a random element of F_p, into a variable that held an element of F_q"""
    W = (p.bit_length() + 63) // 64 * 64
    def h(x):
        dev = Device(x)
        t = x.alloc(24, 'element')
        x.call('mpFp_init', t, mpz(x, q))
        x.call('mpFp_set_ui', t, 3, mpz(x, q))
        for c in range(2):
            start = len(dev.used)
            x.call('mpFp_urandom', t, mpz(x, p))
            z = mpz(x, 0)
            x.call('mpz_set_mpFp', z, t)
            v = fit(zval(x, z)[1], W)
            x.check(z3.ULT(v, bv(p, W)), 'random element not reduced')
            x.check(v == expect(x, dev, start, p, W), 'the random element is not the fresh device bytes reduced')
            u = x.alloc(24, 'element')
            x.call('mpFp_init', u, mpz(x, p))
            x.check(z3.BoolVal(same_ptr(x, x.ld(t, 16, 8), x.ld(u, 16, 8))), 'the random element is not in the field asked for')
        x.reach()
    return h


def point(name):
    def h(x):
        c, cv = curve_of(x, name)
        n = c['n']
        dev = Device(x)
        P = x.alloc(104, 'point')
        x.call('mpECP_init', P, cv)
        for r in range(2):
            start = len(dev.used)
            x.call('mpECP_urandom', P, cv)
            k = expect(x, dev, start, n, 64)
            hecdsa.ispoint(x, c, P, z3.Extract(7, 0, k), 'random point') if hasattr(hecdsa, 'ispoint') else check_point(x, c, P, k)
        x.reach()
    return h


def check_point(x, c, P, k):
    n = c['n']
    T = [None] * n
    A = Aff(c)
    k8 = simp(z3.Extract(7, 0, bv(k, 64)))
    neutral = A.O()
    if neutral is None:
        x.check((bv(x.ld(P, 72, 4), 32) != 0) == (bv(k8, 8) == 0), 'the random point is neutral for another value than zero')
        if x.branch(bv(k8, 8) == 0):
            return
    a, b = mpz(x, 0), mpz(x, 0)
    x.call('mpz_set_mpECP_affine_x', a, P)
    x.call('mpz_set_mpECP_affine_y', b, P)
    tx = pick([t[0] if t else 0 for t in c['T']], k8, 64)
    ty = pick([t[1] if t else 0 for t in c['T']], k8, 64)
    x.check(fit(zval(x, a)[1], 64) == fit(tx, 64), 'the random point is not the random multiple of the base point')
    x.check(fit(zval(x, b)[1], 64) == fit(ty, 64), 'the random point is not the random multiple of the base point')


def tasks(tier):
    out = []
    G = lambda: gmpsym.Kernel(64)
    kw = dict(stubs=DEV, native_lib=lib)
    KG = lambda m: dict(gmp=G if m.bit_length() <= 64 else lambda: gmpsym.UFKernel((m.bit_length() + 63) // 64), **kw)
    R = {'1': 1, '2': 2, '97': 97, '255': 255, '256': 256, '65521': 65521, '64bit': 2**64 - 59, '65bit': 2**64 + 13, '161bit': c17.TABLE['secp160r1']['n'], '256bit': c17.TABLE['secp256k1']['n'], '521bit': c17.TABLE['secp521r1']['n']}
    if tier != 'quick':
        R.update({'w%d' % k: 2**k - 1 for k in (3, 7, 9, 15, 31, 33, 63, 112, 127, 128, 129, 192, 224, 255, 383, 384, 448)})
    for k, m in R.items():
        out.append(Task('draw/' + k, draw(m, 2 if tier == 'quick' else 3), **KG(m)))
        if m > 1:
            out.append(Task('alias/' + k, draw(m, 1, True), **KG(m)))
    for b in (1, 2, 3, 5, 8) if tier == 'quick' else range(1, 10):
        out.append(Task('anyrange/%d' % b, draw_sym(b), gmp=G, **kw))
    for k in ('97', '64bit', '256bit'):
        for before in (0, 1):
            if not before:
                out.append(Task('openfail/' + k, failing('open', R[k], 0), fault_ok=('abort', 'exit'), must_reach=False, **KG(R[k])))
            out.append(Task('short/%s/%d' % (k, before), failing('short', R[k], before), fault_ok=('abort', 'exit'), must_reach=False, **KG(R[k])))
    for p, q in ((65521, 97), (2**127 - 1, 97), (97, 2**255 - 19), (c17.TABLE['secp160r1']['n'], c17.TABLE['secp160r1']['p'])):
        out.append(Task('field/%d-%d' % (p.bit_length(), q.bit_length()), field(p, q), **KG(max(p, q))))
    st = dict(DLSTUBS)
    st.pop('mpz_urandom')
    st.update(DEV)
    for name in ('ws23', 'mo43', 'ed43', 'te41'):
        out.append(Task('point/' + name, point(name), stubs=st, gmp=G, native_lib=lib))
    return out
