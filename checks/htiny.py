"""Discrete-log cut: a curve with a small subgroup of prime order n; point operations replaced by exact arithmetic on
discrete logarithms.  Stored points carry the real coordinates of the real group element (selected by the logarithm), so
coordinate conversions, comparisons, copies and field arithmetic are real code."""
import ctypes, threading
from hsmall import *
from c17 import Aff

_lock = threading.Lock()

# kind p a b G n h: G has prime order n, cofactor h
DLOG = {
    'ws23': dict(kind='ws', p=23, n=19), 'ws19': dict(kind='ws', p=19, n=23), 'mo43': dict(kind='mo', p=43, n=11), 'mo31': dict(kind='mo', p=31, n=7), 'mo41': dict(kind='mo', p=41, n=11),
    'ed43': dict(kind='ed', p=43, n=11), 'te41': dict(kind='te', p=41, n=11),
}


def _search(d):
    """the first curve (in a fixed order) with a point of order n; Weierstrass curves: also one whose multiples have x = n"""
    p, n, kind = d['p'], d['n'], d['kind']
    for a in range(2, p):
        for b in range(2, p):
            c = dict(kind=kind, p=p, a=a, b=b)
            if kind == 'ws' and (4 * a**3 + 27 * b * b) % p == 0 or kind == 'mo' and (b * b - 4) % p == 0:
                continue
            if kind == 'ed':
                if a * b * (1 - b * pow(a, 4, p)) % p == 0 or pow(b, (p - 1) // 2, p) == 1:
                    continue
            if kind == 'te':
                if a == b or pow(a, (p - 1) // 2, p) != 1 or pow(b, (p - 1) // 2, p) == 1:
                    continue
            pts = [(x, y) for x in range(p) for y in range(p) if eqn(kind, p, a, b, x, y) == 0]
            A = Aff(c)
            N = len(pts) + (1 if kind in ('ws', 'mo') else 0)
            if N % n:
                continue
            for G in pts:
                if G == A.O():
                    continue
                try:
                    T = [A.O()]
                    for _ in range(n):
                        T.append(A.add(T[-1], G))
                except (ValueError, ZeroDivisionError):
                    continue
                if T[n] != A.O() or len(set(T[:n])) != n:
                    continue
                if kind == 'ws' and n < p and not any(q and q[0] == n for q in T[1:n]):
                    continue
                if kind == 'mo' and a in (1,):
                    continue
                return dict(d, a=a, b=b, G=G, h=N // n, T=T[:n])
    raise KeyError(d)


_tab = {}


def table(name):
    if name not in _tab:
        _tab[name] = _search(DLOG[name])
    return _tab[name]


def pick(tab, i, w):
    """table entry selected by the bit-vector (or int) i"""
    if isinstance(i, int):
        return tab[i] if isinstance(tab[i], int) else tab[i]
    r = bv(tab[-1], w)
    for k in reversed(range(len(tab) - 1)):
        r = z3.If(i == k, bv(tab[k], w), r)
    return simp(r)


def curve_of(x, name):
    c = table(name)
    cv = x.alloc(512, 'curve')
    x.call('mpECurve_init', cv)
    st = ci(x, 'mpECurve_set_mpz_' + c['kind'], cv, *[mpz(x, v) for v in (c['p'], c['a'], c['b'], c['n'], c['h'], c['G'][0], c['G'][1])], c['p'].bit_length())
    x.check(bv(st, 32) == 0, 'curve refused')
    if not x.native:
        x.ctx['dl_off'] = True
        rows = []
        for P in c['T']:
            t = pnew(x, cv)
            if P is None:
                x.call('mpECP_set_neutral', t, cv)
            else:
                x.call('mpECP_set_mpz', t, mpz(x, P[0]), mpz(x, P[1]), cv)
            rows.append([x.ld(x.ld(x.padd(t, o), 8, 8), 0, 8) for o in (0, 24, 48)] + [x.ld(t, 72, 4)])
        x.ctx['dl'] = dict(n=c['n'], rows=rows, W=c['n'].bit_length(), memo={})
        x.ctx['dl_off'] = False
    return c, cv


def dl_put(ex, p, i, cv):
    """p := the point with logarithm i (below n, width W)"""
    D = ex.ctx['dl']
    F = ex.load(ex.padd(cv, 8), 8)
    key = []
    for j, o in enumerate((0, 24, 48)):
        c = ex.padd(p, o)
        ex.store(ex.padd(c, 16), 8, F)
        d = gmpsym.zalloc(ex, c, 1)
        v = pick([r[j] for r in D['rows']], i, 64)
        ex.store(d, 8, v)
        ex.store(ex.padd(c, 4), 4, 1)
        key.append(v if isinstance(v, int) else v.get_id())
    f = pick([r[3] for r in D['rows']], i, 32)
    ex.store(ex.padd(p, 72), 4, f)
    ex.store(ex.padd(p, 80), 8, cv)
    D['memo'][tuple(key)] = (i, [bv(ex.load(ex.load(ex.padd(p, o + 8), 8), 8), 64) for o in (0, 24, 48)])


def dl_get(ex, p):
    D = ex.ctx['dl']
    vs = []
    for o in (0, 24, 48):
        v = ex.load(ex.load(ex.padd(p, o + 8), 8), 8)
        if isinstance(v, Undef):
            raise Fault('uninit', 'coordinate of an operand')
        vs.append(v)
    f = ex.load(ex.padd(p, 72), 4)
    if isinstance(f, Undef):
        raise Fault('uninit', 'neutral flag of an operand')
    key = tuple(v if isinstance(v, int) else v.get_id() for v in vs)
    if key in D['memo']:
        return D['memo'][key][0]
    if all(isinstance(v, int) for v in vs):
        for i, r in enumerate(D['rows']):
            if r[:3] == vs:
                return i
    # a combination the harness did not write: identify it among the group elements
    conds = [z3.And(*[bv(a, 64) == bv(b, 64) for a, b in zip(vs, r[:3])]) for r in D['rows']]
    if ex.q(z3.Not(z3.Or(*conds))) != z3.unsat:
        raise Inconclusive('operand outside the subgroup')
    r = z3.BitVecVal(0, D['W'])
    for i, c in enumerate(conds):
        r = z3.If(c, z3.BitVecVal(i, D['W']), r)
    return simp(r)


def dmod(D, v):
    """reduction of an exact term (any width) mod n"""
    if isinstance(v, int):
        return v % D['n']
    w = max(v.size(), D['W'] + 1)
    return simp(z3.Extract(D['W'] - 1, 0, z3.URem(bv(v, w), bv(D['n'], w))))


def dl_stub(name, f, npts, scal=None):
    def st(ex, a):
        if ex.ctx.get('dl_off', True):
            return real(ex, name, a)
        D = ex.ctx['dl']
        W = 2 * D['W'] + 2
        ws = [bv(dl_get(ex, q), W) for q in a[1:1 + npts]]
        cv = ex.load(ex.padd(a[1], 80), 8)
        if scal == 'fp':
            n = gmpsym.zread(ex, ex.load(ex.padd(a[2], 16), 8))[1]
            if n != D['n']:
                raise Fault('abort', 'scalar of another field')
            ws.append(bv(ex.load(ex.load(ex.padd(a[2], 8), 8), 8), W))
        elif scal == 'mpz':
            neg, v = gmpsym.zread(ex, a[2])
            if neg is not False and ex.branch(neg):
                raise Inconclusive('negative scalar')
            if ex.q(z3.UGE(bv(v, max(gmpsym.width(v), W)), D['n'])) != z3.unsat:
                raise Inconclusive('scalar not reduced')
            ws.append(bv(v, W))
        drop(ex, a[0])
        i = dmod(D, simp(f(D['n'], *ws)))
        dl_put(ex, a[0], i, cv)
    return st


def real(ex, name, a):
    f = ex.prog.funcs.get(name)
    if f is None:
        raise Inconclusive('no code for ' + name)
    return ex.run(f, a)


def drop(ex, p):
    b = ex.load(ex.padd(p, 88), 4)
    if not isinstance(b, Undef) and ex.concretize(b, 32) != 0:
        ex.store(ex.padd(p, 88), 4, 0)
        ex.store(ex.padd(p, 96), 8, 0)


def st_setup(ex, a):
    if ex.ctx.get('dl_off', True):
        return real(ex, 'mpECP_scalar_base_mul_setup', a)


def random_source(draws, on_more):
    """stand-in for mpz_urandom handing out the given values"""
    def st(ex, a):
        ds = ex.ctx['draws']
        k = ex.ctx.get('ndraws', 0)
        ex.ctx['ndraws'] = k + 1
        neg, m = gmpsym.zread(ex, a[1])
        if k >= len(ds):
            on_more(ex)
            raise PathEnd('more draws than the harness provides')
        v, lim = ds[k]
        ex.check(z3.BoolVal(m == lim), 'random integer drawn from a range other than [0, n)')
        gmpsym.zwrite(ex, a[0], False, v)
    return st


def set_draws(x, vals, n, more='draw after a usable one'):
    if not x.native:
        x.ctx['draws'] = [(v, n) for v in vals]
        x.ctx['more'] = more
        return
    vals = [simp(v) for v in vals]
    g = ctypes.CDLL('libgmp.so.10')
    g.__gmpz_set_str.argtypes = [ctypes.c_void_p, ctypes.c_char_p, ctypes.c_int]
    st = {'i': 0}

    def cb(rop, mx):
        i = st['i']
        st['i'] += 1
        if zval(x, mx)[1] != n:
            x.failed.append('random integer drawn from a range other than [0, n)')
        if i >= len(vals):
            x.failed.append(more)
        if i > len(vals) + 200:
            os._exit(99)
        v = vals[i] if i < len(vals) else 1 + (7919 * i) % (n - 1)
        g.__gmpz_set_str(rop, hex(v)[2:].encode(), 16)
    f = ctypes.CFUNCTYPE(None, ctypes.c_void_p, ctypes.c_void_p)(cb)
    x.keep.append(f)
    x.call('vf_set_random', ctypes.cast(f, ctypes.c_void_p).value)


def hashfunc(x, hsz, hbytes):
    """an mpECDSAHashfunc whose digest is arbitrary; records the message it is called with"""
    H = x.alloc(16, 'hashfunc')
    if not x.native:
        x.store(H, 8, FnPtr('vf_hash'))
        x.ctx['hash'] = (hbytes, [])
    else:
        x.ctx['hash'] = (hbytes, [])

        def cb(out, msg, sz):
            x.ctx['hash'][1].append((msg, sz))
            ctypes.memmove(out, bytes(simp(b) & 255 for b in hbytes), len(hbytes))
        f = ctypes.CFUNCTYPE(None, ctypes.c_void_p, ctypes.c_void_p, ctypes.c_size_t)(cb)
        x.keep.append(f)
        x.store(H, 8, ctypes.cast(f, ctypes.c_void_p).value)
    x.store(x.padd(H, 8), 8, hsz)
    return H


def st_hash(ex, a):
    hb, calls = ex.ctx['hash']
    calls.append((a[1], a[2]))
    for i, b in enumerate(hb):
        ex.store(ex.padd(a[0], i), 1, b)


def hash_ok(x, msg, sz, what):
    calls = x.ctx['hash'][1]
    ok = len(calls) >= 1 and all((same_ptr(x, m, msg)) for m, s in calls)
    x.check(z3.BoolVal(ok), what + ': the digest is not taken over the message')
    for m, s in calls:
        x.check(bv(s, 64) == bv(sz, 64), what + ': the digest is not taken over the whole message')


def same_ptr(x, a, b):
    return a == b if x.native else isinstance(a, Ptr) and a.o is b.o and a.off == b.off


def wrapped(variant):
    """the library with its random source replaced"""
    import vf
    out = os.path.join(scratch(), 'libw_%s.so' % variant)
    with _lock:
        return out if os.path.exists(out) else _wrapped(variant, out)


def _wrapped(variant, out):
    import vf
    fl = {'plain': ['-O2'], 'zero': ['-O1', '-ftrivial-auto-var-init=zero'], 'pattern': ['-O1', '-ftrivial-auto-var-init=pattern'],
          'asan': ['-O1', '-fsanitize=address,undefined', '-fno-sanitize-recover=undefined', '-fno-omit-frame-pointer']}[variant]
    vf.sh(['gcc', '-g', '-w', '-fPIC', '-shared', '-Wl,--wrap=mpz_urandom', *fl, '-I' + vf.REPO + '/include', *lib_sources(), os.path.join(vf.HERE, 'native', 'fakerandom.c'), '-lgmp', '-o', out])
    return out


def more_draws(ex):
    ex.check(z3.BoolVal(False), ex.ctx['more'])


DLSTUBS = {
    'mpECP_add': dl_stub('mpECP_add', lambda n, a, b: a + b, 2), 'mpECP_double': dl_stub('mpECP_double', lambda n, a: a + a, 1),
    'mpECP_sub': dl_stub('mpECP_sub', lambda n, a, b: a + n - b, 2), 'mpECP_neg': dl_stub('mpECP_neg', lambda n, a: n - a, 1),
    'mpECP_scalar_mul': dl_stub('mpECP_scalar_mul', lambda n, a, k: a * k, 1, 'fp'), 'mpECP_scalar_mul_mpz': dl_stub('mpECP_scalar_mul_mpz', lambda n, a, k: a * k, 1, 'mpz'),
    'mpECP_scalar_base_mul': dl_stub('mpECP_scalar_base_mul', lambda n, a, k: a * k, 1, 'fp'), 'mpECP_scalar_base_mul_mpz': dl_stub('mpECP_scalar_base_mul_mpz', lambda n, a, k: a * k, 1, 'mpz'),
    'mpECP_scalar_base_mul_setup': st_setup, 'vf_hash': st_hash, 'mpz_urandom': random_source(None, more_draws),
}


def dl_point(x, c, cv, i):
    """the point i*G"""
    t = pnew(x, cv)
    if x.native:
        P = c['T'][simp(i)]
        if P is None:
            x.call('mpECP_set_neutral', t, cv)
        else:
            x.call('mpECP_set_mpz', t, mpz(x, P[0]), mpz(x, P[1]), cv)
    else:
        dl_put(x, t, i, cv)
    return t


def fpn(x, v, n):
    """element of the field of order n"""
    t = x.alloc(24, 'fp')
    x.call('mpFp_init', t, mpz(x, n))
    x.call('mpFp_set_mpz', t, mpz(x, v), mpz(x, n))
    return t


def fpval(x, t, w):
    z = mpz(x, 0)
    x.call('mpz_set_mpFp', z, t)
    return bv(zval(x, z)[1], w)
