"""C22 point import accepts exactly the encodings of curve points."""
from hsmall import *
import c17
from c21 import cvname
from htiny import real

BOUNDS = 'curves of the four types over fields of 5, 8 and 9 bits (one- and two-byte coordinates): every byte string of every length from 0 to two more than the longest encoding; ' \
         'every character string of the same content (any characters) of up to 8 characters; standard curves of 112 to 521 bits: every encoding of the right and of neighbouring lengths, ' \
         'whatever the curve equation and the square root answer'
OUTSIDE = 'on the standard curves, whether the coordinates satisfy the equation (C07) and which root is taken (C04)'
ASSUMES = ['standard curves: mpECurve_point_check and mpFp_sqrt answer freely here (decided by C07 and C04)']


def imp(name, L, first, viastr=False):
    kind, p, a, b, G, pts = tiny(name)
    nb = (p.bit_length() + 7) // 8

    def h(x):
        cv = tcurve(x, name)
        t = pnew(x, cv)
        wellformed = z3.BoolVal(True)
        if viastr:
            # every string of L characters other than NUL
            cs = [x.sym('c%d' % i, 8) for i in range(L)]
            for c in cs:
                x.assume(c != 0)
            hexd = [z3.Or(*[z3.And(z3.UGE(bv(c, 8), l), z3.ULE(bv(c, 8), u)) for l, u in ((0x30, 0x39), (0x41, 0x46), (0x61, 0x66))]) for c in cs]
            val = [z3.If(z3.ULE(bv(c, 8), 0x39), bv(c, 8) - 0x30, z3.If(z3.ULE(bv(c, 8), 0x46), bv(c, 8) - 55, bv(c, 8) - 87)) for c in cs]
            n = L // 2
            bs = [val[2 * i] * 16 + val[2 * i + 1] for i in range(n)]
            wellformed = z3.And(*hexd, z3.BoolVal(L % 2 == 0))
            f0 = bs[0] if n else bv(0xff, 8)
            if first is None:
                x.assume(z3.Or(z3.Not(wellformed), z3.And(*[f0 != k for k in (0, 2, 3, 4)])))
            else:
                x.assume(z3.And(wellformed, f0 == first))
            st = bv(ci(x, 'mpECP_set_str', t, mkstr(x, cs), cv), 32)
        else:
            n = L
            bs = [x.sym('b%d' % i, 8) for i in range(L)]
            if L:
                if first is None:
                    x.assume(z3.And(*[bs[0] != k for k in (0, 2, 3, 4)]))
                else:
                    x.assume(bs[0] == first)
                    bs[0] = first
            st = bv(ci(x, 'mpECP_set_bytes', t, mkbytes(x, bs), L, cv), 32)
        X = bv(bigend(bs[1:1 + nb]), 64) if n >= 1 + nb else None
        xs = sorted({q[0] for q in pts})
        if first == 0:
            ok = z3.And(*[bv(c, 8) == 0 for c in bs]) if n in (1 + nb, 1 + 2 * nb) else z3.BoolVal(False)
        elif first == 4:
            ok = oncurve_term(name, X, bv(bigend(bs[1 + nb:]), 64)) if n == 1 + 2 * nb else z3.BoolVal(False)
        elif first in (2, 3):
            # some point with this x whose y has the right parity
            good = sorted({q[0] for q in pts if q[1] & 1 == first & 1})
            ok = z3.Or(*[X == u for u in good]) if n == 1 + nb else z3.BoolVal(False)
        else:
            ok = z3.BoolVal(False)
        if not x.branch(st == 0):
            x.check(z3.Not(ok), 'the encoding of a curve point was refused')
            x.reach()
            return
        if not x.check(ok, 'accepted %s that encode no curve point' % ('characters' if viastr else 'bytes')):
            x.reach()
            return
        if first == 0:
            m = pnew(x, cv)
            x.call('mpECP_set_neutral', m, cv)
            x.check(bv(ci(x, 'mpECP_cmp', t, m), 32) == 0, 'all-zero encoding does not give the neutral element')
        else:
            u, v = affine(x, t)
            x.check(u == X, 'imported x coordinate differs from the encoded one')
            x.check(oncurve_term(name, u, v), 'imported point is not on the curve')
            if first == 4:
                x.check(v == bv(bigend(bs[1 + nb:]), 64), 'imported y coordinate differs from the encoded one')
            else:
                x.check(z3.Extract(0, 0, v) == first & 1, 'imported y coordinate has the wrong parity')
        x.reach()
    return h


# ---- standard curves: the byte handling and the range tests on symbolic coordinates of full size. Whether a pair satisfies the equation, and
# whether the right-hand side has a root, is an answer of mpECurve_point_check (C07) and mpFp_sqrt (C04): every answer is considered.
def rhs(name, X):
    """y**2 of the points with this x, None where there is none"""
    c = c17.TABLE[name]
    p, a, b = c['p'], c['a'], c['b']
    if c['kind'] == 'ws':
        return (X**3 + a * X + b) % p
    if c['kind'] == 'mo':
        return (X**3 + b * X * X + X) * pow(a, -1, p) % p
    n, d = (a * a - X * X, 1 - a * a * b * X * X) if c['kind'] == 'ed' else (1 - a * X * X, 1 - b * X * X)
    return n * pow(d, -1, p) % p if d % p else None


def root(a, p):
    """a square root mod p, None if there is none"""
    a %= p
    if pow(a, (p - 1) // 2, p) not in (0, 1):
        return None
    q, s = p - 1, 0
    while q % 2 == 0:
        q, s = q // 2, s + 1
    z = next(i for i in range(2, 200) if pow(i, (p - 1) // 2, p) == p - 1)
    m, c, t, r = s, pow(z, q, p), pow(a, q, p), pow(a, (q + 1) // 2, p)
    while t not in (0, 1):
        i, u = 0, t
        while u != 1:
            u, i = u * u % p, i + 1
        e = pow(c, 1 << (m - i - 1), p)
        m, c, t, r = i, e * e % p, t * e * e % p, r * e % p
    return 0 if t == 0 else r




def st_check(ex, a):
    O = ex.ctx.get('oracle')
    if O is None:
        return real(ex, 'mpECurve_point_check', a)
    n1, u = zval(ex, a[1])
    n2, v = zval(ex, a[2])
    W = max(gmpsym.width(u), gmpsym.width(v), O['W'])
    ex.check(z3.And(z3.BoolVal(n1 is False and n2 is False), bv(u, W) == bv(O['X'], W), bv(v, W) == bv(O['Y'], W)), 'the coordinates tested are not the encoded ones')
    return z3.If(O['on'], z3.BitVecVal(1, 32), z3.BitVecVal(0, 32))


def st_root(ex, a):
    O = ex.ctx.get('oracle')
    if O is None:
        return real(ex, 'mpFp_sqrt', a)
    if ex.branch(O['none']):
        return z3.BitVecVal(0xffffffff, 32)
    ex.call('mpFp_set_mpz_fp', a[0], mpz(ex, O['root']), ex.ld(a[1], 16, 8))
    return 0


def st_opaque(name):
    """products on the way to the square root, whose answer is free anyway"""
    def st(ex, a):
        O = ex.ctx.get('oracle')
        if O is None or 'root' not in O:
            return real(ex, name, a)
        ex.call('mpFp_set_ui_fp', a[0], 1, ex.ld(a[1], 16, 8))
        return 0 if name == 'mpFp_inv' else None
    return st


BIGSTUBS = {'mpECurve_point_check': st_check, 'mpFp_sqrt': st_root, **{n: st_opaque(n) for n in ('mpFp_mul', 'mpFp_pow_ui', 'mpFp_inv')}}


def big(name, L, first, size='long'):
    c = c17.TABLE[name]
    p, nb, mo = c['p'], (c['bits'] + 7) // 8, c['kind'] == 'mo'

    def h(x):
        cv, _, _ = cvname(x, name)
        t = pnew(x, cv)
        bs = []
        if L:
            bs.append(x.sym('b0', 8) if first is None else first)
            if first is None:
                x.assume(z3.And(*[bs[0] != k for k in (0, 2, 3, 4)]))
        k = min(nb, max(L - 1, 0))
        X = x.sym('X', 8 * k) if k else None
        k2 = max(L - 1 - nb, 0)
        Y = x.sym('Y', 8 * k2) if k2 else None
        for v, n in ((X, k), (Y, k2)):
            bs += [simp(z3.Extract(8 * (n - i) - 1, 8 * (n - i - 1), bv(v, 8 * n))) for i in range(n)]
        W = 8 * nb + 64
        low = 1 << (64 * ((p.bit_length() - 1) // 64))

        def sized(v, n, how):
            # numbers that fill their limbs, or one-limb numbers: each number of limbs is a path of its own in every operation
            if v is not None and n == nb:
                x.assume(z3.UGE(bv(v, W), low) if how == 'long' else z3.ULT(bv(v, W), 1 << 64))
        if first is not None and first:
            sized(X, k, size)
            sized(Y, k2, size if size == 'long' else 'long')
        comp, full = L == 1 + nb, L == 1 + 2 * nb
        if first == 0:
            ok = z3.BoolVal(comp or full)
            for v, n in ((X, k), (Y, k2)):
                if n:
                    ok = z3.And(ok, bv(v, 8 * n) == 0)
        elif first == 4 and full:
            if x.native:
                on = c17_on(name, simp(X), simp(Y))
            else:
                on = x.symbool('on')
                x.ctx['oracle'] = dict(X=X, Y=Y, on=on, W=W, none=z3.BoolVal(True))
            ok = z3.And(z3.ULT(bv(X, W), p), z3.ULT(bv(Y, W), p), on if z3.is_expr(on) else z3.BoolVal(on))
        elif first in (2, 3) and comp:
            if x.native:
                r = rhs(name, simp(X))
                r = root(r, p) if r is not None else None
                none, zero = r is None, r == 0
            else:
                none, R = x.symbool('noroot'), x.sym('root', 64 * ((p.bit_length() + 63) // 64))
                x.assume(z3.And(z3.ULT(R, p), z3.Or(z3.And(z3.UGE(R, low), z3.ULE(R, p - low)), R == 0) if 2 * low < p else z3.Or(R == 0, z3.UGE(R, low))))
                zero = R == 0
                x.ctx['oracle'] = dict(X=X, Y=0, on=z3.BoolVal(False), W=W, none=none, root=R)
            B = lambda v: v if z3.is_expr(v) else z3.BoolVal(v)
            ok = z3.And(z3.ULT(bv(X, W), p), z3.Not(B(none)), z3.Not(z3.And(B(zero), z3.BoolVal(first == 3))))
        else:
            ok = z3.BoolVal(False)
        st = bv(ci(x, 'mpECP_set_bytes', t, mkbytes(x, bs), L, cv), 32)
        x.ctx['oracle'] = None
        if not x.branch(st == 0):
            x.check(z3.Not(ok), 'the encoding of a curve point was refused')
            x.reach()
            return
        if not x.check(ok, 'accepted bytes that encode no curve point'):
            x.reach()
            return
        if first == 0:
            m = pnew(x, cv)
            x.call('mpECP_set_neutral', m, cv)
            x.check(bv(ci(x, 'mpECP_cmp', t, m), 32) == 0, 'all-zero encoding does not give the neutral element')
        elif x.native or not mo:
            u, v = affine(x, t, W)
            x.check(u == bv(X, W), 'imported x coordinate differs from the encoded one')
            if first == 4:
                x.check(v == bv(Y, W), 'imported y coordinate differs from the encoded one')
            else:
                r = bv(r if x.native else R, W)
                x.check(z3.And(z3.Or(v == r, v == p - r), z3.Extract(0, 0, v) == first & 1), 'imported y coordinate is not the root of the right parity')
        x.reach()
    return h


def c17_on(name, X, Y):
    c = c17.TABLE[name]
    return eqn(c['kind'], c['p'], c['a'], c['b'], X, Y) == 0


def shapes(name, first):
    """concrete encodings of the shape the witness asks for: valid points with and without one thing changed"""
    c = c17.TABLE[name]
    p, nb = c['p'], (c['bits'] + 7) // 8
    top = 1 << (8 * nb)

    def f(w):
        out = []
        X0 = w.get('X', 0)
        for X in [X0 % p, (X0 >> 8) % p, (X0 >> 64) % p, X0 % (p >> 9), c['gx'], 0, 1, 2, 5, p - 1]:
            n = 0
            while n < 6 and X < p:
                r = rhs(name, X)
                r = root(r, p) if r is not None else None
                for y in ([] if r is None else [r, (p - r) % p]):
                    out.append((X, y))
                    for u, v in ((X + p, y), (X, y + p), (X, y ^ 1), (X ^ 1, y), (X, (y + p // 2) % p)):
                        if u < top and v < top:
                            out.append((u, v))
                if r is None and n == 0:
                    out.append((X, 1))
                if r is not None:
                    break
                X, n = X + 1, n + 1
        return [dict(w, X=u, Y=v) for u, v in out] + [dict(w, X=0, Y=0), dict(w, X=0, Y=1), dict(w, X=1, Y=0)]
    return f


def T(name, fn, **kw):
    return Task(name, fn, gmp=lambda: gmpsym.Kernel(64), cfg={'check_ms': 30000, 'max_steps': 4000000}, **kw)


def tasks(tier):
    out = []
    curves = ['ws31', 'ed31', 'mo31', 'te31'] + (['ws263'] if tier == 'quick' else ['ws251', 'ws29', 'ed29', 'mo29', 'te29', 'ws257', 'ws263', 'ed263', 'mo263', 'te263'])
    for c in curves:
        nb = (TINY[c][1].bit_length() + 7) // 8
        for L in range(0, 2 * nb + 4):
            if L == 0:
                out.append(T('bytes/%s/0' % c, imp(c, 0, None)))
                continue
            for f in (0, 2, 3, 4, None):
                out.append(T('bytes/%s/%d/%s' % (c, L, f), imp(c, L, f)))
    for c in ['ws31'] if tier == 'quick' else ['ws31', 'ed31', 'mo31', 'te31']:
        for L in (0, 1, 3, 4, 6) if tier == 'quick' else range(0, 9):
            for f in (0, 2, 3, 4, None) if L in (4, 6) else (None,):
                out.append(T('str/%s/%d/%s' % (c, L, f), imp(c, L, f, True)))
    named = ('secp112r1', 'secp160k1', 'secp256k1', 'secp521r1', 'E-521', 'Ed25519', 'M-221', 'Curve25519') if tier == 'quick' else tuple(c17.TABLE)
    for c in named:
        nb = (c17.TABLE[c]['bits'] + 7) // 8
        limbs = (c17.TABLE[c]['bits'] + 63) // 64
        for f in (0, 2, 3, 4, None):
            for L in (nb, 1 + nb, 2 + nb, 2 * nb, 1 + 2 * nb, 2 + 2 * nb) if tier != 'quick' or c in ('secp112r1', 'secp521r1') else (1 + nb, 1 + 2 * nb):
                for s in ('long', 'short') if L == 1 + nb and f in (2, 3) or L == 1 + 2 * nb and f == 4 else ('long',):
                    out.append(Task('standard/%s/%d/%s/%s' % (c, L, f, s), big(c, L, f, s), gmp=lambda n=limbs: gmpsym.UFKernel(n + 1),
                                    stubs=BIGSTUBS, candidates=shapes(c, f), cfg={'check_ms': 20000, 'max_steps': 4000000}))
    return out
