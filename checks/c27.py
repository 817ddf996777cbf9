"""C27 the number signed is the leftmost bits of the digest, for digests shorter, longer and as long as the order."""
from hecdsa import *
import c17

BOUNDS = 'orders of 5 to 521 bits (whole bytes, one bit more, one bit less, whole limbs), digests of 1 to 66 bytes, shorter, equal and longer than the order: every digest; signing with nonce 1 ' \
         '(two secret keys) and verification with s = 1'
OUTSIDE = 'the dependence on the nonce, the key and s, which is C24 and C25 on small groups (the code has no branch on sizes there)'
ASSUMES = ['multiplication of points (C17, C18)', 'scalar field arithmetic (C01 to C03)']


def sign(n, hsz, d):
    L = n.bit_length()
    W = max(L, 8 * hsz) + 2

    def h(x):
        cv = tcurve(x, 'ws11', n=n)
        hb = [x.sym('h%d' % i, 8) for i in range(hsz)]
        dg = digest(n, hb)
        e = z3.URem(bv(dg, W), z3.BitVecVal(n, W)) if dg.size() >= L else bv(dg, W)
        if dg.size() >= L:          # below 2^L < 2n
            v = bv(dg, W)
            e = z3.If(z3.UGE(v, n), v - n, v)
        ss = scheme(x, cv, hsz, hb)
        xG = tiny('ws11')[4][0]
        want = e + (xG % n) * d
        want = z3.If(z3.UGE(want, n), want - n, want)
        x.assume(want != 0)
        sk = fpn(x, d, n)
        set_draws(x, [1], n)
        msg = mkbytes(x, [1, 2, 3])
        sig = x.alloc(128, 'signature')
        st = ci(x, 'mpECDSASignature_init_Sign', sig, ss, sk, msg, 3)
        if not x.check(bv(st, 32) == 0, 'signing failed'):
            return
        x.check(fpval(x, sig, W) == xG % n, 'r for nonce 1')
        x.check(fpval(x, x.padd(sig, 24), W) == want, 'the signed number is not the leftmost bits of the digest')
        x.reach()
    return h


def verify(name, hsz):
    """s = 1 and a neutral public key: valid exactly when x(e*G) = r"""
    n = c17.TABLE[name]['n']
    L = n.bit_length()
    W = max(L, 8 * hsz) + 2

    def h(x):
        cv = x.alloc(512, 'curve')
        x.call('mpECurve_init', cv)
        assert simp(bv(ci(x, 'mpECurve_set_named', cv, mkstr(x, name)), 32)) in (0,) or not x.native
        hb = [x.sym('h%d' % i, 8) for i in range(hsz)]
        dg = digest(n, hb)
        v = bv(dg, W)
        e = z3.If(z3.UGE(v, n), v - n, v)
        ss = scheme(x, cv, hsz, hb)
        t = pnew(x, cv)
        if x.native:
            x.call('mpECP_set', t, x.padd(ss, 8))
            x.call('mpECP_scalar_mul_mpz', t, t, mpz(x, simp(e)))
            zx = mpz(x, 0)
            x.call('mpz_set_mpECP_affine_x', zx, t)
            r = zval(x, zx)[1] % n
        else:
            r = 12345
            x.ctx['want'] = e
        sig = x.alloc(56, 'signature')
        for off, val in ((0, r), (24, 1)):
            u = x.padd(sig, off)
            x.call('mpFp_init', u, mpz(x, n))
            x.call('mpFp_set_mpz', u, mpz(x, val), mpz(x, n))
        x.st(sig, 48, 8, ss)
        x.assume(e != 0)
        pk = pnew(x, cv)
        x.call('mpECP_set_neutral', pk, cv)
        msg = mkbytes(x, [9, 8])
        if not x.native:
            x.ctx['armed'] = True
        st = bv(ci(x, 'mpECDSASignature_verify_cmp', sig, pk, msg, 2), 32)
        if x.native:
            x.check(st == 0, 'the verified number is not the leftmost bits of the digest')
        else:
            x.check(z3.BoolVal(x.ctx.get('u1') is not None), 'no multiple of the base point computed')
            x.check(bv(x.ctx['u1'], W) == e, 'the verified number is not the leftmost bits of the digest')
        x.reach()
    return h


def st_mul(scal):
    def st(ex, a):
        if not ex.ctx.get('armed'):
            return real(ex, 'mpECP_set', a[:2])         # the nonce is 1
        import gmpsym
        sc = a[2]
        if scal == 'fp':
            z = mpz(ex, 0)
            real(ex, 'mpz_set_mpFp', [z, sc])
            sc = z
        v = gmpsym.zread(ex, sc)[1]
        if not isinstance(v, int) or v != 12345:         # u2 = r
            ex.ctx['u1'] = v
            return real(ex, 'mpECP_set', [a[0], a[1]])
        return real(ex, 'mpECP_set_neutral', [a[0], ex.load(ex.padd(a[1], 80), 8)])
    return st


STUBS27 = dict(DLSTUBS)
for k in list(STUBS27):
    if k.startswith('mpECP_'):
        del STUBS27[k]
STUBS27['mpECP_scalar_base_mul_setup'] = lambda ex, a: None
for k, s in (('mpECP_scalar_mul', 'fp'), ('mpECP_scalar_mul_mpz', 'mpz'), ('mpECP_scalar_base_mul', 'fp'), ('mpECP_scalar_base_mul_mpz', 'mpz')):
    STUBS27[k] = st_mul(s)


def t27(name, fn, **kw):
    return Task(name, fn, stubs=dict(STUBS27), gmp=lambda: gmpsym.Kernel(64), native_lib=wrapped, cfg={'check_ms': 60000, 'max_steps': 4000000}, **kw)


def tasks(tier):
    out = []
    T = lambda k: c17.TABLE[k]['n']
    for nm, n in (('23', 23), ('127', 127), ('251', 251), ('257', 257), ('65537', 65537)):
        nb = (n.bit_length() + 7) // 8
        for hsz in sorted({1, 2, nb, nb + 1, nb + 3}):
            for d in (0, 1):
                out.append(t27('sign/%s/%d/%d' % (nm, hsz, d), sign(n, hsz, d)))
    big = ('secp112r1', 'secp160r1', 'secp256k1', 'secp521r1') if tier == 'quick' else ('secp112r1', 'secp128r1', 'secp160r1', 'secp192r1', 'secp224k1', 'secp256k1', 'secp384r1', 'E-521', 'secp521r1', 'Curve41417', 'M-511')
    for k in big:
        nb = (T(k).bit_length() + 7) // 8
        hs = sorted({20, 32, nb - 1, nb, nb + 1, 64} if tier == 'quick' else {1, 8, 16, 20, 28, 32, 48, 64, nb - 2, nb - 1, nb, nb + 1, nb + 8})
        for hsz in hs:
            out.append(t27('sign/%s/%d' % (k, hsz), sign(T(k), hsz, 1)))
            if hsz in (32, nb - 1, nb, nb + 1) or tier == 'thorough':
                out.append(t27('verify/%s/%d' % (k, hsz), verify(k, hsz)))
    return out
