"""C28 ElGamal: C = kG, D = M + kQ with a fresh nonzero k; decryption gives D - dC and undoes encryption."""
from hecdsa import *
import c17, hgroup

BOUNDS = 'exact groups of order 7 to 23 of the four curve types: every key, every message point (the neutral one and those needing doubling or cancellation included), every sequence of up to three draws of k with zeros; ' \
         'decryption of every pair of points with every key; orders of 8 to 161 bits (thorough: 256 and more) with formal points: every k, every secret key'
OUTSIDE = 'larger orders'
ASSUMES = ['point arithmetic (C11 to C15)', 'random integers are arbitrary values of [0, n) (C29)']


def ispt(x, c, t, i, what):
    """the point is i*G"""
    n = c['n']
    W = n.bit_length()
    i = bv(i, max(W, 8))
    neutral = bv(x.ld(t, 72, 4), 32) != 0
    isO = z3.Or(*[i == k for k in range(n) if c['T'][k] is None]) if any(P is None for P in c['T']) else z3.BoolVal(False)
    if c['kind'] in ('ws', 'mo'):
        if not x.check(neutral == isO, what + ': neutral or not'):
            return
        if x.branch(isO):
            return
    u = x.alloc(128, 'point')
    x.call('mpECP_init', u, x.ld(t, 80, 8))
    x.call('mpECP_set', u, t)
    zx, zy = mpz(x, 0), mpz(x, 0)
    x.call('mpz_set_mpECP_affine_x', zx, u)
    x.call('mpz_set_mpECP_affine_y', zy, u)
    w = c['p'].bit_length()
    ok = z3.And(bv(zval(x, zx)[1], w) == bv(pick([0 if P is None else P[0] for P in c['T']], simp(i), w), w),
                bv(zval(x, zy)[1], w) == bv(pick([0 if P is None else P[1] for P in c['T']], simp(i), w), w))
    x.check(ok, what)
    x.call('mpECP_clear', u)


def mod(n, v):
    w = v.size()
    return z3.URem(v, z3.BitVecVal(n, w))


def end2end(name, ndraw, decrypt, second=False):
    def h(x):
        c, cv = curve_of(x, name)
        n, L = c['n'], c['n'].bit_length()
        W = 2 * L + 2
        d, m = x.sym('d', L), x.sym('m', L)
        ks = [x.sym('k%d' % i, L) for i in range(ndraw)]
        for v in (d, m, *ks):
            x.assume(z3.ULT(bv(v, L), n))
        x.assume(z3.And(bv(ks[-1], L) != 0, *[bv(k, L) == 0 for k in ks[:-1]]))
        x.assume(bv(d, L) != 0)
        pk, pt = dl_point(x, c, cv, d), dl_point(x, c, cv, m)
        set_draws(x, ks, n)
        ct = x.alloc(208, 'ciphertext')
        st = ci(x, 'mpECElgamal_init_encrypt', ct, pk, pt)
        if not x.check(bv(st, 32) == 0, 'encryption failed'):
            return
        C, D = ct, x.padd(ct, 104)
        k = bv(ks[-1], W)
        if not decrypt:
            ispt(x, c, C, mod(n, k), 'C is not k*G')
            ispt(x, c, D, mod(n, mod(n, k * bv(d, W)) + bv(m, W)), 'D is not M + k*Q')
            ispt(x, c, pk, bv(d, W), 'public key changed')
            ispt(x, c, pt, bv(m, W), 'message point changed')
            x.check(z3.BoolVal(same_ptr(x, x.ld(C, 80, 8), cv) and same_ptr(x, x.ld(D, 80, 8), cv)), 'ciphertext on another curve')
        else:
            sk = fpn(x, d, n)
            res = x.alloc(104, 'plaintext')
            st = ci(x, 'mpECElgamal_init_decrypt', res, sk, ct)
            if x.check(bv(st, 32) == 0, 'decryption failed'):
                ispt(x, c, res, bv(m, W), 'decryption does not undo encryption')
                x.call('mpECP_clear', res)
        x.call('mpECElgamal_clear', ct)
        x.reach()
    return h


def decrypt(name):
    """any pair of points, any key"""
    def h(x):
        c, cv = curve_of(x, name)
        n, L = c['n'], c['n'].bit_length()
        W = 2 * L + 2
        d, a, b = x.sym('d', L), x.sym('a', L), x.sym('b', L)
        for v in (d, a, b):
            x.assume(z3.ULT(bv(v, L), n))
        ct = x.alloc(208, 'ciphertext')
        C, D = ct, x.padd(ct, 104)
        for t, v in ((C, a), (D, b)):
            s = dl_point(x, c, cv, v)
            x.call('mpECP_init', t, cv)
            x.call('mpECP_set', t, s)
        sk = fpn(x, d, n)
        res = x.alloc(104, 'plaintext')
        st = ci(x, 'mpECElgamal_init_decrypt', res, sk, ct)
        if not x.check(bv(st, 32) == 0, 'decryption failed'):
            return
        ispt(x, c, res, mod(n, bv(b, W) + n - mod(n, bv(a, W) * bv(d, W))), 'result is not D - d*C')
        ispt(x, c, C, bv(a, W), 'C changed')
        ispt(x, c, D, bv(b, W), 'D changed')
        x.check(fpval(x, sk, W) == bv(d, W), 'secret key changed')
        x.reach()
    return h


OTHER = {
    # another curve: differs from the first in the parameters named
    'all': ('ws23', lambda c: table('ws19')), 'field': ('mo43', lambda c: table('mo41')), 'type': ('mo43', lambda c: table('ed43')), 'type te': ('te41', lambda c: table('mo41')),
    'cofactor': ('ws23', lambda c: dict(c, h=c['h'] + 1)), 'generator': ('ws23', lambda c: dict(c, G=c['T'][2])), 'generator ed': ('ed43', lambda c: dict(c, G=c['T'][3])),
    'order': ('ws23', lambda c: dict(c, n=c['n'] + 4)),
}


def refuse(what, other='all'):
    def h(x):
        name, mk = OTHER[other]
        c, cv = curve_of(x, name)
        n = c['n']
        set_draws(x, [1, 2], n)
        i = x.sym('i', n.bit_length())
        x.assume(z3.ULT(i, n))
        if what == 'key':
            ct = x.alloc(208, 'ciphertext')
            for t in (ct, x.padd(ct, 104)):
                x.call('mpECP_init', t, cv)
                x.call('mpECP_set', t, dl_point(x, c, cv, 3))
            m = 23 if n != 23 else 19
            st = ci(x, 'mpECElgamal_init_decrypt', x.alloc(104, 'plaintext'), fpn(x, 5, m), ct)
        else:
            # the message lies on a curve with other parameters
            c2 = mk(c)
            cv2 = x.alloc(512, 'curve')
            x.call('mpECurve_init', cv2)
            ok = ci(x, 'mpECurve_set_mpz_' + c2['kind'], cv2, *[mpz(x, v) for v in (c2['p'], c2['a'], c2['b'], c2['n'], c2['h'], c2['G'][0], c2['G'][1])], c2['p'].bit_length())
            x.check(bv(ok, 32) == 0, 'curve refused')
            t = pnew(x, cv2)
            x.call('mpECP_set_mpz', t, mpz(x, c2['G'][0]), mpz(x, c2['G'][1]), cv2)
            a, b = (dl_point(x, c, cv, i), t) if what == 'message' else (t, dl_point(x, c, cv, i))
            st = ci(x, 'mpECElgamal_init_encrypt', x.alloc(208, 'ciphertext'), a, b)
        x.check(bv(st, 32) != 0, 'not refused')
        x.reach()
    return h


def twin():
    """the message on a separately built, equal curve: accepted"""
    def h(x):
        c, cv = curve_of(x, 'ws23')
        n, L = c['n'], c['n'].bit_length()
        cv2 = x.alloc(512, 'curve')
        x.call('mpECurve_init', cv2)
        x.call('mpECurve_set', cv2, cv)
        d, m, k = x.sym('d', L), x.sym('m', L), x.sym('k', L)
        for v in (d, m, k):
            x.assume(z3.And(z3.ULT(bv(v, L), n), bv(v, L) != 0))
        set_draws(x, [k], n)
        pt = dl_point(x, c, cv2, m)
        ct = x.alloc(208, 'ciphertext')
        st = ci(x, 'mpECElgamal_init_encrypt', ct, dl_point(x, c, cv, d), pt)
        if x.check(bv(st, 32) == 0, 'message on an equal curve refused'):
            res = x.alloc(104, 'plaintext')
            st = ci(x, 'mpECElgamal_init_decrypt', res, fpn(x, d, n), ct)
            if x.check(bv(st, 32) == 0, 'decryption failed'):
                ispt(x, c, res, bv(m, 2 * L + 2), 'decryption does not undo encryption')
        x.reach()
    return h


# ---------------------------------------------------------------- formal points, real sizes
def formal(name, which, limbs_=None):
    def h(x):
        c, cv, P = c17.setup(x, name)
        n, L = c['n'], c['n'].bit_length()
        A = c17.Aff(c)
        bs, v = hgroup.scalar(x, 'k', L, n, limbs_)
        kv = simp(v) if x.native else None
        if x.native:
            qp, mp = A.mul(5, P), A.mul(11, P)
        else:
            qp = mp = None
            cg = [gmpsym.zread(x, x.padd(cv, 192 + 16 * i))[1] for i in (0, 1)]
            x.ctx['gens'] = [('G', *cg)]
        Q, M = hgroup.gen(x, cv, 'Q', qp), hgroup.gen(x, cv, 'M', mp)
        if which == 'encrypt':
            x.assume(bv(v, L) != 0)
            set_draws(x, [v if x.native else c17.Shifted(v, n, 0, limbs_)], n)
            ct = x.alloc(208, 'ciphertext')
            st = ci(x, 'mpECElgamal_init_encrypt', ct, Q, M)
            if not x.check(bv(st, 32) == 0, 'encryption failed'):
                return
            bits = {} if x.native else hgroup.bitsum(bs, 'G')
            c17.expect(x, ct, c, P, bits, kv, 'C is not k*G')
            D = x.padd(ct, 104)
            if x.native:
                c17.expect(x, D, c, P, None, 5 * kv + 11, 'D is not M + k*Q')
            else:
                hgroup.expect_multiple(x, D, {'Q': hgroup.bitsum(bs, 'Q'), 'M': {('M', frozenset()): 1}}, 'D is not M + k*Q')
        else:
            sk = hgroup.sfield(x, v, L, n)
            ct = x.alloc(208, 'ciphertext')
            D = x.padd(ct, 104)
            for t, s in ((ct, Q), (D, M)):
                x.call('mpECP_init', t, cv)
                x.call('mpECP_set', t, s)
            res = x.alloc(104, 'plaintext')
            st = ci(x, 'mpECElgamal_init_decrypt', res, sk, ct)
            if not x.check(bv(st, 32) == 0, 'decryption failed'):
                return
            if x.native:
                c17.expect(x, res, c, P, None, (11 - 5 * kv) % n, 'result is not D - d*C')
            else:
                hgroup.expect_multiple(x, res, {'Q': {k: -w for k, w in hgroup.bitsum(bs, 'Q').items()}, 'M': {('M', frozenset()): 1}}, 'result is not D - d*C')
        x.reach()
    return h


def tf(name, fn, **kw):
    st = dict(hgroup.gstubs(), mpz_urandom=random_source(None, more_draws))
    return Task(name, fn, stubs=st, gmp=lambda: gmpsym.Kernel(64), native_lib=wrapped, cfg={'check_ms': 30000, 'max_steps': 4000000}, **kw)


def tasks(tier):
    out = []
    for b in ('ws16n17', 'ed16', 'mo16', 'te16', 'secp160r1') + (('secp256k1', 'secp384r1', 'Curve25519', 'Ed25519') if tier == 'thorough' else ()):
        for lc in range(1, (c17.spec(b)['n'].bit_length() + 63) // 64 + 1):
            out.append(tf('formal/encrypt/%s/%d' % (b, lc), formal(b, 'encrypt', lc)))
        out.append(tf('formal/decrypt/' + b, formal(b, 'decrypt')))
    for name in ('ws23', 'mo31', 'ed43', 'te41') if tier == 'quick' else DLOG:
        out.append(task('decrypt/' + name, decrypt(name)))
        for nd in (1, 2) if tier == 'quick' else (1, 2, 3):
            out.append(task('encrypt/%s/%d' % (name, nd), end2end(name, nd, False)))
        out.append(task('roundtrip/%s' % name, end2end(name, 1, True)))
    for w in ('key', 'message', 'public'):
        for o in OTHER if w != 'key' else ('all',):
            out.append(task('refuse/%s/%s' % (w, o), refuse(w, o)))
    out.append(task('twin', twin()))
    return out
