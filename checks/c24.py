"""C24 ECDSA signing follows the standard for every secret, digest and sequence of random draws."""
from hecdsa import *

BOUNDS = 'groups of order 7 to 23 on curves of the four types (orders below and above p): every secret key, every digest of one to three bytes, every sequence of up to three random draws, ' \
         'among them draws of zero, draws giving r = 0 and s = 0; the result verified by the library itself'
OUTSIDE = 'larger groups: the scalar-field arithmetic at full size is C01 to C03, the digest conversion at full size C26'
ASSUMES = ['multiplication of points (C17, C18)', 'random integers are arbitrary values of [0, n) (C29)']


def sign(name, hsz, ndraw, verify=False):
    def h(x):
        c, cv = curve_of(x, name)
        S = Spec(c)
        n, L = c['n'], c['n'].bit_length()
        hb = [x.sym('h%d' % i, 8) for i in range(hsz)]
        d = x.sym('d', L)
        x.assume(z3.And(z3.ULT(bv(d, L), n), bv(d, L) != 0))
        ks = [x.sym('k%d' % i, L) for i in range(ndraw)]
        for k in ks:
            x.assume(z3.ULT(bv(k, L), n))
        ss = scheme(x, cv, hsz, hb)
        e = S.e(hb)
        outs = [S.sign(bv(k, L), e, bv(d, L)) for k in ks]
        x.assume(z3.And(outs[-1][0], *[z3.Not(o[0]) for o in outs[:-1]]))
        sk = fpn(x, d, n)
        set_draws(x, ks, n)
        msg = mkbytes(x, [1, 2, 3])
        sig = x.alloc(128, 'signature')
        st = ci(x, 'mpECDSASignature_init_Sign', sig, ss, sk, msg, 3)
        if not x.check(bv(st, 32) == 0, 'signing failed'):
            return
        hash_ok(x, msg, 3, 'sign')
        r, s = fpval(x, sig, S.W), fpval(x, x.padd(sig, 24), S.W)
        x.check(r == outs[-1][1], 'r is not the x coordinate of k*G mod n')
        x.check(s == outs[-1][2], 's is not (e + r*d)/k mod n')
        x.check(z3.BoolVal(same_ptr(x, x.ld(sig, 48, 8), ss)), 'signature refers to another scheme')
        x.check(fpval(x, sk, S.W) == bv(d, S.W), 'secret key changed')
        if verify:
            pk = dl_point(x, c, cv, d)
            st = ci(x, 'mpECDSASignature_verify_cmp', sig, pk, msg, 3)
            x.check(bv(st, 32) == 0, 'own signature rejected')
        x.reach()
    return h


def bad(what):
    def h(x):
        c, cv = curve_of(x, 'ws23')
        ss = scheme(x, cv, 1, [x.sym('h0', 8)])
        sk = fpn(x, 3, c['n'])
        sig = x.alloc(128, 'signature')
        set_draws(x, [1, 2, 3], c['n'])
        msg = mkbytes(x, [7])
        st = ci(x, 'mpECDSASignature_init_Sign', sig, 0 if what == 'scheme' else ss, sk, 0 if what == 'msg' else msg, 0 if what == 'size' else 1)
        x.check(bv(st, 32) != 0, 'missing input not refused')
        x.reach()
    return h


def tasks(tier):
    out = []
    for name in ('ws23', 'ws19', 'mo31', 'ed43', 'te41') if tier == 'quick' else DLOG:
        out.append(task('sign/%s/1' % name, sign(name, 1, 1, True)))
        out.append(task('sign/%s/2' % name, sign(name, 1, 2)))
    for name, hsz, nd in (('ws23', 2, 1), ('ws23', 3, 2), ('ws19', 2, 2), ('mo31', 2, 3), ('ws23', 1, 3)):
        out.append(task('sign/%s/%d/%d' % (name, hsz, nd), sign(name, hsz, nd)))
    for w in ('scheme', 'msg', 'size'):
        out.append(task('refuse/' + w, bad(w)))
    return out
