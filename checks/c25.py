"""C25 ECDSA verification accepts exactly the valid signatures."""
from hecdsa import *

BOUNDS = 'groups of order 7 to 23 on curves of the four types (orders below and above p): every public key of the group, every pair (r, s) below n including zeros, every digest of one byte ' \
         '(thorough: up to three); combinations u1*G + u2*Q that are neutral'
OUTSIDE = 'larger groups; public keys outside the subgroup generated by G'
ASSUMES = ['multiplication of points (C17, C18)']


def verify(name, hsz, part):
    def h(x):
        c, cv = curve_of(x, name)
        S = Spec(c)
        n, L = c['n'], c['n'].bit_length()
        hb = [x.sym('h%d' % i, 8) for i in range(hsz)]
        v = {k: x.sym(k, L) for k in 'qrs'}
        for k in 'qrs':
            x.assume(z3.ULT(bv(v[k], L), n))
        x.assume(bv(v['q'], L) != 0)
        zero = z3.Or(bv(v['r'], L) == 0, bv(v['s'], L) == 0)
        x.assume(zero if part == 'zero' else z3.Not(zero))
        ss = scheme(x, cv, hsz, hb)
        sig = x.alloc(128, 'signature')
        for off, k in ((0, 'r'), (24, 's')):
            t = x.padd(sig, off)
            x.call('mpFp_init', t, mpz(x, n))
            x.call('mpFp_set_mpz', t, mpz(x, v[k]), mpz(x, n))
        x.st(sig, 48, 8, ss)
        pk = dl_point(x, c, cv, v['q'])
        msg = mkbytes(x, [9, 8])
        st = bv(ci(x, 'mpECDSASignature_verify_cmp', sig, pk, msg, 2), 32)
        if part != 'zero':
            hash_ok(x, msg, 2, 'verify')
        ok = S.verify(v['r'], v['s'], S.e(hb), v['q'])
        if x.branch(st == 0):
            x.check(ok, 'an invalid signature is accepted')
        else:
            x.check(z3.Not(ok), 'a valid signature is rejected')
        for off, k in ((0, 'r'), (24, 's')):
            x.check(fpval(x, x.padd(sig, off), S.W) == bv(v[k], S.W), 'verification changed the signature')
        x.reach()
    return h


def refuse(what):
    """a signature whose numbers belong to another order, or no message"""
    def h(x):
        c, cv = curve_of(x, 'ws23')
        n = c['n']
        ss = scheme(x, cv, 1, [x.sym('h0', 8)])
        sig = x.alloc(128, 'signature')
        v = x.sym('v', 4)
        x.assume(bv(v, 4) != 0)
        for off, k in ((0, 'r'), (24, 's')):
            m = 17 if what == k else n
            t = x.padd(sig, off)
            x.call('mpFp_init', t, mpz(x, m))
            x.call('mpFp_set_mpz', t, mpz(x, v), mpz(x, m))
        x.st(sig, 48, 8, ss)
        pk = dl_point(x, c, cv, 5)
        msg = mkbytes(x, [9])
        st = bv(ci(x, 'mpECDSASignature_verify_cmp', sig, pk, msg, 0 if what == 'size' else 1), 32)
        x.check(st != 0, 'accepted')
        x.reach()
    return h


def tasks(tier):
    out = []
    for name in ('ws23', 'ws19', 'mo31', 'mo41', 'ed43', 'te41') if tier == 'quick' else DLOG:
        for hsz in (1,) if tier == 'quick' else (1, 2, 3):
            for part in ('zero', 'in'):
                out.append(task('verify/%s/%d/%s' % (name, hsz, part), verify(name, hsz, part)))
    for w in ('r', 's', 'size'):
        out.append(task('refuse/' + w, refuse(w)))
    return out
