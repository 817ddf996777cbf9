"""ECDSA over small groups (discrete-log cut)."""
from htiny import *


def scheme(x, cv, hsz, hbytes):
    H = hashfunc(x, hsz, hbytes)
    ss = x.alloc(256, 'scheme')
    st = ci(x, 'mpECDSASignatureScheme_init', ss, cv, H)
    x.check(bv(st, 32) == 0, 'scheme refused')
    return ss


def digest(n, hbytes):
    """the integer ECDSA signs: the leftmost bits of the digest, as many as n has"""
    L = n.bit_length()
    nb = 8 * len(hbytes)
    if nb == 0:
        return z3.BitVecVal(0, L)
    e = bv(bigend(hbytes), nb)
    return z3.Extract(nb - 1, max(0, nb - L), e)


class Spec:
    """exact arithmetic of the standard, over the table of the group"""
    def __init__(s, c):
        s.c, s.n = c, c['n']
        s.W = 2 * s.n.bit_length() + 2
        s.xs = [0 if P is None else P[0] % s.n for P in c['T']]
        s.inv = [0] + [pow(k, -1, s.n) for k in range(1, s.n)]

    def mod(s, v):
        w = v.size()
        return z3.Extract(s.W - 1, 0, bv(z3.URem(v, z3.BitVecVal(s.n, w)), max(w, s.W)))

    def e(s, hbytes):
        d = digest(s.n, hbytes)
        return s.mod(bv(d, max(d.size(), s.W)))

    def sign(s, k, e, d):
        """(valid, r, s) for the secret k"""
        k, d = bv(k, s.W), bv(d, s.W)
        r = bv(pick(s.xs, simp(k), s.W), s.W)
        t = s.mod(bv(pick(s.inv, simp(k), s.W), s.W) * s.mod(e + s.mod(r * d)))
        return z3.And(k != 0, r != 0, t != 0), r, t

    def verify(s, r, t, e, q):
        """acceptance of (r, t) for the public key q*G"""
        r, t, q = bv(r, s.W), bv(t, s.W), bv(q, s.W)
        w = bv(pick(s.inv, simp(t), s.W), s.W)
        u = s.mod(s.mod(e * w) + s.mod(s.mod(r * w) * q))
        return z3.And(r != 0, t != 0, u != 0, bv(pick(s.xs, simp(u), s.W), s.W) == r)


def task(name, fn, **kw):
    return Task(name, fn, stubs=dict(DLSTUBS), gmp=lambda: gmpsym.Kernel(64), native_lib=wrapped, cfg={'check_ms': 60000, 'max_steps': 4000000}, **kw)
