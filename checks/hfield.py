"""Harness helpers for field elements (mpFp_t: mpz_t i[1]; field pointer)."""
from vf import *
FP = 24


def field(x, p, n=None):
    """the library's field object for the prime p (int, or full-size limbs already assumed)"""
    t = x.alloc(FP, 'mpFp')
    z = mpz(x, p) if n is None else gmpsym_full(x, p, n)
    x.call('mpFp_init', t, z)
    return x.ld(t, 16, 8), z


def gmpsym_full(x, p, n):
    if x.native:
        return mpz(x, p)
    return gmpsym.mpz_full(x, [gmpsym.limb(p, i) for i in range(n)])


def fp_new(x, f):
    t = x.alloc(FP, 'mpFp')
    x.call('mpFp_init_fp', t, f)
    return t


def fp_set(x, t, v, n):
    d = x.ld(t, 8, 8)
    for i in range(n):
        x.st(d, 8 * i, 8, gmpsym.limb(v if isinstance(v, int) or v.size() >= 64 * n else bv(v, 64 * n), i))
    x.st(t, 4, 4, n)


def fp_elem(x, f, v, n):
    t = fp_new(x, f)
    fp_set(x, t, v, n)
    return t


def fp_val(x, t, n):
    return limbs(x, x.ld(t, 8, 8), n)


def wellformed(x, t, f, p, n, what):
    """canonical: size is the field's limb count, value below p, right field"""
    x.check(bv(x.ld(t, 4, 4), 32) == n, what + ': element not padded to the field size')
    v = fp_val(x, t, n)
    x.check(z3.ULT(bv(v, 64 * n), bv(p, 64 * n)), what + ': result not reduced below p')
    fld = x.ld(t, 16, 8)
    same = fld == f if x.native else isinstance(fld, Ptr) and fld.o is f.o and fld.off == f.off
    x.check(z3.BoolVal(same), what + ': result tagged with another field')
    return v
