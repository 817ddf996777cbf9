"""C03 inversion of field elements."""
from hfield import *
import random
from c02 import shapes

BOUNDS = 'exact: every prime below 64, every element; multi-limb: listed primes of 1..9 limbs, every element, GMP inversion uninterpreted; with and without result/operand aliasing'
OUTSIDE = 'primes not listed; GMP arithmetic itself'
ASSUMES = ['GMP functions behave as documented']


def small(v, k):
    return simp(v) if isinstance(v, int) or not is_z3(simp(v)) else z3.Extract(k - 1, 0, bv(v, 64))


def harness(n, p, alias, exact, prev=None):
    def h(x):
        F, pz = field(x, p)
        a = bv(x.sym('a', p.bit_length() if exact else 64 * n), 64 * n)
        x.assume(z3.ULT(a, p))
        A = fp_elem(x, F, a, n)
        if alias:
            C = A
        elif prev:
            G, _ = field(x, 23 if prev == 'small' else (1 << (64 * (n + 2))) - 59)
            C = fp_elem(x, G, 7, 1 if prev == 'small' else n + 2)
        else:
            C = fp_new(x, F)
        st = ci(x, 'mpFp_inv', C, A)
        x.check((bv(st, 32) == 0) == (a != 0), 'inv: status does not tell whether an inverse exists')
        if not x.branch(a == 0):
            v = wellformed(x, C, F, p, n, 'inv')
            if exact:
                x.assume(z3.ULT(bv(v, 64), p))
                v, a = (small(t, p.bit_length()) for t in (v, a))
                x.check(bv(kmod(x, kmul(x, v, a), p), 64) == 1, 'inv: result times operand is not 1')
            elif x.native:
                x.check(z3.BoolVal(simp(v) * simp(a) % p == 1), 'inv: result times operand is not 1')
            else:
                ok, want = gmpsym.K(x).invert(x, a, p)
                x.hint('r', want)
                x.check(bv(v, 64 * n) == bv(want, 64 * n), 'inv: result times operand is not 1')
        if not alias:
            x.check(bv(fp_val(x, A, n), 64 * n) == bv(a, 64 * n), 'inv: operand changed')
        x.reach()
    return h


def cands(n, p):
    def f(w):
        rnd = random.Random(1)
        for r in [w.get('hint:r', 1)] + shapes(p, n, rnd):
            if r % p:
                yield {'a': pow(r, -1, p)}
                yield {'a': r % p}
    return f


def tasks(tier):
    out = []
    for p in (2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47, 53, 59, 61):
        for al in (False, True):
            out.append(Task('exact/p=%d/%s' % (p, 'c=a' if al else 'distinct'), harness(1, p, al, True), gmp=lambda: gmpsym.Kernel(64), validate=p in (2, 61)))
    for n in ([1, 2, 3, 4, 6, 9] if tier == 'quick' else [1, 2, 3, 4, 5, 6, 7, 9, 16]):
        for i, p in enumerate(PRIMES[n]):
            for al in (False, True):
                for prev in ([None, 'small', 'large'] if not al else [None]):
                    out.append(Task('multi/%d limbs/p%d/%s%s' % (n, i, 'c=a' if al else 'distinct', '/prev-' + prev if prev else ''),
                                    harness(n, p, al, False, prev), gmp=lambda n=n: gmpsym.UFKernel(n), candidates=cands(n, p)))
    return out
