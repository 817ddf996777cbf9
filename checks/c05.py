"""C05 conversion, comparison, copy and swap of field elements."""
from hfield import *

BOUNDS = 'every modulus of exactly n limbs (listed primes for reductions), every reduced element, every integer of up to n+1 limbs and either sign, every word; n = 1..4 (thorough also 6, 9); ' \
         'every bit index below 64(n+1); every 32-bit swap selector; all aliasing; destinations unused or holding a value of a smaller or larger field'
OUTSIDE = 'limb counts not listed; GMP itself is modelled'
ASSUMES = ['GMP functions behave as documented']


def setup(x, n, names='ab'):
    p = x.sym('p', 64 * n)
    x.assume(z3.Extract(64 * n - 1, 64 * n - 64, p) != 0)
    x.assume(z3.UGE(p, 2))
    F, _ = field(x, p, n)
    vs = []
    for c in names:
        v = x.sym(c, 64 * n)
        x.assume(z3.ULT(v, p))
        vs.append(v)
    return p, F, vs


def dest(x, F, n, prev):
    if not prev:
        return fp_new(x, F)
    G, _ = field(x, 23 if prev == 'small' else (1 << (64 * (n + 2))) - 59)
    return fp_elem(x, G, 7, 1 if prev == 'small' else n + 2)


def copy(n, alias, prev):
    def h(x):
        p, F, (a,) = setup(x, n, 'a')
        A = fp_elem(x, F, a, n)
        C = A if alias else dest(x, F, n, prev)
        x.call('mpFp_set', C, A)
        v = wellformed(x, C, F, p, n, 'set')
        x.check(bv(v, 64 * n) == a, 'set: copy differs')
        if not alias:      # the copy must be independent
            x.call('mpFp_set_ui_fp', C, 1, F)
            x.check(bv(fp_val(x, A, n), 64 * n) == a, 'set: changing the copy changes the original')
        x.reach()
    return h


def cmp(n, alias):
    def h(x):
        p, F, (a, b) = setup(x, n)
        A = fp_elem(x, F, a, n)
        if alias:
            B, b = A, a
        else:
            B = fp_elem(x, F, b, n)
        r = ci(x, 'mpFp_cmp', A, B)
        x.check((bv(r, 32) == 0) == (a == b), 'cmp: equality wrong')
        x.check(bv(fp_val(x, A, n), 64 * n) == a, 'cmp: operand changed')
        x.reach()
    return h


def cmp_ui(n):
    def h(x):
        p, F, (a,) = setup(x, n, 'a')
        w = x.sym('w', 64)
        A = fp_elem(x, F, a, n)
        r = ci(x, 'mpFp_cmp_ui', A, w)
        x.check((bv(r, 32) == 0) == (a == bv(w, 64 * n)), 'cmp_ui: equality with a word wrong')
        x.reach()
    return h


def cmp_mpz(n, m):
    def h(x):
        p, F, (a,) = setup(x, n, 'a')
        b, neg = x.sym('b', 64 * m), x.symbool('neg')
        A = fp_elem(x, F, a, n)
        B = mpz(x, b, neg=neg)
        r = ci(x, 'mpFp_cmp_mpz', A, B)
        W = 64 * max(n, m)
        x.check((bv(r, 32) == 0) == z3.And(bv(a, W) == bv(b, W), z3.Or(b == 0, z3.Not(boolz(neg) if not isinstance(neg, bool) else z3.BoolVal(neg)))), 'cmp_mpz: equality with an integer wrong')
        x.reach()
    return h


def to_mpz(n, prev):
    def h(x):
        p, F, (a,) = setup(x, n, 'a')
        A = fp_elem(x, F, a, n)
        Z = mpz(x, {'zero': 0, 'small': 5, 'neg': -7, 'large': (1 << (64 * 2 * n + 64)) - 3}[prev])
        x.call('mpz_set_mpFp', Z, A)
        ng, v = zval(x, Z)
        x.check(z3.BoolVal(not ng) if isinstance(ng, bool) else z3.Not(ng), 'to integer: negative')
        x.check(bv(v, 64 * n) == a, 'to integer: value differs')
        s = x.ld(Z, 4, 4)
        s = x.concretize(s, 32)
        x.check(bv(a, 64 * n) == 0 if s == 0 else z3.Extract(64 * s - 1, 64 * s - 64, bv(a, 64 * n)) != 0, 'to integer: the integer is not normalised')
        x.check(bv(fp_val(x, A, n), 64 * n) == a, 'to integer: operand changed')
        x.reach()
    return h


def tst(n):
    def h(x):
        p, F, (a,) = setup(x, n, 'a')
        A = fp_elem(x, F, a, n)
        for kk in range(64 * n + 64):
            r = ci(x, 'mpFp_tstbit', A, kk)
            want = z3.Extract(kk, kk, a) if kk < 64 * n else z3.BitVecVal(0, 1)
            x.check((bv(r, 32) != 0) == (want == 1), 'tstbit: wrong bit')
        x.reach()
    return h


def swap(n, cond, alias):
    def h(x):
        p, F, (a, b) = setup(x, n)
        A = fp_elem(x, F, a, n)
        if alias:
            B, b = A, a
        else:
            B = fp_elem(x, F, b, n)
        if cond:
            s = x.sym('s', 32)
            x.call('mpFp_cswap', A, B, s if x.native else bv(s, 32))
        else:
            s = z3.BitVecVal(1, 32)
            x.call('mpFp_swap', A, B)
        va, vb = wellformed(x, A, F, p, n, 'swap'), wellformed(x, B, F, p, n, 'swap')
        x.check(z3.If(s != 0, z3.And(bv(va, 64 * n) == b, bv(vb, 64 * n) == a), z3.And(bv(va, 64 * n) == a, bv(vb, 64 * n) == b)), 'swap: wrong values')
        x.reach()
    return h


def set_ui(n, p, prev, viap):
    def h(x):
        F, pz = field(x, p)
        w = x.sym('w', 64)
        C = dest(x, F, n, prev)
        if viap:
            x.call('mpFp_set_ui', C, w, pz)
        else:
            x.call('mpFp_set_ui_fp', C, w, F)
        v = wellformed(x, C, F, p, n, 'set_ui')
        x.check(bv(v, 64 * n) == (bv(z3.URem(w, z3.BitVecVal(p, 64)), 64 * n) if n == 1 else bv(w, 64 * n)), 'set_ui: not the word reduced mod p')
        x.reach()
    return h


def set_mpz(n, p, m, prev, viap):
    def h(x):
        F, pz = field(x, p)
        b, neg = x.sym('b', 64 * m if n > 1 else 20), x.symbool('neg')
        C = dest(x, F, n, prev)
        B = mpz(x, b, neg=neg)
        if viap:
            x.call('mpFp_set_mpz', C, B, pz)
        else:
            x.call('mpFp_set_mpz_fp', C, B, F)
        v = wellformed(x, C, F, p, n, 'set_mpz')
        r = bv(kmod(x, b, p), 64 * n)
        x.hint('r', r)
        isneg = boolz(neg) if not isinstance(neg, bool) else z3.BoolVal(neg)
        want = z3.If(z3.And(isneg, r != 0), bv(p, 64 * n) - r, r)
        x.check(bv(v, 64 * n) == want, 'set_mpz: not the integer reduced mod p')
        ng, bb = zval(x, B)
        x.check(bv(bb, 64 * m) == bv(b, 64 * m), 'set_mpz: operand changed')
        x.reach()
    return h


def cands(n, p):
    import random
    from c02 import shapes

    def f(w):
        rnd = random.Random(1)
        for r in [w.get('hint:r', 1)] + shapes(p, n, rnd):
            for k in (0, 1, rnd.getrandbits(60)):
                for neg in (0, 1):
                    yield {'b': r % p + k * p, 'neg': neg}
    return f


def tasks(tier):
    out = []
    q = tier == 'quick'
    for n in ([1, 2, 3, 4] if q else [1, 2, 3, 4, 6, 9]):
        for prev in (None, 'small', 'large'):
            out.append(Task('copy/%d limbs/%s' % (n, prev), copy(n, False, prev)))
        out.append(Task('copy/%d limbs/same' % n, copy(n, True, None)))
        for al in (False, True):
            out.append(Task('cmp/%d limbs/%s' % (n, al), cmp(n, al)))
            out.append(Task('swap/%d limbs/%s' % (n, al), swap(n, False, al)))
            out.append(Task('cswap/%d limbs/%s' % (n, al), swap(n, True, al)))
        out.append(Task('cmp_ui/%d limbs' % n, cmp_ui(n)))
        for m in sorted({1, n, n + 1}):
            out.append(Task('cmp_mpz/%d limbs/%d' % (n, m), cmp_mpz(n, m)))
        for prev in ('zero', 'small', 'neg', 'large'):
            out.append(Task('to_mpz/%d limbs/%s' % (n, prev), to_mpz(n, prev)))
        if n <= 3 or not q:
            out.append(Task('tstbit/%d limbs' % n, tst(n), weight=5))
        for i, p in enumerate(PRIMES[n]):
            for prev in (None, 'small', 'large'):
                for viap in (False, True):
                    out.append(Task('set_ui/%d limbs/p%d/%s/%d' % (n, i, prev, viap), set_ui(n, p, prev, viap), gmp=lambda n=n: gmpsym.UFKernel(n) if n > 1 else gmpsym.Kernel(64)))
            if n > 1:
                for prev, m in ((None, n + 1), ('small', n), ('large', n + 1)):
                    out.append(Task('set_mpz/%d limbs/p%d/%s' % (n, i, prev), set_mpz(n, p, m, prev, i % 2), gmp=lambda n=n: gmpsym.UFKernel(n), candidates=cands(n, p)))
    for p in (2, 3, 7, 31, 97, 251):
        for prev in (None, 'large'):
            out.append(Task('set_mpz/exact/p=%d/%s' % (p, prev), set_mpz(1, p, 1, prev, p % 2), gmp=lambda: gmpsym.Kernel(64)))
    return out
