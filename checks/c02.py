"""C02 multiplication, squaring and powers of field elements."""
from hfield import *
import random

BOUNDS = 'exact: every modulus 2 <= p < 2^7 and every operand pair, exponents 0..15; multi-limb: listed primes of 1..9 limbs (16 thorough), every operand value, every word ' \
         'operand, every exponent, with the GMP product/remainder/power uninterpreted (the code must route exactly the right values through them and ' \
         'deliver the padded result, whatever limbs come out zero); every aliasing'
OUTSIDE = 'limb counts and primes not listed; GMP arithmetic itself'
ASSUMES = ['GMP functions behave as documented', 'multi-limb counterexamples are reported only when an input of that shape fails on the compiled library']

OPS = {'mul': 2, 'sqr': 1, 'mul_ui': 'u', 'pow_ui': 'u', 'pow_mpz': 'z'}


def harness(op, n, alias, mode, p=None, e=None, prev=None):
    bits = 7 if mode == 'exact' else 64 * n

    def h(x):
        if mode == 'exact':
            pp = bv(x.sym('p', 7), 64)
            x.assume(z3.UGE(pp, 2))
            F, pz = field(x, pp, 1)
            P = pp
        else:
            P = p
            F, pz = field(x, p)
        a = bv(x.sym('a', bits), 64 * n)
        x.assume(z3.ULT(a, P))
        if 'b=a' in alias:
            b = a
        elif e is not None:
            b = e
        elif OPS[op] == 2:
            b = bv(x.sym('b', bits), 64 * n)
            x.assume(z3.ULT(b, P))
        elif OPS[op] == 'u':
            b = bv(x.sym('b', (4 if 'pow' in op else 6) if mode == 'exact' else 64), 64)
        else:
            b = x.sym('b', 4 if mode == 'exact' else 64 * n)
        A = fp_elem(x, F, a, n)
        if OPS[op] == 2:
            B = A if 'b=a' in alias else fp_elem(x, F, b, n)
        if 'c=a' in alias:
            C = A
        elif 'c=b' in alias:
            C = B
        elif prev:
            G, _ = field(x, 23 if prev == 'small' else (1 << (64 * (n + 2))) - 59)
            C = fp_elem(x, G, 7, 1 if prev == 'small' else n + 2)
        else:
            C = fp_new(x, F)
        if op == 'sqr':
            x.call('mpFp_sqr', C, A)
            want = kmod(x, kmul(x, a, a), P)
        elif op in ('mul', 'mul_ui'):
            x.call('mpFp_' + op, C, A, B if op == 'mul' else b)
            want = kmod(x, kmul(x, a, b), P)
        elif op == 'pow_ui':
            x.call('mpFp_pow_ui', C, A, b)
            want = kpow(x, a, b, P)
        else:
            x.call('mpFp_pow_mpz', C, A, mpz(x, b))
            want = kpow(x, a, b, P)
        x.hint('r', want)
        v = wellformed(x, C, F, P, n, op)
        x.check(bv(v, 64 * n) == bv(want, 64 * n), op + ': wrong value')
        if 'c=a' not in alias:
            x.check(bv(fp_val(x, A, n), 64 * n) == bv(a, 64 * n), op + ': operand changed')
        if OPS[op] == 2 and not alias:
            x.check(bv(fp_val(x, B, n), 64 * n) == bv(b, 64 * n), op + ': second operand changed')
        x.reach()
    return h


def shapes(p, n, rnd):
    v = [0, 1, 2, p - 1, p - 2, p // 2]
    for k in range(1, n):
        v += [(1 << 64 * k) % p, ((1 << 64 * k) - 1) % p, rnd.getrandbits(64 * k) % p]
    return v


def cands(op, n, p):
    def f(w):
        rnd = random.Random(1)
        a0, b0, r0 = w.get('a', 1) % p or 1, w.get('b', 1), w.get('hint:r', 1) % p
        for r in [r0] + shapes(p, n, rnd):
            for a in [a0] + shapes(p, n, rnd):
                if a % p == 0:
                    continue
                if op == 'mul':
                    yield {'a': a, 'b': r * pow(a, -1, p) % p}
            if op in ('mul_ui',) and b0 % p:
                yield {'a': r * pow(b0, -1, p) % p, 'b': b0}
                for b in (1, 2, 3, 2**63, 2**64 - 1):
                    yield {'a': r * pow(b, -1, p) % p, 'b': b}
            if op == 'sqr':
                for d in range(40):
                    s = sqrtmod((r + d) % p, p) if p % 4 == 3 else None
                    if s is not None:
                        yield {'a': s}
                yield {'a': r}
            if op in ('pow_ui', 'pow_mpz'):
                import math
                for e in [b0] + list(range(0, 40)) + [2**63, 2**64 - 1]:
                    if op == 'pow_ui' and e >= 1 << 64:
                        continue
                    yield {'a': r, 'b': e}
                    if math.gcd(e, p - 1) == 1:
                        yield {'a': pow(r, pow(e, -1, p - 1), p), 'b': e}
        for a in shapes(p, n, rnd) + [a0]:
            for b in shapes(p, n, rnd) + [b0 % p]:
                yield {'a': a, 'b': b}
    return f


def sqrtmod(a, p):
    s = pow(a, (p + 1) // 4, p)
    return s if s * s % p == a else None


def tasks(tier):
    out = []
    for op in OPS:
        al = [(), ('c=a',)] + ([('c=b',), ('b=a',), ('b=a', 'c=a')] if OPS[op] == 2 else [])
        for A in al:
            if not ('b=a' in A and OPS[op] != 2):
                out.append(Task('exact/%s/%s' % (op, '+'.join(A) or 'distinct'), harness(op, 1, A, 'exact'), gmp=lambda: gmpsym.Kernel(64), weight=9))
        for n in ([1, 2, 3, 4, 6, 9] if tier == 'quick' else [1, 2, 3, 4, 5, 6, 7, 9, 16]):
            for i, p in enumerate(PRIMES[n]):
                for A in (al if i == 0 else al[:1]):
                    for prev in ([None, 'small', 'large'] if i == 0 and n in (1, 3) and A == () else [None]):
                        for e in ([None, 0, 1, 2, 3] if op == 'pow_ui' and A == () and i == 0 and prev is None else [None]):
                            nm = 'multi/%s/%d limbs/p%d/%s%s%s' % (op, n, i, '+'.join(A) or 'distinct', '/prev-' + prev if prev else '',
                                                                  '/e=%d' % e if e is not None else '')
                            out.append(Task(nm, harness(op, n, A, 'uf', p, e, prev), gmp=lambda n=n: gmpsym.UFKernel(n), candidates=cands(op, n, p), weight=1))
    return out
