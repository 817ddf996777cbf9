"""C04 modular square roots."""
from hfield import *
from sym import Abs
import random
from c02 import sqrtmod

BOUNDS = 'exact: primes from 3 to 241 (769 in thorough) covering every 2-adic valuation of p-1 from 1 to 8, every element; group model: primes with valuation 6, 32 and 96 ' \
         '(p-1 = q 2^s, element = odd part times generator^e), every residue whose odd-order descent takes at most 1 outer round (2 in thorough for s = 32); ' \
         'multi-limb primes 3 mod 4: every element with GMP powers uninterpreted'
OUTSIDE = 'primes not listed; residues needing more rounds for s >= 32'
ASSUMES = ['GMP functions behave as documented', 'group model: the multiplicative group is cyclic of order p-1']


def exact(p, alias):
    n = 1

    def h(x):
        F, pz = field(x, p)
        a = bv(x.sym('a', p.bit_length()), 64)
        x.assume(z3.ULT(a, p))
        A = fp_elem(x, F, a, n)
        C = A if alias else fp_new(x, F)
        st = ci(x, 'mpFp_sqrt', C, A)
        k = p.bit_length()
        if x.branch(bv(st, 32) == 0):
            v = wellformed(x, C, F, p, n, 'sqrt')
            x.assume(z3.ULT(bv(v, 64), p))
            x.check(bv(kmod(x, kmul(x, small(v, k), small(v, k)), p), 64) == a, 'sqrt: the square of the result is not the operand')
        else:
            # no root exists: Euler's criterion
            e = bv(kpow(x, small(a, k), (p - 1) // 2, p), 64)
            x.check(e == p - 1, 'sqrt: refused an element that has a root')
        if not alias:
            x.check(bv(fp_val(x, A, n), 64) == a, 'sqrt: operand changed')
        x.reach()
    return h


def small(v, k):
    return simp(v) if isinstance(v, int) or not is_z3(simp(v)) else z3.Extract(k - 1, 0, bv(v, 64))


class GElem(Abs):
    """u^i * c^e: u of odd order q, c a generator of the 2-part (order 2^s); e a bit-vector of s bits or an int.
    kind 'op' exponents are of the operand, 'z' of the chosen non-residue."""

    def __init__(self, g, i, e):
        self.g, self.i, self.e = g, i % g.q, e
        self.nlimbs = (g.p.bit_length() + 63) // 64

    def mul(self, ex, o):
        if isinstance(o, int) and o == 1:
            return self
        if not isinstance(o, GElem):
            self._no('product with an integer')
        return GElem(self.g, self.i + o.i, simp(bv(self.e, self.g.s) + bv(o.e, self.g.s)))

    def mod(self, ex, m):
        return self

    def powm(self, ex, e, m):
        if not isinstance(e, int):
            self._no('symbolic power')
        return GElem(self.g, self.i * e, simp(bv(self.e, self.g.s) * (e % (1 << self.g.s))))

    def invert(self, ex, m):
        return True, GElem(self.g, -self.i, simp(-bv(self.e, self.g.s)))

    def legendre(self, ex, p):
        return simp(z3.If(z3.Extract(0, 0, bv(self.e, self.g.s)) == 0, z3.BitVecVal(1, 32), z3.BitVecVal(0xffffffff, 32)))

    def cmp(self, ex, o):
        if isinstance(o, int) and o == 1:
            if self.i:
                return 1
            return simp(z3.If(bv(self.e, self.g.s) == 0, z3.BitVecVal(0, 32), z3.BitVecVal(1, 32)))
        if isinstance(o, int) and o == 0:
            return 1
        if isinstance(o, GElem):
            if self.i != o.i:
                return 1
            return simp(z3.If(bv(self.e, self.g.s) == bv(o.e, self.g.s), z3.BitVecVal(0, 32), z3.BitVecVal(1, 32)))
        self._no('comparison with %r' % (o,))

    def limb_icmp(self, ex, i, pred, o):
        if o == 0 and pred in ('eq', 'ne'):
            return int(pred == 'ne')        # the representative has no zero limb
        self._no('limb comparison')


class Group:
    def __init__(self, p):
        self.p = p
        q, s = p - 1, 0
        while q % 2 == 0:
            q, s = q // 2, s + 1
        self.q, self.s = q, s


class GKernel(gmpsym.Kernel):
    """exact, except that powers of a concrete non-residue become group elements"""
    name = 'group'

    def __init__(self, g):
        gmpsym.Kernel.__init__(self, 64)
        self.g = g

    def powm(self, ex, a, e, m):
        if isinstance(a, int) and isinstance(e, int) and m == self.g.p and e % self.g.q == 0 and a > 1 and gmpsym.jacobi(a, m) == -1:
            # c := z^q generates the 2-part: e is its exponent relative to the first such power
            z0 = ex.ctx.setdefault('gk_z', a)
            if z0 != a:
                raise Inconclusive('a second non-residue')
            return GElem(self.g, 0, (e // self.g.q) % (1 << self.g.s))
        return gmpsym.Kernel.powm(self, ex, a, e, m)


def group(p, rounds):
    g = Group(p)
    n = (p.bit_length() + 63) // 64

    def h(x):
        F, pz = field(x, p)
        # the operand is u * c^e0 with e0 even and such that the descent has few rounds:  q*e0 = -(sum of few powers of two)
        ks = [x.sym('k%d' % i, 8) for i in range(rounds)]
        s = g.s
        E = z3.BitVecVal(0, s)
        for k in ks:
            x.assume(z3.And(z3.UGE(k, 1), z3.ULE(k, s)))
            kk = x.concretize(k, 8, what='round position')
            E = E - (0 if kk >= s else (1 << kk))
        qi = pow(g.q, -1, 1 << s)
        e0 = simp(bv(E, s) * qi)
        if x.native:
            z = next(z for z in range(2, 1000) if gmpsym.jacobi(z, p) == -1)
            c = pow(z, g.q, p)
            a = pow(c, simp(e0), p) * pow(pow(7, 1 << s, p), 1, p) % p
            A = fp_elem(x, F, a, n)
        else:
            el = GElem(g, 1, e0)
            A = fp_new(x, F)
            d = x.ld(A, 8, 8)
            for i in range(n):
                x.st(d, 8 * i, 8, Opaque(sym.AbsLimb(el, i)))
            x.st(A, 4, 4, n)
        C = fp_new(x, F)
        st = ci(x, 'mpFp_sqrt', C, A)
        x.check(bv(st, 32) == 0, 'sqrt: refused an element that has a root')
        if x.native:
            v = fp_val(x, C, n)
            x.check(z3.BoolVal(v < p and v * v % p == a), 'sqrt: the square of the result is not the operand')
        else:
            r = sym.abs_of(x.ld(x.ld(C, 8, 8), 0, 8))
            if r is None:
                raise Inconclusive('result left the group model')
            x.check(z3.And(z3.BoolVal((2 * r.i - 1) % g.q == 0), bv(r.e, s) * 2 == bv(e0, s)), 'sqrt: the square of the result is not the operand')
        x.reach()
    return h


def threemod4(p, n, alias):
    def h(x):
        F, pz = field(x, p)
        a = x.sym('a', 64 * n)
        x.assume(z3.ULT(a, p))
        A = fp_elem(x, F, a, n)
        C = A if alias else fp_new(x, F)
        st = ci(x, 'mpFp_sqrt', C, A)
        if x.branch(bv(st, 32) == 0):
            v = wellformed(x, C, F, p, n, 'sqrt')
            if x.native:
                x.check(z3.BoolVal(simp(v) ** 2 % p == simp(a)), 'sqrt: the square of the result is not the operand')
            else:
                want = gmpsym.K(x).powm(x, a, (p + 1) // 4, p)
                x.hint('r', want)
                x.check(z3.Or(bv(v, 64 * n) == bv(want, 64 * n), z3.And(a == 0, bv(v, 64 * n) == 0)), 'sqrt: the square of the result is not the operand')
                x.check(bv(gmpsym.K(x).legendre(x, a, p), 32) != 0xffffffff, 'sqrt: accepted an element that has no root')
        else:
            if x.native:
                x.check(z3.BoolVal(pow(simp(a), (p - 1) // 2, p) == p - 1), 'sqrt: refused an element that has a root')
            else:
                x.check(bv(gmpsym.K(x).legendre(x, a, p), 32) == 0xffffffff, 'sqrt: refused an element that has a root')
        if not alias:
            x.check(bv(fp_val(x, A, n), 64 * n) == a, 'sqrt: operand changed')
        x.reach()
    return h


def cands(p, n):
    from c02 import shapes

    def f(w):
        rnd = random.Random(1)
        for r in [w.get('hint:r', 1)] + shapes(p, n, rnd):
            yield {'a': r * r % p}
            yield {'a': r % p}
    return f


def gcands(p):
    def f(w):
        g = Group(p)
        for k in range(1, g.s + 1):
            yield {'k0': k, 'k1': g.s}
    return f


def tasks(tier):
    out = []
    for p in (3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 41, 43, 61, 73, 97, 113, 127, 193, 241, 251, 257, 449, 577, 641, 769):
        if p > 250 and tier == 'quick':
            continue
        for al in (False, True):
            out.append(Task('exact/p=%d/%s' % (p, 'c=a' if al else 'distinct'), exact(p, al), gmp=lambda: gmpsym.Kernel(64), weight=p / 10))
    for p, rounds in ((193, 2), (2**64 - 2**32 + 1, 1), (2**224 - 2**96 + 1, 1)) + (((2**64 - 2**32 + 1, 2),) if tier != 'quick' else ()):
        out.append(Task('group/s=%d/%d bits/%d rounds' % (Group(p).s, p.bit_length(), rounds), group(p, rounds), gmp=lambda p=p: GKernel(Group(p)),
                        weight=60, candidates=gcands(p), cfg={'max_steps': 60000 if p < 2**100 else 400000, 'hang': True}))
    for n in (1, 2, 3, 4, 6, 9):
        for i, p in enumerate(PRIMES[n]):
            if p % 4 == 3:
                for al in (False, True):
                    out.append(Task('multi/%d limbs/p%d/%s' % (n, i, 'c=a' if al else 'distinct'), threemod4(p, n, al),
                                    gmp=lambda n=n: gmpsym.UFKernel(n), candidates=cands(p, n)))
    return out
