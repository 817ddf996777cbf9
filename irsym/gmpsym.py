"""Model of the GMP entry points: GMP's own data layout, exact linear arithmetic, and a pluggable kernel for
multiplication, reduction, powering, inversion and the Legendre symbol.  Concrete operands are always exact."""
import z3
from sym import (BUILTIN, builtin, Ptr, Undef, Opaque, Fault, Inconclusive, PathEnd, bv, simp, is_z3, mask, sgn, boolz, MASK, Obj, Abs, AbsLimb, abs_of)


def narrow(x):
    """drop leading zero bits that are syntactically visible"""
    if not is_z3(x):
        return x
    x = z3.simplify(x)
    while True:
        if z3.is_bv_value(x):
            return x.as_long()
        if z3.is_app_of(x, z3.Z3_OP_ZERO_EXT):
            x = x.arg(0)
            continue
        if z3.is_app_of(x, z3.Z3_OP_CONCAT):
            a = x.arg(0)
            if z3.is_bv_value(a) and a.as_long() == 0:
                rest = [x.arg(i) for i in range(1, x.num_args())]
                x = rest[0] if len(rest) == 1 else z3.Concat(*rest)
                continue
            if z3.is_bv_value(a):
                n = a.as_long().bit_length()
                if n < a.size():
                    rest = [x.arg(i) for i in range(1, x.num_args())]
                    return z3.Concat(z3.BitVecVal(a.as_long(), n), *rest)
        return x


def width(x):
    if isinstance(x, Abs):
        raise Inconclusive('width of an abstract value')
    return x.bit_length() if isinstance(x, int) else x.size()


def concat_limbs(ls):
    if all(isinstance(l, int) for l in ls):
        return sum(l << (64 * i) for i, l in enumerate(ls))
    if len(ls) == 1:
        return ls[0]
    return z3.simplify(z3.Concat(*[bv(l, 64) for l in reversed(ls)]))


def limb(v, i):
    if isinstance(v, int):
        return (v >> (64 * i)) & MASK[64]
    w = v.size()
    lo = 64 * i
    if lo >= w:
        return 0
    hi = min(lo + 63, w - 1)
    x = z3.simplify(z3.Extract(hi, lo, v))
    if z3.is_bv_value(x):
        return x.as_long()
    return bv(x, 64) if x.size() < 64 else x


class Kernel:
    """exact bit-vector arithmetic"""
    name = 'exact'

    def __init__(self, limit=64):
        self.limit = limit      # widest product the solver is given

    def mul(self, ex, a, b):
        a, b = narrow(a), narrow(b)
        if isinstance(a, int) and isinstance(b, int):
            return a * b
        if (isinstance(a, int) and a == 0) or (isinstance(b, int) and b == 0):
            return 0
        if isinstance(a, int) and a == 1:
            return b
        if isinstance(b, int) and b == 1:
            return a
        w = width(a) + width(b)
        if w > self.limit and not isinstance(a, int) and not isinstance(b, int):
            a, b = self.tight(ex, a), self.tight(ex, b)
            w = width(a) + width(b)
        if w > self.limit and not isinstance(a, int) and not isinstance(b, int):
            raise Inconclusive('product of %d bits beyond the exact kernel' % w)
        return bv(a, w) * bv(b, w)

    def tight(self, ex, a):
        """drop leading bits the solver shows to be zero on this path"""
        for k in (8, 16, 32):
            if k < width(a) and ex.q(z3.Extract(width(a) - 1, k, a) != 0) == z3.unsat:
                return z3.simplify(z3.Extract(k - 1, 0, a))
        return a

    def mod(self, ex, a, m):
        a, m = narrow(a), narrow(m)
        if isinstance(m, int):
            if m == 0:
                raise Fault('div0', 'GMP division by zero')
            if isinstance(a, int):
                return a % m
            if (1 << width(a)) <= m:
                return a
            if m & (m - 1) == 0:
                k = m.bit_length() - 1
                return z3.Extract(k - 1, 0, a) if k else 0
            w = max(width(a), m.bit_length())
            if w > 2 * self.limit:
                return self.wide_mod(ex, a, m)
            return z3.Extract(m.bit_length() - 1, 0, z3.URem(bv(a, w), z3.BitVecVal(m, w)))
        if ex.branch(bv(m, width(m)) == 0):
            raise Fault('div0', 'GMP division by zero')
        w = max(width(a), width(m))
        if w > 2 * self.limit:
            return self.wide_mod(ex, a, m)
        return z3.Extract(width(m) - 1, 0, z3.URem(bv(a, w), bv(m, w))) if width(m) else 0

    def wide_mod(self, ex, a, m):
        """reduction by a few conditional subtractions, when the quotient is small enough"""
        w = max(width(a), width(m)) + 1
        av, mv = bv(a, w), bv(m, w)
        if ex.q(z3.ULE(mv, av)) == z3.unsat:
            return z3.Extract(width(m) - 1, 0, av)
        over = max(0, width(a) - m.bit_length() + 1) if isinstance(m, int) else 1 if ex.q(z3.ULE(mv << 1, av)) == z3.unsat and width(m) + 1 < w else 99
        if over > 8:
            raise Inconclusive('wide reduction beyond the exact kernel')
        for k in reversed(range(over)):
            t = mv << k if not isinstance(m, int) else z3.BitVecVal(m << k, w)
            av = z3.If(z3.UGE(av, t), av - t, av)
        return z3.Extract(width(m) - 1, 0, av)

    def div(self, ex, a, m):
        a, m = narrow(a), narrow(m)
        if isinstance(m, int):
            if m == 0:
                raise Fault('div0', 'GMP division by zero')
            if isinstance(a, int):
                return a // m
            if m & (m - 1) == 0:
                k = m.bit_length() - 1
                return narrow(z3.LShR(a, k)) if k < width(a) else 0
        elif ex.branch(bv(m, width(m)) == 0):
            raise Fault('div0', 'GMP division by zero')
        w = max(width(a), width(m))
        if w > 2 * self.limit:
            raise Inconclusive('division of %d bits beyond the exact kernel' % w)
        return z3.UDiv(bv(a, w), bv(m, w))

    def powm(self, ex, a, e, m):
        a, e, m = narrow(a), narrow(e), narrow(m)
        if isinstance(a, int) and isinstance(e, int) and isinstance(m, int):
            return pow(a, e, m)
        if isinstance(e, int):
            if e.bit_length() > 40:
                raise Inconclusive('exponent beyond the exact kernel')
            r = 1 if not (isinstance(m, int) and m == 1) else 0
            base = self.mod(ex, a, m)
            for c in bin(e)[2:] if e else '':
                r = self.mod(ex, self.mul(ex, r, r), m)
                if c == '1':
                    r = self.mod(ex, self.mul(ex, r, base), m)
            return r
        n = width(e)
        if n > 40:
            raise Inconclusive('symbolic exponent of %d bits' % n)
        r = 1
        base = self.mod(ex, a, m)
        for i in reversed(range(n)):
            r = self.mod(ex, self.mul(ex, r, r), m)
            t = self.mod(ex, self.mul(ex, r, base), m)
            w = max(width(r), width(t), 1)
            r = narrow(z3.If(z3.Extract(i, i, e) == 1, bv(t, w), bv(r, w)))
        return r

    def invert(self, ex, a, m):
        """(ok, value); a non-negative"""
        a, m = narrow(a), narrow(m)
        if isinstance(a, int) and isinstance(m, int):
            try:
                return True, pow(a, -1, m)
            except ValueError:
                return False, 0
        if not isinstance(m, int):
            raise Inconclusive('inverse for a symbolic modulus')
        if m.bit_length() * 2 > self.limit:
            raise Inconclusive('inverse beyond the exact kernel')
        a = self.mod(ex, a, m)
        import math
        bad = [x for x in range(m) if math.gcd(x, m) != 1]
        if len(bad) > 300:
            raise Inconclusive('inverse modulo a composite')
        if ex.branch(z3.Or(*[a == x for x in bad]) if bad else z3.BoolVal(False)):
            return False, 0
        r = ex.fresh('inv', m.bit_length())
        ex.assume_nc(z3.ULT(r, m))
        ex.assume_nc(bv(self.mod(ex, self.mul(ex, a, r), m), m.bit_length()) == 1)
        return True, r

    def legendre(self, ex, a, p):
        a, p = narrow(a), narrow(p)
        if isinstance(a, int) and isinstance(p, int):
            r = jacobi(a, p)
            return r & MASK[32]
        if not isinstance(p, int):
            raise Inconclusive('legendre for a symbolic modulus')
        r = self.powm(ex, a, (p - 1) // 2, p)
        w = max(width(r), 1)
        r = bv(r, w)
        return z3.If(r == 0, z3.BitVecVal(0, 32), z3.If(r == 1, z3.BitVecVal(1, 32), z3.BitVecVal(MASK[32], 32)))


def jacobi(a, n):
    a %= n
    r = 1
    while a:
        while a % 2 == 0:
            a //= 2
            if n % 8 in (3, 5):
                r = -r
        a, n = n, a
        if a % 4 == 3 and n % 4 == 3:
            r = -r
        a %= n
    return r if n == 1 else 0


class UFKernel(Kernel):
    """products, reductions, powers, inverses and quadratic characters are uninterpreted functions of the operand values,
    constrained by: x*y = y*x, 0*x = 0, 1*x = x; (x mod m) < m, x mod m = x for x < m; 0 < x^-1 < m for x != 0 mod m."""
    name = 'uninterpreted'

    def __init__(self, limbs):
        self.W = W = 64 * (2 * limbs + 2)
        s = z3.BitVecSort(W)
        self.F = {n: z3.Function('uf_' + n, *([s] * k)) for n, k in (('mul', 3), ('mod', 3), ('pow', 4), ('inv', 3))}
        self.L = z3.Function('uf_legendre', s, s, z3.BitVecSort(32))

    def _app(self, ex, n, *a):
        a = [bv(x, self.W) for x in a]
        r = self.F[n](*a)
        return r

    def mul(self, ex, a, b):
        a, b = narrow(a), narrow(b)
        if isinstance(a, int) and isinstance(b, int):
            return a * b
        if isinstance(a, int) and a in (0, 1):
            return 0 if a == 0 else b
        if isinstance(b, int) and b in (0, 1):
            return 0 if b == 0 else a
        if isinstance(b, int) and b & (b - 1) == 0:
            return z3.Concat(a, z3.BitVecVal(0, b.bit_length() - 1))
        w = width(a) + width(b)
        if w > self.W:
            raise Inconclusive('product too wide')
        x, y = bv(a, self.W), bv(b, self.W)
        lo, hi = z3.If(z3.ULE(x, y), x, y), z3.If(z3.ULE(x, y), y, x)
        if x.eq(y):
            lo = hi = x
        r = self.F['mul'](lo, hi)
        ex.assume_nc(z3.Extract(self.W - 1, w, r) == 0 if w < self.W else z3.BoolVal(True))
        ex.assume_nc(z3.Implies(lo == 0, r == 0))
        ex.assume_nc(z3.Implies(lo == 1, r == hi))
        ex.assume_nc(z3.Implies(z3.And(lo != 0), z3.UGE(r, hi)))
        return z3.Extract(w - 1, 0, r)

    def mod(self, ex, a, m):
        a, m = narrow(a), narrow(m)
        if isinstance(a, int) and isinstance(m, int):
            if m == 0:
                raise Fault('div0', 'GMP division by zero')
            return a % m
        if isinstance(m, int) and (1 << width(a)) <= m:
            return a
        if isinstance(m, int) and m & (m - 1) == 0:
            return Kernel.mod(self, ex, a, m)
        if width(a) > self.W:
            raise Inconclusive('operand too wide')
        A, M = bv(a, self.W), bv(m, self.W)
        u = self.F['mod'](A, M)
        ex.assume_nc(z3.Implies(M != 0, z3.ULT(u, M)))
        ex.assume_nc(z3.Implies(z3.ULT(A, M), u == A))
        ex.assume_nc(z3.Implies(z3.And(z3.UGE(A, M), z3.ULT(A - M, M)), u == A - M))
        ex.assume_nc(z3.ULE(u, A))
        return z3.Extract(width(m) - 1, 0, u)

    def powm(self, ex, a, e, m):
        a, e, m = narrow(a), narrow(e), narrow(m)
        if isinstance(a, int) and isinstance(e, int) and isinstance(m, int):
            return pow(a, e, m)
        if isinstance(e, int):
            if e == 0:
                return 1
            if e == 1:
                return self.mod(ex, a, m)
            if e == 2:
                r = self.mod(ex, a, m)
                return self.mod(ex, self.mul(ex, r, r), m)
            if e == 3:
                r = self.mod(ex, a, m)
                return self.mod(ex, self.mul(ex, self.mod(ex, self.mul(ex, r, r), m), r), m)
        A, E, M = bv(self.mod(ex, a, m), self.W), bv(e, self.W), bv(m, self.W)
        u = self.F['pow'](A, E, M)
        ex.assume_nc(z3.Implies(M != 0, z3.ULT(u, M)))
        ex.assume_nc(z3.Implies(E == 0, u == 1))
        ex.assume_nc(z3.Implies(E == 1, u == A))
        return z3.Extract(width(m) - 1, 0, u)

    def invert(self, ex, a, m):
        a, m = narrow(a), narrow(m)
        if isinstance(a, int) and isinstance(m, int):
            return Kernel.invert(self, ex, a, m)
        a = self.mod(ex, a, m)
        if ex.branch(bv(a, self.W) == 0):
            return False, 0
        A, M = bv(a, self.W), bv(m, self.W)
        u = self.F['inv'](A, M)
        ex.assume_nc(z3.And(z3.ULT(u, M), u != 0))
        ex.assume_nc((A == 1) == (u == 1))
        return True, z3.Extract(width(m) - 1, 0, u)

    def legendre(self, ex, a, p):
        a, p = narrow(a), narrow(p)
        if isinstance(a, int) and isinstance(p, int):
            return jacobi(a, p) & MASK[32]
        a = self.mod(ex, a, p)
        A = bv(a, self.W)
        u = self.L(A, bv(p, self.W))
        ex.assume_nc(z3.Or(u == 1, u == MASK[32], u == 0))
        ex.assume_nc((A == 0) == (u == 0))
        return u

    def div(self, ex, a, m):
        a, m = narrow(a), narrow(m)
        if isinstance(a, int) and isinstance(m, int):
            return a // m
        if isinstance(m, int) and m and m & (m - 1) == 0:
            return Kernel.div(self, ex, a, m)
        raise Inconclusive('division in the uninterpreted kernel')


def K(ex):
    k = ex.cfg.gmp
    if k is None:
        k = ex.cfg.gmp = Kernel()
    if not isinstance(k, Dispatch):
        k = ex.cfg.gmp = Dispatch(k)
    return k


class Dispatch:
    """abstract integers go to their own operations, the rest to the kernel"""

    def __init__(self, k):
        self.k = k
        self.limit = getattr(k, 'limit', 0)
        self.name = k.name

    def mul(self, ex, a, b):
        if isinstance(a, Abs):
            return a.mul(ex, b)
        if isinstance(b, Abs):
            return b.mul(ex, a)
        return self.k.mul(ex, a, b)

    def mod(self, ex, a, m):
        return a.mod(ex, m) if isinstance(a, Abs) else self.k.mod(ex, a, m)

    def div(self, ex, a, m):
        if isinstance(a, Abs) or isinstance(m, Abs):
            raise Inconclusive('division of an abstract value')
        return self.k.div(ex, a, m)

    def powm(self, ex, a, e, m):
        if isinstance(e, Abs):
            raise Inconclusive('abstract exponent')
        return a.powm(ex, e, m) if isinstance(a, Abs) else self.k.powm(ex, a, e, m)

    def invert(self, ex, a, m):
        return a.invert(ex, m) if isinstance(a, Abs) else self.k.invert(ex, a, m)

    def legendre(self, ex, a, p):
        return a.legendre(ex, p) if isinstance(a, Abs) else self.k.legendre(ex, a, p)


# ------------------------------------------------------------------ mpz access
def dummy(ex):
    d = ex.ctx.get('gmp_dummy')
    if d is None:
        o = Obj('gmp dummy limb', 8, 'global')
        o.cells[0] = (8, 0xc1a0)
        for i in range(8):
            o.own[i] = 0
        o.const = True
        d = ex.ctx['gmp_dummy'] = Ptr(o, 0)
    return d


def zinit(ex, p):
    ex.store(p, 4, 0)
    ex.store(ex.padd(p, 4), 4, 0)
    ex.store(ex.padd(p, 8), 8, dummy(ex))


def zsize(ex, p):
    s = ex.load(ex.padd(p, 4), 4)
    if isinstance(s, Undef):
        raise Fault('uninit', 'GMP call on an uninitialised integer')
    s = simp(s)
    return sgn(s, 32) if isinstance(s, int) else s


def zlimbs(ex, d, n):
    out = []
    for i in range(n):
        l = ex.load(ex.padd(d, 8 * i), 8)
        if isinstance(l, Undef):
            raise Fault('uninit', 'GMP call reads an uninitialised limb')
        out.append(l)
    return out


def s_raw(ex, p):
    return ex.load(ex.padd(p, 4), 4)


def zread(ex, p):
    """(negative, magnitude): negative is a Python bool; forks if the sign is open"""
    s = zsize(ex, p)
    d = ex.load(ex.padd(p, 8), 8)
    if isinstance(s, int):
        n = abs(s)
        if n == 0:
            return False, 0
        ls = zlimbs(ex, d, n)
        if any(isinstance(l, Opaque) for l in ls):
            a = abs_of(ls[0])
            if a is None or a.nlimbs > n:
                raise Inconclusive('part of an abstract value used as an integer')
            return s < 0, a
        return s < 0, narrow(concat_limbs(ls))
    sh = ex.ctx.get('zshadow', {}).get((d.o.id, d.off)) if isinstance(d, Ptr) and d.o.alive else None
    if sh is not None and sh[0] is s_raw(ex, p) and all(d.o.cells.get(d.off + 8 * i, (0, None))[1] is l for i, l in enumerate(sh[1])):
        neg = sh[2]
        return (ex.branch(neg) if is_z3(neg) else neg), sh[3]
    neg = ex.branch(s < 0)
    mag = -s if neg else s
    alloc = ex.load(p, 4)
    if not isinstance(alloc, int):
        raise Inconclusive('symbolic allocation size')
    # value: limbs below the size
    cap = 0
    ls = []
    for i in range(min(alloc, 40)):
        c = simp(z3.UGT(mag, i))
        if isinstance(c, int) and not c:
            break
        if not isinstance(c, int) and ex.q(c) == z3.unsat:
            break
        l = ex.load(ex.padd(d, 8 * i), 8)
        if isinstance(l, Undef):
            if ex.branch(c):
                raise Fault('uninit', 'GMP call reads an uninitialised limb')
            break
        ls.append(l if isinstance(c, int) else z3.If(c, bv(l, 64), z3.BitVecVal(0, 64)))
    if not ls:
        return neg, 0
    return neg, narrow(concat_limbs(ls))


def zalloc(ex, p, n):
    """make room for n limbs (contents below the old size kept)"""
    alloc = ex.load(p, 4)
    if isinstance(alloc, Undef):
        raise Fault('uninit', 'GMP call on an uninitialised integer')
    alloc = ex.concretize(alloc, 32, what='allocation size')
    d = ex.load(ex.padd(p, 8), 8)
    if alloc >= n:
        return d
    return zrealloc(ex, p, n)


def zrealloc(ex, p, n):
    alloc = ex.concretize(ex.load(p, 4), 32, what='allocation size')
    d = ex.load(ex.padd(p, 8), 8)
    nd = ex.alloc(8 * n, 'limbs')
    hook = ex.cfg.__dict__.get('realloc_hook')
    if alloc > 0:
        for i in range(min(alloc, n)):
            c = ex.load(ex.padd(d, 8 * i), 8)
            if not isinstance(c, Undef):
                ex.store(ex.padd(nd, 8 * i), 8, c)
        if hook:
            hook(ex, d, 8 * alloc)
        ex.free(d)
    ex.store(p, 4, n)
    ex.store(ex.padd(p, 8), 8, nd)
    return nd


def nlimbs_term(v):
    n = (v.size() + 63) // 64
    s = z3.BitVecVal(0, 32)
    for i in range(n):
        s = z3.If(bv(limb(v, i), 64) != 0, z3.BitVecVal(i + 1, 32), s)
    return s


def zwrite(ex, p, neg, v):
    if isinstance(v, int) and v < 0:
        v, neg = -v, not neg
    v = narrow(v)
    if isinstance(v, Abs):
        n = v.nlimbs
        d = zalloc(ex, p, n)
        for i in range(n):
            ex.store(ex.padd(d, 8 * i), 8, Opaque(AbsLimb(v, i)))
        ex.store(ex.padd(p, 4), 4, -n & MASK[32] if neg else n)
        return
    if isinstance(v, int):
        n = (v.bit_length() + 63) // 64
        d = zalloc(ex, p, n)
        for i in range(n):
            ex.store(ex.padd(d, 8 * i), 8, limb(v, i))
        if is_z3(neg):
            ex.store(ex.padd(p, 4), 4, simp(z3.If(neg, z3.BitVecVal((-n) & MASK[32], 32), z3.BitVecVal(n, 32))))
        else:
            ex.store(ex.padd(p, 4), 4, (-n if neg else n) & MASK[32])
        return
    n = (v.size() + 63) // 64
    d = zalloc(ex, p, n)
    # values the harness assumed to have a nonzero top limb
    size = n if any(v.eq(f) for f in ex.ctx.get('full', ())) else simp(nlimbs_term(v))
    written = []
    for i in range(n):
        l = limb(v, i)
        if not isinstance(size, int):
            # limbs above the size are unspecified
            g = ex.fresh('stale', 64)
            l = z3.If(z3.UGT(size, i), bv(l, 64), g)
        ex.store(ex.padd(d, 8 * i), 8, l)
        written.append(l)
    if is_z3(neg):
        size = simp(z3.If(neg, -bv(size, 32), bv(size, 32)))
    elif neg:
        size = simp(-bv(size, 32))
    ex.store(ex.padd(p, 4), 4, size)
    if is_z3(size) and isinstance(d, Ptr) and isinstance(d.off, int):
        # what was written, so that reading it back unchanged gives the same term again
        ex.ctx.setdefault('zshadow', {})[(d.o.id, d.off)] = (size, written, neg, v)


def umax(*vs):
    return max(width(v) for v in vs)


def signed_add(ex, an, a, bn, b):
    """(neg, mag) of (-1)^an a + (-1)^bn b"""
    if isinstance(a, Abs) or isinstance(b, Abs):
        if an:
            raise Inconclusive('negated abstract value')
        if isinstance(a, Abs):
            return False, a.add(ex, b, bn)
        if bn:
            raise Inconclusive('difference from an abstract value')
        return False, b.add(ex, a, False)
    if isinstance(a, int) and isinstance(b, int):
        r = (-a if an else a) + (-b if bn else b)
        return r < 0, abs(r)
    w = umax(a, b) + 1
    x, y = bv(a, w), bv(b, w)
    if an == bn:
        return an, x + y
    ge = simp(z3.UGE(x, y))
    if isinstance(ge, int):
        return (an, x - y) if ge else (bn, y - x)
    mag = z3.If(ge, x - y, y - x)
    neg = z3.Not(ge) if not an else ge
    if an:   # -a + b : negative iff a > b
        neg = z3.UGT(x, y)
    else:
        neg = z3.ULT(x, y)
    return simp(neg) if not isinstance(simp(neg), int) else bool(simp(neg)), mag


def ui(ex, v):
    if isinstance(v, Undef):
        raise Fault('uninit', 'GMP call with an uninitialised word')
    return narrow(v) if is_z3(v) else v


# ------------------------------------------------------------------ entry points
@builtin('__gmpz_init')
def _(ex, a):
    zinit(ex, a[0])


@builtin('__gmpz_init2')
def _(ex, a):
    bits = ex.concretize(a[1], 64, what='init2')
    n = max(1, (bits + 63) // 64)
    ex.store(a[0], 4, n)
    ex.store(ex.padd(a[0], 4), 4, 0)
    ex.store(ex.padd(a[0], 8), 8, ex.alloc(8 * n, 'limbs'))


@builtin('__gmpz_inits', '__gmpz_clears')
def _(ex, a):
    raise Inconclusive('variadic GMP call')


@builtin('__gmpz_clear')
def _(ex, a):
    alloc = ex.load(a[0], 4)
    if isinstance(alloc, Undef):
        raise Fault('uninit', 'mpz_clear of an uninitialised integer')
    alloc = ex.concretize(alloc, 32, what='allocation size')
    if alloc > 0:
        d = ex.load(ex.padd(a[0], 8), 8)
        hook = ex.cfg.__dict__.get('clear_hook')
        if hook:
            hook(ex, d, alloc)
        ex.free(d)


@builtin('__gmpz_realloc', '_gmpz_realloc')
def _(ex, a):
    n = max(1, sgn(ex.concretize(a[1], 64, what='realloc'), 64))
    alloc = ex.concretize(ex.load(a[0], 4), 32, what='allocation size')
    if alloc == n:
        return ex.load(ex.padd(a[0], 8), 8)
    s = zsize(ex, a[0])
    nd = zrealloc(ex, a[0], n)
    if isinstance(s, int):
        if abs(s) > n:
            ex.store(ex.padd(a[0], 4), 4, 0)
    elif n < alloc:
        mag = z3.If(s < 0, -s, s)
        ex.store(ex.padd(a[0], 4), 4, z3.If(z3.UGT(mag, n), z3.BitVecVal(0, 32), s))
    return nd


@builtin('__gmpz_realloc2')
def _(ex, a):
    n = max(1, (ex.concretize(a[1], 64) + 63) // 64)
    return BUILTIN['__gmpz_realloc'](ex, [a[0], n])


@builtin('__gmpz_set')
def _(ex, a):
    if isinstance(a[0], Ptr) and isinstance(a[1], Ptr) and a[0].o is a[1].o and a[0].off == a[1].off:
        return
    s = zsize(ex, a[1])
    sd = ex.load(ex.padd(a[1], 8), 8)
    if isinstance(s, int):
        n = abs(s)
        ls = zlimbs(ex, sd, n)
        d = zalloc(ex, a[0], n)
        for i, l in enumerate(ls):
            ex.store(ex.padd(d, 8 * i), 8, l)
        ex.store(ex.padd(a[0], 4), 4, s & MASK[32])
        return
    neg, v = zread(ex, a[1])
    zwrite(ex, a[0], neg, v)


@builtin('__gmpz_init_set')
def _(ex, a):
    zinit(ex, a[0])
    BUILTIN['__gmpz_set'](ex, a)


@builtin('__gmpz_set_ui')
def _(ex, a):
    zwrite(ex, a[0], False, ui(ex, a[1]))


@builtin('__gmpz_init_set_ui')
def _(ex, a):
    zinit(ex, a[0])
    zwrite(ex, a[0], False, ui(ex, a[1]))


def si(ex, v):
    v = ui(ex, v)
    if isinstance(v, int):
        v = sgn(v & MASK[64], 64)
        return v < 0, abs(v)
    v = bv(v, 64)
    if ex.branch(v < 0):
        return True, -v
    return False, v


@builtin('__gmpz_set_si')
def _(ex, a):
    zwrite(ex, a[0], *si(ex, a[1]))


@builtin('__gmpz_init_set_si')
def _(ex, a):
    zinit(ex, a[0])
    zwrite(ex, a[0], *si(ex, a[1]))


@builtin('__gmpz_swap')
def _(ex, a):
    x = [ex.load(ex.padd(a[0], o), n) for o, n in ((0, 4), (4, 4), (8, 8))]
    y = [ex.load(ex.padd(a[1], o), n) for o, n in ((0, 4), (4, 4), (8, 8))]
    for v, p in ((y, a[0]), (x, a[1])):
        for (o, n), e in zip(((0, 4), (4, 4), (8, 8)), v):
            ex.store(ex.padd(p, o), n, e)


@builtin('__gmpz_get_ui')
def _(ex, a):
    n, v = zread(ex, a[0])
    return limb(v, 0)


@builtin('__gmpz_get_si')
def _(ex, a):
    n, v = zread(ex, a[0])
    l = limb(v, 0)
    return simp(-bv(l, 64)) if n else l


@builtin('__gmpz_fits_ulong_p')
def _(ex, a):
    n, v = zread(ex, a[0])
    if n:
        return 0
    if isinstance(v, int):
        return int(v < (1 << 64))
    return 1 if v.size() <= 64 else bv(z3.ULT(v, z3.BitVecVal(1 << 64, v.size())), 32)


@builtin('__gmpz_size')
def _(ex, a):
    s = zsize(ex, a[0])
    return abs(s) if isinstance(s, int) else z3.ZeroExt(32, z3.If(s < 0, -s, s))


@builtin('__gmpz_getlimbn')
def _(ex, a):
    n, v = zread(ex, a[0])
    i = ex.concretize(a[1], 64)
    return limb(v, i) if i < 64 else 0


def cmp_term(an, a, bn, b, ex=None):
    if isinstance(a, Abs):
        if an:
            raise Inconclusive('comparison of a negative abstract value')
        return a.cmp(ex, -b if bn else b)
    if isinstance(b, Abs):
        r = b.cmp(ex, -a if an else a)
        return (-r) & MASK[32] if isinstance(r, int) else -r
    if isinstance(a, int) and isinstance(b, int):
        x, y = (-a if an else a), (-b if bn else b)
        return ((x > y) - (x < y)) & MASK[32]
    w = max(umax(a, b), 1)
    x, y = bv(a, w), bv(b, w)
    one, mone, zero = z3.BitVecVal(1, 32), z3.BitVecVal(MASK[32], 32), z3.BitVecVal(0, 32)
    if an == bn:
        g, l = (mone, one) if an else (one, mone)
        return z3.If(x == y, zero, z3.If(z3.UGT(x, y), g, l))
    # different signs; -0 == 0
    both0 = z3.And(x == 0, y == 0)
    return z3.If(both0, zero, mone if an else one)


@builtin('__gmpz_cmp')
def _(ex, a):
    an, x = zread(ex, a[0])
    bn, y = zread(ex, a[1])
    return cmp_term(an, x, bn, y, ex)


@builtin('__gmpz_cmpabs')
def _(ex, a):
    return cmp_term(False, zread(ex, a[0])[1], False, zread(ex, a[1])[1])


@builtin('__gmpz_cmp_ui')
def _(ex, a):
    an, x = zread(ex, a[0])
    return cmp_term(an, x, False, ui(ex, a[1]), ex)


@builtin('__gmpz_cmp_si')
def _(ex, a):
    an, x = zread(ex, a[0])
    bn, y = si(ex, a[1])
    return cmp_term(an, x, bn, y, ex)


def _addsub(sub):
    def f(ex, a):
        an, x = zread(ex, a[1])
        bn, y = zread(ex, a[2])
        zwrite(ex, a[0], *signed_add(ex, an, x, bn != sub, y))
    return f


BUILTIN['__gmpz_add'] = _addsub(False)
BUILTIN['__gmpz_sub'] = _addsub(True)


def _addsub_ui(sub):
    def f(ex, a):
        an, x = zread(ex, a[1])
        zwrite(ex, a[0], *signed_add(ex, an, x, sub, ui(ex, a[2])))
    return f


BUILTIN['__gmpz_add_ui'] = _addsub_ui(False)
BUILTIN['__gmpz_sub_ui'] = _addsub_ui(True)


@builtin('__gmpz_ui_sub')
def _(ex, a):
    bn, y = zread(ex, a[2])
    zwrite(ex, a[0], *signed_add(ex, False, ui(ex, a[1]), not bn, y))


@builtin('__gmpz_neg')
def _(ex, a):
    n, v = zread(ex, a[1])
    zwrite(ex, a[0], not n, v)


@builtin('__gmpz_abs')
def _(ex, a):
    zwrite(ex, a[0], False, zread(ex, a[1])[1])


@builtin('__gmpz_mul')
def _(ex, a):
    an, x = zread(ex, a[1])
    bn, y = zread(ex, a[2])
    zwrite(ex, a[0], an != bn, K(ex).mul(ex, x, y))


@builtin('__gmpz_mul_ui')
def _(ex, a):
    an, x = zread(ex, a[1])
    zwrite(ex, a[0], an, K(ex).mul(ex, x, ui(ex, a[2])))


@builtin('__gmpz_mul_si')
def _(ex, a):
    an, x = zread(ex, a[1])
    bn, y = si(ex, a[2])
    zwrite(ex, a[0], an != bn, K(ex).mul(ex, x, y))


@builtin('__gmpz_addmul')
def _(ex, a):
    rn, r = zread(ex, a[0])
    an, x = zread(ex, a[1])
    bn, y = zread(ex, a[2])
    zwrite(ex, a[0], *signed_add(ex, rn, r, an != bn, K(ex).mul(ex, x, y)))


@builtin('__gmpz_mul_2exp')
def _(ex, a):
    n, v = zread(ex, a[1])
    k = ex.concretize(a[2], 64, what='shift')
    zwrite(ex, a[0], n, v << k if isinstance(v, int) else (z3.Concat(v, z3.BitVecVal(0, k)) if k else v))


def shr(v, k):
    if isinstance(v, int):
        return v >> k
    return z3.Extract(v.size() - 1, k, v) if k < v.size() else 0


@builtin('__gmpz_tdiv_q_2exp')
def _(ex, a):
    n, v = zread(ex, a[1])
    zwrite(ex, a[0], n, shr(v, ex.concretize(a[2], 64, what='shift')))


@builtin('__gmpz_fdiv_q_2exp')
def _(ex, a):
    n, v = zread(ex, a[1])
    if n:
        raise Inconclusive('fdiv of a negative')
    zwrite(ex, a[0], n, shr(v, ex.concretize(a[2], 64, what='shift')))


@builtin('__gmpz_tdiv_r_2exp', '__gmpz_fdiv_r_2exp')
def _(ex, a):
    n, v = zread(ex, a[1])
    if n:
        raise Inconclusive('remainder of a negative')
    k = ex.concretize(a[2], 64, what='shift')
    if isinstance(v, int):
        v &= mask(k)
    elif k < v.size():
        v = z3.Extract(k - 1, 0, v) if k else 0
    zwrite(ex, a[0], n, v)


def _zmod(ex, n, v, m):
    if n and isinstance(v, Abs):
        return v.modneg(ex, m)
    r = K(ex).mod(ex, v, m)
    if not n:
        return r
    if isinstance(r, int) and isinstance(m, int):
        return (m - r) % m
    w = max(width(m), width(r), 1)
    rr = bv(r, w)
    return z3.If(rr == 0, rr, bv(m, w) - rr)


@builtin('__gmpz_mod')
def _(ex, a):
    n, v = zread(ex, a[1])
    mn, m = zread(ex, a[2])
    zwrite(ex, a[0], False, _zmod(ex, n, v, m))


@builtin('__gmpz_fdiv_r')
def _(ex, a):
    n, v = zread(ex, a[1])
    mn, m = zread(ex, a[2])
    if mn:
        raise Inconclusive('fdiv_r by a negative')
    zwrite(ex, a[0], False, _zmod(ex, n, v, m))


@builtin('__gmpz_tdiv_r')
def _(ex, a):
    n, v = zread(ex, a[1])
    mn, m = zread(ex, a[2])
    zwrite(ex, a[0], n, K(ex).mod(ex, v, m))


@builtin('__gmpz_tdiv_q', '__gmpz_divexact')
def _(ex, a):
    n, v = zread(ex, a[1])
    mn, m = zread(ex, a[2])
    zwrite(ex, a[0], n != mn, K(ex).div(ex, v, m))


@builtin('__gmpz_fdiv_q')
def _(ex, a):
    n, v = zread(ex, a[1])
    mn, m = zread(ex, a[2])
    if n or mn:
        raise Inconclusive('fdiv_q of a negative')
    zwrite(ex, a[0], False, K(ex).div(ex, v, m))


@builtin('__gmpz_fdiv_r_ui')
def _(ex, a):
    n, v = zread(ex, a[1])
    r = _zmod(ex, n, v, ui(ex, a[2]))
    zwrite(ex, a[0], False, r)
    return r if isinstance(r, int) else bv(r, 64)


@builtin('__gmpz_fdiv_ui')
def _(ex, a):
    n, v = zread(ex, a[0])
    r = _zmod(ex, n, v, ui(ex, a[1]))
    return r if isinstance(r, int) else bv(r, 64)


@builtin('__gmpz_tdiv_ui')
def _(ex, a):
    n, v = zread(ex, a[0])
    r = K(ex).mod(ex, v, ui(ex, a[1]))
    return r if isinstance(r, int) else bv(r, 64)


@builtin('__gmpz_tdiv_q_ui')
def _(ex, a):
    n, v = zread(ex, a[1])
    m = ui(ex, a[2])
    zwrite(ex, a[0], n, K(ex).div(ex, v, m))
    if isinstance(v, int) and isinstance(m, int):
        return v % m
    return bv(K(ex).mod(ex, v, m), 64) if isinstance(m, int) and m & (m - 1) == 0 else ex.fresh('rem', 64)


@builtin('__gmpz_fdiv_q_ui')
def _(ex, a):
    n, v = zread(ex, a[1])
    if n:
        raise Inconclusive('fdiv of a negative')
    return BUILTIN['__gmpz_tdiv_q_ui'](ex, a)


@builtin('__gmpz_tstbit')
def _(ex, a):
    n, v = zread(ex, a[0])
    if n:
        raise Inconclusive('tstbit of a negative')
    k = ui(ex, a[1])
    if not isinstance(k, int):
        if not isinstance(v, Abs):
            w = max(64, width(v))
            return simp(z3.ZeroExt(31, z3.Extract(0, 0, z3.LShR(bv(v, w), bv(k, w)))))
        k = ex.concretize(k, 64, what='bit index')
    if isinstance(v, Abs):
        return v.bit(ex, k)
    if isinstance(v, int):
        return (v >> k) & 1
    if k >= v.size():
        return 0
    return simp(z3.ZeroExt(31, z3.Extract(k, k, v)))


def _zbit(set_):
    def f(ex, a):
        n, v = zread(ex, a[0])
        if n is not False and ex.branch(n):
            raise Inconclusive('bit of a negative integer')
        k = ex.concretize(a[1], 64)
        w = max(width(v), k + 1)
        m = (1 << w) - 1 - (1 << k)
        if set_:
            r = v | (1 << k) if isinstance(v, int) else bv(v, w) | (1 << k)
        else:
            r = v & m if isinstance(v, int) else bv(v, w) & m
        zwrite(ex, a[0], False, r)
    return f


builtin('__gmpz_setbit')(_zbit(True))
builtin('__gmpz_clrbit')(_zbit(False))


@builtin('__gmpz_sizeinbase')
def _(ex, a):
    n, v = zread(ex, a[0])
    b = a[1]
    if isinstance(v, int):
        if b == 2:
            return max(1, v.bit_length())
        if b == 16:
            return max(1, (v.bit_length() + 3) // 4)
        k, x = 0, v
        while x:
            x //= b
            k += 1
        return max(1, k)
    w = v.size()
    r = z3.BitVecVal(1, 64)
    if b not in (2, 16, 256, 4):
        raise Inconclusive('sizeinbase %r' % (b,))
    st = {2: 1, 4: 2, 16: 4, 256: 8}[b]
    for i in range(w):
        r = z3.If(z3.Extract(i, i, v) == 1, z3.BitVecVal(i // st + 1, 64), r)
    return r


@builtin('__gmpz_popcount')
def _(ex, a):
    n, v = zread(ex, a[0])
    if isinstance(v, int):
        return bin(v).count('1')
    raise Inconclusive('popcount')


def _powm(ex, rp, bn, b, en, e, m):
    k = K(ex)
    if en and not (isinstance(e, int) and e == 0):
        ok, b2 = k.invert(ex, k.mod(ex, b, m) if not bn else _zmod(ex, bn, b, m), m)
        if not ok:
            raise Fault('div0', 'GMP division by zero in mpz_powm (no inverse)')
        b, bn = b2, False
    if bn:
        b, bn = _zmod(ex, bn, b, m), False
    zwrite(ex, rp, False, k.powm(ex, b, e, m))


@builtin('__gmpz_powm', '__gmpz_powm_sec')
def _(ex, a):
    bn, b = zread(ex, a[1])
    en, e = zread(ex, a[2])
    mn, m = zread(ex, a[3])
    _powm(ex, a[0], bn, b, en, e, m)


@builtin('__gmpz_powm_ui')
def _(ex, a):
    bn, b = zread(ex, a[1])
    mn, m = zread(ex, a[3])
    _powm(ex, a[0], bn, b, False, ui(ex, a[2]), m)


@builtin('__gmpz_pow_ui', '__gmpz_ui_pow_ui')
def _(ex, a):
    if isinstance(a[1], int):
        b = a[1]
    else:
        n, b = zread(ex, a[1])
        if n is not False and ex.branch(n):
            raise Inconclusive('power of a negative integer')
    e = a[2]
    if isinstance(b, int) and isinstance(e, int):
        zwrite(ex, a[0], False, b ** e)
        return
    if isinstance(b, int) and b == 2:
        e = ex.concretize(e, 64)
        zwrite(ex, a[0], False, 1 << e)
        return
    raise Inconclusive('pow_ui')


@builtin('__gmpz_invert')
def _(ex, a):
    n, v = zread(ex, a[1])
    mn, m = zread(ex, a[2])
    if n:
        v = _zmod(ex, n, v, m)
    ok, r = K(ex).invert(ex, v, m)
    if ok:
        zwrite(ex, a[0], False, r)
    return int(ok)


@builtin('__gmpz_jacobi', '__gmpz_legendre', '__gmpz_kronecker')
def _(ex, a):
    n, v = zread(ex, a[0])
    mn, m = zread(ex, a[1])
    if n:
        v = _zmod(ex, n, v, m)
    return K(ex).legendre(ex, v, m)


@builtin('__gmpz_gcd')
def _(ex, a):
    import math
    x, y = zread(ex, a[1])[1], zread(ex, a[2])[1]
    if isinstance(x, int) and isinstance(y, int):
        zwrite(ex, a[0], False, math.gcd(x, y))
        return
    raise Inconclusive('gcd')


@builtin('__gmpz_probab_prime_p')
def _(ex, a):
    n, v = zread(ex, a[0])
    if isinstance(v, int):
        if v < 2:
            return 0
        for q in (2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37):
            if v % q == 0:
                return int(v == q) * 2
        d, s = v - 1, 0
        while d % 2 == 0:
            d //= 2
            s += 1
        for q in (2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37):
            x = pow(q, d, v)
            if x in (1, v - 1):
                continue
            for _ in range(s - 1):
                x = x * x % v
                if x == v - 1:
                    break
            else:
                return 0
        return 1
    raise Inconclusive('primality of a symbolic value')


def _bitop(f):
    def g(ex, a):
        xn, x = zread(ex, a[1])
        yn, y = zread(ex, a[2])
        if xn or yn:
            raise Inconclusive('bit operation on a negative')
        if isinstance(x, int) and isinstance(y, int):
            zwrite(ex, a[0], False, f(x, y))
            return
        w = umax(x, y)
        zwrite(ex, a[0], False, f(bv(x, w), bv(y, w)))
    return g


BUILTIN['__gmpz_and'] = _bitop(lambda x, y: x & y)
BUILTIN['__gmpz_ior'] = _bitop(lambda x, y: x | y)
BUILTIN['__gmpz_xor'] = _bitop(lambda x, y: x ^ y)


@builtin('__gmpz_import')
def _(ex, a):
    r, count, order, size, endian, nails, p = a
    count = ex.concretize(count, 64, what='import count')
    if size != 1 or nails != 0:
        if nails == 0 and size == 8 and sgn(order & MASK[32], 32) == -1:
            ls = zlimbs(ex, p, count)
            zwrite(ex, r, False, narrow(concat_limbs(ls)) if ls else 0)
            return
        raise Inconclusive('mpz_import parameters')
    bs = [ex.load(ex.padd(p, i), 1) for i in range(count)]
    for b in bs:
        if isinstance(b, Undef):
            raise Fault('uninit', 'mpz_import reads uninitialised memory')
    if sgn(order & MASK[32], 32) == 1:
        bs = bs[::-1]
    if not bs:
        zwrite(ex, r, False, 0)
    elif all(isinstance(b, int) for b in bs):
        zwrite(ex, r, False, sum(b << (8 * i) for i, b in enumerate(bs)))
    else:
        zwrite(ex, r, False, narrow(z3.Concat(*[bv(b, 8) for b in reversed(bs)])) if len(bs) > 1 else bs[0])


@builtin('__gmpz_export')
def _(ex, a):
    p, cp, order, size, endian, nails, z = a
    if size != 1 or nails != 0:
        raise Inconclusive('mpz_export parameters')
    n, v = zread(ex, z)
    if isinstance(v, int):
        cnt = (v.bit_length() + 7) // 8
    else:
        nb = (v.size() + 7) // 8
        c = z3.BitVecVal(0, 64)
        vv = bv(v, 8 * nb)
        for i in range(nb):
            c = z3.If(z3.Extract(8 * i + 7, 8 * i, vv) != 0, z3.BitVecVal(i + 1, 64), c)
        cnt = ex.concretize(c, 64, what='export size')
        v = vv
    if not (isinstance(cp, int) and cp == 0):
        ex.store(cp, 8, cnt)
    if isinstance(p, int) and p == 0:
        if cnt == 0:
            return 0
        p = ex.alloc(cnt, 'export')
    big = sgn(order & MASK[32], 32) == 1
    for i in range(cnt):
        b = (v >> (8 * i)) & 0xff if isinstance(v, int) else simp(z3.Extract(8 * i + 7, 8 * i, v))
        ex.store(ex.padd(p, cnt - 1 - i if big else i), 1, b)
    return p


def _parse_num(s, base):
    import re
    if base == 0:
        t = s.lower().replace(' ', '')
        neg = t.startswith('-')
        t = t.lstrip('-')
        b = 10
        if t.startswith('0x'):
            b, t = 16, t[2:]
        elif t.startswith('0b'):
            b, t = 2, t[2:]
        elif t.startswith('0') and len(t) > 1:
            b, t = 8, t[1:]
    else:
        b = base
        t = s.lower().replace(' ', '')
        neg = t.startswith('-')
        t = t[1:] if neg else t
    digs = '0123456789abcdefghijklmnopqrstuvwxyz'[:b]
    if not t or any(c not in digs for c in t):
        return None
    v = int(t, b)
    return -v if neg else v


@builtin('__gmpz_set_str')
def _(ex, a):
    s = ex.pystr(a[1])
    v = _parse_num(s, a[2])
    if v is None:
        return MASK[32]
    zwrite(ex, a[0], v < 0, abs(v))
    return 0


@builtin('__gmpz_init_set_str')
def _(ex, a):
    zinit(ex, a[0])
    return BUILTIN['__gmpz_set_str'](ex, a)


@builtin('__gmpz_limbs_read')
def _(ex, a):
    return ex.load(ex.padd(a[0], 8), 8)


@builtin('__gmpz_limbs_write', '__gmpz_limbs_modify')
def _(ex, a):
    return zalloc(ex, a[0], ex.concretize(a[1], 64))


@builtin('__gmpz_limbs_finish')
def _(ex, a):
    n = ex.concretize(a[1], 64)
    d = ex.load(ex.padd(a[0], 8), 8)
    ls = zlimbs(ex, d, n)
    s = z3.BitVecVal(0, 32)
    for i, l in enumerate(ls):
        s = z3.If(bv(l, 64) != 0, z3.BitVecVal(i + 1, 32), s)
    ex.store(ex.padd(a[0], 4), 4, simp(s))


@builtin('__gmp_printf', '__gmp_fprintf', '__gmp_snprintf', '__gmp_sprintf')
def _(ex, a):
    return 0


# ------------------------------------------------------------------ mpn
def rd(ex, p, n):
    return concat_limbs(zlimbs(ex, p, n)) if n else 0


def wr(ex, p, v, n):
    for i in range(n):
        ex.store(ex.padd(p, 8 * i), 8, limb(v, i))


def cn(ex, n):
    n = sgn(ex.concretize(n, 64, what='limb count'), 64)
    if n < 0 or n > 200:
        raise Inconclusive('limb count %d' % n)
    return n


def top(v, n):
    """limbs above n as one word"""
    return limb(v, n)


def _mpn_addsub(sub):
    def f(ex, a):
        n = cn(ex, a[3])
        x, y = rd(ex, a[1], n), rd(ex, a[2], n)
        return _do_addsub(ex, a[0], x, y, n, sub)
    return f


def _do_addsub(ex, rp, x, y, n, sub):
    w = 64 * n
    if isinstance(x, int) and isinstance(y, int):
        r = x - y if sub else x + y
        wr(ex, rp, r & mask(w), n)
        return int(r < 0) if sub else r >> w
    X, Y = bv(x, w + 1), bv(y, w + 1)
    r = z3.simplify(X - Y if sub else X + Y)
    wr(ex, rp, z3.Extract(w - 1, 0, r), n)
    c = z3.Extract(w, w, r)
    return simp(z3.ZeroExt(63, c))


BUILTIN['__gmpn_add_n'] = _mpn_addsub(False)
BUILTIN['__gmpn_sub_n'] = _mpn_addsub(True)


def _mpn_1(sub):
    def f(ex, a):
        n = cn(ex, a[2])
        return _do_addsub(ex, a[0], rd(ex, a[1], n), ui(ex, a[3]), n, sub)
    return f


BUILTIN['__gmpn_add_1'] = _mpn_1(False)
BUILTIN['__gmpn_sub_1'] = _mpn_1(True)


def _mpn_nm(sub):
    def f(ex, a):
        n, m = cn(ex, a[2]), cn(ex, a[4])
        return _do_addsub(ex, a[0], rd(ex, a[1], n), rd(ex, a[3], m), n, sub)
    return f


BUILTIN['__gmpn_add'] = _mpn_nm(False)
BUILTIN['__gmpn_sub'] = _mpn_nm(True)


@builtin('__gmpn_cnd_add_n', '__gmpn_cnd_sub_n')
def _(ex, a):
    raise Inconclusive('mpn_cnd')


@builtin('__gmpn_cmp')
def _(ex, a):
    n = cn(ex, a[2])
    return cmp_term(False, rd(ex, a[0], n), False, rd(ex, a[1], n))


@builtin('__gmpn_zero_p')
def _(ex, a):
    v = rd(ex, a[0], cn(ex, a[1]))
    return int(v == 0) if isinstance(v, int) else bv(v == 0, 32)


@builtin('__gmpn_zero')
def _(ex, a):
    wr(ex, a[0], 0, cn(ex, a[1]))


@builtin('__gmpn_copyi', '__gmpn_copyd')
def _(ex, a):
    n = cn(ex, a[2])
    wr(ex, a[0], rd(ex, a[1], n), n)


@builtin('__gmpn_mul_n')
def _(ex, a):
    n = cn(ex, a[3])
    wr(ex, a[0], K(ex).mul(ex, rd(ex, a[1], n), rd(ex, a[2], n)), 2 * n)


@builtin('__gmpn_sqr')
def _(ex, a):
    n = cn(ex, a[2])
    v = rd(ex, a[1], n)
    wr(ex, a[0], K(ex).mul(ex, v, v), 2 * n)


@builtin('__gmpn_mul')
def _(ex, a):
    n, m = cn(ex, a[2]), cn(ex, a[4])
    v = K(ex).mul(ex, rd(ex, a[1], n), rd(ex, a[3], m))
    wr(ex, a[0], v, n + m)
    return limb(v, n + m - 1)


@builtin('__gmpn_mul_1')
def _(ex, a):
    n = cn(ex, a[2])
    v = K(ex).mul(ex, rd(ex, a[1], n), ui(ex, a[3]))
    wr(ex, a[0], v, n)
    return limb(v, n)


@builtin('__gmpn_tdiv_qr')
def _(ex, a):
    q, r, qxn, np_, nn, dp, dn = a
    nn, dn = cn(ex, nn), cn(ex, dn)
    x, d = rd(ex, np_, nn), rd(ex, dp, dn)
    wr(ex, r, K(ex).mod(ex, x, d), dn)
    try:
        v = K(ex).div(ex, x, d)
    except Inconclusive:
        v = z3.Concat(*[ex.fresh('quo', 64) for _ in range(nn - dn + 1)]) if nn > dn else ex.fresh('quo', 64)
    wr(ex, q, v, nn - dn + 1)


@builtin('__gmpn_lshift', '__gmpn_rshift')
def _(ex, a):
    raise Inconclusive('mpn shift')


@builtin('__gmp_set_memory_functions', '__gmp_get_memory_functions')
def _(ex, a):
    ex.ctx['gmp_memory_functions'] = a
    return None


# ------------------------------------------------------------------ harness helpers
def mpz_new(ex, v, limbs=None, neg=False, name='mpz'):
    """a heap mpz_t holding v (int or bit-vector)"""
    p = ex.alloc(16, name)
    zinit(ex, p)
    if isinstance(v, int) and v < 0:
        v, neg = -v, True
    zwrite(ex, p, neg, v)
    return p


def mpz_full(ex, ls, name='mpz'):
    """mpz_t with exactly these limbs, top limb known to be nonzero by the caller"""
    p = ex.alloc(16, name)
    d = ex.alloc(8 * len(ls), name + '.limbs')
    for i, l in enumerate(ls):
        ex.store(ex.padd(d, 8 * i), 8, l)
    ex.store(p, 4, len(ls))
    ex.store(ex.padd(p, 4), 4, len(ls))
    ex.store(ex.padd(p, 8), 8, d)
    return p


def mpz_empty(ex, name='mpz'):
    p = ex.alloc(16, name)
    zinit(ex, p)
    return p
