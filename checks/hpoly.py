"""Field cut: the mpFp_* operations replaced by exact arithmetic on rational functions of free parameters.

Inside the cut a field element is num/den, two polynomial terms over Real parameters with rational coefficients.  An
identity between such terms holds over every field whose characteristic does not divide the (small) integer constants
involved, so a discharged obligation covers every prime p > 100 and every value of the parameters.  Zero tests made by
the code are decided by the identity, by a factorisation into parameters the harness declared nonzero (checked by the
solver), or else explored both ways."""
import z3, hashlib
from vf import *
from sym import Abs, AbsLimb, abs_of
from hfield import FP, field, fp_new

P255 = 2**255 - 19
BLOW = dict(som=True, som_blowup=1 << 30)
Rv = z3.RealVal


def norm(t):
    return z3.simplify(t, **BLOW)


def isnum(t):
    return z3.is_rational_value(t)


class PE(Abs):
    nlimbs = 4

    def __init__(self, num, den=None):
        self.num = Rv(num) if isinstance(num, int) else num
        self.den = den          # None = 1

    # --- plain arithmetic (harness and stubs)
    def _c(self, o):
        return o if isinstance(o, PE) else PE(o)

    def __add__(self, o):
        o = self._c(o)
        if self.den is None and o.den is None:
            return PE(self.num + o.num)
        if self.den is not None and o.den is not None and self.den.eq(o.den):
            return PE(self.num + o.num, self.den)
        a, b = self.den if self.den is not None else Rv(1), o.den if o.den is not None else Rv(1)
        return PE(self.num * b + o.num * a, a * b)
    __radd__ = __add__

    def __neg__(self):
        return PE(-self.num, self.den)

    def __sub__(self, o):
        return self + (-self._c(o))

    def __rsub__(self, o):
        return self._c(o) - self

    def __mul__(self, o):
        o = self._c(o)
        d = None if self.den is None and o.den is None else self.den if o.den is None else o.den if self.den is None else self.den * o.den
        return PE(self.num * o.num, d)
    __rmul__ = __mul__

    def __pow__(self, k):
        r = PE(1)
        for _ in range(k):
            r = r * self
        return r

    def inv(self):
        n = norm(self.num)
        if isnum(n):
            return PE(Rv(1) / n if self.den is None else self.den / n)
        return PE(self.den if self.den is not None else 1, self.num)

    def __truediv__(self, o):
        return self * self._c(o).inv()

    # --- as an integer held by an mpz (always a canonical residue)
    def mod(self, ex, m):
        return self

    def cmp(self, ex, o):
        if isinstance(o, (int, PE)):
            return 0 if zero(ex, self - lift(o)) else 1
        self._no('comparison')

    def bit(self, ex, k):
        if k != 0:
            self._no('bit %d' % k)
        return parity(ex, self)


def lift(v, p=P255):
    if isinstance(v, PE):
        return v
    if isinstance(v, int):
        if v > p // 2:
            v -= p
        if abs(v) > 1 << 40:
            raise Inconclusive('large constant in the field cut')
        return PE(v)
    raise Inconclusive('bit-level value in the field cut')


class NV(int):
    """residue mod P for the native run of the same harness formulas"""
    def __new__(cls, v, p):
        o = int.__new__(cls, int(v) % p)
        o.p = p
        return o

    def __add__(self, o): return NV(int(self) + int(o), self.p)
    __radd__ = __add__
    def __sub__(self, o): return NV(int(self) - int(o), self.p)
    def __rsub__(self, o): return NV(int(o) - int(self), self.p)
    def __neg__(self): return NV(-int(self), self.p)
    def __mul__(self, o): return NV(int(self) * int(o), self.p)
    __rmul__ = __mul__
    def __pow__(self, k): return NV(pow(int(self), k, self.p), self.p)

    def inv(self):
        if int(self) == 0:
            raise PathEnd('division by zero in the harness formula')
        return NV(pow(int(self), -1, self.p), self.p)

    def __truediv__(self, o):
        return self * NV(o, self.p).inv()


# ---------------------------------------------------------------- polynomial helpers
def to_sympy(t):
    import sympy
    e = norm(t)
    names = {}

    def rec(t):
        if isnum(t):
            return sympy.Rational(t.numerator_as_long(), t.denominator_as_long())
        k = t.decl().kind()
        if k == z3.Z3_OP_UNINTERPRETED:
            return names.setdefault(t.decl().name(), sympy.Symbol(t.decl().name()))
        cs = [rec(c) for c in t.children()]
        if k == z3.Z3_OP_ADD:
            return sympy.Add(*cs)
        if k == z3.Z3_OP_MUL:
            return sympy.Mul(*cs)
        if k == z3.Z3_OP_SUB:
            return cs[0] - sympy.Add(*cs[1:])
        if k == z3.Z3_OP_UMINUS:
            return -cs[0]
        if k == z3.Z3_OP_POWER:
            return cs[0] ** cs[1]
        raise Inconclusive('unexpected term %s' % t.decl())
    return rec(e)


def from_sympy(e):
    import sympy
    p = sympy.Poly(e) if e.free_symbols else None
    if p is None:
        q = sympy.Rational(e)
        return Rv(str(q))
    out = Rv(0)
    for mon, c in p.terms():
        t = Rv(str(sympy.Rational(c)))
        for g, k in zip(p.gens, mon):
            for _ in range(k):
                t = t * z3.Real(g.name)
        out = out + t
    return out


def factors(t):
    import sympy
    c, fs = sympy.factor_list(to_sympy(t))
    return c, fs


def smooth(c):
    n = abs(c.p * c.q) if hasattr(c, 'p') else abs(int(c))
    if n == 0:
        return False
    for q in (2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47, 53, 59, 61, 67, 71, 73, 79, 83, 89, 97):
        while n % q == 0:
            n //= q
    return n == 1


def apply_subst(ex, t):
    for v, e in ex.ctx.get('subst', ()):
        t = z3.substitute(t, (z3.Real(v), e))
    return t


def facts(ex):
    return ex.ctx.setdefault('nzf', set())


def canon(f):
    """canonical form of an irreducible factor up to a constant"""
    import sympy
    p = sympy.Poly(f)
    return str(sympy.expand((p / p.LC() if False else p.primitive()[1] * (1 if p.LC() > 0 else -1)).as_expr()))


def identity(ex, t):
    """is the polynomial term t identically zero?  decided by z3"""
    t = apply_subst(ex, t)
    for n, f in ex.ctx.get('algebraic', ()):
        t = quotient(t, n, f)
    for f in ex.ctx.get('unsolved', ()):
        t = multiple(t, f)
    ex.stats.queries += 1
    t0 = time.time()
    s = z3.Solver()
    s.set('timeout', 20000)
    s.add(norm(t) != 0)
    r = s.check()
    ex.stats.solver_s += time.time() - t0
    return r == z3.unsat


def quotient(t, n, f):
    """t minus a multiple of n^2 - f, of degree <= 1 in n.  The result differs from t by a multiple of the relation by
    construction, so when the solver shows it zero, t is zero wherever the relation holds"""
    import sympy
    v = z3.Real(n)
    p = sympy.Poly(to_sympy(t), sympy.Symbol(n)) if occurs(t, n) else None
    if p is None or p.degree() < 2:
        return t
    q, r = sympy.div(p, sympy.Poly(sympy.Symbol(n) ** 2 - to_sympy(f), sympy.Symbol(n)))
    return t - from_sympy(sympy.expand(q.as_expr())) * (v * v - f)


def multiple(t, f):
    """t minus a multiple of the polynomial f, which is zero on this path"""
    import sympy
    e = to_sympy(t)
    if e == 0:
        return t
    gens = sorted(f.free_symbols | e.free_symbols, key=str)
    q, r = sympy.reduced(e, [f], *gens)
    if r != 0 or not q:
        return t
    return t - from_sympy(sympy.expand(q[0])) * from_sympy(sympy.expand(f))


def occurs(t, n):
    seen, todo = set(), [t]
    while todo:
        u = todo.pop()
        if u.get_id() in seen:
            continue
        seen.add(u.get_id())
        if u.num_args() == 0 and u.decl().kind() == z3.Z3_OP_UNINTERPRETED and u.decl().name() == n:
            return True
        todo.extend(u.children())
    return False


def zero(ex, e):
    """decide e == 0 on this path (forks when open)"""
    e = lift(e)
    t = apply_subst(ex, e.num)
    if identity(ex, t):
        return True
    n = norm(t)
    key = n.sexpr()
    memo = ex.ctx.setdefault('zmemo', {})
    if key in memo:
        return memo[key]
    c, fs = factors(n)
    if not smooth(c):
        raise Inconclusive('constant %s in a zero test' % c)
    res = False
    for f, k in fs:
        cf = canon(f)
        if cf in facts(ex):
            continue
        b = z3.Bool('zero(%s)' % cf)
        if ex.branch(b):
            solve_zero(ex, f)
            res = True
            break
        declare(ex, f)
    memo[key] = res
    return res


def solve_zero(ex, f):
    """record f = 0: substitute a variable it determines linearly"""
    import sympy
    p = sympy.Poly(f)
    for g in sorted(p.gens, key=str, reverse=True):
        q = sympy.Poly(f, g)
        if q.degree() == 1 and q.coeff_monomial(g).is_number:
            e = sympy.expand(-q.coeff_monomial(1) / q.coeff_monomial(g))
            ex.ctx.setdefault('subst', []).append((g.name, from_sympy(e)))
            ex.ctx.setdefault('extra', {}).setdefault('subst', []).append([g.name, str(e)])
            ex.ctx['zmemo'] = {}
            refresh(ex)
            return
    ex.notes.append('a zero of %s is explored without being solved for' % str(f)[:80])
    ex.ctx.setdefault('unsolved', []).append(f)
    ex.ctx['zmemo'] = {}


def refresh(ex):
    """restate the facts 'this is not zero' after a substitution; a fact that became false ends the path"""
    import sympy
    polys, ex.ctx['nzp'] = ex.ctx.get('nzp', {}), {}
    for f in list(polys.values()):
        g = norm(apply_subst(ex, from_sympy(f)))
        if isnum(g):
            if g.numerator_as_long() == 0:
                raise PathEnd('infeasible')
            continue
        for h, k in factors(g)[1]:
            declare(ex, h)


def declare(ex, f):
    c = canon(f)
    facts(ex).add(c)
    ex.ctx.setdefault('nzp', {})[c] = f


def parity(ex, e):
    """low bit of the canonical representative; parity(-e) = 1 - parity(e) for e != 0"""
    if zero(ex, e):
        return 0
    n = norm(apply_subst(ex, (e.num if e.den is None else e.num)))
    d = norm(apply_subst(ex, e.den)) if e.den is not None else None
    a, b = n.sexpr() + '/' + (d.sexpr() if d is not None else '1'), norm(-n).sexpr() + '/' + (d.sexpr() if d is not None else '1')
    lo = min(a, b)
    v = ex.sym('par:' + hashlib.sha1(lo.encode()).hexdigest()[:12], 1)
    return simp(bv(v if a == lo else ~v, 32))


# ---------------------------------------------------------------- stubs
def fget(ex, a):
    fp = ex.load(ex.padd(a, 16), 8)
    if not isinstance(fp, Ptr):
        raise Fault('null', 'field operation on an element without a field')
    d = ex.load(ex.padd(a, 8), 8)
    ls = [ex.load(ex.padd(d, 8 * i), 8) for i in range(4)]
    if any(isinstance(l, Undef) for l in ls):
        raise Fault('uninit', 'field operation on an element without a value')
    sz = ex.load(ex.padd(a, 4), 4)
    if isinstance(sz, Undef):
        raise Fault('uninit', 'field operation on an element without a value')
    pe = abs_of(ls[0])
    if pe is not None:
        if any(abs_of(l) is not pe for l in ls):
            raise Inconclusive('mixed limbs of an abstract element')
        return pe, fp
    v = gmpsym.concat_limbs(ls)
    if isinstance(v, int):
        return lift(v), fp
    raise Inconclusive('bit-level element in the field cut')


def nterms(t):
    n, todo = 0, [t]
    while todo and n < 4000:
        u = todo.pop()
        n += 1
        todo.extend(u.children())
    return n


def tidy(ex, pe):
    """cancel common factors and apply the declared algebraic relations t^2 = f; the rewriting is checked by the solver"""
    alg = ex.ctx.get('algebraic')
    if not alg or nterms(pe.num) + (nterms(pe.den) if pe.den is not None else 0) > 3000:
        return pe
    import sympy
    n, d = to_sympy(pe.num), to_sympy(pe.den) if pe.den is not None else sympy.Integer(1)
    if d == 1 and not any(sympy.degree(n, sympy.Symbol(t)) > 1 for t, f in alg):
        return pe
    nn, dd = sympy.fraction(sympy.cancel(n / d))
    for t, f in alg:
        T, F = sympy.Symbol(t), to_sympy(f)
        nn, dd = [sympy.rem(sympy.expand(e), T ** 2 - F, T) if sympy.degree(e, T) > 1 else e for e in (nn, dd)]
    nn, dd = sympy.fraction(sympy.cancel(nn / dd))
    q = PE(from_sympy(nn), None if dd == 1 else from_sympy(dd))
    if not identity(ex, q.num * (pe.den if pe.den is not None else 1) - pe.num * (q.den if q.den is not None else 1)):
        raise Inconclusive('rewriting of a field element not confirmed')
    return q


def algebraic(x, name, f):
    """a parameter t with t^2 = f (f nonzero), itself nonzero"""
    if x.native:
        p = cutfield(x)
        r = sqrtmod(int(f) % p, p)
        if not r:
            raise PathEnd('no square root for this seed')
        return NV(r, p)
    v = PE(z3.Real(name))
    x.ctx.setdefault('algebraic', []).append((name, norm(lift(f).num)))
    nz(x, v)
    return v


def sqrtmod(a, p):
    """square root modulo a prime (harness side)"""
    a %= p
    if a == 0:
        return 0
    if pow(a, (p - 1) // 2, p) != 1:
        return None
    if p % 4 == 3:
        return pow(a, (p + 1) // 4, p)
    s, q = 0, p - 1
    while q % 2 == 0:
        s, q = s + 1, q // 2
    z = next(z for z in range(2, 1000) if pow(z, (p - 1) // 2, p) == p - 1)
    m, c, t, r = s, pow(z, q, p), pow(a, q, p), pow(a, (q + 1) // 2, p)
    while t != 1:
        i, u = 0, t
        while u != 1:
            u, i = u * u % p, i + 1
        b = pow(c, 1 << (m - i - 1), p)
        m, c, t, r = i, b * b % p, t * b * b % p, r * b % p
    return r


def fput(ex, c, pe, fp):
    pe = tidy(ex, pe)
    ex.store(ex.padd(c, 16), 8, fp)
    d = gmpsym.zalloc(ex, c, 4)
    for i in range(4):
        ex.store(ex.padd(d, 8 * i), 8, Opaque(AbsLimb(pe, i)))
    ex.store(ex.padd(c, 4), 4, 4)


def st_get(ex, a):
    pe, fp = fget(ex, a[1])
    n = norm(pe.num) if pe.den is None else None
    if n is not None and isnum(n) and n.denominator_as_long() == 1:
        v = n.numerator_as_long()
        if abs(v) < 1 << 62:
            return gmpsym.zwrite(ex, a[0], False, v % P255)
    gmpsym.zwrite(ex, a[0], False, pe)


def samefp(a, b):
    return a.o is b.o and a.off == b.off


def bin_(f):
    def st(ex, a):
        u, fu = fget(ex, a[1])
        v, fv = fget(ex, a[2])
        if not samefp(fu, fv):
            raise Fault('abort', 'field operation on elements of different fields')
        fput(ex, a[0], f(u, v), fu)
    return st


def un_(f):
    def st(ex, a):
        u, fu = fget(ex, a[1])
        fput(ex, a[0], f(u), fu)
    return st


def ui_(f):
    def st(ex, a):
        u, fu = fget(ex, a[1])
        k = simp(a[2])
        if not isinstance(k, int):
            raise Inconclusive('symbolic word in the field cut')
        fput(ex, a[0], f(u, k), fu)
    return st


def st_pow_mpz(ex, a):
    u, fu = fget(ex, a[1])
    n, k = gmpsym.zread(ex, a[2])
    if n or not isinstance(k, int) or k > 64:
        raise Inconclusive('large power in the field cut')
    fput(ex, a[0], u ** k, fu)


def st_inv(ex, a):
    u, fu = fget(ex, a[1])
    if zero(ex, u):
        return MASK32
    fput(ex, a[0], u.inv(), fu)
    return 0


MASK32 = 0xffffffff


def st_cmp(ex, a):
    u, fu = fget(ex, a[0])
    v, fv = fget(ex, a[1])
    if not samefp(fu, fv):
        raise Fault('abort', 'comparison of elements of different fields')
    return 0 if zero(ex, u - v) else 1


def st_cmp_ui(ex, a):
    u, fu = fget(ex, a[0])
    return 0 if zero(ex, u - lift(a[1])) else 1


def st_cmp_mpz(ex, a):
    u, fu = fget(ex, a[0])
    n, v = gmpsym.zread(ex, a[1])
    return 0 if zero(ex, u - lift(v)) else 1


def st_tstbit(ex, a):
    u, fu = fget(ex, a[0])
    return u.bit(ex, ex.concretize(a[1], 32))


def st_set_mpz(ex, a):
    n, v = gmpsym.zread(ex, a[1])
    v = lift(v)
    fput(ex, a[0], -v if n else v, a[2])


def st_sqrt(ex, a):
    """roots known to the harness (ex.ctx['roots']); otherwise declared a non-residue or unknown"""
    u, fu = fget(ex, a[1])
    for r in ex.ctx.get('roots', ()):
        if zero_quiet(ex, u - r * r):
            s = ex.fresh('sign', 1)
            fput(ex, a[0], r if ex.branch(s == 0) else -r, fu)
            return 0
    for r in ex.ctx.get('nonres', ()):
        if zero_quiet(ex, u - r):
            return MASK32
    raise Inconclusive('square root of an expression the harness has no root for')


def zero_quiet(ex, e):
    return identity(ex, apply_subst(ex, e.num))


STUBS = {
    'mpFp_add': bin_(lambda u, v: u + v), 'mpFp_sub': bin_(lambda u, v: u - v), 'mpFp_mul': bin_(lambda u, v: u * v),
    'mpFp_neg': un_(lambda u: -u), 'mpFp_sqr': un_(lambda u: u * u),
    'mpFp_add_ui': ui_(lambda u, k: u + k), 'mpFp_sub_ui': ui_(lambda u, k: u - k), 'mpFp_mul_ui': ui_(lambda u, k: u * k),
    'mpFp_pow_ui': ui_(lambda u, k: u ** k), 'mpFp_pow_mpz': st_pow_mpz, 'mpFp_inv': st_inv, 'mpFp_cmp': st_cmp, 'mpFp_cmp_ui': st_cmp_ui,
    'mpFp_cmp_mpz': st_cmp_mpz, 'mpFp_tstbit': st_tstbit, 'mpFp_set_mpz_fp': st_set_mpz, 'mpFp_sqrt': st_sqrt,
    'mpz_set_mpFp': st_get,
}


# ---------------------------------------------------------------- harness interface
NATIVE_P = [P255, 2**127 - 1, 2**256 - 2**32 - 977, 1009, 101, 2**521 - 1, 100003, 103, 107, 65537]


def cutfield(x):
    """the prime of this run"""
    if x.native:
        return NATIVE_P[x.wit.get('seed', 0) % len(NATIVE_P)]
    return P255


def par(x, name, nonzero=False):
    """a free parameter"""
    if x.native:
        p = cutfield(x)
        import random
        v = random.Random('%s/%d' % (name, x.wit.get('seed', 0))).randrange(p)
        for n, e in x.wit.get('subst', ()):
            if n == name:
                env = {k: NV(w, p) for k, w in x.ctx.get('pars', {}).items()}
                import re
                e2 = re.sub(r'\b(\d+)\b', r'NV(\1,P)', re.sub(r'\*\*(\d+)', lambda m: '**_e%s' % m.group(1), e))
                e2 = re.sub(r'_e(\d+)', r'int("\1")', e2)
                try:
                    v = int(eval(e2, dict(env, NV=NV, P=p, int=int)))
                except NameError:
                    pass            # depends on a parameter drawn later
        x.ctx.setdefault('pars', {})[name] = v
        v = NV(v, p)
    else:
        v = PE(z3.Real(name))
    if nonzero:
        nz(x, v)
    return v


def const(x, k):
    return NV(k, cutfield(x)) if x.native else PE(k)


def nz(x, v):
    """assumption of the harness: v != 0"""
    if x.native:
        if int(v) == 0:
            raise PathEnd('assumed nonzero')
        return
    c, fs = factors(v.num)
    for f, k in fs:
        declare(x, f)


def eqv(x, u, v, msg):
    """obligation u == v"""
    if x.native:
        return x.check(z3.BoolVal(int(u) == int(v)), msg)
    u, v = lift(u), lift(v)
    d = u - v
    x.stats.checks += 1
    if identity(x, d.num):
        x.stats.discharged += 1
        return True
    x.stats.checks -= 1
    return x.check(z3.BoolVal(False), msg)


def isz(x, v):
    return int(v) == 0 if x.native else zero(x, v)


def mpzv(x, v):
    """an mpz_t holding the value"""
    if x.native:
        return mpz(x, int(v))
    v = lift(v)
    p = x.alloc(16, 'mpz')
    gmpsym.zinit(x, p)
    n = norm(v.num)
    if v.den is None and isnum(n) and n.denominator_as_long() == 1 and n.numerator_as_long() >= 0:
        gmpsym.zwrite(x, p, False, n.numerator_as_long())
    else:
        gmpsym.zwrite(x, p, False, v)
    return p


def mpz_val(x, p):
    ng, v = zval(x, p)
    if x.native:
        return NV(-v if ng else v, cutfield(x))
    v = lift(v)
    return -v if ng else v


def fp_put(x, t, v, F):
    """store a value into an initialised field element"""
    if x.native:
        n = x.ld(F, 32, 8)
        d = x.ld(t, 8, 8)
        for i in range(n):
            x.st(d, 8 * i, 8, (int(v) >> (64 * i)) & ((1 << 64) - 1))
        x.st(t, 4, 4, n)
        x.st(t, 16, 8, F)
    else:
        fput(x, t, lift(v), F)


def fp_of(x, t):
    """value of a field element"""
    if x.native:
        F = x.ld(t, 16, 8)
        n = x.ld(F, 32, 8)
        d = x.ld(t, 8, 8)
        return NV(sum(x.ld(d, 8 * i, 8) << (64 * i) for i in range(n)), cutfield(x))
    return fget(x, t)[0]


def seeds(n=10):
    def f(w):
        for s in range(n):
            yield dict(w, seed=s)
    return f


# ---------------------------------------------------------------- curves and points
CURVE, POINT = 256, 104


def sizeof_curve(x):
    return 512          # larger than the structure; its fields are reached only through the library


def curve(x, kind, co, G, n=None, h=1, bits=None, cv=None, p=None):
    """a curve made by the public constructor; returns (curve, status)"""
    if cv is None:
        cv = x.alloc(sizeof_curve(x), 'curve')
        x.call('mpECurve_init', cv)
    p = p or cutfield(x)
    st = ci(x, 'mpECurve_set_mpz_' + kind, cv, mpz(x, p), mpzv(x, co[0]), mpzv(x, co[1]), mpz(x, 2**255 - 31 if n is None else n), mpz(x, h), mpzv(x, G[0]), mpzv(x, G[1]),
            p.bit_length() if bits is None else bits)
    return cv, st


def fieldptr(x):
    return field(x, cutfield(x))[0]


def pt_new(x, cv):
    t = x.alloc(POINT + 24, 'point')
    x.call('mpECP_init', t, cv)
    return t


def pt_proj(x, cv, X, Y, Z, F):
    """a point with the given internal coordinates"""
    t = pt_new(x, cv)
    x.st(t, 72, 4, 0)
    for o, v in ((0, X), (24, Y), (48, Z)):
        fp_put(x, x.padd(t, o), v, F)
    return t


def pt_neutral(x, cv):
    t = pt_new(x, cv)
    x.call('mpECP_set_neutral', t, cv)
    return t


def pt_flag(x, t):
    v = x.ld(t, 72, 4)
    if isinstance(v, Undef):
        raise Fault('uninit', 'neutral flag of the result')
    return x.concretize(v, 32) != 0


def pt_xyz(x, t):
    return [fp_of(x, x.padd(t, o)) for o in (0, 24, 48)]


def pt_curve(x, t):
    return x.ld(t, 80, 8)


def same(x, a, b):
    return a == b if x.native else isinstance(a, Ptr) and isinstance(b, Ptr) and a.o is b.o and a.off == b.off


def expect_affine(x, t, ex_, ey, what):
    """the point t is the affine point (ex_, ey) in internal projective coordinates"""
    if not x.check(z3.BoolVal(not pt_flag(x, t)), what + ': result is reported neutral'):
        return
    X, Y, Z = pt_xyz(x, t)
    if isz(x, Z):
        x.check(z3.BoolVal(False), what + ': result has no affine coordinates')
        return
    eqv(x, X, ex_ * Z, what + ': wrong x coordinate')
    eqv(x, Y, ey * Z, what + ': wrong y coordinate')


def expect_neutral(x, t, what):
    x.check(z3.BoolVal(pt_flag(x, t)), what + ': result is not the neutral element')
