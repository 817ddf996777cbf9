"""C07 curve construction and the on-curve test: accepted exactly when the base point satisfies the equation."""
from hcurves import *

BOUNDS = 'every prime p > 100, every coefficients and base point for the four equation types, integer and string constructors, fresh curve objects and objects that held a curve of any type before; ' \
         'point test for every pair of coordinates'
OUTSIDE = 'p <= 100; the parsing of digits inside GMP; composite moduli'
ASSUMES = ['field operations are exact (C01-C05)', 'mpz_set_str parses numbers as documented (replaced by an oracle in the string constructors)']


def equation(kind, co, P):
    (a, b), (X, Y) = co, P
    if kind == 'ws':
        return Y * Y - (X * X * X + a * X + b)
    if kind == 'ed':
        return X * X + Y * Y - a * a * (1 + b * X * X * Y * Y)
    if kind == 'mo':
        return a * Y * Y - (X * X * X + b * X * X + X)
    return a * X * X + Y * Y - (1 + b * X * X * Y * Y)


def setstr(x, v):
    """a number as a string: digits natively, a token known to the cut symbolically"""
    if x.native:
        return mkstr(x, str(int(v)) if x.wit.get('seed', 0) & 1 else hex(int(v)))
    d = x.ctx.setdefault('numbers', {})
    k = '%d' % (7000 + len(d))
    d[k] = lift(v) if not isinstance(v, int) else v
    return mkstr(x, k)


def st_set_str(ex, a):
    k = ''.join(chr(ex.concretize(c, 8)) for c in cstr(ex, a[1]))
    base = ex.concretize(a[2], 32)
    v = ex.ctx.get('numbers', {}).get(k)
    if v is None:
        raise Inconclusive('number string %r' % k)
    if base not in (0,):
        raise Inconclusive('unexpected base %d' % base)
    gmpsym.zwrite(ex, a[0], False, v)
    return 0


def build(x, kind, via, co, G, n, h, bits, prev):
    cv = None
    if prev:
        co0, P0 = oncurve(x, prev, "'")
        cv, st = curve(x, prev, co0, P0, n=97, h=3, bits=777)
    if via == 'mpz':
        return curve(x, kind, co, G, n, h, bits, cv=cv)
    if cv is None:
        cv = x.alloc(sizeof_curve(x), 'curve')
        x.call('mpECurve_init', cv)
    s = lambda v: setstr(x, v)
    st = ci(x, 'mpECurve_set_str_' + kind, cv, s(cutfield(x)), s(co[0]), s(co[1]), s(n), s(h), s(G[0]), s(G[1]), bits)
    return cv, st


def holds(x, cv, kind, co, G, n, h, bits):
    """the curve object means what was put in: tested through the public point test and the public members"""
    eqv(x, mpz_val(x, x.padd(cv, 192)), G[0], 'base point x')
    eqv(x, mpz_val(x, x.padd(cv, 208)), G[1], 'base point y')
    for off, v, what in ((160, n, 'order'), (176, h, 'cofactor')):
        ng, z = zval(x, x.padd(cv, off))
        x.check(z3.BoolVal(simp(z) == v and not ng), 'curve ' + what)
    x.check(bv(x.ld(cv, 224, 4), 32) == bits, 'curve bits')
    Q = (par(x, 'qx'), par(x, 'qy'))
    r = ci(x, 'mpECurve_point_check', cv, mpzv(x, Q[0]), mpzv(x, Q[1]))
    on = isz(x, equation(kind, co, Q))
    x.check((bv(r, 32) != 0) == z3.BoolVal(on), 'the point test does not decide the curve equation')


def ok(kind, via, prev):
    def h(x):
        co, P = oncurve(x, kind)
        n, hh, bits = 2**61 - 1, 5, x.sym('bits', 32)
        b = bv(bits, 32)
        cv, st = build(x, kind, via, co, P, n, hh, bits, prev)
        # every size from that of the prime up is good for its elements; fewer bytes than the prime has, or more bits than an int counts, are not
        L = cutfield(x).bit_length()
        fits = z3.And(z3.UGE(b, L), z3.ULE(b, 1 << 24))
        small = z3.Or(z3.ULE(b, 8 * ((L + 7) // 8 - 1)), z3.UGE(b, (1 << 31) - 7))
        x.check(z3.Implies(fits, bv(st, 32) == 0), 'a curve whose base point satisfies the equation is refused')
        x.check(z3.Implies(small, bv(st, 32) != 0), 'a curve whose elements do not fit the encoded size is accepted')
        x.assume(fits)
        holds(x, cv, kind, co, P, n, hh, b)
        x.reach()
    return h


def any_(kind, via, prev):
    def h(x):
        co = (par(x, 'k1'), par(x, 'k2'))
        if kind == 'mo':
            nz(x, co[0])
        G = (par(x, 'gx'), par(x, 'gy'))
        n, hh, bits = 101, 1, 521
        cv, st = build(x, kind, via, co, G, n, hh, bits, prev)
        on = isz(x, equation(kind, co, G))
        x.check((bv(st, 32) == 0) == z3.BoolVal(on), 'status of the constructor is not the curve equation at the base point')
        holds(x, cv, kind, co, G, n, hh, bits)
        x.reach()
    return h


def b_zero(via, gx0):
    """B = 0 is not a Montgomery curve: no base point makes it one"""
    def h(x):
        A = par(x, 'A')
        if gx0:
            G = (const(x, 0), par(x, 'gy'))
        else:
            r = par(x, 'r', True)
            A = -r - const(x, 1) / r
            G = (r, par(x, 'gy'))
        cv, st = build(x, 'mo', via, (const(x, 0), A), G, 101, 1, 521, None)
        x.check(bv(st, 32) != 0, 'a Montgomery curve with B = 0 is accepted')
        x.reach()
    return h


def check_on(kind):
    def h(x):
        co, P = oncurve(x, kind)
        cv, st = curve(x, kind, co, P)
        x.check(bv(ci(x, 'mpECurve_point_check', cv, mpzv(x, P[0]), mpzv(x, P[1])), 32) != 0, 'a point on the curve fails the point test')
        N = negated(kind, P)
        x.check(bv(ci(x, 'mpECurve_point_check', cv, mpzv(x, N[0]), mpzv(x, N[1])), 32) != 0, 'the negative of a point fails the point test')
        x.reach()
    return h


def tasks(tier):
    out = []
    S = dict(STUBS, __gmpz_set_str=st_set_str)

    def T(name, fn):
        t = task(name, fn)
        t.stubs = S
        out.append(t)
    for k in KINDS:
        for via in ('mpz', 'str'):
            for prev in (None,) + KINDS:
                T('%s/%s/on/%s' % (k, via, prev or 'fresh'), ok(k, via, prev))
                if prev in (None, 'mo', k) or tier != 'quick':
                    T('%s/%s/any/%s' % (k, via, prev or 'fresh'), any_(k, via, prev))
        T('%s/point' % k, check_on(k))
    for via in ('mpz', 'str'):
        for g in (0, 1):
            T('mo/%s/B=0/%d' % (via, g), b_zero(via, g))
    return out
