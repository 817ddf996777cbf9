"""One point (or two) on a curve of each equation type, for the checks that cover all of them."""
from hpoly import *
KINDS = ('ws', 'ed', 'mo', 'te')


def oncurve(x, kind, tag=''):
    """coefficients and a point on the curve, as free as the equation allows"""
    n = lambda s: s + tag
    if kind == 'ws':
        x1, y1, a = par(x, n('x1')), par(x, n('y1')), par(x, n('a'))
        return (a, y1 * y1 - x1 * x1 * x1 - a * x1), (x1, y1)
    if kind == 'mo':
        x1, m, B = par(x, n('x1'), True), par(x, n('m')), par(x, n('B'), True)
        return (B, B * m * m - x1 - const(x, 1) / x1), (x1, m * x1)
    c, x1, y1 = par(x, n('c'), True), par(x, n('x1'), True), par(x, n('y1'), True)
    q = x1 * x1 * y1 * y1
    if kind == 'ed':
        return (c, (x1 * x1 + y1 * y1 - c * c) / (c * c * q)), (x1, y1)
    return (c, (c * x1 * x1 + y1 * y1 - 1) / q), (x1, y1)


def negated(kind, P):
    return (-P[0], P[1]) if kind in ('ed', 'te') else (P[0], -P[1])


def neutral_xy(x, kind, co):
    return (const(x, 0), co[0] if kind == 'ed' else const(x, 1)) if kind in ('ed', 'te') else None


def affine_point(x, cv, P):
    t = pt_new(x, cv)
    x.call('mpECP_set_mpz', t, mpzv(x, P[0]), mpzv(x, P[1]), cv)
    return t


def scaled(x, cv, P, name):
    """the same point with an arbitrary projective scale: the stored coordinates are multiplied through"""
    t = affine_point(x, cv, P)
    z = par(x, name, True)
    F = x.ld(t, 16, 8)
    X, Y, Z = pt_xyz(x, t)
    for o, v in ((0, X * z), (24, Y * z), (48, Z * z)):
        fp_put(x, x.padd(t, o), v, F)
    return t


def make(x, cv, P, how, name='z1'):
    return affine_point(x, cv, P) if how == 'affine' else scaled(x, cv, P, name)


def coords(x, t, api='mpz'):
    if api == 'mpz':
        zx, zy = mpzv(x, const(x, 0)), mpzv(x, const(x, 0))
        x.call('mpz_set_mpECP_affine_x', zx, t)
        x.call('mpz_set_mpECP_affine_y', zy, t)
        return mpz_val(x, zx), mpz_val(x, zy)
    F = x.ld(t, 16, 8)
    out = []
    for f in ('mpFp_set_mpECP_affine_x', 'mpFp_set_mpECP_affine_y'):
        e = fp_new(x, F)
        x.call(f, e, t)
        out.append(fp_of(x, e))
    return tuple(out)


def expect_pt(x, t, P, what, api='mpz'):
    """P is an affine pair or None for a neutral element without coordinates"""
    if P is None:
        return expect_neutral(x, t, what)
    if not x.check(z3.BoolVal(not pt_flag(x, t)), what + ': reported neutral'):
        return
    X, Y = coords(x, t, api)
    eqv(x, X, P[0], what + ': wrong x coordinate')
    eqv(x, Y, P[1], what + ': wrong y coordinate')


def task(name, fn, n=30, **kw):
    return Task(name, fn, stubs=STUBS, gmp=lambda: gmpsym.Kernel(64), candidates=seeds(n), cfg={'check_ms': 20000}, **kw)
