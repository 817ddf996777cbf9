"""C11 the short Weierstrass group law."""
from hpoly import *

BOUNDS = 'every prime p > 100, every curve coefficients and every pair of points (free rational parametrisation of curve and points, free projective scalings), ' \
         'split into: distinct points whose difference is not of order 2; whose difference is of order 2; doubling; doubling a point of order 2; inverse points; neutral operands; ' \
         'every aliasing of result and operands'
OUTSIDE = 'p <= 100; the field layer (C01 to C05)'
ASSUMES = ['field operations are exact (C01-C05)', 'points lie on the curve and are stored with a nonzero projective scale']


def generic(x):
    x1, x2, l, y1 = (par(x, n) for n in ('x1', 'x2', 'l', 'y1'))
    y2 = y1 + l * (x2 - x1)
    a = l * (y1 + y2) - (x1 * x1 + x1 * x2 + x2 * x2)
    b = y1 * y1 - x1 * x1 * x1 - a * x1
    nz(x, x2 - x1)
    # P - Q has order 2 exactly when its y coordinate vanishes
    s, d = y1 + y2, x2 - x1
    w = s * (x1 * d * d - (s * s - (x1 + x2) * d * d)) + y1 * d * d * d
    nz(x, w)
    x3 = l * l - x1 - x2
    return a, b, (x1, y1), (x2, y2), (x3, l * (x1 - x3) - y1)


def torsion(x):
    # y^2 = (x-t)(x^2+tx+c), Q = P + (t,0)
    t, x1, m = par(x, 't'), par(x, 'x1'), par(x, 'm')
    y1 = m * (x1 - t)
    c = m * m * (x1 - t) - x1 * x1 - t * x1
    a, b = c - t * t, -t * c
    x2 = m * m - x1 - t
    y2 = m * (t - x2)
    nz(x, x1 - t)
    nz(x, x2 - x1)
    l = (y2 - y1) / (x2 - x1)
    x3 = l * l - x1 - x2
    return a, b, (x1, y1), (x2, y2), (x3, l * (x1 - x3) - y1)


def dbl(x):
    x1, l, y1 = par(x, 'x1'), par(x, 'l'), par(x, 'y1', True)
    a = 2 * y1 * l - 3 * x1 * x1
    b = y1 * y1 - x1 * x1 * x1 - a * x1
    x3 = l * l - 2 * x1
    return a, b, (x1, y1), (x1, y1), (x3, l * (x1 - x3) - y1)


def ord2(x):
    x1, a = par(x, 'x1'), par(x, 'a')
    return a, -(x1 * x1 * x1) - a * x1, (x1, const(x, 0)), (x1, const(x, 0)), None


def inverse(x):
    x1, y1, a = par(x, 'x1'), par(x, 'y1', True), par(x, 'a')
    return a, y1 * y1 - x1 * x1 * x1 - a * x1, (x1, y1), (x1, -y1), None


CASES = dict(generic=generic, torsion=torsion, dbl=dbl, ord2=ord2, inverse=inverse)


def point(x, cv, P, F, how, name):
    if how == 'affine':
        t = pt_new(x, cv)
        x.call('mpECP_set_mpz', t, mpzv(x, P[0]), mpzv(x, P[1]), cv)
        return t
    z = par(x, name, True)
    return pt_proj(x, cv, P[0] * z, P[1] * z, z, F)


def unchanged(x, t, P, what):
    expect_affine(x, t, P[0], P[1], what)


def harness(case, op, how, alias):
    def h(x):
        a, b, P, Q, R = CASES[case](x)
        cv, st = curve(x, 'ws', (a, b), P)
        F = fieldptr(x)
        p1 = point(x, cv, P, F, how, 'z1')
        if op == 'double' or alias in ('q=p', 'all'):
            p2 = p1
        else:
            p2 = point(x, cv, Q, F, how, 'z2')
        r = {'new': None, 'r=p': p1, 'r=q': p2, 'q=p': None, 'all': p1}[alias] or pt_new(x, cv)
        if op == 'double':
            x.call('mpECP_double', r, p1)
        else:
            x.call('mpECP_add', r, p1, p2)
        if R is None:
            expect_neutral(x, r, op)
        else:
            expect_affine(x, r, R[0], R[1], op)
        x.check(z3.BoolVal(same(x, pt_curve(x, r), cv)), op + ': result is on another curve object')
        if r is not p1:
            unchanged(x, p1, P, op + ': first operand')
        if r is not p2 and p2 is not p1:
            unchanged(x, p2, Q, op + ': second operand')
        x.reach()
    return h


def neutral(which, op, alias):
    def h(x):
        x1, y1, a = par(x, 'x1'), par(x, 'y1'), par(x, 'a')
        P = (x1, y1)
        cv, st = curve(x, 'ws', (a, y1 * y1 - x1 * x1 * x1 - a * x1), P)
        F = fieldptr(x)
        p1 = pt_neutral(x, cv) if which in ('left', 'both') else point(x, cv, P, F, 'proj', 'z1')
        p2 = pt_neutral(x, cv) if which in ('right', 'both') else point(x, cv, P, F, 'proj', 'z2')
        r = {'new': None, 'r=p': p1, 'r=q': p2}[alias] or pt_new(x, cv)
        if op == 'double':
            x.call('mpECP_double', r, p1)
        else:
            x.call('mpECP_add', r, p1, p2)
        if which == 'both' or op == 'double':
            expect_neutral(x, r, op)
        else:
            expect_affine(x, r, x1, y1, op)
        for t, neu in ((p1, which in ('left', 'both')), (p2, which in ('right', 'both'))):
            if t is not r:
                expect_neutral(x, t, op + ': operand') if neu else expect_affine(x, t, x1, y1, op + ': operand')
        x.reach()
    return h


def tasks(tier):
    out = []

    def T(name, fn):
        out.append(Task(name, fn, stubs=STUBS, gmp=lambda: gmpsym.Kernel(64), candidates=seeds(), cfg={'check_ms': 20000}))
    for case in CASES:
        for how in ('affine', 'proj'):
            als = ['new', 'r=p', 'r=q'] + (['q=p', 'all'] if case in ('dbl', 'ord2') else [])
            for al in als:
                T('add/%s/%s/%s' % (case, how, al), harness(case, 'add', how, al))
            if case in ('dbl', 'ord2'):
                for al in ('new', 'r=p'):
                    T('double/%s/%s/%s' % (case, how, al), harness(case, 'double', how, al))
    for w in ('left', 'right', 'both'):
        for al in ('new', 'r=p', 'r=q'):
            T('add/neutral-%s/%s' % (w, al), neutral(w, 'add', al))
    for al in ('new', 'r=p'):
        T('double/neutral/%s' % al, neutral('left', 'double', al))
    return out
