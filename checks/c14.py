"""C14 the Montgomery group law (B*y^2 = x^3 + A*x^2 + x), seen through the public coordinates."""
from hpoly import *

BOUNDS = 'every prime p > 100, every coefficients A and B and every pair of points (polynomial parametrisation, with 1/B adjoined as a square root), free projective scalings, ' \
         'split into: distinct points whose difference is not of order 2; whose difference is the point (0,0); another point of order 2; doubling; doubling (0,0); doubling another point of order 2; ' \
         'inverse points; neutral operands; every aliasing of result and operands'
OUTSIDE = 'p <= 100; the field layer (C01 to C05)'
ASSUMES = ['field operations are exact (C01-C05)', 'points lie on the curve and are stored with a nonzero projective scale']

# u-coordinates of v^2 = (u-s)(u^2+s*u+c) with t^2 = c + 2*s^2; x = (u-s)/t, y = v/t, B = 1/t, A = 3*s/t


def third(x, v):
    return v / const(x, 3)


def chord(P, Q):
    l = (Q[1] - P[1]) / (Q[0] - P[0])
    u = l * l - P[0] - Q[0]
    return u, l * (P[0] - u) - P[1]


def generic(x):
    w1, w2, m2, k = (par(x, n) for n in ('w1', 'w2', 'm2', 'k'))
    d = w1 - w2
    nz(x, d)
    m1 = m2 + d * k
    s = third(x, m2 * m2 + k * (2 * m2 + d * k) * w1 - w1 - w2)
    u1, u2 = w1 + s, w2 + s
    v1, v2 = m1 * w1, m2 * w2
    a = m1 * m1 * w1 - (u1 * u1 + u1 * s + s * s)
    # v1 - v2 = (m2 + k*w1) * d
    l = m2 + k * w1
    S, D = v1 + v2, u2 - u1
    nz(x, S * (u1 * D * D - (S * S - (u1 + u2) * D * D)) + v1 * D * D * D)
    u3 = l * l - u1 - u2
    return s, a, (u1, v1), (u2, v2), (u3, l * (u1 - u3) - v1)


def torsion0(x):
    s, u1, m = par(x, 's'), par(x, 'u1'), par(x, 'm')
    v1 = m * (u1 - s)
    c = m * m * (u1 - s) - u1 * u1 - s * u1
    u2 = m * m - u1 - s
    v2 = m * (s - u2)
    nz(x, u1 - s)
    nz(x, u2 - u1)
    return s, c - s * s, (u1, v1), (u2, v2), chord((u1, v1), (u2, v2))


def torsion1(x):
    m, n, g = par(x, 'm', True), par(x, 'n', True), par(x, 'g', True)
    u1 = third(x, m * n + (m + n) * g)
    r, s = u1 - n * g, u1 - m * n
    q = -(r + s)
    v1 = m * n * g
    # v^2 = (u-r)(u-s)(u-q), Q = P + (r, 0)
    a = r * s + q * (r + s)
    l = v1 / (u1 - r)
    u2 = l * l - u1 - r
    v2 = l * (r - u2)
    nz(x, u2 - u1)
    nz(x, r - s)
    return s, a, (u1, v1), (u2, v2), chord((u1, v1), (u2, v2))


def dbl(x):
    w, m, l = par(x, 'w', True), par(x, 'm', True), par(x, 'l')
    s = third(x, 2 * m * l - 2 * w - m * m)
    u, v = w + s, m * w
    a = m * m * w - (u * u + u * s + s * s)
    u3 = l * l - 2 * u
    return s, a, (u, v), (u, v), (u3, l * (u - u3) - v)


def ord2a(x):
    s, a = par(x, 's'), par(x, 'a')
    return s, a, (s, const(x, 0)), (s, const(x, 0)), None


def ord2b(x):
    s, u = par(x, 's'), par(x, 'u')
    nz(x, u - s)
    return s, -u * u - s * u - s * s, (u, const(x, 0)), (u, const(x, 0)), None


def inverse(x):
    w, m, s = par(x, 'w', True), par(x, 'm', True), par(x, 's')
    u, v = w + s, m * w
    return s, m * m * w - (u * u + u * s + s * s), (u, v), (u, -v), None


def zero_plus(x):
    # (0,0) + P
    w, m, s = par(x, 'w', True), par(x, 'm', True), par(x, 's')
    u, v = w + s, m * w
    nz(x, s + s - m * m + u)            # the sum is not P itself shifted onto (0,0)
    S, D = v, u - s
    nz(x, S * (s * D * D - (S * S - (s + u) * D * D)))
    return s, m * m * w - (u * u + u * s + s * s), (s, const(x, 0)), (u, v), chord((s, const(x, 0)), (u, v))


CASES = dict(generic=generic, torsion0=torsion0, torsion1=torsion1, dbl=dbl, ord2a=ord2a, ord2b=ord2b, inverse=inverse, zero_plus=zero_plus)


def setup(x, case):
    s, a, P, Q, R = CASES[case](x)
    t = algebraic(x, 't', a + 3 * s * s)
    M = lambda p: None if p is None else ((p[0] - s) / t, p[1] / t)
    cv, st = curve(x, 'mo', (const(x, 1) / t, 3 * s / t), M(P))
    x.check(bv(st, 32) == 0, 'a Montgomery curve with a base point on it is refused')
    return cv, P, Q, R, M


def point(x, cv, P, M, F, how, name):
    if how == 'affine':
        t = pt_new(x, cv)
        m = M(P)
        x.call('mpECP_set_mpz', t, mpzv(x, m[0]), mpzv(x, m[1]), cv)
        return t
    z = par(x, name, True)
    return pt_proj(x, cv, P[0] * z, P[1] * z, z, F)


def coords(x, t):
    zx, zy = mpzv(x, const(x, 0)), mpzv(x, const(x, 0))
    x.call('mpz_set_mpECP_affine_x', zx, t)
    x.call('mpz_set_mpECP_affine_y', zy, t)
    return mpz_val(x, zx), mpz_val(x, zy)


def expect(x, t, R, M, what):
    if R is None:
        return expect_neutral(x, t, what)
    if not x.check(z3.BoolVal(not pt_flag(x, t)), what + ': result is reported neutral'):
        return
    X, Y = coords(x, t)
    m = M(R)
    eqv(x, X, m[0], what + ': wrong x coordinate')
    eqv(x, Y, m[1], what + ': wrong y coordinate')


def harness(case, op, how, alias):
    def h(x):
        cv, P, Q, R, M = setup(x, case)
        F = fieldptr(x)
        p1 = point(x, cv, P, M, F, how, 'z1')
        if op == 'double' or alias in ('q=p', 'all'):
            p2 = p1
        else:
            p2 = point(x, cv, Q, M, F, how, 'z2')
        r = {'new': None, 'r=p': p1, 'r=q': p2, 'q=p': None, 'all': p1}[alias] or pt_new(x, cv)
        if op == 'double':
            x.call('mpECP_double', r, p1)
        else:
            x.call('mpECP_add', r, p1, p2)
        expect(x, r, R, M, op)
        x.check(z3.BoolVal(same(x, pt_curve(x, r), cv)), op + ': result is on another curve object')
        if case == 'generic' and how == 'proj':
            return x.reach()        # operands: see the affine variant
        if r is not p1:
            expect(x, p1, P, M, op + ': first operand')
        if r is not p2 and p2 is not p1:
            expect(x, p2, Q, M, op + ': second operand')
        x.reach()
    return h


def neutral(which, op, alias):
    def h(x):
        cv, P, Q, R, M = setup(x, 'inverse')
        F = fieldptr(x)
        p1 = pt_neutral(x, cv) if which in ('left', 'both') else point(x, cv, P, M, F, 'proj', 'z1')
        p2 = pt_neutral(x, cv) if which in ('right', 'both') else point(x, cv, P, M, F, 'proj', 'z2')
        r = {'new': None, 'r=p': p1, 'r=q': p2}[alias] or pt_new(x, cv)
        if op == 'double':
            x.call('mpECP_double', r, p1)
        else:
            x.call('mpECP_add', r, p1, p2)
        expect(x, r, None if which == 'both' or op == 'double' else P, M, op)
        for t, neu in ((p1, which in ('left', 'both')), (p2, which in ('right', 'both'))):
            if t is not r:
                expect(x, t, None if neu else P, M, op + ': operand')
        x.reach()
    return h


def tasks(tier):
    out = []

    def T(name, fn):
        out.append(Task(name, fn, stubs=STUBS, gmp=lambda: gmpsym.Kernel(64), candidates=seeds(40), cfg={'check_ms': 20000}))
    for case in CASES:
        for how in ('affine', 'proj'):
            two = case in ('dbl', 'ord2a', 'ord2b')
            for al in ['new', 'r=p', 'r=q'] + (['q=p', 'all'] if two else []):
                T('add/%s/%s/%s' % (case, how, al), harness(case, 'add', how, al))
            if two:
                for al in ('new', 'r=p'):
                    T('double/%s/%s/%s' % (case, how, al), harness(case, 'double', how, al))
    for w in ('left', 'right', 'both'):
        for al in ('new', 'r=p', 'r=q'):
            T('add/neutral-%s/%s' % (w, al), neutral(w, 'add', al))
    for al in ('new', 'r=p'):
        T('double/neutral/%s' % al, neutral('left', 'double', al))
    return out
