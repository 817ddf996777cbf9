"""Edwards and twisted Edwards group laws (C12, C13)."""
from hpoly import *

BOUNDS = 'every prime p > 100, every curve coefficients and every pair of points with nonvanishing denominators of the addition law (all pairs when the law is complete), ' \
         'free projective scalings; doubling, inverse points, neutral operands; every aliasing; result object previously on another curve'
OUTSIDE = 'p <= 100; the field layer (C01 to C05); pairs of points for which the affine law itself divides by zero'
ASSUMES = ['field operations are exact (C01-C05)']


def root(x, v, alt):
    p = cutfield(x)
    r = sqrtmod(int(v) % p, p)
    if r is None:
        raise PathEnd('no point with this x')
    return NV(r if alt else -r, p)


def ypar(x, kind, name, X, c, d):
    """y coordinate: free in the symbolic run (the law is an identity), on the curve in the native run"""
    if not x.native:
        return par(x, name)
    s = par(x, name)
    if kind == 'ed':
        return root(x, (c * c - X * X) / (1 - c * c * d * X * X), int(s) & 1)
    return root(x, (1 - c * X * X) / (1 - d * X * X), int(s) & 1)


def coeffs(x, kind):
    c, d = par(x, 'c', True), par(x, 'd', True)
    return c, d


def law(kind, c, d, P, Q):
    (x1, y1), (x2, y2) = P, Q
    e = d * x1 * x2 * y1 * y2
    if kind == 'ed':
        return (x1 * y2 + y1 * x2) / (c * (1 + e)), (y1 * y2 - x1 * x2) / (c * (1 - e))
    return (x1 * y2 + y1 * x2) / (1 + e), (y1 * y2 - c * x1 * x2) / (1 - e)


def point(x, cv, P, F, how, name):
    if how == 'affine':
        t = pt_new(x, cv)
        x.call('mpECP_set_mpz', t, mpzv(x, P[0]), mpzv(x, P[1]), cv)
        return t
    z = par(x, name, True)
    return pt_proj(x, cv, P[0] * z, P[1] * z, z, F)


def result(x, cv, p1, p2, alias, kind):
    if alias == 'other':
        cv2, _ = curve(x, kind, (const(x, 5), const(x, 7)), (const(x, 0), const(x, 5 if kind == 'ed' else 1)), n=97, h=3, bits=17)
        cv3 = x.alloc(sizeof_curve(x), 'curve')
        x.call('mpECurve_init', cv3)
        x.call('mpECurve_set', cv3, cv2)
        r = pt_new(x, cv2)
        return r, (cv2, cv3)
    return {'new': None, 'r=p': p1, 'r=q': p2, 'q=p': None, 'all': p1}[alias] or pt_new(x, cv), None


def after(x, r, cv, other, what):
    c = pt_curve(x, r)
    x.check(z3.BoolVal(same(x, c, cv)) if same(x, c, cv) else bv(ci(x, 'mpECurve_cmp', c, cv), 32) == 0, what + ': result is on another curve')
    if other:
        x.check(bv(ci(x, 'mpECurve_cmp', *other), 32) == 0, what + ': the curve the result object was on before has been changed')


def harness(kind, op, how, alias):
    def h(x):
        c, d = coeffs(x, kind)
        x1 = par(x, 'x1')
        y1 = ypar(x, kind, 'y1', x1, c, d)
        P = (x1, y1)
        cv, st = curve(x, kind, (c, d), P)
        F = fieldptr(x)
        p1 = point(x, cv, P, F, how, 'z1')
        if op == 'double' or alias in ('q=p', 'all'):
            p2, Q = p1, P
        else:
            x2 = par(x, 'x2')
            Q = (x2, ypar(x, kind, 'y2', x2, c, d))
            p2 = point(x, cv, Q, F, how, 'z2')
        e = d * P[0] * Q[0] * P[1] * Q[1]
        nz(x, 1 + e)
        nz(x, 1 - e)
        R = law(kind, c, d, P, Q)
        r, other = result(x, cv, p1, p2, alias, kind)
        if op == 'double':
            x.call('mpECP_double', r, p1)
        else:
            x.call('mpECP_add', r, p1, p2)
        expect_affine(x, r, R[0], R[1], op)
        after(x, r, cv, other, op)
        if r is not p1:
            expect_affine(x, p1, P[0], P[1], op + ': first operand')
        if r is not p2 and p2 is not p1:
            expect_affine(x, p2, Q[0], Q[1], op + ': second operand')
        x.reach()
    return h


def onecurve(x, kind):
    """one point exactly on its curve: d from the equation"""
    c, x1, y1 = par(x, 'c', True), par(x, 'x1', True), par(x, 'y1', True)
    d = (x1 * x1 + y1 * y1 - c * c) / (c * c * x1 * x1 * y1 * y1) if kind == 'ed' else (c * x1 * x1 + y1 * y1 - 1) / (x1 * x1 * y1 * y1)
    return c, d, (x1, y1)


def inverse(kind, alias, how, via):
    def h(x):
        c, d, P = onecurve(x, kind)
        cv, st = curve(x, kind, (c, d), P)
        x.check(bv(st, 32) == 0, 'curve with a point on it refused')
        F = fieldptr(x)
        e = d * P[0] * P[0] * P[1] * P[1]
        nz(x, 1 + e)
        nz(x, 1 - e)
        p1 = point(x, cv, P, F, how, 'z1')
        if via == 'sub':
            p2 = point(x, cv, P, F, how, 'z2')
        elif via == 'neg':
            p2 = pt_new(x, cv)
            x.call('mpECP_neg', p2, p1)
        else:
            p2 = point(x, cv, (-P[0], P[1]), F, how, 'z2')
        r, other = result(x, cv, p1, p2, alias, kind)
        x.call('mpECP_sub' if via == 'sub' else 'mpECP_add', r, p1, p2)
        expect_affine(x, r, const(x, 0), c if kind == 'ed' else const(x, 1), 'sum with the inverse')
        n = pt_neutral(x, cv)
        x.check(bv(ci(x, 'mpECP_cmp', r, n), 32) == 0, 'sum with the inverse does not compare equal to the neutral element')
        after(x, r, cv, other, 'sum with the inverse')
        x.reach()
    return h


def neutral(kind, which, op, alias):
    def h(x):
        c, d, P = onecurve(x, kind)
        cv, st = curve(x, kind, (c, d), P)
        F = fieldptr(x)
        N = (const(x, 0), c if kind == 'ed' else const(x, 1))
        p1 = pt_neutral(x, cv) if which in ('left', 'both') else point(x, cv, P, F, 'proj', 'z1')
        p2 = pt_neutral(x, cv) if which in ('right', 'both') else point(x, cv, P, F, 'proj', 'z2')
        r, other = result(x, cv, p1, p2, alias, kind)
        if op == 'double':
            x.call('mpECP_double', r, p1)
        else:
            x.call('mpECP_add', r, p1, p2)
        R = N if which == 'both' or op == 'double' else P
        expect_affine(x, r, R[0], R[1], op)
        after(x, r, cv, other, op)
        for t, V in ((p1, N if which in ('left', 'both') else P), (p2, N if which in ('right', 'both') else P)):
            if t is not r:
                expect_affine(x, t, V[0], V[1], op + ': operand')
        x.reach()
    return h


def ed_tasks(kind):
    out = []

    def T(name, fn):
        out.append(Task(name, fn, stubs=STUBS, gmp=lambda: gmpsym.Kernel(64), candidates=seeds(30), cfg={'check_ms': 20000}))
    for how in ('affine', 'proj'):
        for al in ('new', 'r=p', 'r=q', 'q=p', 'all', 'other'):
            T('add/%s/%s' % (how, al), harness(kind, 'add', how, al))
        for al in ('new', 'r=p', 'other'):
            T('double/%s/%s' % (how, al), harness(kind, 'double', how, al))
        for al in ('new', 'r=p', 'r=q'):
            for via in ('coords', 'neg', 'sub'):
                T('inverse/%s/%s/%s' % (via, how, al), inverse(kind, al, how, via))
    for al in ('new', 'r=p', 'r=q', 'other'):
        for w in ('left', 'right', 'both'):
            T('add/neutral-%s/%s' % (w, al), neutral(kind, w, 'add', al))
    for al in ('new', 'r=p'):
        T('double/neutral/%s' % al, neutral(kind, 'left', 'double', al))
    return out
