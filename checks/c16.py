"""C16 point comparison is equality of curve points."""
from hcurves import *

BOUNDS = 'every prime p > 100, every curve of the four types, every pair of coordinates and projective scales: equal points, points differing in x, in y, or in both, ' \
         'neutral operands, points on separately built copies of a curve, points on different curves'
OUTSIDE = 'p <= 100'
ASSUMES = ['field operations are exact (C01-C05)']


def cmp(kind, rel, h1, h2, curves):
    def h(x):
        co, P = oncurve(x, kind)
        cv, st = curve(x, kind, co, P)
        cv2 = cv
        if curves == 'copy':
            cv2, st = curve(x, kind, co, P)
        elif curves == 'mpECurve_set':
            cv2 = x.alloc(sizeof_curve(x), 'curve')
            x.call('mpECurve_init', cv2)
            x.call('mpECurve_set', cv2, cv)
        Q = P
        if rel != 'eq':
            d, e = par(x, 'dx', True), par(x, 'dy', True)
            Q = {'x': (P[0] + d, P[1]), 'y': (P[0], P[1] + e), 'xy': (P[0] + d, P[1] + e), 'swap': (P[1], P[0])}[rel]
            if rel == 'swap':
                nz(x, P[0] - P[1])
        a = make(x, cv, P, h1, 'z1')
        b = make(x, cv2, Q, h2, 'z2')
        for u, v in ((a, b), (b, a)):
            r = ci(x, 'mpECP_cmp', u, v)
            if rel == 'eq':
                x.check(bv(r, 32) == 0, 'equal points compare different')
            else:
                x.check(bv(r, 32) != 0, 'different points compare equal')
        x.check(bv(ci(x, 'mpECP_cmp', a, a), 32) == 0, 'a point compares different from itself')
        expect_pt(x, a, P, 'first operand of a comparison')
        expect_pt(x, b, Q, 'second operand of a comparison')
        x.reach()
    return h


def neu(kind, how):
    def h(x):
        co, P = oncurve(x, kind)
        cv, st = curve(x, kind, co, P)
        a, n, n2 = make(x, cv, P, how), pt_neutral(x, cv), pt_neutral(x, cv)
        for u, v in ((a, n), (n, a)):
            x.check(bv(ci(x, 'mpECP_cmp', u, v), 32) != 0, 'a finite point compares equal to the neutral element')
        for u, v in ((n, n2), (n, n)):
            x.check(bv(ci(x, 'mpECP_cmp', u, v), 32) == 0, 'neutral elements compare different')
        x.reach()
    return h


def othercurve(kind, k2):
    def h(x):
        co, P = oncurve(x, kind)
        cv, st = curve(x, kind, co, P)
        if k2 == kind:
            e = par(x, 'e', True)
            co2 = (co[0], co[1] + e)
            cv2, st = curve(x, kind, co2, P)
        else:
            co2, P2 = oncurve(x, k2, "'")
            cv2, st = curve(x, k2, co2, P2)
        for a, b in ((make(x, cv, P, 'affine'), make(x, cv2, P, 'affine')), (pt_neutral(x, cv), pt_neutral(x, cv2))):
            x.check(bv(ci(x, 'mpECP_cmp', a, b), 32) != 0, 'points of different curves compare equal')
            x.check(bv(ci(x, 'mpECP_cmp', b, a), 32) != 0, 'points of different curves compare equal')
        x.reach()
    return h


def tasks(tier):
    out = []
    for k in KINDS:
        for rel in ('eq', 'x', 'y', 'xy', 'swap'):
            for h1, h2 in (('affine', 'affine'), ('scaled', 'affine'), ('scaled', 'scaled')):
                out.append(task('%s/%s/%s-%s' % (k, rel, h1, h2), cmp(k, rel, h1, h2, 'same')))
        for c in ('copy', 'mpECurve_set'):
            for rel in ('eq', 'xy'):
                out.append(task('%s/%s/%s' % (k, rel, c), cmp(k, rel, 'scaled', 'affine', c)))
        for how in ('affine', 'scaled'):
            out.append(task('%s/neutral/%s' % (k, how), neu(k, how)))
        for k2 in KINDS:
            out.append(task('%s/other-curve/%s' % (k, k2), othercurve(k, k2)))
    return out
