"""C08 curve comparison is equality of every parameter; copies are independent of their source."""
from hcurves import *
from c07 import holds, equation

BOUNDS = 'every prime p > 100, every coefficients and base point, the four equation types; comparison of a curve with itself, an equal curve built separately, a copy, ' \
         'and curves differing in exactly one of: type, field, first or second coefficient, order, cofactor (both arbitrary numbers of the listed lengths to 521 bits), base point x or y; copies over fresh and used objects, with the source changed or cleared afterwards'
OUTSIDE = 'p <= 100; curves differing only in the bits member, which comparison ignores'
ASSUMES = ['field operations are exact (C01-C05)']

DIFF = ('c1', 'c2', 'n', 'h', 'gx', 'gy', 'p')


def other(x, kind, co, P, what):
    """a curve that differs in one parameter"""
    n, h, p = 2**61 - 1, 5, None
    d = par(x, 'delta', True)
    co, P = list(co), list(P)
    if what == 'c1':
        co[0] = co[0] + d
    elif what == 'c2':
        co[1] = co[1] + d
    elif what == 'n':
        n = 2**61 + 3
    elif what == 'h':
        h = 6
    elif what == 'gx':
        P[0] = P[0] + d
    elif what == 'gy':
        P[1] = P[1] + d
    elif what == 'p':
        p = NATIVE_P[(x.wit.get('seed', 0) + 1) % len(NATIVE_P)] if x.native else 2**256 - 2**32 - 977
    return curve(x, kind, tuple(co), tuple(P), n, h, p=p)[0]


def eq(x, a, b, same_, what):
    for u, v in ((a, b), (b, a)):
        r = bv(ci(x, 'mpECurve_cmp', u, v), 32)
        x.check(r == 0 if same_ else r != 0, what)


def differ(kind, what):
    def h(x):
        co, P = oncurve(x, kind)
        if what == 'c1' and kind == 'mo':
            nz(x, co[0] + par(x, 'delta'))
        cv, st = curve(x, kind, co, P, 2**61 - 1, 5)
        o = other(x, kind, co, P, what)
        eq(x, cv, o, False, 'curves that differ in %s compare equal' % what)
        eq(x, cv, cv, True, 'a curve differs from itself')
        x.reach()
    return h


def numbers(kind, which, b1, b2):
    """order or cofactor: any two numbers of those lengths; equal exactly when the numbers are"""
    def h(x):
        co, P = oncurve(x, kind)
        vs = []
        for i, b in enumerate((b1, b2)):
            v = x.sym('v%d' % i, b) if b else 0
            if b:
                x.assume(z3.Extract(b - 1, b - 1, v) == 1)
            vs.append(v)
        w = max(b1, b2, 1)
        same = bv(vs[0], w) == bv(vs[1], w)
        a, b = (curve(x, kind, co, P, *((v, 5) if which == 'n' else (2**61 - 1, v)))[0] for v in vs)
        for u, v in ((a, b), (b, a)):
            r = bv(ci(x, 'mpECurve_cmp', u, v), 32)
            if x.branch(r == 0):
                x.check(same, 'curves that differ in %s compare equal' % which)
            else:
                x.check(z3.Not(same), 'equal curves compare different')
        x.reach()
    return h


def types(k1, k2):
    def h(x):
        co, P = oncurve(x, k1)
        a, st = curve(x, k1, co, P)
        b, st = curve(x, k2, co, P)
        eq(x, a, b, False, 'curves of different equation types compare equal')
        x.reach()
    return h


def equal(kind, how):
    def h(x):
        co, P = oncurve(x, kind)
        a, st = curve(x, kind, co, P, 97, 5, 200)
        if how == 'built':
            b, st = curve(x, kind, co, P, 97, 5, 200)
        else:
            b = x.alloc(sizeof_curve(x), 'curve')
            x.call('mpECurve_init', b)
            if how != 'copy':
                c0, P0 = oncurve(x, how, "'")
                curve(x, how, c0, P0, 11, 1, 9, cv=b)
            x.call('mpECurve_set', b, a)
            holds(x, b, kind, co, P, 97, 5, 200)
        eq(x, a, b, True, 'equal curves compare different')
        holds(x, a, kind, co, P, 97, 5, 200)
        x.reach()
    return h


def independent(kind, how):
    def h(x):
        co, P = oncurve(x, kind)
        a, st = curve(x, kind, co, P, 97, 5, 200)
        b = x.alloc(sizeof_curve(x), 'curve')
        x.call('mpECurve_init', b)
        x.call('mpECurve_set', b, a)
        if how == 'clear':
            x.call('mpECurve_clear', a)
        elif how == 'self':
            x.call('mpECurve_set', b, b)
        else:
            c0, P0 = oncurve(x, how, "'")
            curve(x, how, c0, P0, 11, 1, 9, cv=a)
        holds(x, b, kind, co, P, 97, 5, 200)
        # points stay usable on the copy
        t = affine_point(x, b, P)
        expect_pt(x, t, P, 'point on the copy')
        x.reach()
    return h


def tasks(tier):
    out = []
    for k in KINDS:
        for d in DIFF:
            out.append(task('%s/differs-in-%s' % (k, d), differ(k, d)))
        for w in 'nh':
            for b1, b2 in ((1, 1), (1, 3), (3, 3), (64, 64), (1, 65), (130, 130)) + ((521, 521), (2, 521), (63, 64), (512, 513)) * (tier == 'thorough' or k == 'ws') + ((0, 1),) * (w == 'h'):
                out.append(task('%s/%s/%d,%d' % (k, w, b1, b2), numbers(k, w, b1, b2)))
        for k2 in KINDS:
            if k2 > k:
                out.append(task('%s-%s' % (k, k2), types(k, k2)))
        for how in ('built', 'copy') + KINDS:
            out.append(task('%s/equal/%s' % (k, how), equal(k, how)))
        for how in ('clear', 'self') + KINDS:
            out.append(task('%s/independent/%s' % (k, how), independent(k, how)))
    return out
