"""C10 coordinates go in and come out unchanged, for every equation type and every projective scaling."""
from hcurves import *

BOUNDS = 'every prime p > 100, every coefficients, every coordinate pair (on the curve or not), every nonzero projective scale; the four equation types; integer and field-element interfaces; ' \
         'reading either coordinate first, reading twice, copies'
OUTSIDE = 'p <= 100; integers outside [0,p) at the interface (their reduction is C03)'
ASSUMES = ['field operations are exact (C01-C05)']


def harness(kind, how, inapi, outapi, off):
    def h(x):
        co, P = oncurve(x, kind)
        cv, st = curve(x, kind, co, P)
        if off:
            P = (par(x, 'ox'), par(x, 'oy'))
        F = fieldptr(x)
        if inapi == 'mpz':
            t = make(x, cv, P, how)
        else:
            ex_, ey = fp_new(x, F), fp_new(x, F)
            fp_put(x, ex_, P[0], F)
            fp_put(x, ey, P[1], F)
            t = pt_new(x, cv)
            x.call('mpECP_set_mpFp', t, ex_, ey, cv)
            eqv(x, fp_of(x, ex_), P[0], 'set: the x argument was changed')
            eqv(x, fp_of(x, ey), P[1], 'set: the y argument was changed')
        u = pt_new(x, cv)
        x.call('mpECP_set', u, t)
        expect_pt(x, t, P, 'coordinates', outapi)
        expect_pt(x, t, P, 'coordinates read again', 'mpz')
        # y alone from the copy, then x
        z = mpzv(x, const(x, 0))
        x.call('mpz_set_mpECP_affine_y', z, u)
        eqv(x, mpz_val(x, z), P[1], 'y read first')
        x.call('mpz_set_mpECP_affine_x', z, u)
        eqv(x, mpz_val(x, z), P[0], 'x read second')
        x.check(z3.BoolVal(same(x, pt_curve(x, u), cv) and same(x, pt_curve(x, t), cv)), 'the point is on another curve object')
        x.reach()
    return h


def neutral(kind, prev):
    def h(x):
        co, P = oncurve(x, kind)
        cv, st = curve(x, kind, co, P)
        t = affine_point(x, cv, P) if prev else pt_new(x, cv)
        x.call('mpECP_set_neutral', t, cv)
        expect_pt(x, t, neutral_xy(x, kind, co), 'neutral element')
        u = affine_point(x, cv, P)
        x.call('mpECP_set', u, t)
        expect_pt(x, u, neutral_xy(x, kind, co), 'copy of the neutral element')
        x.call('mpECP_set_mpz', u, mpzv(x, P[0]), mpzv(x, P[1]), cv)
        expect_pt(x, u, P, 'point set over the neutral element')
        x.reach()
    return h


def tasks(tier):
    out = []
    for k in KINDS:
        for off in (0, 1):
            for how, i, o in (('affine', 'mpz', 'mpz'), ('affine', 'fp', 'fp'), ('scaled', 'mpz', 'fp'), ('scaled', 'mpz', 'mpz')):
                out.append(task('%s/%s-%s-%s/%s' % (k, how, i, o, 'any' if off else 'on-curve'), harness(k, how, i, o, off)))
        for pv in (0, 1):
            out.append(task('%s/neutral/%s' % (k, 'over' if pv else 'new'), neutral(k, pv)))
    return out
