"""C15 negation and subtraction."""
from hcurves import *

BOUNDS = 'every prime p > 100, every curve of the four types, every point (polynomial parametrisation), every nonzero projective scale; in-place and out-of-place results; ' \
         'P - P, P - neutral, neutral - P, neutral - neutral, (P + Q) - Q for the short Weierstrass and twisted forms, results compared with the published affine law'
OUTSIDE = 'p <= 100; pairs with vanishing denominators of the affine law'
ASSUMES = ['field operations are exact (C01-C05)']


def neg(kind, how, alias, twice):
    def h(x):
        co, P = oncurve(x, kind)
        cv, st = curve(x, kind, co, P)
        t = make(x, cv, P, how)
        r = t if alias else pt_new(x, cv)
        x.call('mpECP_neg', r, t)
        if twice:
            r2 = r if alias else pt_new(x, cv)
            x.call('mpECP_neg', r2, r)
            expect_pt(x, r2, P, 'double negation')
        else:
            expect_pt(x, r, negated(kind, P), 'negation')
        if not alias:
            expect_pt(x, t, P, 'operand of a negation')
        x.check(z3.BoolVal(same(x, pt_curve(x, r), cv)), 'negation: result is on another curve object')
        x.reach()
    return h


def neg0(kind, alias):
    def h(x):
        co, P = oncurve(x, kind)
        cv, st = curve(x, kind, co, P)
        t = pt_neutral(x, cv)
        r = t if alias else affine_point(x, cv, P)
        x.call('mpECP_neg', r, t)
        expect_pt(x, r, neutral_xy(x, kind, co), 'negation of the neutral element')
        x.reach()
    return h


def sub0(kind, l, r_, alias):
    def h(x):
        co, P = oncurve(x, kind)
        cv, st = curve(x, kind, co, P)
        a = pt_neutral(x, cv) if l == '0' else make(x, cv, P, 'scaled', 'z1')
        b = pt_neutral(x, cv) if r_ == '0' else make(x, cv, P, 'scaled', 'z2')
        if kind in ('ed', 'te'):
            e = co[1] * P[0] * P[0] * P[1] * P[1]
            nz(x, 1 + e)
            nz(x, 1 - e)
        r = {'new': None, 'r=p': a, 'r=q': b}[alias] or pt_new(x, cv)
        x.call('mpECP_sub', r, a, b)
        want = neutral_xy(x, kind, co) if (l, r_) in (('0', '0'), ('P', 'P')) else P if r_ == '0' else negated(kind, P)
        expect_pt(x, r, want, 'difference')
        if a is not r:
            expect_pt(x, a, neutral_xy(x, kind, co) if l == '0' else P, 'minuend')
        if b is not r:
            expect_pt(x, b, neutral_xy(x, kind, co) if r_ == '0' else P, 'subtrahend')
        x.reach()
    return h


def subgen(kind, how, alias):
    """P - Q against the affine law applied to P and the negative of Q"""
    import c11, hed

    def h(x):
        if kind == 'ws':
            a, b, P, N, R = c11.CASES['generic'](x)
            co = (a, b)
            Q = (N[0], -N[1])
        else:
            co = (par(x, 'c', True), par(x, 'd', True))
            P = (par(x, 'x1'), hed.ypar(x, kind, 'y1', par(x, 'x1'), *co))
            Q = (par(x, 'x2'), hed.ypar(x, kind, 'y2', par(x, 'x2'), *co))
            e = co[1] * P[0] * Q[0] * P[1] * Q[1]
            nz(x, 1 + e)
            nz(x, 1 - e)
            R = hed.law(kind, co[0], co[1], P, (-Q[0], Q[1]))
        cv, st = curve(x, kind, co, P)
        p = make(x, cv, P, how, 'z1')
        q = make(x, cv, Q, how, 'z2')
        r = {'new': None, 'r=p': p, 'r=q': q}[alias] or pt_new(x, cv)
        x.call('mpECP_sub', r, p, q)
        expect_affine(x, r, R[0], R[1], 'difference')
        if q is not r:
            expect_affine(x, q, Q[0], Q[1], 'subtrahend')
        if p is not r:
            expect_affine(x, p, P[0], P[1], 'minuend')
        x.reach()
    return h


def tasks(tier):
    out = []
    for k in KINDS:
        for how in ('affine', 'scaled'):
            for al in (0, 1):
                out.append(task('neg/%s/%s/%d' % (k, how, al), neg(k, how, al, 0)))
                out.append(task('neg-neg/%s/%s/%d' % (k, how, al), neg(k, how, al, 1)))
        for al in (0, 1):
            out.append(task('neg-neutral/%s/%d' % (k, al), neg0(k, al)))
        for l, r in (('0', '0'), ('0', 'P'), ('P', '0'), ('P', 'P')):
            for al in ('new', 'r=p', 'r=q'):
                out.append(task('sub/%s/%s-%s/%s' % (k, l, r, al), sub0(k, l, r, al)))
    for k in ('ws', 'ed', 'te'):
        for how in ('affine', 'scaled'):
            for al in ('new', 'r=p', 'r=q'):
                out.append(task('sub/%s/general/%s/%s' % (k, how, al), subgen(k, how, al)))
    return out
