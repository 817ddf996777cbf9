"""Curves and points of the Go package."""
from hgo import *
from htiny import *

CTOR = {'ws': 'ShortWeierstrassCurve', 'ed': 'EdwardsCurve', 'mo': 'MontgomeryCurve', 'te': 'TwistedEdwardsCurve'}
ATTR = {'ws': ('ws_a', 'ws_b'), 'ed': ('ed_c', 'ed_d'), 'mo': ('mo_B', 'mo_A'), 'te': ('te_a', 'te_d')}
TYPE = {'ws': 2, 'ed': 3, 'mo': 4, 'te': 5}


def params(c):
    return [c['p'], c['a'], c['b'], c['n'], c['h'], c['G'][0], c['G'][1]]


def cptr(p):
    """the C object behind a Go object"""
    return next(v for v in p.c.v if isinstance(v, Ptr))


def gocurve(x, g, name):
    c = table(name)
    CV = g.call(CTOR[c['kind']], *[g.big(v) for v in params(c)], c['p'].bit_length())
    x.check(z3.BoolVal(not g.panicked(CV) and not g.isnil(CV)), 'curve refused')
    if not x.native and 'dl' not in x.ctx:
        cv = cptr(CV)
        x.ctx['dl_off'] = True
        rows = []
        for P in c['T']:
            t = pnew(x, cv)
            if P is None:
                x.call('mpECP_set_neutral', t, cv)
            else:
                x.call('mpECP_set_mpz', t, mpz(x, P[0]), mpz(x, P[1]), cv)
            rows.append([x.ld(x.ld(x.padd(t, o), 8, 8), 0, 8) for o in (0, 24, 48)] + [x.ld(t, 72, 4)])
        x.ctx['dl'] = dict(n=c['n'], rows=rows, W=c['n'].bit_length(), memo={})
        x.ctx['dl_off'] = False
    return c, CV


def gopoint(x, g, c, CV, i):
    if x.native or isinstance(i, int):
        P = c['T'][i if isinstance(i, int) else simp(i)]
        return g.call('NewPointNeutral', CV) if P is None else g.call('NewPointXY', g.big(P[0]), g.big(P[1]), CV)
    o = g.call('NewPointNeutral', CV)
    dl_put(x, cptr(o), i, cptr(CV))
    return o


def logarithm(x, name, n):
    k = x.sym(name, n.bit_length())
    x.assume(z3.ULT(k, n))
    return k


def same_point(x, g, R, c, CV, i, what):
    x.check(z3.BoolVal(not g.panicked(R) and not g.isnil(R)), what + ': no result')
    if g.panicked(R) or g.isnil(R):
        return
    if x.native:
        E = gopoint(x, g, c, CV, i)
        x.check(z3.BoolVal(g.int(g.method(R, 'Cmp', E)) == 0), what + ': wrong point')
    else:
        W = c['n'].bit_length() + 1
        x.check(bv(dl_get(x, cptr(R)), W) == bv(i, W), what + ': wrong point')


def conc(v):
    return [b if isinstance(b, int) else simp(b) for b in v]


def use(x, g, R):
    """touch everything the point refers to"""
    b, u = g.data(g.method(R, 'BytesCompressed')), g.data(g.method(R, 'BytesUncompressed'))
    s, t = g.text(g.method(R, 'StringCompressed')), g.text(g.method(R, 'StringUncompressed'))
    x.check(z3.BoolVal(len(s) == 2 * len(b) and len(t) == 2 * len(u)), 'text and bytes of a result differ')
    g.method(R, 'IsNeutral')
    S = g.method(R, 'Add', R, R)
    x.check(z3.BoolVal(not g.panicked(S) and not g.isnil(S)), 'a result cannot be used')


def st_mul(ex, a):
    """multiplication by any integer: C17"""
    if ex.ctx.get('dl_off', True):
        return real(ex, 'mpECP_scalar_mul_mpz', a)
    D = ex.ctx['dl']
    neg, v = gmpsym.zread(ex, a[2])
    n = D['n']
    w = max(gmpsym.width(v), D['W'] + 1)
    k = bv(gmpsym.K(ex).mod(ex, v, n), 2 * D['W'] + 2)
    k = z3.If(z3.And(boolz(neg), k != 0), n - k, k)
    P = bv(dl_get(ex, a[1]), 2 * D['W'] + 2)
    cv = ex.load(ex.padd(a[1], 80), 8)
    drop(ex, a[0])
    dl_put(ex, a[0], dmod(D, simp(P * k)), cv)


GOSTUBS = dict(DLSTUBS, mpECP_scalar_mul_mpz=st_mul, mpECP_scalar_base_mul_mpz=st_mul)


def gpt(name, fn, real=False, **kw):
    st = {} if real else dict(GOSTUBS)
    st.update(kw.pop('stubs', {}))
    kw.setdefault('gmp', lambda: gmpsym.Kernel(64))
    cfg = {'max_steps': 8000000}
    cfg.update(kw.pop('cfg', {}))
    return gotask(name, fn, stubs=st, cfg=cfg, **kw)
