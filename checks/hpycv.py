"""Curves and points of the Python binding."""
from hpy import *
from htiny import *

CTOR = {'ws': 'ShortWeierstrass', 'ed': 'Edwards', 'mo': 'Montgomery', 'te': 'TwistedEdwards'}


def params(c):
    return [c['p'], c['a'], c['b'], c['n'], c['h'], c['G'][0], c['G'][1], c['p'].bit_length()]


def pycurve(x, py, name):
    c = table(name)
    CV = py.method('ECurve', CTOR[c['kind']], *[py.int(v) for v in params(c)])
    x.check(z3.BoolVal(not exc(CV)), 'curve refused')
    if not x.native and 'dl' not in x.ctx:
        cv = x.padd(CV, 16)
        x.ctx['dl_off'] = True
        rows = []
        for P in c['T']:
            t = pnew(x, cv)
            if P is None:
                x.call('mpECP_set_neutral', t, cv)
            else:
                x.call('mpECP_set_mpz', t, mpz(x, P[0]), mpz(x, P[1]), cv)
            rows.append([x.ld(x.ld(x.padd(t, o), 8, 8), 0, 8) for o in (0, 24, 48)] + [x.ld(t, 72, 4)])
        x.ctx['dl'] = dict(n=c['n'], rows=rows, W=c['n'].bit_length(), memo={})
        x.ctx['dl_off'] = False
    return c, CV


def pypoint(x, py, c, CV, i):
    """the point i*G as a Python object"""
    if x.native or isinstance(i, int):
        P = c['T'][i if isinstance(i, int) else simp(i)]
        return py.new('ECPoint', CV) if P is None else py.new('ECPoint', CV, py.tuple([py.int(P[0]), py.int(P[1])]))
    o = py.new('ECPoint', CV)
    dl_put(x, x.padd(o, 16), i, x.padd(CV, 16))
    return o


def logarithm(x, name, n):
    k = x.sym(name, n.bit_length())
    x.assume(z3.ULT(k, n))
    return k


def same_point(x, py, R, c, CV, i, what):
    """R is the point i*G; R is usable"""
    x.check(z3.BoolVal(py.kind(R) == 'ECPoint'), what + ': the result is not a point')
    if py.kind(R) != 'ECPoint':
        return
    if x.native:
        E = pypoint(x, py, c, CV, i)
        x.check(z3.BoolVal(py.is_true(py.cmp('==', R, E))), what + ': wrong point')
    else:
        W = c['n'].bit_length() + 1
        x.check(bv(dl_get(x, x.padd(R, 16)), W) == bv(i, W), what + ': wrong point')


def use(x, py, R):
    """touch everything the point refers to"""
    for r in (py.str_of(R), py.repr(R), py.method(R, 'affine'), py.method(R, 'uncompressed'), py.method(R, 'compressed'), py.cmp('==', R, R)):
        x.check(z3.BoolVal(not exc(r)), 'a result cannot be used')
    s = py.binop('+', R, R)
    d = py.binop('*', s, py.int(2))
    x.check(z3.BoolVal(py.kind(d) == 'ECPoint'), 'a result cannot be used')
    py.decref(d)
    py.decref(s)


def pt(name, fn, real=False, **kw):
    st = {} if real else dict(DLSTUBS)
    st.update(kw.pop('stubs', {}))
    kw.setdefault('gmp', lambda: gmpsym.Kernel(64))
    cfg = {'max_steps': 8000000}
    cfg.update(kw.pop('cfg', {}))
    return pytask(name, fn, stubs=st, cfg=cfg, **kw)
