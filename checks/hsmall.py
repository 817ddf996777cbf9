"""Exact small fields: everything runs as real code on bit-level values, so every point and every byte is covered."""
from hfield import *

# (kind, p, a, b, G): nonsingular, G on the curve; the order does not matter for these checks
TINY = {
    'ws31': ('ws', 31, 16, 7, (10, 12)), 'ws251': ('ws', 251, 186, 90, (93, 67)), 'ws29': ('ws', 29, 4, 20, (1, 5)), 'ws23': ('ws', 23, 1, 0, (9, 5)),
    'ed31': ('ed', 31, 3, 11, None), 'mo31': ('mo', 31, 3, 6, None), 'te31': ('te', 31, 4, 11, None),
    'mo11': ('mo', 11, 3, 6, None), 'mo13': ('mo', 13, 5, 6, None), 'ed11': ('ed', 11, 3, 7, None), 'te11': ('te', 11, 3, 7, None), 'te13': ('te', 13, 4, 5, None), 'ws11': ('ws', 11, 5, 7, None), 'ws13': ('ws', 13, 4, 5, None),
    'ed29': ('ed', 29, 3, 11, None), 'mo29': ('mo', 29, 2, 5, None), 'te29': ('te', 29, 4, 11, None),
    'ws257': ('ws', 257, 3, 11, None), 'ws263': ('ws', 263, 3, 11, None), 'ed263': ('ed', 263, 2, 5, None), 'mo263': ('mo', 263, 5, 6, None), 'te263': ('te', 263, 4, 5, None),
}


def eqn(kind, p, a, b, x, y):
    """both sides of the curve equation for ints"""
    if kind == 'ws':
        return (y * y - x**3 - a * x - b) % p
    if kind == 'mo':
        return (a * y * y - x**3 - b * x * x - x) % p
    if kind == 'ed':
        return (x * x + y * y - a * a * (1 + b * x * x * y * y)) % p
    return (a * x * x + y * y - 1 - b * x * x * y * y) % p


def points(name):
    kind, p, a, b, G = TINY[name]
    return [(x, y) for x in range(p) for y in range(p) if eqn(kind, p, a, b, x, y) == 0]


_cache = {}


def tiny(name):
    if name not in _cache:
        kind, p, a, b, G = TINY[name]
        pts = points(name)
        G = G or next(q for q in pts if q[0] > 1 and q[1] > 1)
        assert G in pts, name
        _cache[name] = (kind, p, a, b, G, set(pts))
    return _cache[name]


def oncurve_term(name, x, y):
    """condition (over bit-vectors or ints) that (x, y) are the canonical coordinates of a point"""
    kind, p, a, b, G, pts = tiny(name)
    w = max(v.size() for v in (x, y))
    by = {}
    for u, v in sorted(pts):
        by.setdefault(u, []).append(v)
    return z3.Or(*[z3.And(x == u, z3.Or(*[y == v for v in vs])) for u, vs in by.items()])


def tcurve(x, name, n=None, h=1, bits=None):
    kind, p, a, b, G, pts = tiny(name)
    cv = x.alloc(512, 'curve')
    x.call('mpECurve_init', cv)
    st = ci(x, 'mpECurve_set_mpz_' + kind, cv, mpz(x, p), mpz(x, a), mpz(x, b), mpz(x, n or 37), mpz(x, h), mpz(x, G[0]), mpz(x, G[1]), bits or p.bit_length())
    x.check(bv(st, 32) == 0, 'curve refused')
    return cv


def pnew(x, cv):
    t = x.alloc(128, 'point')
    x.call('mpECP_init', t, cv)
    return t


def affine(x, t, bits=64):
    out = []
    for f in ('mpz_set_mpECP_affine_x', 'mpz_set_mpECP_affine_y'):
        z = mpz(x, 0)
        x.call(f, z, t)
        n, v = zval(x, z)
        x.check(z3.BoolVal(n is False or n == 0), 'negative coordinate')
        out.append(bv(v, bits))
    return out


def bigend(bs):
    return z3.Concat(*[bv(b, 8) for b in bs]) if len(bs) > 1 else bv(bs[0], 8)
