"""C19 points as values: copy, conditional and unconditional swap, neutral assignment."""
from hfield import *
import c17

BOUNDS = 'every pair of points (any reduced projective coordinates, each neutral or not) of curves over fields of 2 to 9 limbs of the four types; every 32-bit selector of the conditional swap, one or two swaps in a row; ' \
         'a point swapped with itself; copies into a fresh point, into itself, into a point of another curve of smaller or larger field, into a neutral point; points of separately built equal curves'
OUTSIDE = 'points with multiplication tables, which is C18; limb counts not listed'
ASSUMES = ['GMP functions behave as documented']
CV = {'secp112r1': 2, 'secp192k1': 3, 'secp256k1': 4, 'Curve25519': 4, 'Ed25519': 4, 'E-382': 6, 'E-521': 9, 'M-511': 8, 'secp521r1': 9}
PT = 104


def curve(x, name):
    cv = x.alloc(512, 'curve')
    x.call('mpECurve_init', cv)
    st = ci(x, 'mpECurve_set_named', cv, mkstr(x, name))
    x.check(bv(st, 32) == 0, 'curve refused')
    return cv


def new(x, cv):
    t = x.alloc(PT, 'point')
    x.call('mpECP_init', t, cv)
    return t


def value(x, name, n, p):
    vs = []
    for c in 'XYZ':
        v = x.sym(name + c, 64 * n)
        x.assume(z3.ULT(v, bv(p, 64 * n)))
        if c == 'Z':
            x.assume(v != 0)
        vs.append(v)
    f = x.sym(name + 'neutral', 1)
    return vs, f


def put(x, cv, name, n, p):
    """a point with arbitrary coordinates: neutral or not"""
    vs, f = value(x, name, n, p)
    t = new(x, cv)
    x.call('mpECP_set_mpz', t, x.ctx['gx'], x.ctx['gy'], cv)
    for o, v in zip((0, 24, 48), vs):
        fp_set(x, x.padd(t, o), v, n)
    x.st(t, 72, 4, z3.ZeroExt(31, f))
    return t, (vs, f)


def gxy(x, name):
    c = c17.TABLE[name]
    x.ctx['gx'], x.ctx['gy'] = mpz(x, c['gx']), mpz(x, c['gy'])
    return c['p']


def read(x, t, n):
    vs = []
    for o in (0, 24, 48):
        x.check(bv(x.ld(t, o + 4, 4), 32) == n, 'coordinate not padded to the field size')
        vs.append(bv(fp_val(x, x.padd(t, o), n), 64 * n))
    f = x.ld(t, 72, 4)
    if isinstance(f, Undef):
        x.fail('neutral flag undefined')
        raise PathEnd('flag')
    return vs, bv(f, 32) != 0


def same(x, t, n, want, what, cond=None):
    vs, f = read(x, t, n)
    (ws, g) = want
    g = g if z3.is_bool(g) else g == 1
    ok = z3.And(f == g, z3.Implies(z3.Not(g), z3.And(*[a == b for a, b in zip(vs, ws)])))
    x.check(ok if cond is None else z3.Implies(cond, ok), what)


def curveok(x, t, cv, what):
    c = x.ld(t, 80, 8)
    x.check(bv(ci(x, 'mpECurve_cmp', c, cv), 32) == 0, what + ': the point is on another curve')
    F = x.ld(cv, 8, 8)
    for o in (0, 24, 48):
        G = x.ld(t, o + 16, 8)
        x.check(z3.BoolVal(G == F if x.native else isinstance(G, Ptr) and G.o is F.o and G.off == F.off), what + ': coordinate of another field')


def swaps(name, kind, rounds, other):
    def h(x):
        n, p = CV[name], gxy(x, name)
        cv = curve(x, name)
        cv2 = curve(x, name) if other else cv
        A, a = put(x, cv, 'a', n, p)
        B, b = (A, a) if kind == 'self' else put(x, cv2, 'b', n, p)
        odd = z3.BoolVal(False)
        for i in range(rounds):
            if kind == 'swap':
                x.call('mpECP_swap', A, B)
                odd = z3.Not(odd)
            else:
                s = x.sym('s%d' % i, 32)
                x.call('mpECP_cswap', A, B, s)
                odd = z3.Xor(odd, s != 0)
        if kind == 'self':
            same(x, A, n, a, 'swap of a point with itself changed it')
        else:
            same(x, A, n, b, 'swap: first point has not got the value of the second', odd)
            same(x, B, n, a, 'swap: second point has not got the value of the first', odd)
            same(x, A, n, a, 'no swap: first point changed', z3.Not(odd))
            same(x, B, n, b, 'no swap: second point changed', z3.Not(odd))
        curveok(x, A, cv, 'swap')
        curveok(x, B, cv2, 'swap')
        # later work on one must not reach the other
        if kind != 'self':
            x.call('mpECP_set_neutral', B, cv)
            same(x, A, n, b, 'swap: the points share storage', odd)
        x.call('mpECP_clear', A)
        if kind != 'self':
            x.call('mpECP_clear', B)
        x.reach()
    return h


def copies(name, dst, other=None):
    def h(x):
        n, p = CV[name], gxy(x, name)
        cv = curve(x, name)
        A, a = put(x, cv, 'a', n, p)
        if dst == 'self':
            B = A
        elif dst == 'fresh':
            B = new(x, cv)
        elif dst == 'point':
            B, _ = put(x, cv, 'b', n, p)
        else:
            c2 = curve(x, other)
            q = gxy(x, other)
            B, _ = put(x, c2, 'b', CV[other], q)
        x.call('mpECP_set', B, A)
        same(x, B, n, a, 'copy: other value')
        same(x, A, n, a, 'copy: the original changed')
        curveok(x, B, cv, 'copy')
        if dst != 'self':
            x.call('mpECP_set_mpz', B, x.ctx['gx'], x.ctx['gy'], cv)
            same(x, A, n, a, 'copy: changing the copy changes the original')
            x.call('mpECP_set', B, A)
            x.call('mpECP_set_neutral', A, cv)
            same(x, B, n, a, 'copy: changing the original changes the copy')
            x.call('mpECP_clear', A)
            same(x, B, n, a, 'copy: clearing the original changes the copy')
            curveok(x, B, cv, 'copy')
        x.call('mpECP_clear', B)
        x.reach()
    return h


def tasks(tier):
    out = []
    q = tier == 'quick'
    names = ('secp112r1', 'secp256k1', 'Curve25519', 'Ed25519', 'E-521') if q else tuple(CV)
    G = lambda: gmpsym.Kernel(64 * 20)
    for nm in names:
        for kind, r, o in (('cswap', 1, 0), ('cswap', 2, 1), ('swap', 1, 0), ('swap', 1, 1), ('swap', 2, 0), ('self', 1, 0)) if q else (('cswap', 1, 0), ('cswap', 2, 1), ('cswap', 3, 0), ('swap', 1, 0), ('swap', 1, 1), ('swap', 2, 0), ('swap', 3, 1), ('self', 1, 0), ('self', 2, 0)):
            out.append(Task('%s/%s%d%s' % (nm, kind, r, '/twin' if o else ''), swaps(nm, kind, r, o), gmp=G))
        for d in ('self', 'fresh', 'point'):
            out.append(Task('%s/copy/%s' % (nm, d), copies(nm, d), gmp=G))
        for o in ('secp112r1', 'E-521', 'Curve25519') if q else names:
            if o != nm:
                out.append(Task('%s/copy/from-%s' % (nm, o), copies(nm, 'other', o), gmp=G))
    return out
