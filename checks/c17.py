"""C17 scalar multiplication computes the exact multiple."""
import json, os
from hgroup import *

BOUNDS = 'every scalar in [0, n) for orders n of 8 to 521 bits, including orders longer than the field (n > p); every point, on every curve (formal points); all four curve types; ' \
         'neutral operand, result aliasing the operand, result holding an unrelated point; the integer variants with arguments outside [0, n)'
OUTSIDE = 'orders above 521 bits'
ASSUMES = ['point addition and doubling are the group law (C11-C13)', 'conditional swap of field elements and points runs as real code']

TABLE = json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'curves.json')))
SMALL = json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'smallcurves.json')))


def spec(name):
    return SMALL.get(name) or TABLE[name]


# --------------------------------------------------------- independent arithmetic for the native side
class Aff:
    def __init__(s, c):
        s.p, s.a, s.b, s.k = c['p'], c['a'], c['b'], c['kind']

    def O(s):
        return (0, s.a if s.k == 'ed' else 1) if s.k in ('ed', 'te') else None

    def add(s, P, Q):
        p, inv = s.p, lambda t: pow(t, -1, s.p)
        if s.k in ('ed', 'te'):
            a = 1 if s.k == 'ed' else s.a
            d = s.b
            c = s.a if s.k == 'ed' else 1
            e = d * P[0] * Q[0] * P[1] * Q[1] % p
            return (P[0] * Q[1] + P[1] * Q[0]) * inv(c * (1 + e)) % p, (P[1] * Q[1] - a * P[0] * Q[0]) * inv(c * (1 - e)) % p
        if P is None:
            return Q
        if Q is None:
            return P
        A2, B, A1 = (s.b, s.a, 1) if s.k == 'mo' else (0, 1, s.a)
        if P[0] == Q[0]:
            if (P[1] + Q[1]) % p == 0:
                return None
            l = (3 * P[0] * P[0] + 2 * A2 * P[0] + A1) * inv(2 * B * P[1]) % p
        else:
            l = (Q[1] - P[1]) * inv(Q[0] - P[0]) % p
        x = (B * l * l - A2 - P[0] - Q[0]) % p
        return x, (l * (P[0] - x) - P[1]) % p

    def mul(s, k, P):
        R = s.O()
        while k:
            if k & 1:
                R = s.add(R, P)
            P = s.add(P, P)
            k >>= 1
        return R


def expect(x, t, c, P, poly, val, what):
    """t is val times the generator"""
    if not x.native:
        return expect_multiple(x, t, {'G': poly} if poly else {}, what)
    Q = Aff(c).mul(val, P)
    if Q is None:
        return expect_neutral(x, t, what)
    if c['kind'] in ('ws', 'mo') and not x.check(z3.BoolVal(not pt_flag(x, t)), what):
        return
    zx, zy = mpz(x, 0), mpz(x, 0)
    x.call('mpz_set_mpECP_affine_x', zx, t)
    x.call('mpz_set_mpECP_affine_y', zy, t)
    x.check(z3.BoolVal((zval(x, zx)[1], zval(x, zy)[1]) == Q), what)


def setup(x, name):
    """the curve with its order and size; natively the curve itself"""
    c = spec(name)
    if x.native:
        cv = x.alloc(sizeof_curve(x), 'curve')
        x.call('mpECurve_init', cv)
        st = ci(x, 'mpECurve_set_mpz_' + c['kind'], cv, *[mpz(x, c[k]) for k in ('p', 'a', 'b', 'n', 'h', 'gx', 'gy')], c['bits'])
        assert st == 0
        return c, cv, (c['gx'], c['gy'])
    co, P = oncurve(x, c['kind'])
    cv, st = curve(x, c['kind'], co, P, n=c['n'], h=c['h'], bits=c['bits'])
    return c, cv, None


def poly_of(x, v, g='G'):
    """the scalar (a concatenation of bits and constants) as a combination"""
    return v


def result(x, cv, c, how, g):
    if how == 'r=p':
        return g
    t = pt_new(x, cv)
    if how == 'busy':
        Q = (c['gx'], c['gy']) if x.native else None
        if x.native:
            x.call('mpECP_set_mpz', t, mpz(x, Q[0]), mpz(x, Q[1]), cv)
        else:
            pwrite(x, t, {('H', frozenset()): 1}, cv)
    elif how == 'set':
        if not x.native:
            x.ctx['group'] = True
        x.call('mpECP_set_neutral', t, cv)
    return t


def operand(x, c, cv, P, how):
    if how == 'neutral':
        if not x.native:
            x.ctx['group'] = True
        return pt_neutral(x, cv)
    g = gen(x, cv, 'G', P)
    if how == 'scaled' and x.native:
        x.call('mpECP_double', g, g)          # a representation with z != 1 of another multiple
    return g


def mul(name, fn, how='new', op='G', rng='in', limbs_=None):
    """fn: the multiplication under test; rng: scalar range for the integer variants"""
    def h(x):
        c, cv, P = setup(x, name)
        n, L = c['n'], c['n'].bit_length()
        bs, v = scalar(x, 'k', L, n, limbs_)
        g = operand(x, c, cv, P, op)
        r = result(x, cv, c, how, g)
        if fn.endswith('_mpz'):
            sc = outside(x, v, n, L, rng)
        else:
            sc = sfield(x, v, L, n)
        x.call(fn, r, g, sc)
        want = {} if x.native or op == 'neutral' else bitsum(bs, 'G')
        val = 0 if op == 'neutral' else simp(v) if x.native else None
        expect(x, r, c, P, want, val, 'result is not the multiple')
        if r is not g:
            expect(x, g, c, P, {} if x.native or op == 'neutral' else {('G', frozenset()): 1}, 0 if op == 'neutral' else 1, 'operand of the multiplication changed')
        if not fn.endswith('_mpz'):
            d = x.ld(sc, 8, 8)
            k = x.concretize(x.ld(x.ld(sc, 16, 8), 32, 8), 64)
            x.check(bv(limbs(x, d, k), 64 * k) == bv(v, 64 * k), 'scalar changed')
        x.check(z3.BoolVal(same(x, pt_curve(x, r), cv)), 'result is on another curve object')
        x.reach()
    return h


class Shifted(Abs):
    """an integer of which only the residue modulo n and the sign are known"""
    def __init__(self, v, n, k, nlimbs):
        self.v, self.n, self.k, self.nlimbs = v, n, k, nlimbs

    def cmp(self, ex, o):
        if isinstance(o, Abs):
            self._no('comparison')
        W = 64 * self.nlimbs + 8
        x = bv(self.v, W) + z3.BitVecVal(self.k * self.n % (1 << W), W)
        return gmpsym.cmp_term(False, -x if self.k < 0 else x, False, o)

    def mod(self, ex, m):
        if simp(m) != self.n:
            self._no('reduction by something else than n')
        return self.v

    modneg = mod


def outside(x, v, n, L, rng):
    """an integer congruent to v mod n"""
    k = {'in': 0, 'above': 1, 'far': 5, 'neg': -1, 'negfar': -(1 << 70)}[rng]
    if x.native:
        t = simp(v) + k * n
        return mpz(x, abs(t), neg=t < 0)
    if isinstance(v, int):
        return mpz(x, abs(v + k * n), neg=v + k * n < 0)
    return gmpsym.mpz_new(x, Shifted(v, n, k, (abs(k) * n).bit_length() // 64 + 1 if k else (v.size() + 63) // 64), neg=k < 0)


def T(name, fn, **kw):
    return Task(name, fn, stubs=gstubs(), gmp=lambda: gmpsym.Kernel(64), cfg={'check_ms': 30000, 'max_steps': 4000000}, **kw)


SMALLS = ('ws16n17', 'ws8', 'ed16', 'mo16', 'te16')
RNG = ('in', 'above', 'far', 'neg', 'negfar')
HOW = ('new', 'r=p', 'busy', 'set')


def tasks(tier):
    out = []
    big = ['secp160r1', 'secp256k1', 'Curve25519'] if tier == 'quick' else ['secp160k1', 'secp224k1', 'secp256k1', 'secp384r1', 'secp521r1', 'E-521', 'M-511', 'Ed25519', 'Curve25519']
    for s in [b for b in big if b in TABLE]:
        out.append(T('mul/%s' % s, mul(s, 'mpECP_scalar_mul'), weight=9))
    for s in SMALLS:
        for how in HOW:
            out.append(T('mul/%s/%s' % (s, how), mul(s, 'mpECP_scalar_mul', how)))
        out.append(T('mul/%s/neutral' % s, mul(s, 'mpECP_scalar_mul', 'busy', 'neutral')))
        for rng in RNG:
            for lc in range((spec(s)['n'].bit_length() + 63) // 64 + 1):
                out.append(T('mul_mpz/%s/%s/%d' % (s, rng, lc), mul(s, 'mpECP_scalar_mul_mpz', 'r=p' if rng == 'neg' else 'busy', rng=rng, limbs_=lc)))
    return out
