"""C18 table-based multiplication gives the same multiple as the plain one, whatever the history of the point."""
from c17 import *

BOUNDS = 'every scalar in [0, n) for orders of 8 to 17 bits (thorough: up to 256 bits), every point on every curve of the four types; one and two multiplications from a table; explicit and implicit setup; ' \
         'the point modified by each operation of the interface after its table was built, copies and swaps of points with tables, result aliasing the point; integer variant with arguments outside [0, n)'
OUTSIDE = 'orders above 256 bits; histories with more than one modification between table setups (the modification leaves an object without table, which is the starting state)'
ASSUMES = ['point addition and doubling are the group law (C11-C13)']


def full(x, name, small=False):
    c = spec(name)
    if x.native:
        c, cv, P = setup(x, name)
        return c, cv, P, P
    co, P = oncurve(x, c['kind'])
    if small:           # the point (2, 3) on a curve with one free coefficient
        k = c['kind']
        P = PE(2), PE(3)
        if k == 'ws':
            co = co[0], PE(1) - 2 * co[0]
        elif k == 'mo':
            co = co[0], (9 * co[0] - 10) / PE(4)
        elif k == 'ed':
            co = co[0], (PE(13) - co[0] * co[0]) / (36 * co[0] * co[0])
        else:
            co = co[0], (4 * co[0] + 8) / PE(36)
    cv, st = curve(x, c['kind'], co, P, n=c['n'], h=c['h'], bits=c['bits'])
    return c, cv, None, P


def base(name, alias, times, variant, limbs_=None, rng='in'):
    def h(x):
        c, cv, P, _ = full(x, name)
        n, L = c['n'], c['n'].bit_length()
        g = gen(x, cv, 'G', P)
        if variant == 'setup':
            x.call('mpECP_scalar_base_mul_setup', g)
        elif variant == 'twice':
            x.call('mpECP_scalar_base_mul_setup', g)
            x.call('mpECP_scalar_base_mul_setup', g)
        elif variant == 'neutral':
            x.call('mpECP_set_neutral', g, cv)
        one = {} if variant == 'neutral' else {('G', frozenset()): 1}
        for i in range(times):
            bs, v = scalar(x, 'k%d_' % i, L, n, limbs_)
            r = result(x, cv, c, 'r=p' if alias and i == times - 1 else 'busy' if i else 'new', g)
            if rng == 'in' and not limbs_:
                sc = sfield(x, v, L, n)
                x.call('mpECP_scalar_base_mul', r, g, sc)
            else:
                x.call('mpECP_scalar_base_mul_mpz', r, g, outside(x, v, n, L, rng))
            want = {} if variant == 'neutral' else bitsum(bs, 'G') if not x.native else {}
            expect(x, r, c, P, want, 0 if variant == 'neutral' else simp(v) if x.native else None, 'result is not the multiple')
            if r is not g:
                expect(x, g, c, P, one, 0 if variant == 'neutral' else 1, 'operand of the multiplication changed')
        if times:
            x.call('mpECP_clear', g)
        x.reach()
    return h


def poke(x, t, pts):
    """give the point object new coordinates (symbolic run only)"""
    F = x.load(x.padd(x.load(x.padd(t, 80), 8), 8), 8)
    for o, v in zip((0, 24, 48), pts):
        fput(x, x.padd(t, o), v, F)
    x.store(x.padd(t, 72), 4, 0)


def pokeG(x, t, name, cv):
    """the point object now holds a new generator; its table is left alone"""
    keep = x.load(x.padd(t, 88), 4), x.load(x.padd(t, 96), 8)
    x.store(x.padd(t, 88), 4, 0)
    pwrite(x, t, {(name, frozenset()): 1}, cv)
    x.store(x.padd(t, 88), 4, keep[0])
    x.store(x.padd(t, 96), 8, keep[1])


FP2 = ('mpECP_set_mpFp',)
OPS = ('set', 'set_mpz', 'set_mpFp', 'set_neutral', 'add', 'add-other', 'double', 'double-other', 'neg', 'neg-other', 'sub', 'sub-other', 'str', 'bytes')


def modified(name, opn, via):
    """build the table, modify the point, multiply again"""
    def h(x):
        c, cv, P, Pe = full(x, name, opn in ('str', 'bytes'))
        n, L = c['n'], c['n'].bit_length()
        E = Aff(c)
        g = gen(x, cv, 'G', P)
        if via == 'setup':
            x.call('mpECP_scalar_base_mul_setup', g)
        else:
            r = pt_new(x, cv)
            x.call('mpECP_scalar_base_mul', r, g, sfield(x, 5, L, n))
        if not x.native:
            x.ctx['group'] = False
            poke(x, g, (Pe[0], Pe[1], PE(1)) if c['kind'] != 'mo' else pt_xyz(x, affine_point(x, cv, Pe)))
            o = affine_point(x, cv, Pe)
            mp = lambda v: mpzv(x, v)
            ref = None
        else:
            ref = P
            Pe = E.mul(3, P)
            o = pt_new(x, cv)
            x.call('mpECP_set_mpz', o, mpz(x, Pe[0]), mpz(x, Pe[1]), cv)
            mp = lambda v: mpz(x, v)
        new = None
        if opn == 'set':
            x.call('mpECP_set', g, o)
            new = 3
        elif opn == 'set_mpz':
            x.call('mpECP_set_mpz', g, mp(Pe[0]), mp(Pe[1]), cv)
            new = 3
        elif opn == 'set_mpFp':
            F = x.load(x.padd(cv, 8), 8)
            fx, fy = fp_new(x, F), fp_new(x, F)
            for t, v in ((fx, Pe[0]), (fy, Pe[1])):
                x.call('mpFp_set_mpz_fp', t, mp(v), F)
            x.call('mpECP_set_mpFp', g, fx, fy, cv)
            new = 3
        elif opn == 'set_neutral':
            x.call('mpECP_set_neutral', g, cv)
            new = 0
        elif opn == 'add':
            x.call('mpECP_add', g, g, o)
            new = 4
        elif opn == 'add-other':
            x.call('mpECP_add', g, o, o)
            new = 6
        elif opn == 'double':
            x.call('mpECP_double', g, g)
            new = 2
        elif opn == 'double-other':
            x.call('mpECP_double', g, o)
            new = 6
        elif opn == 'neg':
            x.call('mpECP_neg', g, g)
            new = -1
        elif opn == 'neg-other':
            x.call('mpECP_neg', g, o)
            new = -3
        elif opn == 'sub':
            # g - N with N of unknown sign is exercised through the difference with the neutral element as well
            m = pt_new(x, cv)
            x.call('mpECP_neg', m, o)
            x.call('mpECP_sub', g, g, m)
            new = 4
        elif opn in ('str', 'bytes'):
            nb = (c['bits'] + 7) // 8
            X, Y = Pe if x.native else (2, 3)
            raw = b'\x04' + X.to_bytes(nb, 'big') + Y.to_bytes(nb, 'big')
            st = ci(x, 'mpECP_set_bytes', g, mkbytes(x, raw), len(raw), cv) if opn == 'bytes' else ci(x, 'mpECP_set_str', g, mkstr(x, raw.hex().upper()), cv)
            x.check(bv(st, 32) == 0, 'import of a point failed')
            new = 3
        elif opn == 'sub-other':
            m = pt_neutral(x, cv)
            x.call('mpECP_sub', g, o, m)
            new = 3
        if not x.native:
            x.ctx['group'] = True
            pokeG(x, g, 'H', cv)
        bs, v = scalar(x, 'k', L, n)
        r = pt_new(x, cv)
        x.call('mpECP_scalar_base_mul', r, g, sfield(x, v, L, n))
        if x.native:
            expect(x, r, c, P, {}, simp(v) * new % n, 'multiple of the point the object held before it was modified by ' + opn)
        else:
            expect_multiple(x, r, {'H': bitsum(bs, 'H')}, 'multiple of the point the object held before it was modified by ' + opn)
        x.call('mpECP_clear', g)
        x.reach()
    return h


def moved(name, how):
    """tables that travel with swaps and copies"""
    def h(x):
        c, cv, P, Pe = full(x, name)
        n, L = c['n'], c['n'].bit_length()
        E = Aff(c)
        g = gen(x, cv, 'G', P)
        o = gen(x, cv, 'H', E.mul(3, P) if x.native else None)
        S = lambda t: x.call('mpECP_scalar_base_mul_setup', t)
        one = lambda q: {(q, frozenset()): 1}
        if how == 'swap':
            S(g)
            x.call('mpECP_swap', g, o)
            G, H = ('H', 3), ('G', 1)
        elif how == 'swap2':
            S(o)
            x.call('mpECP_swap', g, o)
            G, H = ('H', 3), ('G', 1)
        elif how == 'swapboth':
            S(g)
            S(o)
            x.call('mpECP_swap', g, o)
            G, H = ('H', 3), ('G', 1)
        elif how == 'copy':
            S(g)
            x.call('mpECP_set', o, g)
            G, H = ('G', 1), ('G', 1)
        elif how == 'copyboth':
            S(g)
            S(o)
            x.call('mpECP_set', o, g)
            G, H = ('G', 1), ('G', 1)
        elif how in ('mul', 'basemul'):
            S(g)
            f = 'mpECP_scalar_mul' if how == 'mul' else 'mpECP_scalar_base_mul'
            x.call(f, g, o, sfield(x, 5, L, n))
            G, H = ('H', 15), ('H', 3)
        elif how in ('addo', 'dbl'):
            S(g)
            x.call(*(('mpECP_add', o, g, g) if how == 'addo' else ('mpECP_double', o, g)))
            G, H = ('G', 1), ('G', 2)
        for t, (q, k) in ((g, G), (o, H)):
            bs, v = scalar(x, 'k' + 'go'[t is o], L, n)
            r = pt_new(x, cv)
            x.call('mpECP_scalar_base_mul', r, t, sfield(x, v, L, n))
            if x.native:
                expect(x, r, c, P, {}, simp(v) * k % n, 'wrong multiple after ' + how)
            else:
                f = {'H': 3, 'G': 1}[q]
                expect_multiple(x, r, {q: scale(bitsum(bs, q), k // f)}, 'wrong multiple after ' + how)
        x.call('mpECP_clear', g)
        x.call('mpECP_clear', o)
        x.reach()
    return h


def tasks(tier):
    out = []
    shapes = ['ws16n17', 'ws8', 'ws8n9', 'ed10', 'mo10', 'te10'] + ([] if tier == 'quick' else ['ed16', 'mo16', 'te16', 'secp112r1', 'secp160r1', 'secp256k1', 'Curve25519', 'Ed25519'])
    for s in shapes:
        if s in SMALL or s in TABLE:
            out.append(T('base/%s' % s, base(s, False, 2 if s in SMALL else 1, 'auto'), weight=5))
    for s in ('ws8n9', 'ed10') if tier == 'quick' else SMALLS:
        for v in ('setup', 'twice', 'neutral'):
            out.append(T('base/%s/%s' % (s, v), base(s, True, 2, v)))
        for rng in RNG:
            for lc in (0, 1):
                out.append(T('base_mpz/%s/%s/%d' % (s, rng, lc), base(s, False, 1, 'auto', lc, rng)))
    for s in ('ws8', 'ed10') if tier == 'quick' else ('ws8', 'ws16n17', 'ed10', 'mo10', 'te10'):
        for o in OPS:
            out.append(T('modified/%s/%s' % (s, o), modified(s, o, 'setup' if o != 'set' else 'mul')))
        for how in ('swap', 'swap2', 'swapboth', 'copy', 'copyboth', 'mul', 'basemul', 'addo', 'dbl'):
            out.append(T('moved/%s/%s' % (s, how), moved(s, how)))
    return out
