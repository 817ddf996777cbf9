"""C21 point export: fixed-width encoding of the affine coordinates; importing it gives the point back."""
from hsmall import *

BOUNDS = 'export: every pair of coordinates below p on Weierstrass, Edwards and twisted curves over fields of 112 to 521 bits, any number of leading zero bytes ' \
         'in one coordinate, up to three in both; neutral points; byte and character output, compressed and not; output buffers of exactly the announced size. Round trip: every point of curves of the four types over ' \
         'fields of 4 and 5 bits (thorough: up to 9) with coordinates of one to three bytes, any projective scale, exact arithmetic'
OUTSIDE = 'round trips over larger fields follow from the export format (here), the import rule (C22) and the square root (C04)'
ASSUMES = ['the affine coordinates compared with are those of the public getters (C10)']

NAMED = {'ws': ['secp112r1', 'secp160r1', 'secp256k1', 'secp521r1'], 'ed': ['E-521'], 'te': ['Ed25519']}


def cvname(x, name):
    cv = x.alloc(512, 'curve')
    x.call('mpECurve_init', cv)
    import c17
    st = ci(x, 'mpECurve_set_named', cv, mkstr(x, name))
    p, bits = c17.TABLE[name]['p'], c17.TABLE[name]['bits']
    x.check(bv(st, 32) == 0, 'curve refused')
    return cv, p, bits


def dec(x, buf, n, viastr, what):
    """the bytes a caller finds in the buffer"""
    if not viastr:
        return [bv(x.ld(buf, i, 1), 8) for i in range(n)]
    cs = [bv(x.ld(buf, i, 1), 8) for i in range(2 * n + 1)]
    x.check(cs[-1] == 0, what + ': string not terminated')
    for c in cs[:-1]:
        x.check(z3.Or(z3.And(z3.UGE(c, 0x30), z3.ULE(c, 0x39)), z3.And(z3.UGE(c, 0x41), z3.ULE(c, 0x46)), z3.And(z3.UGE(c, 0x61), z3.ULE(c, 0x66))),
                what + ': not a hexadecimal digit')
    v = [z3.If(z3.ULE(c, 0x39), c - 0x30, z3.If(z3.ULE(c, 0x46), c - 55, c - 87)) for c in cs[:-1]]
    return [simp(v[2 * i] * 16 + v[2 * i + 1]) for i in range(n)]


def export(x, t, compress, viastr, nb, expected_len=None):
    n = 1 + nb if compress else 1 + 2 * nb
    x.check(bv(ci(x, 'mpECP_out_bytelen', t, compress), 32) == n, 'announced byte length')
    x.check(bv(ci(x, 'mpECP_out_strlen', t, compress), 32) == 2 * n, 'announced string length')
    buf = x.alloc(2 * n + 1 if viastr else n, 'export buffer')
    x.call('mpECP_out_str' if viastr else 'mpECP_out_bytes', buf, t, compress)
    return buf, dec(x, buf, n, viastr, 'export')


def out(kind, name, how, compress, viastr, part):
    def h(x):
        cv, p, bits = cvname(x, name)
        nb = (bits + 7) // 8
        t = pnew(x, cv)
        if how == 'neutral':
            x.call('mpECP_set_neutral', t, cv)
            _, bs = export(x, t, compress, viastr, nb)
            flat = bigend(bs[1:])
            if kind in ('ed', 'te'):
                # an ordinary point with coordinates (0, c) or (0, 1)
                import c17
                c = c17.TABLE[name]['a'] if kind == 'ed' else 1
                x.check(bs[0] == (2 + (c & 1) if compress else 4), 'wrong prefix of the neutral element')
                x.check(flat == (0 if compress else c), 'wrong coordinates of the neutral element')
            else:
                x.check(z3.And(bs[0] == 0, flat == 0), 'neutral element exported with a nonzero byte')
            x.reach()
            return
        w = 64 * ((p.bit_length() + 63) // 64)
        X0, Y0 = x.sym('x', w), x.sym('y', w)
        for v in (X0, Y0):
            x.assume(z3.ULT(bv(v, w), p))
        x.call('mpECP_set_mpz', t, mpz(x, X0), mpz(x, Y0), cv)
        u = pnew(x, cv)
        x.call('mpECP_set', u, t)
        X, Y = affine(x, u, 8 * nb)
        top = lambda v, k: z3.Extract(8 * nb - 1, 8 * (nb - k), v)
        if part == 'x':
            x.assume(top(Y, 1) != 0)
        elif part == 'y':
            x.assume(top(X, 1) != 0)
        elif part == 'both':
            x.assume(z3.And(top(X, 1) == 0, top(Y, 1) == 0, top(X, 4) != 0, top(Y, 4) != 0))
        _, bs = export(x, t, compress, viastr, nb)
        if compress:
            x.check(bs[0] == z3.ZeroExt(7, z3.Extract(0, 0, Y)) + 2, 'wrong prefix of a compressed point')
        else:
            x.check(bs[0] == 4, 'wrong prefix of an uncompressed point')
        x.check(bigend(bs[1:1 + nb]) == X, 'exported x coordinate')
        if not compress:
            x.check(bigend(bs[1 + nb:]) == Y, 'exported y coordinate')
        if part == 'y':
            X2, Y2 = affine(x, t, 8 * nb)
            x.check(z3.And(X2 == X, Y2 == Y), 'export changed the point')
        x.reach()
    return h


def trip(name, compress, viastr, bits=None, scaled=False, back=True):
    def h(x):
        kind, p, a, b, G, pts = tiny(name)
        nb = ((bits or p.bit_length()) + 7) // 8
        cv = tcurve(x, name, bits=bits)
        w = p.bit_length()
        X, Y = x.sym('x', w), x.sym('y', w)
        x.assume(oncurve_term(name, bv(X, w), bv(Y, w)))
        t, u = pnew(x, cv), pnew(x, cv)
        x.call('mpECP_set_mpz', t, mpz(x, X), mpz(x, Y), cv)
        if scaled:
            # the same point with an arbitrary projective scale
            Z = x.sym('z', w)
            x.assume(z3.And(bv(Z, w) != 0, z3.ULT(bv(Z, w), p)))
            for o in (0, 24, 48):
                d = x.ld(x.padd(t, o), 8, 8)
                v = bv(x.ld(d, 0, 8), 64)
                x.st(d, 0, 8, simp(z3.URem(v * bv(Z, 64), bv(p, 64))))
        buf, bs = export(x, t, compress, viastr, nb)
        x.check(bigend(bs[1:1 + nb]) == bv(X, 8 * nb), 'exported x coordinate')
        neutral_mark = z3.BoolVal(False)
        if compress:
            x.check(bs[0] == z3.ZeroExt(7, z3.Extract(0, 0, bv(Y, w))) + 2, 'wrong prefix of a compressed point')
        else:
            x.check(bs[0] == 4, 'wrong prefix of an uncompressed point')
            x.check(bigend(bs[1 + nb:]) == bv(Y, 8 * nb), 'exported y coordinate')
        if not back:
            x.reach()
            return
        n = 1 + nb if compress else 1 + 2 * nb
        st = bv(ci(x, 'mpECP_set_str', u, buf, cv) if viastr else ci(x, 'mpECP_set_bytes', u, buf, n, cv), 32)
        if not x.check(st == 0, 'own export refused'):
            return
        X2, Y2 = affine(x, u)
        x.check(z3.And(X2 == bv(X, 64), Y2 == bv(Y, 64)), 'round trip gives another point')
        x.check(bv(ci(x, 'mpECP_cmp', t, u), 32) == 0, 'round trip gives a point that compares different')
        x.reach()
    return h


def tasks(tier):
    T = []
    uf = lambda: gmpsym.UFKernel(9)
    quick = tier == 'quick'
    for kind, names in NAMED.items():
        for name in names:
            for comp in (0, 1):
                for s in (0, 1):
                    T.append(Task('out/%s/neutral/%d/%d' % (name, comp, s), out(kind, name, 'neutral', comp, s, 'x'), gmp=uf))
                    for how in ('affine',):
                        for part in ('x', 'y', 'both'):
                            if comp and part == 'y':
                                continue
                            if quick:
                                if s and (name, how, part) != ('secp112r1', 'affine', 'both'):
                                    continue
                                if part != 'both' and name not in ('secp112r1', 'secp160r1'):
                                    continue
                            T.append(Task('out/%s/%s/%d/%d/%s' % (name, how, comp, s, part), out(kind, name, how, comp, s, part), gmp=uf, cfg={'max_steps': 4000000}))
    def tr(name, *a, **k):
        label = '/'.join(str(v) for v in a) + ''.join('/%s%s' % kv for kv in k.items())
        T.append(Task('trip/%s/%s' % (name, label), trip(name, *a, **k), gmp=lambda: gmpsym.Kernel(64), cfg={'check_ms': 30000, 'max_steps': 4000000}))
    for comp in (0, 1):
        for name in ['ws31', 'ed31', 'te31', 'mo11', 'mo13'] + ([] if quick else ['mo31', 'ws251', 'ws257', 'ws263', 'mo263', 'ed263', 'te263', 'ws29', 'ed29', 'mo29', 'te29']):
            tr(name, comp, 0)
            if not quick or name == 'ws31':
                tr(name, comp, 1)
        for name in ['ws11', 'ed11', 'te11', 'mo11'] + ([] if quick else ['ws31', 'ed31', 'te31', 'mo31']):
            tr(name, comp, 0, bits=23)
            tr(name, comp, 0, scaled=True, back=False)
    return T
