"""C26 signature encoding: fixed width, exact, and only r, s in 1..n-1 come back."""
from hecdsa import *

BOUNDS = 'orders of 3 to 521 bits (also one bit above a multiple of 8): export of every r, s below n with any number of leading zero bytes in one of them, up to three in both; import of every byte string of the right length, ' \
         'refusal of every other length; strings: every string of up to 9 characters, and for larger orders every string of hexadecimal digits and every placement of two arbitrary characters among a set of positions'
OUTSIDE = 'strings for large orders with more than two characters that are not hexadecimal digits'
ASSUMES = ['scalar field elements convert to integers exactly (C01, C02)']

HEX = [(0x30, 0x39), (0x41, 0x46), (0x61, 0x66)]
ORD = {3: 7, 8: 251, 9: 257, 16: 65521, 17: 65537}


def order(k):
    import c17
    return ORD[k] if isinstance(k, int) else c17.TABLE[k]['n']


def mkscheme(x, n):
    cv = tcurve(x, 'ws11', n=n)
    return scheme(x, cv, 1, [0])


def mksig(x, ss, n, r, s):
    sig = x.alloc(56, 'signature')
    for off, v in ((0, r), (24, s)):
        t = x.padd(sig, off)
        x.call('mpFp_init', t, mpz(x, n))
        x.call('mpFp_set_mpz', t, mpz(x, v), mpz(x, n))
    x.st(sig, 48, 8, ss)
    return sig


def ishex(c):
    return z3.Or(*[z3.And(z3.UGE(bv(c, 8), l), z3.ULE(bv(c, 8), u)) for l, u in HEX])


def hexval(c):
    c = bv(c, 8)
    return z3.If(z3.ULE(c, 0x39), c - 0x30, z3.If(z3.ULE(c, 0x46), c - 55, c - 87))


def export(key, viastr, part, back=False):
    n = order(key)
    nb = (n.bit_length() + 7) // 8
    W = 8 * nb

    def h(x):
        ss = mkscheme(x, n)
        r, s = x.sym('r', n.bit_length()), x.sym('s', n.bit_length())
        R, S = bv(r, W), bv(s, W)
        top = lambda v, k: z3.Extract(W - 1, W - 8 * min(k, nb), v)
        for v in (R, S):
            x.assume(z3.And(z3.ULT(v, n), v != 0))
        if part == 'r':
            x.assume(top(S, 1) != 0)
        elif part == 's':
            x.assume(top(R, 1) != 0)
        elif part == 'both':
            x.assume(z3.And(top(R, 1) == 0, top(S, 1) == 0, top(R, 4) != 0, top(S, 4) != 0))
        sig = mksig(x, ss, n, r, s)
        if viastr:
            b = x.call('mpECDSASignature_export_str', sig)
            cs = [bv(x.ld(b, i, 1), 8) for i in range(4 * nb + 1)]
            x.check(cs[-1] == 0, 'string not terminated')
            for c in cs[:-1]:
                x.check(ishex(c), 'not a hexadecimal digit')
            v = [hexval(c) for c in cs[:-1]]
            bs = [simp(v[2 * i] * 16 + v[2 * i + 1]) for i in range(2 * nb)]
        else:
            sz = x.alloc(8, 'size')
            b = x.call('mpECDSASignature_export_bytes', sig, sz)
            x.check(bv(x.ld(sz, 0, 8), 64) == 2 * nb, 'length of the exported signature')
            bs = [bv(x.ld(b, i, 1), 8) for i in range(2 * nb)]
        x.check(bigend(bs[:nb]) == R, 'exported r')
        x.check(bigend(bs[nb:]) == S, 'exported s')
        x.check(z3.And(fpval(x, sig, W) == R, fpval(x, x.padd(sig, 24), W) == S), 'export changed the signature')
        if back:
            sg = x.alloc(56, 'signature')
            st = ci(x, 'mpECDSASignature_init_import_str', sg, ss, b) if viastr else ci(x, 'mpECDSASignature_init_import_bytes', sg, ss, b, 2 * nb)
            if x.check(bv(st, 32) == 0, 'own encoding refused'):
                x.check(z3.And(fpval(x, sg, W) == R, fpval(x, x.padd(sg, 24), W) == S), 'encoding does not give the signature back')
        x.reach()
    return h


def verdict(x, n, nb, ss, sg, st, bs, wf=None):
    W = 8 * nb
    if len(bs) == 2 * nb:
        R, S = bigend(bs[:nb]), bigend(bs[nb:])
        ok = z3.And(R != 0, S != 0, z3.ULT(bv(R, W), n), z3.ULT(bv(S, W), n))
        if wf is not None:
            ok = z3.And(ok, wf)
    else:
        ok = z3.BoolVal(False)
    if x.branch(bv(st, 32) == 0):
        if x.check(ok, 'an invalid encoding is accepted'):
            x.check(fpval(x, sg, W) == R, 'imported r')
            x.check(fpval(x, x.padd(sg, 24), W) == S, 'imported s')
            x.check(z3.BoolVal(same_ptr(x, x.ld(sg, 48, 8), ss)), 'imported signature refers to another scheme')
            x.call('mpECDSASignature_clear', sg)
    else:
        x.check(z3.Not(ok), 'a valid encoding is refused')
    x.reach()


def imp(key, L):
    """every byte string of length L"""
    n = order(key)
    nb = (n.bit_length() + 7) // 8

    def h(x):
        ss = mkscheme(x, n)
        sg = x.alloc(56, 'signature')
        bs = [x.sym('b%d' % i, 8) for i in range(L)]
        st = ci(x, 'mpECDSASignature_init_import_bytes', sg, ss, mkbytes(x, bs), L)
        verdict(x, n, nb, ss, sg, st, bs)
    return h


def lengths(key):
    """every other length: refused without looking at the bytes"""
    n = order(key)
    nb = (n.bit_length() + 7) // 8

    def h(x):
        ss = mkscheme(x, n)
        sg = x.alloc(56, 'signature')
        L = x.sym('len', 64)
        x.assume(bv(L, 64) != 2 * nb)
        st = ci(x, 'mpECDSASignature_init_import_bytes', sg, ss, mkbytes(x, [1]), L)
        x.check(bv(st, 32) != 0, 'accepted')
        x.reach()
    return h


def impstr(key, L, free=None, valid=None):
    """free: positions of arbitrary characters among hexadecimal digits; valid: only hexadecimal digits / only others"""
    n = order(key)
    nb = (n.bit_length() + 7) // 8

    def h(x):
        ss = mkscheme(x, n)
        sg = x.alloc(56, 'signature')
        cs = [x.sym('c%d' % i, 8) if free is None or i in free else 0x31 + i % 8 for i in range(L)]
        for c in cs:
            if not isinstance(c, int) or x.native:
                x.assume(bv(c, 8) != 0)
        wf = z3.And(*[ishex(c) for c in cs], z3.BoolVal(L % 2 == 0))
        if valid is not None:
            x.assume(wf if valid else z3.Not(wf))
        v = [hexval(c) for c in cs]
        bs = [simp(v[2 * i] * 16 + v[2 * i + 1]) for i in range(L // 2)]
        st = ci(x, 'mpECDSASignature_init_import_str', sg, ss, mkstr(x, cs))
        verdict(x, n, nb, ss, sg, st, bs, wf)
    return h


def nulls(fn, which):
    def h(x):
        n = 251
        ss = mkscheme(x, n)
        sg = x.alloc(56, 'signature')
        b = mkstr(x, '0102') if fn.endswith('str') else mkbytes(x, [1, 2])
        a = [0 if which == 'sig' else sg, 0 if which == 'scheme' else ss, b] + ([] if fn.endswith('str') else [2])
        x.check(bv(ci(x, fn, *a), 32) != 0, 'missing object not refused')
        x.reach()
    return h


def t26(name, fn, **kw):
    k = dict(DLSTUBS)
    k['mpECP_scalar_base_mul_setup'] = lambda ex, a: None
    return Task(name, fn, stubs=k, gmp=lambda: gmpsym.Kernel(64), native_lib=wrapped, cfg={'check_ms': 60000, 'max_steps': 4000000}, **kw)


def tasks(tier):
    out = []
    big = ('secp112r1', 'secp160r1', 'secp256k1', 'secp521r1') if tier == 'quick' else ('secp112r1', 'secp128r1', 'secp160r1', 'secp192r1', 'secp224k1', 'secp256k1', 'secp384r1', 'E-521', 'secp521r1')
    for k in (3, 8, 9, 16, 17):
        for vs in (0, 1) if k < 16 or tier == 'thorough' else (0,):
            out.append(t26('export/%d/%d' % (k, vs), export(k, vs, None, True)))
    for k in big:
        for part in ('r', 's', 'both'):
            out.append(t26('export/%s/0/%s' % (k, part), export(k, 0, part)))
        if k in ('secp112r1', 'secp160r1') or tier == 'thorough':
            out.append(t26('export/%s/1/r' % k, export(k, 1, 'r')))
        out.append(t26('import/%s' % k, imp(k, 2 * ((order(k).bit_length() + 7) // 8))))
        out.append(t26('lengths/%s' % k, lengths(k)))
        L = 4 * ((order(k).bit_length() + 7) // 8)
        for a, b in ((0, 1), (L // 2 - 1, L // 2), (L - 2, L - 1)) + (((4, 9), (1, L - 2)) if tier == 'thorough' else ()):
            out.append(t26('importstr/%s/%d' % (k, a), impstr(k, L, (a, b))))
        out.append(t26('importstr/%s/short' % k, impstr(k, L - 2, (0, 1))))
    for k in (3, 8, 9, 17):
        nb = (order(k).bit_length() + 7) // 8
        for L in range(0, 2 * nb + 3):
            out.append(t26('import/%d/%d' % (k, L), imp(k, L)))
    for k, Ls in ((3, range(0, 7)), (8, range(0, 7)), (9, (6, 7, 8, 9) if tier == 'quick' else range(0, 11))):
        for L in Ls:
            if L % 2:
                out.append(t26('importstr/%d/%d' % (k, L), impstr(k, L)))
            else:
                out.append(t26('importstr/%d/%d/hex' % (k, L), impstr(k, L, None, True)))
                if L:
                    out.append(t26('importstr/%d/%d/other' % (k, L), impstr(k, L, None, False)))
    for w in ('sig', 'scheme'):
        for f in ('bytes', 'str'):
            out.append(t26('refuse/%s/%s' % (f, w), nulls('mpECDSASignature_init_import_' + f, w)))
    return out
