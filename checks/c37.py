"""C37 the Go package: signatures and ElGamal."""
from hgocv import *
from hecdsa import Spec

BOUNDS = 'groups of order 7 to 23 on curves of the four types: every nonzero key below n and integers of either sign of the listed lengths congruent to one, every digest of one or two bytes, every draw of k; ' \
         'every byte string of up to 3 bytes as a signature, with every public key; every pair of points as ciphertext or as key and message, on one curve object or on equal ones; ' \
         'only the result survives the collector before it is used'
OUTSIDE = 'larger groups (C24 to C28); a finalizer that runs while a C function is still using the object; memory leaks; a hash.Hash that breaks its contract'
ASSUMES = ['math/big and cgo behave as documented (modelled; replay runs the real Go program)', 'multiplication of points (C17, C18)', 'random integers are arbitrary values of [0, n) (C29)']
CURVES = ('ws19', 'ws23', 'ed43', 'te41', 'mo31')


def value(x, n, neg, m):
    """the integer mod n, width of n"""
    r = bv(kmod(x, m, n), n.bit_length())
    return simp(z3.If(z3.And(boolz(neg), r != 0), n - r, r))


def key(x, g, n, bits):
    """(handle, neg, m, value mod n), the value not 0"""
    if bits is None:
        m = x.sym('d', n.bit_length())
        x.assume(z3.ULT(m, n))
        for i in range(n.bit_length()):      # the exact length, by cases
            if not x.native and x.branch(z3.ULT(bv(m, 8), 1 << (i + 1))):
                return finish(x, g, n, m, False, i + 1)
        return finish(x, g, n, m, False, n.bit_length())
    S, neg, m = integer(x, g, 'd', bits)
    d = value(x, n, neg, m)
    x.assume(bv(d, 8) != 0)
    return S, neg, m, d


def finish(x, g, n, m, neg, b):
    x.assume(bv(m, 8) != 0)
    m = simp(z3.Extract(b - 1, 0, bv(m, 8)))
    return g.big(m, neg, b), z3.BoolVal(False), m, bv(m, n.bit_length())


def check_bytes(x, l, want, what):
    x.check(z3.BoolVal(len(l) == len(want)), what + ': wrong length')
    for a, b in zip(l, want):
        x.check(bv(a, 8) == bv(b, 8), what + ': wrong bytes')


def sign(name, hsz, bits, mlen):
    def h(x):
        g = make(x)
        c, CV = gocurve(x, g, name)
        S = Spec(c)
        n, L = c['n'], c['n'].bit_length()
        hb = [x.sym('h%d' % i, 8) for i in range(hsz)]
        msg = [x.sym('m%d' % i, 8) for i in range(mlen)]
        H = g.hash(hsz, hb)
        sk, neg, m, d = key(x, g, n, bits)
        k = x.sym('k', L)
        x.assume(z3.ULT(bv(k, L), n))
        ok_, r, s = S.sign(bv(k, L), S.e(hb), d)
        x.assume(ok_)
        g.draws([k], n)
        ss = g.call('NewECDSASignatureScheme', CV, H)
        sig = g.method(ss, 'Sign', sk, g.bytes(msg))
        if not ok(x, g, sig, 'Sign'):
            return
        x.check(z3.BoolVal(not g.isnil(sig)), 'signing failed')
        if g.isnil(sig):
            return
        check_bytes(x, g.hashed(H), msg, 'Sign: what is hashed')
        intact(x, g, sk, neg, m, 'Sign')
        g.gc(sig, H)
        for t in range(2):
            check_bytes(x, g.data(g.method(sig, 'AsBytes')), [simp(z3.Extract(7, 0, bv(v, max(8, S.W)))) for v in (r, s)], 'AsBytes')
        c, CV = gocurve(x, g, name)
        pk = gopoint(x, g, c, CV, d)
        v = g.method(sig, 'Verify', pk, g.bytes(msg))
        if ok(x, g, v, 'Verify'):
            x.check(boolz(v) if not x.native else z3.BoolVal(g.boolean(v)), 'own signature rejected')
        check_bytes(x, g.hashed(H), msg, 'Verify: what is hashed')
        g.done()
        x.reach()
    return h


def verify(name, hsz, L, mlen=2):
    def h(x):
        g = make(x)
        c, CV = gocurve(x, g, name)
        S = Spec(c)
        n, W = c['n'], c['n'].bit_length()
        hb = [x.sym('h%d' % i, 8) for i in range(hsz)]
        msg = [x.sym('m%d' % i, 8) for i in range(mlen)]
        bs = [x.sym('b%d' % i, 8) for i in range(L)]
        q = logarithm(x, 'q', n)
        x.assume(bv(q, 8) != 0)
        H = g.hash(hsz, hb)
        ss = g.call('NewECDSASignatureScheme', CV, H)
        sig = g.method(ss, 'SignatureFromBytes', g.bytes(bs))
        if not ok(x, g, sig, 'SignatureFromBytes'):
            return
        good = z3.And(*[z3.And(bv(b, 8) != 0, z3.ULT(bv(b, 8), n)) for b in bs]) if L == 2 else z3.BoolVal(False)
        if g.isnil(sig):
            x.check(z3.Not(good), 'a valid encoding is refused')
        else:
            x.check(good, 'an invalid encoding is accepted')
            g.gc(sig, H)
            check_bytes(x, g.data(g.method(sig, 'AsBytes')), bs, 'AsBytes')
            c, CV = gocurve(x, g, name)
            pk = gopoint(x, g, c, CV, q)
            r, s = (simp(z3.Extract(W - 1, 0, bv(b, 8))) for b in bs)
            want = S.verify(r, s, S.e(hb), q)
            for t in range(2):
                v = g.method(sig, 'Verify', pk, g.bytes(msg))
                if not ok(x, g, v, 'Verify'):
                    return
                if g.boolean(v):
                    x.check(want, 'an invalid signature is accepted')
                else:
                    x.check(z3.Not(want), 'a valid signature is rejected')
                check_bytes(x, g.hashed(H), msg, 'Verify: what is hashed')
        g.done()
        x.reach()
    return h


def fresh(x, g, name, R, i, what):
    """compare with i*G on a new curve object"""
    c, CV = gocurve(x, g, name)
    same_point(x, g, R, c, CV, i, what)


def modn(n, v):
    return simp(z3.Extract(n.bit_length() - 1, 0, z3.URem(v, bv(n, v.size()))))


def encrypt(name, second, keep, bits):
    def h(x):
        g = make(x)
        c, CV = gocurve(x, g, name)
        CV2 = gocurve(x, g, name)[1] if second else CV
        n, L = c['n'], c['n'].bit_length()
        W = 2 * L + 2
        sk, neg, mm, d = key(x, g, n, bits)
        m, k = logarithm(x, 'm', n), logarithm(x, 'k', n)
        x.assume(bv(k, L) != 0)
        A, B = gopoint(x, g, c, CV, d), gopoint(x, g, c, CV2, m)
        g.draws([k], n)
        ct = g.call('ECElgamalEncrypt', A, B)
        if not ok(x, g, ct, 'encryption'):
            return
        x.check(z3.BoolVal(not g.isnil(ct)), 'encryption refused')
        if g.isnil(ct):
            return
        same_point(x, g, A, c, CV, d, 'encryption changed the key')
        same_point(x, g, B, c, CV, m, 'encryption changed the message')
        dec = {'C': lambda: simp(bv(k, L)), 'D': lambda: modn(n, bv(k, W) * bv(d, W) + bv(m, W)), 'dec': lambda: simp(bv(m, L))}
        if keep == 'all':
            g.gc(ct, sk)
            for w in ('C', 'D', 'dec', 'C'):
                R = g.method(ct, 'Decrypt', sk) if w == 'dec' else g.method(ct, w)
                fresh(x, g, name, R, dec[w](), w)
                intact(x, g, sk, neg, mm, 'Decrypt')
        else:
            R = g.method(ct, 'Decrypt', sk) if keep == 'dec' else g.method(ct, keep)
            if ok(x, g, R, keep):
                g.gc(R)
                fresh(x, g, name, R, dec[keep](), keep)
                x.ctx['dl_off'] = True
                g.method(R, 'Cmp', g.call('NewPointGenerator', gocurve(x, g, name)[1]))
        g.done()
        x.reach()
    return h


def pair(name, second, bits, keep):
    """a ciphertext made of two points"""
    def h(x):
        g = make(x)
        c, CV = gocurve(x, g, name)
        CV2 = gocurve(x, g, name)[1] if second else CV
        n, L = c['n'], c['n'].bit_length()
        W = 2 * L + 2
        sk, neg, mm, d = key(x, g, n, bits)
        a, b = logarithm(x, 'a', n), logarithm(x, 'b', n)
        A, B = gopoint(x, g, c, CV, a), gopoint(x, g, c, CV2, b)
        ct = g.call('NewECElgamalCiphertext', A, B)
        if not ok(x, g, ct, 'NewECElgamalCiphertext'):
            return
        x.check(z3.BoolVal(not g.isnil(ct)), 'ciphertext refused')
        if g.isnil(ct):
            return
        g.gc(ct, sk)
        want = {'C': lambda: simp(bv(a, L)), 'D': lambda: simp(bv(b, L)), 'dec': lambda: modn(n, bv(b, W) + n * n - bv(a, W) * bv(d, W))}
        for w in keep:
            R = g.method(ct, 'Decrypt', sk) if w == 'dec' else g.method(ct, w)
            if ok(x, g, R, w):
                fresh(x, g, name, R, want[w](), w)
                intact(x, g, sk, neg, mm, w)
        if len(keep) == 1:
            g.gc(R)
            fresh(x, g, name, R, want[keep[0]](), keep[0])
            x.ctx['dl_off'] = True
            g.method(R, 'Cmp', g.call('NewPointGenerator', gocurve(x, g, name)[1]))
        g.done()
        x.reach()
    return h


def refuse(name, other, fn):
    """points on different curves: no ciphertext"""
    def h(x):
        g = make(x)
        c, CV = gocurve(x, g, name)
        a = logarithm(x, 'a', c['n'])
        A = gopoint(x, g, c, CV, a)
        B = g.call('NewPointGenerator', gocurve(x, g, other)[1])
        g.draws([1, 2], c['n'])
        for u, v in ((A, B), (B, A)):
            ct = g.call(fn, u, v)
            if ok(x, g, ct, fn):
                x.check(z3.BoolVal(g.isnil(ct)), 'points of different curves are accepted')
        g.done()
        x.reach()
    return h


def named_life(what, keep):
    """curves by name are finalised; real code throughout"""
    def h(x):
        g = make(x)
        x.ctx['dl_off'] = True
        new = lambda: g.call('NamedCurve', g.string('secp112r1'))
        CV, CV2 = new(), new()
        k = x.sym('k', 1)
        k = simp(k) if x.native else x.concretize(k, 1)
        G = lambda c: g.call('NewPointGenerator', c)
        A, B = G(CV), g.method(g.call('NewPointNeutral', CV2), 'Neg', G(CV2))
        if what == 'signature':
            ss = g.call('NewECDSASignatureScheme', CV, g.hash(1, [7]))
            bs = [0] * 12 + [5, 0 if k else 3] + [0] * 13 + [1]
            sig = g.method(ss, 'SignatureFromBytes', g.bytes(bs))
            x.check(z3.BoolVal(not g.panicked(sig) and not g.isnil(sig)), 'signature refused')
            g.gc(sig)
            check_bytes(x, g.data(g.method(sig, 'AsBytes')), bs, 'AsBytes')
            if keep == 'verify':
                v = g.method(sig, 'Verify', G(new()), g.bytes([1]))
                x.check(z3.BoolVal(not g.panicked(v) and not g.boolean(v)), 'an invalid signature is accepted')
        else:
            if what == 'pair':
                ct = g.call('NewECElgamalCiphertext', *((A, B) if k else (B, A)))
            else:
                x.ctx['draws'] = None
                g.draws([1], g_order(x, g, CV))
                x.ctx['more'] = 'draw after a usable one'
                ct = g.call('ECElgamalEncrypt', *((A, B) if k else (B, A)))
            x.check(z3.BoolVal(not g.panicked(ct) and not g.isnil(ct)), 'ciphertext refused')
            A = B = None
            g.gc(ct)
            sk = g.big(1, not k and what == 'encrypt')
            R = g.method(ct, 'Decrypt', sk) if keep == 'dec' else g.method(ct, keep)
            x.check(z3.BoolVal(not g.panicked(R) and not g.isnil(R)), keep + ': no result')
            g.gc(R)
            CV = new()
            N = g.call('NewPointNeutral', CV)
            g.method(N, 'Sub', N, G(CV))
            # pair: (G, -G) or (-G, G); encryption: (G, M + Q) with Q, M = G, -G or -G, G
            E = {'pair': {'C': G(CV) if k else N, 'D': N if k else G(CV), 'dec': g.method(N, 'Add', N, N) if keep == 'dec' and what == 'pair' and k else g.method(G(CV), 'Add', G(CV), G(CV))},
                 'encrypt': {'C': G(CV), 'D': g.call('NewPointNeutral', CV), 'dec': N if k else G(CV)}}[what][keep]
            x.check(bv(g.int(g.method(R, 'Cmp', E)), 64) == 0, keep + ': wrong point')
            g.gc(R)
            use(x, g, R)
        g.done()
        x.reach()
    return h


def g_order(x, g, CV):
    return g.bigval(g.method(CV, 'GetAttr', g.string('n')))[1]


def t37(name, fn, **kw):
    return gpt(name, fn, cfg={'check_ms': 60000}, **kw)


def tasks(tier):
    prepare()
    out = []
    quick = tier == 'quick'
    for name in ('mo31',) if quick else CURVES:
        L = table(name)['n'].bit_length()
        out.append(t37('sign/%s/any' % name, sign(name, 1, None, 2), weight=5))
        for b, hs, ml in ((4, 2, 0), (64, 1, 1)):
            out.append(t37('sign/%s/%d/%d' % (name, b, hs), sign(name, hs, b, ml), weight=5))
        for hs in (1,) if quick else (1, 2):
            out.append(t37('verify/%s/2/%d' % (name, hs), verify(name, hs, 2), weight=5))
    for n in (0, 1, 3, 4):
        out.append(t37('verify/ws19/%d' % n, verify('ws19', 1, n)))
    for name in ('ws19', 'te41') if quick else CURVES:
        L = table(name)['n'].bit_length()
        for sec in (False, True):
            for keep in ('all', 'C', 'D', 'dec'):
                out.append(t37('encrypt/%s/%s%s' % (name, keep, '/equal curves' if sec else ''), encrypt(name, sec, keep, None if keep == 'all' else 2)))
            for keep in (('C', 'D', 'dec', 'D'), ('C',), ('D',), ('dec',)):
                out.append(t37('pair/%s/%s%s' % (name, '+'.join(keep), '/equal curves' if sec else ''), pair(name, sec, 2 if len(keep) == 1 else None, keep)))
    for name in ('mo31',) if quick else CURVES:
        for b in (7, 64) if quick else (3, 7, 8, 9, 63, 64, 65, 300):
            out.append(t37('encrypt/%s/key of %d bits' % (name, b), encrypt(name, False, 'all', b), gmp=lambda b=b: gmpsym.Kernel(max(64, b + 64))))
    for what, ks in (('signature', () if quick else ('bytes', 'verify')), ('pair', ('C', 'D', 'dec')), ('encrypt', ('C', 'D', 'dec'))):
        for keep in ks:
            out.append(gpt('named life/%s/%s' % (what, keep), named_life(what, keep), real=True, gmp=lambda: gmpsym.Kernel(1200), stubs={'mpz_urandom': DLSTUBS['mpz_urandom']}, cfg={'max_steps': 60000000}, weight=9))
    for a, b in (('ws19', 'ws23'), ('mo43', 'mo41'), ('mo43', 'ed43'), ('te41', 'mo41')):
        for fn in ('ECElgamalEncrypt', 'NewECElgamalCiphertext'):
            out.append(t37('refuse/%s/%s,%s' % (fn, a, b), refuse(a, b, fn)))
    return out
