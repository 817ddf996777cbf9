"""C34 ECDSA and ElGamal of the Python binding."""
from hpycv import *
from hecdsa import Spec

BOUNDS = 'groups of order 7 to 23 on curves of the four types over fields of 5 and 6 bits: every secret key (as an element, as an integer of either sign of the listed lengths up to 2100 bits), every digest of one ' \
         'or two bytes, every usable random draw, every pair (r, s) and public key, every ciphertext; messages as bytes and as text; byte strings of 0 to 3 bytes as signatures; eight unrelated types and ten ' \
         'broken hash modules; objects released in between; signature encodings for standard curves of 112 to 521 bits'
OUTSIDE = 'hash modules that change behaviour after the scheme was made; subclasses; objects made by __new__ without __init__; memory leaks; running out of memory'
ASSUMES = ['the CPython 3.12 API functions behave as documented (modelled; replay runs the real interpreter)', 'group arithmetic of the library: C11 to C18 (replaced by exact arithmetic on logarithms, except in lifetime tasks)']
CURVES = ('ws19', 'ws23', 'ed43', 'te41', 'mo43')
MSG = b'hello'


def wd(v, w):
    return bv(v, w)


def setup(x, name, hsz, broken=(), hb=None):
    py = make(x)
    c, CV = pycurve(x, py, name)
    hb = hb or [x.sym('h%d' % i, 8) for i in range(hsz)]
    M = py.module(hsz, hb, broken)
    SS = py.new('ECDSASignatureScheme', CV, M)
    x.check(z3.BoolVal(not exc(SS)), 'scheme refused')
    return py, c, CV, hb, M, SS


def message(py, text):
    return py.str(MSG.decode()) if text else py.bytes(MSG)


def hashed_ok(x, py, M, k):
    """the messages hashed after the first (the constructor tries the module out)"""
    log = py.hashed(M)
    ok = len(log) == 1 + k and all([v if isinstance(v, int) else simp(v) for v in m] == list(MSG) for m in log[1:])
    x.check(z3.BoolVal(ok), 'the digest is not taken over the message')


def sign(name, hsz, key, bits=0, text=False, drop=False, ver=False):
    """Sign follows the standard and the result verifies"""
    def h(x):
        py, c, CV, hb, M, SS = setup(x, name, hsz)
        S = Spec(c)
        n, W = c['n'], S.W
        k = logarithm(x, 'k', n)
        if key == 'fe':
            K, d = element(x, py, 'd', n)
        else:
            K, neg, m = integer(x, py, 'd', bits)
            d = residue(x, neg, m, n)
        d = bv(simp(d), W) if d.size() <= W else simp(z3.Extract(W - 1, 0, d))
        big = key == 'int' and bits >= 2048
        v, r, s = S.sign(k, S.e(hb), d)
        if not big:
            x.assume(v)
        set_draws(x, [k], n)
        m = message(py, text)
        R = Refs(x, py, m, K, SS, CV, M)
        sig = py.method(SS, 'Sign', K, m)
        R.kept('Sign')
        if exc(sig):
            x.check(z3.BoolVal(big), 'Sign fails')
            x.reach()
            return
        x.check(z3.BoolVal(not big), 'Sign with an integer beyond the limit gives a result')
        x.check(z3.BoolVal(py.kind(sig) == 'ECDSASignature'), 'Sign: not a signature')
        hashed_ok(x, py, M, 1)
        if drop:
            for o in (SS, CV, K, m):
                py.decref(o)
        b = py.method(sig, 'AsBytes')
        x.check(z3.BoolVal(py.kind(b) == 'bytes' and len(py.data(b)) == 2), 'AsBytes: wrong type or length')
        x.check(z3.And(wd(py.data(b)[0], 16) == wd(r, 16), wd(py.data(b)[1], 16) == wd(s, 16)), 'Sign: not the signature of the standard')
        if ver:
            P = pypoint(x, py, c, CV, simp(z3.Extract(n.bit_length() - 1, 0, d)))
            t = py.method(sig, 'Verify', P, m)
            x.check(z3.BoolVal(py.kind(t) == 'bool' and py.is_true(t)), 'own signature rejected')
            hashed_ok(x, py, M, 2)
            R.kept('Verify')
        py.decref(sig)
        py.sweep()
        x.reach()
    return h


def verify(name, hsz, text=False, curve='same'):
    """Verify of arbitrary (r, s) and key"""
    def h(x):
        py, c, CV, hb, M, SS = setup(x, name, hsz)
        S = Spec(c)
        n, W = c['n'], S.W
        r, s = x.sym('r', 8), x.sym('s', 8)
        sig = py.new('ECDSASignature', SS, py.bytes([r, s]))
        rr, s_ = bv(r, 16), bv(s, 16)
        ok = z3.And(rr != 0, s_ != 0, z3.ULT(rr, n), z3.ULT(s_, n))
        if exc(sig):
            x.check(z3.Not(ok), 'a signature is refused')
            x.reach()
            return
        x.check(ok, 'numbers out of range accepted as a signature')
        q = logarithm(x, 'q', n)
        m = message(py, text)
        C2 = CV if curve == 'same' else pycurve(x, py, name)[1]
        P = pypoint(x, py, c, C2, q)
        R = Refs(x, py, m, P, sig, SS, CV, C2, M)
        t = py.method(sig, 'Verify', P, m)
        R.kept('Verify')
        low = lambda v: simp(z3.Extract(n.bit_length() - 1, 0, v))
        want = S.verify(low(rr), low(s_), S.e(hb), q)
        x.check(z3.BoolVal(not exc(t) and py.kind(t) == 'bool'), 'Verify: not a truth value')
        x.check(want if py.is_true(t) else z3.Not(want), 'Verify: wrong answer')
        hashed_ok(x, py, M, 1)
        py.sweep()
        x.reach()
    return h


def foreignkey(name, other, k):
    """a public key on another curve verifies nothing"""
    def h(x):
        py, c, CV, hb, M, SS = setup(x, name, 1)
        x.ctx['dl_off'] = True
        r, s = x.sym('r', 2), x.sym('s', 2)
        x.assume(z3.And(bv(r, 8) != 0, bv(s, 8) != 0))
        sig = py.new('ECDSASignature', SS, py.bytes([simp(bv(r, 8)), simp(bv(s, 8))]))
        x.check(z3.BoolVal(not exc(sig)), 'a signature is refused')
        c2, C2 = pycurve(x, py, other)
        x.ctx['dl_off'] = True
        P = pypoint(x, py, c2, C2, k)
        t = py.method(sig, 'Verify', P, py.bytes(MSG))
        x.check(z3.BoolVal(exc(t) or not py.is_true(t)), 'a key on another curve verifies a signature')
        x.reach()
    return h


def imported(L, text, name='ws19'):
    """signatures from arbitrary bytes: accepted iff two numbers in [1, n)"""
    def h(x):
        py, c, CV, hb, M, SS = setup(x, name, 1)
        n = c['n']
        bs = [x.sym('b%d' % i, 8) for i in range(L)]
        if text:
            cs = [simp(z3.If(z3.ULE(v, 9), v + 0x30, v + 0x37)) for b in bs for v in (z3.ZeroExt(4, z3.Extract(7, 4, bv(b, 8))), z3.ZeroExt(4, z3.Extract(3, 0, bv(b, 8))))]
            o = py.str(cs)
        else:
            o = py.bytes(bs)
        R = Refs(x, py, o, SS)
        sig = py.new('ECDSASignature', SS, o)
        R.kept('construction')
        py.decref(o)
        ok = z3.And(*[z3.And(bv(b, 8) != 0, z3.ULT(bv(b, 8), n)) for b in bs]) if L == 2 else z3.BoolVal(False)
        if exc(sig):
            x.check(z3.Not(ok), 'a signature is refused')
        else:
            x.check(ok, 'something that is no signature is accepted')
            py.decref(SS), py.decref(CV)
            b = py.method(sig, 'AsBytes')
            x.check(z3.And(*[bv(u, 8) == bv(v, 8) for u, v in zip(py.data(b), bs)]), 'AsBytes is not what was given')
            t = py.str_of(sig)
            H = py.text(t)
            x.check(z3.BoolVal(len(H) == 4), 'str: wrong length')
            for i, u in enumerate(H):
                nib = bv(z3.Extract(7, 4, bv(bs[i // 2], 8)) if i % 2 == 0 else z3.Extract(3, 0, bv(bs[i // 2], 8)), 8)
                x.check(bv(u, 8) == z3.If(z3.ULE(nib, 9), nib + 0x30, nib + 0x37), 'str: not the hexadecimal digits')
            if simp(H[0]) == 0x30 if not is_z3(simp(H[0])) else False:
                pass
            x.check(z3.BoolVal(not exc(py.repr(sig)) if x.native else True), 'repr fails')
            py.decref(sig)
        py.sweep()
        x.reach()
    return h


def standard(name, how):
    """signatures over standard curves: any two numbers below the order, given as bytes or text, come back out"""
    import c17
    d = c17.TABLE[name]
    n, nb = d['n'], (d['n'].bit_length() + 7) // 8

    def h(x):
        py = make(x)
        CV = py.new('ECurve', py.str(name))
        M = py.module(32, list(range(32)), ())
        SS = py.new('ECDSASignatureScheme', CV, M)
        x.check(z3.BoolVal(not exc(SS)), 'scheme refused')
        W = 8 * nb
        r, s = x.sym('r', W), x.sym('s', W)
        z = 1 << (W - 8)
        for v, k in ((r, how[0]), (s, how[1])):
            # lengths of the numbers are paths of their own
            x.assume(z3.UGE(bv(v, W), z >> 8) if k == 'long' else z3.And(z3.ULT(bv(v, W), 1 << 64), z3.UGE(bv(v, W), 1 << 56)) if k == 'short' else bv(v, W) == 0)
        bs = [simp(z3.Extract(W - 8 * i - 1, W - 8 * i - 8, bv(v, W))) for v in (r, s) for i in range(nb)]
        o = py.bytes(bs)
        sig = py.new('ECDSASignature', SS, o)
        py.decref(o)
        ok = z3.And(*[z3.And(bv(v, W) != 0, z3.ULT(bv(v, W), n)) for v in (r, s)])
        if exc(sig):
            x.check(z3.Not(ok), 'a signature is refused')
        else:
            x.check(ok, 'something that is no signature is accepted')
            py.decref(SS), py.decref(CV)
            b = py.data(py.method(sig, 'AsBytes'))
            x.check(z3.BoolVal(len(b) == 2 * nb), 'AsBytes: wrong length')
            x.check(z3.And(*[bv(u, 8) == bv(v, 8) for u, v in zip(b, bs)]), 'AsBytes is not what was given')
            H = py.text(py.str_of(sig))
            x.check(z3.BoolVal(len(H) == 4 * nb), 'str: wrong length')
            nib = [bv(u, 8) for v in bs for u in (z3.LShR(bv(v, 8), 4), bv(v, 8) & 15)]
            x.check(z3.And(*[bv(u, 8) == z3.If(z3.ULE(v, 9), v + 0x30, v + 0x37) for u, v in zip(H, nib)]), 'str: not the hexadecimal digits')
            py.decref(sig)
        py.sweep()
        x.reach()
    return h


def hexcase():
    """any four characters: accepted iff hexadecimal digits of two numbers in range"""
    def h(x):
        py, c, CV, hb, M, SS = setup(x, 'ws19', 1)
        n = c['n']
        cs = [x.sym('c%d' % i, 8) for i in range(4)]
        for v in cs:
            x.assume(z3.And(z3.ULT(bv(v, 8), 0x80), bv(v, 8) != 0))
        dig = lambda v: z3.Or(z3.And(z3.UGE(v, 0x30), z3.ULE(v, 0x39)), z3.And(z3.UGE(v | 0x20, 0x61), z3.ULE(v | 0x20, 0x66)))
        val = lambda v: z3.If(z3.ULE(v, 0x39), v - 0x30, (v | 0x20) - 0x57)
        cs = [bv(v, 8) for v in cs]
        r, s = val(cs[0]) * 16 + val(cs[1]), val(cs[2]) * 16 + val(cs[3])
        ok = z3.And(*[dig(v) for v in cs], r != 0, s != 0, z3.ULT(r, n), z3.ULT(s, n))
        sig = py.new('ECDSASignature', SS, py.str([simp(v) for v in cs]))
        x.check(z3.Not(ok) if exc(sig) else ok, 'text taken as a signature although it is none, or the reverse')
        x.reach()
    return h


def nul(hx):
    """an embedded zero does not hide what follows it"""
    def h(x):
        py, c, CV, hb, M, SS = setup(x, 'ws19', 1)
        b = x.sym('b', 7)
        for tail in ([0], [0, simp(bv(b, 8)) if x.native else bv(b, 8)]):
            x.check(z3.BoolVal(exc(py.new('ECDSASignature', SS, py.str([ord(v) for v in hx] + tail)))), 'text with an embedded zero is accepted')
        x.check(z3.BoolVal(not exc(py.new('ECDSASignature', SS, py.str(hx)))), 'a signature is refused')
        x.reach()
    return h


def life(name, ops):
    """results stay usable when everything they came from has been released (real code)"""
    def h(x):
        j = x.sym('z', 2)
        j = simp(j) if x.native else x.concretize(j, 2)
        py, c, CV, hb, M, SS = setup(x, name, 1, hb=[0x20 + j])
        x.ctx['dl_off'] = True
        S = Spec(c)
        set_draws(x, [[k for k in range(3, c['n']) if simp(S.sign(k, S.e(hb), 2)[0])][0]], c['n'])
        m = py.bytes(MSG)
        if ops == 'sign':
            sig = py.method(SS, 'Sign', py.int(2), m)
        elif ops == 'fe':
            K = py.new('FieldElement', py.int(2), py.int(c['n']))
            sig = py.method(SS, 'Sign', K, m)
            py.decref(K)
        else:
            b = py.bytes([1, 2])
            sig = py.new('ECDSASignature', SS, b)
            py.decref(b)
        x.check(z3.BoolVal(not exc(sig)), 'no signature')
        P = pypoint(x, py, c, CV, 2)
        for o in (M, CV, SS):
            py.decref(o)
        for r in (py.method(sig, 'AsBytes'), py.str_of(sig), py.repr(sig)):
            x.check(z3.BoolVal(not exc(r)), 'a signature cannot be used')
        t = py.method(sig, 'Verify', P, m)
        x.check(z3.BoolVal(not exc(t) and py.kind(t) == 'bool'), 'a signature cannot be used')
        if ops != 'import':
            x.check(z3.BoolVal(py.is_true(t)), 'own signature rejected')
        py.decref(P), py.decref(sig), py.decref(m)
        py.sweep()
        x.reach()
    return h


def brokenmod(what):
    """a module that is no hash module: an exception"""
    def h(x):
        py = make(x)
        c, CV = pycurve(x, py, 'ws19')
        hb = [x.sym('h0', 8)]
        if what == 'size':
            S, neg, m = integer(x, py, 's', 3)
            size = None
        size, br = {'missing': (None, ()), 'zero': (0, ()), 'negative': (-1, ()), 'short': (2, ()), 'long': (1, ()), 'huge': (1 << 70, ()), 'nhuge': (-(1 << 70), ())}.get(what, (1, (what,)))
        if what == 'long':
            hb = hb + [7]
        M = py.module(size, hb, br)
        R = Refs(x, py, CV, M)
        s = py.new('ECDSASignatureScheme', CV, M)
        R.kept('construction')
        x.check(z3.BoolVal(exc(s)), 'a module that is no hash module is accepted')
        py.sweep()
        x.reach()
    return h


def wrong(what, kind):
    """wrong types: exceptions"""
    def h(x):
        py, c, CV, hb, M, SS = setup(x, 'ws19', 1)
        n = c['n']
        set_draws(x, [2] * 8, n)
        o = py.badstr() if kind == 'badstr' else py.other(kind)
        m, i = py.bytes(MSG), py.int(3)
        P = pypoint(x, py, c, CV, logarithm(x, 'q', n))
        sig = py.new('ECDSASignature', SS, py.bytes([3, 4]))
        E = py.new('ECElgamalCiphertext', P, P)
        x.check(z3.BoolVal(not exc(sig) and not exc(E)), 'construction')
        R = Refs(x, py, o, m, P, sig, E, SS, CV, M)
        msg = kind not in ('str', 'bytes')          # a string or bytes is a message
        rs = {
            'scheme': lambda: [py.new('ECDSASignatureScheme', CV, o), py.new('ECDSASignatureScheme', o, M), py.new('ECDSASignatureScheme', CV), py.new('ECDSASignatureScheme', P, M)],
            'sign': lambda: [py.method(SS, 'Sign', o, m), py.method(SS, 'Sign', P, m), py.method(SS, 'Sign', i)] + ([py.method(SS, 'Sign', i, o), py.method(SS, 'Sign', i, i)] if msg else []),
            'verify': lambda: [py.method(sig, 'Verify', o, m), py.method(sig, 'Verify', i, m), py.method(sig, 'Verify', P)] + ([py.method(sig, 'Verify', P, o), py.method(sig, 'Verify', P, i)] if msg else []),
            'import': lambda: [py.new('ECDSASignature', o, m), py.new('ECDSASignature', SS, o), py.new('ECDSASignature', SS), py.new('ECDSASignature', SS, i), py.new('ECDSASignature', CV, m)],
            'cipher': lambda: [py.new('ECElgamalCiphertext', o, P), py.new('ECElgamalCiphertext', P, o), py.new('ECElgamalCiphertext', P)],
            'encrypt': lambda: [py.method('ECElgamalCiphertext', 'encrypt', o, P), py.method('ECElgamalCiphertext', 'encrypt', P, o), py.method('ECElgamalCiphertext', 'encrypt', P)],
            'decrypt': lambda: [py.method(E, 'decrypt', o), py.method(E, 'decrypt', P)],
        }[what]()
        for r in rs:
            x.check(z3.BoolVal(exc(r)), what + ': wrong arguments accepted')
        R.kept(what)
        py.sweep()
        x.reach()
    return h


def wrongkey(p):
    """a secret key that is no element of the scalar field"""
    def h(x):
        py, c, CV, hb, M, SS = setup(x, 'ws19', 1)
        set_draws(x, [2] * 4, c['n'])
        K, d = element(x, py, 'd', p)
        P = pypoint(x, py, c, CV, logarithm(x, 'q', c['n']))
        E = py.new('ECElgamalCiphertext', P, P)
        m = py.bytes(MSG)
        R = Refs(x, py, K, m, E, SS)
        x.check(z3.BoolVal(exc(py.method(SS, 'Sign', K, m))), 'Sign with a key in another field')
        x.check(z3.BoolVal(exc(py.method(E, 'decrypt', K))), 'decrypt with a key in another field')
        R.kept('Sign')
        x.reach()
    return h


def empty(text):
    """the empty message cannot be signed (the library's limit): an exception, and no signature verifies it"""
    def h(x):
        py, c, CV, hb, M, SS = setup(x, 'ws19', 1)
        set_draws(x, [2] * 4, c['n'])
        r, s = x.sym('r', 4), x.sym('s', 4)
        x.assume(z3.And(r != 0, s != 0))
        m = py.str('') if text else py.bytes(b'')
        t = py.method(SS, 'Sign', py.int(3), m)
        x.check(z3.BoolVal(exc(t) and t.kind != 'SystemError'), 'signing the empty message: neither a signature nor a proper exception')
        sig = py.new('ECDSASignature', SS, py.bytes([simp(bv(r, 8)), simp(bv(s, 8))]))
        P = pypoint(x, py, c, CV, logarithm(x, 'q', c['n']))
        t = py.method(sig, 'Verify', P, m)
        x.check(z3.BoolVal(exc(t) or not py.is_true(t)), 'the empty message verifies')
        x.reach()
    return h


def cipher(name, second, drop):
    """a ciphertext made of two points gives them back"""
    def h(x):
        py = make(x)
        c, CV = pycurve(x, py, name)
        CV2 = CV if second == 'same' else pycurve(x, py, name if second == 'equal' else second)[1]
        n = c['n']
        a, b = logarithm(x, 'a', n), logarithm(x, 'b', n)
        A = pypoint(x, py, c, CV, a)
        B = pypoint(x, py, c, CV2, b) if second in ('same', 'equal') else py.new('ECPoint', CV2)
        R = Refs(x, py, A, B, CV, CV2)
        E = py.new('ECElgamalCiphertext', A, B)
        R.kept('construction')
        if second not in ('same', 'equal'):
            x.check(z3.BoolVal(exc(E)), 'points of different curves make a ciphertext')
            set_draws(x, [2], n)
            x.check(z3.BoolVal(exc(py.method('ECElgamalCiphertext', 'encrypt', A, B))), 'a point of another curve is encrypted')
            R.kept('encryption')
            x.reach()
            return
        x.check(z3.BoolVal(not exc(E)), 'ciphertext refused')
        if drop:
            for o in (A, B, CV2) + ((CV,) if second == 'equal' else ()):
                py.decref(o)
        for att, v in (('C', a), ('D', b)):
            P = py.getattr(E, att)
            if drop:
                Q = py.getattr(E, att)
                py.decref(Q)
            K = pycurve(x, py, name)[1] if x.native else None
            same_point(x, py, P, c, K, v, att)
        for q in ('c', 'CD', '', 'E'):
            x.check(z3.BoolVal(exc(py.getattr(E, q))), 'unknown attribute found')
        py.decref(E)
        py.sweep()
        x.reach()
    return h


def encrypt(name, key, bits=0, second=False):
    """encrypt gives (kG, M + kY); decrypt undoes it, and computes D - dC for any key"""
    def h(x):
        py = make(x)
        c, CV = pycurve(x, py, name)
        CV2 = pycurve(x, py, name)[1] if second else CV
        n = c['n']
        L = n.bit_length()
        W = 2 * L + 4
        k, m = logarithm(x, 'k', n), logarithm(x, 'm', n)
        x.assume(bv(k, 8) != 0)
        y = logarithm(x, 'y', n)
        Y, P = pypoint(x, py, c, CV, y), pypoint(x, py, c, CV2, m)
        set_draws(x, [k], n)
        R = Refs(x, py, Y, P, CV, CV2)
        E = py.method('ECElgamalCiphertext', 'encrypt', Y, P)
        R.kept('encrypt')
        x.check(z3.BoolVal(py.kind(E) == 'ECElgamalCiphertext'), 'encrypt fails')
        mod = lambda v: z3.URem(bv(v, W), bv(n, W))
        low = lambda v: simp(z3.Extract(L - 1, 0, v))
        D = mod(bv(m, W) + mod(bv(k, W) * bv(y, W)))
        same_point(x, py, py.getattr(E, 'C'), c, CV, k, 'C')
        same_point(x, py, py.getattr(E, 'D'), c, CV, low(D), 'D')
        if key == 'fe':
            K, d = element(x, py, 'd', n)
        else:
            K, neg, mm = integer(x, py, 'd', bits)
            d = residue(x, neg, mm, n)
        d = bv(simp(d), W) if d.size() <= W else simp(z3.Extract(W - 1, 0, d))
        R = Refs(x, py, K, E)
        r = py.method(E, 'decrypt', K)
        R.kept('decrypt')
        if exc(r):
            x.check(z3.BoolVal(key == 'int' and bits >= 2048), 'decrypt fails')
            x.reach()
            return
        x.check(z3.BoolVal(not (key == 'int' and bits >= 2048)), 'decrypt with an integer beyond the limit gives a result')
        py.decref(E)
        want = mod(D + n - mod(d * bv(k, W)))
        same_point(x, py, r, c, CV, low(want), 'decrypt')
        if not exc(r):
            x.check(z3.Implies(d == bv(y, W), want == bv(m, W)), 'decryption does not undo encryption')
        py.decref(r)
        py.sweep()
        x.reach()
    return h


def cipherlife(name, how, ks, equal):
    """real code: ciphertexts and what comes out of them outlive everything they came from"""
    def h(x):
        py = make(x)
        c, CV = pycurve(x, py, name)
        x.ctx['dl_off'] = True
        CV2 = pycurve(x, py, name)[1] if equal else CV
        A, B = pypoint(x, py, c, CV, ks[0]), pypoint(x, py, c, CV2, ks[1])
        set_draws(x, [2], c['n'])
        E = py.new('ECElgamalCiphertext', A, B) if how == 'make' else py.method('ECElgamalCiphertext', 'encrypt', A, B)
        for o in (A, B, CV) + ((CV2,) if equal else ()):
            py.decref(o)
        x.check(z3.BoolVal(py.kind(E) == 'ECElgamalCiphertext'), 'no ciphertext')
        j = x.sym('z', 2)
        i = simp(j) if x.native else x.concretize(j, 2)
        outs = [py.getattr(E, 'C'), py.getattr(E, 'D'), py.method(E, 'decrypt', py.int(1 + i))]
        for r in (py.str_of(E), py.repr(E)):
            x.check(z3.BoolVal(not exc(r)), 'a ciphertext cannot be used')
        if i < 3:
            # the text names the two points
            sc, sd = [bytes(v if isinstance(v, int) else simp(v) for v in py.text(py.str_of(o))) for o in outs[:2]]
            t = bytes(v if isinstance(v, int) else simp(v) for v in py.text(py.str_of(E)))
            x.check(z3.BoolVal(t == b'(' + sc + b', ' + sd + b')'), 'str of a ciphertext: wrong text')
        py.decref(E)
        for r in outs:
            x.check(z3.BoolVal(py.kind(r) == 'ECPoint'), 'no point')
            use(x, py, r)
            py.decref(r)
        py.sweep()
        x.reach()
    return h


def rt(name, fn, **kw):
    if kw.get('real'):
        kw.setdefault('stubs', {'mpz_urandom': random_source(None, more_draws)})
    return pt(name, fn, native=pynative_random, **kw)


def tasks(tier):
    out = []
    quick = tier == 'quick'
    wide = lambda b: (lambda: gmpsym.Kernel(max(64, b + 64)))
    for name in ('ws19', 'te41') if quick else CURVES:
        out.append(rt('sign/%s/element' % name, sign(name, 1, 'fe'), weight=9))
        out.append(rt('verify/%s' % name, verify(name, 1, name == 'te41', 'equal' if name == 'te41' else 'same'), weight=9))
        if not quick:
            out.append(rt('verify/%s/equal curve' % name, verify(name, 1, True, 'equal'), weight=9))
        for other in ('mo41', 'ws19' if name != 'ws19' else 'ws23'):
            for k in (0, 2):
                out.append(rt('verify/%s/key on %s/%d' % (name, other, k), foreignkey(name, other, k), real=True))
    for b in (1, 3, 4) if quick else (0, 1, 2, 3, 4, 5, 6, 8):
        out.append(rt('sign/te41/int %d' % b, sign('te41', 1, 'int', b), weight=5))
    out.append(rt('sign/te41/verified', sign('te41', 1, 'fe', ver=True), weight=9))
    out.append(rt('sign/mo31/verified', sign('mo31', 1, 'fe', ver=True), weight=9))
    for b in (2048, 2055, 2100):
        out.append(rt('sign/ws19/int %d' % b, sign('ws19', 1, 'int', b), gmp=wide(b)))
        out.append(rt('encrypt/ws19/int %d' % b, encrypt('ws19', 'int', b), gmp=wide(b)))
    out.append(rt('sign/te41/text', sign('te41', 1, 'fe', text=True, ver=True), weight=9))
    out.append(rt('sign/te41/released', sign('te41', 1, 'fe', drop=True), weight=9))
    out.append(rt('sign/te41/2 bytes', sign('te41', 2, 'fe'), weight=9))
    for L in (0, 1, 2, 3):
        for t in (False, True):
            out.append(rt('import/%d%s' % (L, '/text' if t else ''), imported(L, t)))
    out.append(rt('import/characters', hexcase(), weight=9))
    out.append(rt('import/zero', nul('0102')))
    for name in ('secp112r1', 'secp160k1', 'secp256k1', 'secp521r1', 'Ed25519') if quick else ('secp112r1', 'secp112r2', 'secp160k1', 'secp192k1', 'secp224r1', 'secp256k1', 'P384', 'secp521r1', 'E-521', 'E-222', 'Ed25519', 'Curve25519', 'M-511'):
        import c17
        for how in (('long', 'long'), ('short', 'long'), ('long', 'short'), ('zero', 'long'), ('long', 'zero')):
            out.append(rt('standard/%s/%s,%s' % (name, *how), standard(name, how), real=True, gmp=lambda n=(c17.TABLE[name]['bits'] + 63) // 64: gmpsym.UFKernel(n + 1),
                          stubs={'mpECP_scalar_base_mul_setup': lambda ex, a: None, 'mpz_urandom': random_source(None, more_draws)}))
    for name in ('ws19', 'te41', 'mo43') if quick else CURVES:
        for ops in ('sign', 'fe', 'import'):
            out.append(rt('life/%s/%s' % (ops, name), life(name, ops), real=True))
        for how in ('make', 'encrypt'):
            for ks in ((0, 0), (0, 2), (2, 0), (1, 2)) if not quick or name == 'ws19' else ((0, 2), (1, 2)):
                for eq in (False, True):
                    out.append(rt('cipher life/%s/%s/%d,%d%s' % (how, name, *ks, '/equal curve' if eq else ''), cipherlife(name, how, ks, eq), real=True))
    for w in ('missing', 'zero', 'negative', 'short', 'long', 'huge', 'nhuge', 'new-missing', 'new-int', 'size-str', 'new-raises', 'digest-raises', 'digest-str'):
        out.append(rt('module/' + w, brokenmod(w)))
    for w in ('scheme', 'sign', 'verify', 'import', 'cipher', 'encrypt', 'decrypt'):
        for k in OTHERS + (('badstr',) if w in ('sign', 'verify', 'import') else ()):
            out.append(rt('wrong/%s/%s' % (w, k), wrong(w, k)))
    for p in (19, 29, P97, P255):
        out.append(rt('wrong key/%d' % p, wrongkey(p), gmp=lambda p=p: gmpsym.Kernel(64) if p < 1000 else gmpsym.UFKernel(10)))
    for t in (False, True):
        out.append(rt('empty/%s' % t, empty(t)))
    for name in ('ws19', 'te41', 'mo43') if quick else CURVES:
        for s in ('same', 'equal', 'mo41', 'ws23' if name != 'ws23' else 'ws19'):
            for d in (False, True):
                if d and s in ('mo41', 'ws19', 'ws23'):
                    continue
                out.append(rt('cipher/%s/%s%s' % (name, s, '/released' if d else ''), cipher(name, s, d)))
        out.append(rt('encrypt/%s/element' % name, encrypt(name, 'fe')))
        out.append(rt('encrypt/%s/equal curve' % name, encrypt(name, 'fe', second=True)))
        for b in (0, 1, 4) if quick else (0, 1, 2, 3, 4, 5, 6, 8):
            out.append(rt('encrypt/%s/int %d' % (name, b), encrypt(name, 'int', b)))
    return out
