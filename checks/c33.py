"""C33 points and curves of the Python binding."""
from hpycv import *

BOUNDS = 'groups of order 7 to 23 on curves of the four types over fields of 5 and 6 bits: every pair of points, every scalar as an element of the scalar field, integer scalars of either sign below the order ' \
         'and of the listed lengths up to 2100 bits; operands on the same curve object, an equal one, another curve; every pair of coordinates; byte strings up to 3 bytes; eight unrelated types everywhere; encodings on standard curves of 112 to 521 bits'
OUTSIDE = 'subclasses; objects made by __new__ without __init__; memory leaks; running out of memory'
ASSUMES = ['the CPython 3.12 API functions behave as documented (modelled; replay runs the real interpreter)', 'group arithmetic of the library: C11 to C18 (replaced by exact arithmetic on logarithms, except in lifetime tasks)']
CURVES = ('ws19', 'ws23', 'ed43', 'te41', 'mo43')


def two(op, name, second):
    """A op B; operands and curves are released before the result is used"""
    def h(x):
        py = make(x)
        c, CV = pycurve(x, py, name)
        CV2 = CV if second == 'same' else pycurve(x, py, name if second == 'equal' else second)[1]
        a, b = logarithm(x, 'a', c['n']), logarithm(x, 'b', c['n'])
        A = pypoint(x, py, c, CV, a)
        if second in ('same', 'equal'):
            B = pypoint(x, py, c, CV2, b)
        else:
            B = py.new('ECPoint', CV2)
        R = Refs(x, py, A, B, CV, CV2)
        r = py.binop(op, A, B)
        R.kept(op)
        if second not in ('same', 'equal'):
            x.check(z3.BoolVal(exc(r)), 'points of different curves are combined')
            for o, want in (('==', False), ('!=', True)):
                t = py.cmp(o, A, B)
                x.check(z3.BoolVal(not exc(t) and py.is_true(t) == want), 'points of different curves compare equal')
            x.reach()
            return
        n = c['n']
        W = 2 * n.bit_length()
        want = z3.URem(bv(a, W) + (bv(b, W) if op == '+' else n - bv(b, W)), bv(n, W))
        same_point(x, py, r, c, CV, simp(z3.Extract(n.bit_length() - 1, 0, want)), op)
        x.check(z3.BoolVal(not exc(r)) if x.native else bv(dl_get(x, x.padd(A, 16)), 8) == bv(a, 8), op + ' changed its operand')
        eq, ne = py.cmp('==', A, B), py.cmp('!=', A, B)
        x.check(bv(a, 8) == bv(b, 8) if py.is_true(eq) else bv(a, 8) != bv(b, 8), '==: wrong answer')
        x.check(z3.BoolVal(py.is_true(ne) != py.is_true(eq)), '!=: wrong answer')
        for o in ('<', '<=', '>', '>='):
            x.check(z3.BoolVal(exc(py.cmp(o, A, B))), 'points are ordered')
        x.reach()
    return h


def mul(name, how, bits, left):
    def h(x):
        py = make(x)
        c, CV = pycurve(x, py, name)
        n = c['n']
        a = logarithm(x, 'a', n)
        A = pypoint(x, py, c, CV, a)
        W = 2 * n.bit_length() + 2
        if how == 'int':
            S, neg, m = integer(x, py, 'k', bits)
            if bits:
                if bits > n.bit_length():
                    x.assume(z3.BoolVal(bits >= 2048))
                else:
                    x.assume(z3.ULT(bv(m, 16), n))
            k = bv(m, W) if bits <= n.bit_length() else None
            neg = z3.BoolVal(neg) if isinstance(neg, bool) else neg
        else:
            k = logarithm(x, 'k', n)
            S = py.new('FieldElement', py.int(1), py.int(n))
            if x.native:
                S = py.new('FieldElement', py.int(k), py.int(n))
            else:
                x.st(x.ld(S, 24, 8), 0, 8, bv(k, 64))
                x.st(S, 20, 4, simp(z3.If(k == 0, z3.BitVecVal(0, 32), z3.BitVecVal(1, 32)))) if False else None
            neg, k = z3.BoolVal(False), bv(k, W)
        R = Refs(x, py, A, S, CV)
        r = py.binop('*', A, S) if left else py.binop('*', S, A)
        R.kept('*')
        if exc(r):
            x.check(z3.BoolVal(how == 'int' and bits >= 2048), 'multiplication fails')
            x.reach()
            return
        if k is None:
            x.check(z3.BoolVal(False), 'multiplication by an integer beyond the limit gives a result')
            return
        v = z3.URem(bv(a, W) * k, bv(n, W))
        v = z3.If(z3.And(neg, v != 0), n - v, v)
        same_point(x, py, r, c, CV, simp(z3.Extract(n.bit_length() - 1, 0, v)), '*')
        x.reach()
    return h


def neg(name):
    def h(x):
        py = make(x)
        c, CV = pycurve(x, py, name)
        n = c['n']
        a = logarithm(x, 'a', n)
        A = pypoint(x, py, c, CV, a)
        r = py.neg(A)
        same_point(x, py, r, c, CV, simp(z3.If(a == 0, a, n - a)), 'negation')
        py.decref(A)
        py.decref(CV)
        if not exc(r):
            t = py.method(r, 'affine')
            x.check(z3.BoolVal(py.kind(t) == 'tuple'), 'affine: not a pair')
            I = py.items(t)
            x.check(z3.BoolVal(len(I) == 2), 'affine: not a pair')
            T = c['T']
            for j in (0, 1):
                s, v = py.intval(I[j])
                x.check(z3.BoolVal(s is False), 'affine: negative coordinate')
                want = pick([(T[(n - i) % n] or (0, 0))[j] for i in range(n)], a if not x.native else simp(a), 16)
                z = z3.BoolVal(False) if c['T'][0] is not None else (a == 0)
                x.check(z3.Or(z, bv(v, 16) == bv(want, 16)), 'affine: wrong coordinate')
        x.reach()
    return h


def life(what, name, ks, second):
    """real code throughout: a result stays usable when everything it came from has been released"""
    def h(x):
        py = make(x)
        c, CV = pycurve(x, py, name)
        x.ctx['dl_off'] = True
        CV2 = pycurve(x, py, name)[1] if second else CV
        A, B = pypoint(x, py, c, CV, ks[0]), pypoint(x, py, c, CV2, ks[1])
        k = x.sym('k', 3)
        if what == 'base':
            x.assume(z3.Or(bv(k, 8) == 0, bv(k, 8) == 5))
        k = simp(k) if x.native else x.concretize(k, 3)
        for v in range(8):
            if k == v:
                S = py.int(v - 3)
        if what in '+-':
            R = py.binop(what, A, B)
        elif what == '*':
            R = py.binop('*', A, S)
        elif what == 'neg':
            R = py.neg(A)
        elif what == 'base':
            x.check(z3.BoolVal(not exc(py.method(A, 'setup_basemult'))), 'setup fails')
            R = py.binop('*', A, S)
        py.decref(B)
        if second:
            py.decref(CV2)
        py.decref(A)
        py.decref(CV)
        use(x, py, R)
        py.decref(R)
        py.sweep()
        x.reach()
    return h


def construct(name, how, bits=(6, 6)):
    """the point with the given coordinates"""
    def h(x):
        py = make(x)
        c, CV = pycurve(x, py, name)
        p, n = c['p'], c['n']
        x.ctx['dl_off'] = True
        if how == 'ints':
            X, nx, mx = integer(x, py, 'x', bits[0])
            Y, ny, my = integer(x, py, 'y', bits[1])
            rx, ry = residue(x, nx, mx, p), residue(x, ny, my, p)
        else:
            X, rx = element(x, py, 'x', 47 if how in ('foreign', 'foreign x') else p)
            Y, ry = element(x, py, 'y', 47 if how in ('foreign', 'foreign y') else p)
        R = Refs(x, py, X, Y, CV)
        P = py.new('ECPoint', CV, py.tuple([X, Y]))
        R.kept('construction')
        if exc(P):
            x.check(z3.BoolVal(how == 'ints' and max(bits) >= 2048 or how.startswith('foreign')), 'coordinates refused')
            x.reach()
            return
        x.check(z3.BoolVal(not how.startswith('foreign')), 'coordinates in another field accepted')
        py.decref(X)
        py.decref(Y)
        t = py.method(P, 'affine')
        I = py.items(t)
        for o, w in zip(I, (rx, ry)):
            s, v = py.intval(o)
            x.check(z3.And(z3.BoolVal(s is False), bv(v, 64) == bv(w, 64)), 'wrong coordinate')
        ok = py.method(CV, 'PointIsValid', *I)
        x.check(z3.BoolVal(py.kind(ok) == 'bool'), 'PointIsValid is not a truth value')
        on = eqn_term(c, rx, ry)
        x.check(on if py.is_true(ok) else z3.Not(on), 'PointIsValid: wrong answer')
        x.reach()
    return h


def eqn_term(c, X, Y):
    W = 40
    X, Y, p, a, b = bv(X, W), bv(Y, W), c['p'], c['a'], c['b']
    m = lambda t: z3.URem(t, bv(p, W))
    x2, y2 = m(X * X), m(Y * Y)
    k = c['kind']
    if k == 'ws':
        return y2 == m(m(x2 * X) + m(bv(a % p, W) * X) + b % p)
    if k == 'mo':
        return m(bv(a % p, W) * y2) == m(m(x2 * X) + m(bv(b % p, W) * x2) + X)
    xy = m(x2 * y2)
    if k == 'ed':
        return m(x2 + y2) == m(a * a % p * (1 + m(bv(b % p, W) * xy)))
    return m(m(a % p * x2) + y2) == m(1 + m(bv(b % p, W) * xy))


def valid_sizes(bits):
    def h(x):
        py = make(x)
        c, CV = pycurve(x, py, 'ws19')
        X, nx, mx = integer(x, py, 'x', bits)
        t = py.method(CV, 'PointIsValid', X, py.int(3))
        for r in (t,):
            neg = nx if isinstance(nx, bool) else x.branch(nx)
            x.check(z3.BoolVal(neg or bits >= 2048 or not exc(r)), 'PointIsValid fails')
        x.reach()
    return h


def trailing(name):
    """an embedded zero does not hide what follows it"""
    def h(x):
        py = make(x)
        c, CV = pycurve(x, py, name)
        x.ctx['dl_off'] = True
        P = pypoint(x, py, c, CV, 2)
        t = [v if isinstance(v, int) else simp(v) for v in py.text(py.str_of(P))]
        b = x.sym('b', 7)
        for tail in ([0], [0, simp(bv(b, 8)) if x.native else bv(b, 8)]):
            x.check(z3.BoolVal(exc(py.new('ECPoint', CV, py.str(t + tail)))), 'text with an embedded zero is accepted')
        x.check(z3.BoolVal(not exc(py.new('ECPoint', CV, py.str(t)))), 'own encoding refused')
        x.reach()
    return h


def encoded(name, L, text):
    """a point from L arbitrary bytes"""
    def h(x):
        py = make(x)
        c, CV = pycurve(x, py, name)
        x.ctx['dl_off'] = True
        bs = [x.sym('b%d' % i, 8) for i in range(L)]
        if L == 3:
            x.assume(bv(bs[0], 8) == 4)
        if text:
            ch = lambda v: simp(z3.If(z3.ULE(v, 9), v + 0x30, v + 0x37))
            cs = [ch(z3.ZeroExt(4, z3.Extract(h, l, bv(b, 8)))) for b in bs for h, l in ((7, 4), (3, 0))]
            S = py.str(cs)
        else:
            S = py.bytes(bs)
        R = Refs(x, py, S, CV)
        P = py.new('ECPoint', CV, S)
        R.kept('construction')
        py.decref(S)
        if L == 3:
            ok = z3.And(z3.ULT(bv(bs[1], 8), c['p']), z3.ULT(bv(bs[2], 8), c['p']), eqn_term(c, bs[1], bs[2]))
        elif L == 2:
            return x.reach() if not exc(P) else x.reach()
        else:
            ok = z3.BoolVal(False)
        if exc(P):
            x.check(z3.Not(ok), 'the encoding of a point is refused')
        else:
            x.check(ok, 'something that encodes no point is accepted')
            u = py.method(P, 'uncompressed')
            x.check(z3.BoolVal(py.kind(u) == 'bytes' and len(py.data(u)) == 3), 'uncompressed: wrong type or length')
            for a, b in zip(py.data(u), bs):
                x.check(bv(a, 8) == bv(b, 8), 'uncompressed: another encoding')
        x.reach()
    return h


def textual(name, k):
    """str, compressed and uncompressed agree; the representation names curve and point"""
    def h(x):
        py = make(x)
        c, CV = pycurve(x, py, name)
        x.ctx['dl_off'] = True
        P = pypoint(x, py, c, CV, k)
        s = py.str_of(P)
        b = py.method(P, 'compressed')
        d = [v if isinstance(v, int) else simp(v) for v in py.data(b)]
        tx = [v if isinstance(v, int) else simp(v) for v in py.text(s)]
        x.check(z3.BoolVal(bytes(tx).lower() == bytes(d).hex().encode()), 'str is not the compressed encoding')
        for o in (s, b):
            Q = py.new('ECPoint', CV, o)
            x.check(z3.BoolVal(not exc(Q) and py.is_true(py.cmp('==', Q, P))), 'own encoding gives another point')
        r, rc = py.repr(P), py.repr(CV)
        want = b'ECC.ECPoint(' + flat(x, py, rc) + b", '" + bytes(tx) + b"')"
        x.check(z3.BoolVal(flat(x, py, r) == want), 'repr: wrong text')
        x.check(z3.BoolVal(flat(x, py, rc) == ('ECC.ECurve.%s(%s)' % (CTOR[c['kind']], ', '.join(map(str, params(c))))).encode()), 'repr of the curve: wrong text')
        j = x.sym('z', 1)
        x.check(z3.ULE(bv(j, 8), 1), 'encoding')
        x.reach()
    return h


def flat(x, py, s):
    out = b''
    if x.native:
        return bytes(py.text(s))
    for t in py.tokens(s):
        out += bytes(t) if isinstance(t, list) else (b'-' if t[0] else b'') + str(simp(t[1]) if is_z3(t[1]) else t[1]).encode()
    return out


def wrong(what, kind):
    """wrong types: exceptions"""
    def h(x):
        py = make(x)
        c, CV = pycurve(x, py, 'ws19')
        k = logarithm(x, 'k', c['n'])
        A = pypoint(x, py, c, CV, k)
        o = py.badstr() if kind == 'badstr' else py.str([0x30, 0x30, 0]) if kind == 'nulstr' else py.other(kind)
        R = Refs(x, py, A, CV, o)
        i = py.int(3)
        rs = {
            'ops': lambda: [py.binop(op, *p) for op in '+-*' for p in ((A, o), (o, A))] + [py.binop('+', A, i), py.binop('-', A, i), py.binop('-', i, A), py.binop('*', A, A), py.binop('+', A, CV), py.binop('*', CV, A)],
            'order': lambda: [py.cmp(op, A, o) for op in ('<', '>')],
            'point': lambda: [py.new('ECPoint', o), py.new('ECPoint', CV, py.tuple([o, o])), py.new('ECPoint', CV, py.tuple([i, o])), py.new('ECPoint', CV, py.tuple([o, i])),
                              py.new('ECPoint', CV, py.tuple([i])), py.new('ECPoint', CV, py.tuple([i, i, i])), py.new('ECPoint'), py.new('ECPoint', A)] + [py.new('ECPoint', CV, o)],
            'urandom': lambda: [py.method('ECPoint', 'urandom', o), py.method('ECPoint', 'urandom', A), py.method('ECPoint', 'urandom', i)],
            'curve': lambda: [py.method(CV, 'PointIsValid', o, i), py.method(CV, 'PointIsValid', i, o), py.method(CV, 'PointIsValid', i), py.new('ECurve', o), py.new('ECurve', i), py.new('ECurve')],
            'make': lambda: [py.method('ECurve', m, *[py.int(v) if j != q else o for j, v in enumerate(params(c))]) for m in CTOR.values() for q in range(8)] + [py.method('ECurve', m) for m in CTOR.values()],
        }[what]()
        for r in rs:
            x.check(z3.BoolVal(exc(r)), what + ': wrong arguments accepted')
        for op, want in (('==', False), ('!=', True)):
            for q in (A, CV):
                t = py.cmp(op, q, o)
                x.check(z3.BoolVal(not exc(t) and py.is_true(t) == want), 'comparison with another type')
        R.kept(what)
        x.reach()
    return h


def curve(kind, bad, bits):
    """curves from parameters one of which is arbitrary (of the given length)"""
    def h(x):
        py = make(x)
        c = table({'ws': 'ws19', 'ed': 'ed43', 'te': 'te41', 'mo': 'mo43'}[kind])
        v = [py.int(a) for a in params(c)]
        v[bad], neg, m = integer(x, py, 'v', bits)
        n = neg if isinstance(neg, bool) else x.branch(neg)
        if not n and bits < 1024:
            # (covered with the values in place)
            x.assume(z3.BoolVal(bits == 0 or bad in (4,)))
        CV = py.method('ECurve', CTOR[kind], *v)
        limit = {0: 1024, 3: 1024}.get(bad, 2047)
        if n or bits > limit or bits == 0 and bad in (0, 3):
            x.check(z3.BoolVal(exc(CV)), 'a negative or oversized parameter, or a zero modulus, is accepted')
        if not exc(CV):
            x.check(z3.BoolVal(py.kind(CV) == 'ECurve'), 'not a curve')
        x.reach()
    return h


def standard(name, bits, neg):
    """points of standard curves: every output of the object is made from all of the two coordinates"""
    import c17
    d = c17.TABLE[name]
    p, nb = d['p'], (d['bits'] + 7) // 8

    def h(x):
        py = make(x)
        CV = py.new('ECurve', py.str(name))
        x.check(z3.BoolVal(py.kind(CV) == 'ECurve'), 'curve refused')
        V, I = [], []
        for i, b in enumerate(bits):
            v = x.sym('xy'[i], b)
            x.assume(z3.And(z3.Extract(b - 1, b - 1, bv(v, b)) == 1, z3.ULT(bv(v, 8 * nb), p)))
            w = simp(v) if x.native else v
            # a negative number is taken mod p
            V.append(bv(v, 8 * nb) if not neg else p - bv(v, 8 * nb))
            I.append(py.int(w, neg, b))
        P = py.new('ECPoint', CV, py.tuple(I))
        x.check(z3.BoolVal(py.kind(P) == 'ECPoint'), 'coordinates refused')
        py.decref(CV)
        X, Y = V
        byte = lambda v: [z3.Extract(8 * (nb - i) - 1, 8 * (nb - i - 1), v) for i in range(nb)]
        full = [bv(4, 8)] + byte(X) + byte(Y)
        comp = [z3.ZeroExt(7, z3.Extract(0, 0, Y)) + 2] + byte(X)
        for m, want in (('uncompressed', full), ('compressed', comp)):
            b = py.data(py.method(P, m))
            x.check(z3.BoolVal(len(b) == len(want)), m + ': wrong length')
            x.check(z3.And(*[bv(u, 8) == v for u, v in zip(b, want)]), m + ': not the encoding of the coordinates')
        t = py.text(py.str_of(P))
        x.check(z3.BoolVal(len(t) == 2 * len(comp)), 'str: wrong length')
        dig = lambda n: z3.If(z3.ULE(n, 9), n + 0x30, n + 0x37)
        hx = [dig(n) for v in comp for n in (z3.LShR(v, 4), v & 15)]
        x.check(z3.And(*[z3.Or(bv(u, 8) == v, z3.And(v > 0x40, bv(u, 8) == v + 0x20)) for u, v in zip(t, hx)]), 'str: not the digits of the encoding')
        for o, w in zip(py.items(py.method(P, 'affine')), (X, Y)):
            s, v = py.intval(o)
            x.check(z3.And(z3.BoolVal(s is False), bv(v, 8 * nb + 64) == bv(w, 8 * nb + 64)), 'affine: wrong coordinate')
        py.decref(P)
        py.sweep()
        x.reach()
    return h


def sized(kind, length):
    """the size in bits is any integer: refused when the coordinates do not fit it, working when they do"""
    def h(x):
        py = make(x)
        c = table({'ws': 'ws19', 'ed': 'ed43', 'te': 'te41', 'mo': 'mo43'}[kind])
        v = [py.int(a) for a in params(c)]
        v[7], neg, m = integer(x, py, 'v', length)
        n = neg if isinstance(neg, bool) else x.branch(neg)
        if not n and 0 < length <= 31:
            # at most 24 bits, or so many that no buffer is tried
            x.assume(z3.Or(z3.ULE(bv(m, 40), 24), z3.UGE(bv(m, 40), 1 << 24)))
        CV = py.method('ECurve', CTOR[kind], *v)
        ok = False if n or length in (0,) or length > 31 else None
        if ok is False:
            x.check(z3.BoolVal(exc(CV)), 'a curve whose coordinates do not fit is accepted')
        elif length < 31:
            x.check(z3.BoolVal(not exc(CV)), 'a sufficient size is refused')
        if not exc(CV) and length <= 24:
            x.check(z3.BoolVal(py.kind(CV) == 'ECurve'), 'not a curve')
            if x.branch(z3.ULE(bv(m, 40), 24)):
                P = c['T'][1]
                R = py.new('ECPoint', CV, py.tuple([py.int(P[0]), py.int(P[1])]))
                x.check(z3.BoolVal(py.kind(R) == 'ECPoint'), 'point refused')
                use(x, py, R)
        x.reach()
    return h


def attrs(name):
    """the attributes are the parameters; equality of curves is equality of parameters"""
    def h(x):
        py = make(x)
        c, CV = pycurve(x, py, name)
        _, CV2 = pycurve(x, py, name)
        names = {'ws': 'ab', 'ed': 'cd', 'mo': 'BA', 'te': 'ad'}[c['kind']]
        for a, v in (('p', c['p']), ('n', c['n']), ('h', c['h']), (names[0], c['a']), (names[1], c['b']), ('bits', c['p'].bit_length())):
            o = py.getattr(CV, a)
            x.check(z3.BoolVal(not exc(o) and py.kind(o) == 'int'), a + ': not an integer')
            s, m = py.intval(o)
            x.check(z3.BoolVal(s is False and m == v), a + ': not the parameter')
        G = py.getattr(CV, 'G')
        x.check(z3.BoolVal([py.intval(i) for i in py.items(G)] == [(False, g) for g in c['G']]), 'G: not the generator')
        t = py.getattr(CV, 'ctype')
        x.check(z3.BoolVal(bytes(py.text(t)) == CTOR[c['kind']].encode()), 'ctype: wrong name')
        for a in ('q', 'P', '', 'abc', 'p ', 'GG'):
            x.check(z3.BoolVal(exc(py.getattr(CV, a))), 'unknown attribute found')
        x.check(z3.BoolVal(py.is_true(py.cmp('==', CV, CV2)) and not py.is_true(py.cmp('!=', CV, CV2))), 'equal curves compare different')
        # one parameter changed: another curve
        k = x.sym('which', 3)
        x.assume(z3.And(z3.UGE(bv(k, 8), 3), z3.ULE(bv(k, 8), 4)))
        k = simp(k) if x.native else x.concretize(k, 3)
        v = params(c)
        v[k] += 2
        D = py.method('ECurve', CTOR[c['kind']], *[py.int(i) for i in v])
        if not exc(D):
            x.check(z3.BoolVal(not py.is_true(py.cmp('==', CV, D)) and py.is_true(py.cmp('!=', CV, D))), 'different curves compare equal')
        x.check(z3.BoolVal(exc(py.cmp('<', CV, CV2))), 'curves are ordered')
        py.sweep()
        x.reach()
    return h


def attrname(L):
    def h(x):
        py = make(x)
        c, CV = pycurve(x, py, 'ws19')
        if L < 0:
            s = py.badstr()
        else:
            cs = [x.sym('c%d' % i, 8) for i in range(L)]
            for v in cs:
                x.assume(z3.And(z3.UGE(bv(v, 8), 0x20), z3.ULT(bv(v, 8), 0x80)))
            s = py.str(cs)
        r = py.getattr_o(CV, s)
        if not exc(r):
            x.check(z3.BoolVal(L == 1), 'unknown attribute found')
            if L == 1:
                x.check(z3.Or(*[bv(cs[0], 8) == ord(q) for q in 'pnhGab']), 'unknown attribute found')
        elif L == 1:
            x.check(z3.And(*[bv(cs[0], 8) != ord(q) for q in 'pnhGab']), 'attribute not found')
        x.reach()
    return h


def tasks(tier):
    out = []
    quick = tier == 'quick'
    big = lambda: gmpsym.UFKernel(40)
    for name in ('ws19', 'te41') if quick else CURVES:
        for op in '+-':
            for s in ('same', 'equal', 'ws19' if name != 'ws19' else 'ws23', 'mo41'):
                out.append(pt('op/%s/%s/%s' % (op, name, s), two(op, name, s)))
        out.append(pt('neg/' + name, neg(name)))
        for left in (True, False):
            out.append(pt('mul/%s/element/%s' % (name, left), mul(name, 'fe', 0, left)))
            for b in (0, 1, 3) + ((2048, 2100) if name == 'ws19' else ()):
                out.append(pt('mul/%s/int %d/%s' % (name, b, left), mul(name, 'int', b, left), gmp=lambda b=b: gmpsym.Kernel(max(64, b + 64))))
        for b in ((0, 1), (2, 5), (3, 3)) if quick else ((0, 1), (6, 6), (3, 8), (8, 2), (5, 5), (1, 0), (9, 9), (10, 10)):
            if not quick or name == 'ws19':
                out.append(pt('construct/%s/%d,%d' % (name, *b), construct(name, 'ints', b), real=True, weight=9))
        for b in ((2048, 3), (3, 2048), (2100, 2100)) if name == 'ws19' else ():
            out.append(pt('construct/%s/%d,%d' % (name, *b), construct(name, 'ints', b), real=True, gmp=big))
        for how in ('elements', 'foreign', 'foreign x', 'foreign y'):
            if not quick or name == 'ws19':
                out.append(pt('construct/%s/%s' % (name, how), construct(name, how), real=True, weight=9))
        for L in (0, 1, 3, 4):
            for t in (False, True):
                if not quick or name == 'ws19' and L < 4:
                    out.append(pt('encoded/%s/%d%s' % (name, L, '/text' if t else ''), encoded(name, L, t), real=True, weight=9))
    for name in ('ws19', 'mo43', 'te41') if quick else CURVES:
        for what in ('+', '-', '*', 'neg', 'base'):
            for ks in ((0, 0), (0, 2), (2, 0), (1, 2), (2, 2)):
                if what in ('*', 'neg', 'base') and ks[1] or quick and what == 'base' and (ks[0] == 0 or name != 'ws19') or quick and name != 'ws19' and ks not in ((0, 2), (2, 0)):
                    continue
                for sec in (False, True) if what in '+-' else (False,):
                    out.append(pt('life/%s/%s/%d,%d%s' % (what, name, *ks, '/equal curve' if sec else ''), life(what, name, ks, sec), real=True))
    for name in CURVES:
        for k in range(1, 4):
            out.append(pt('text/%s/%d' % (name, k), textual(name, k), real=True))
        out.append(pt('attrs/' + name, attrs(name), real=True))
        out.append(pt('trailing/' + name, trailing(name), real=True))
    for L in (-1, 0, 1, 2):
        out.append(pt('attrname/%d' % L, attrname(L), real=True))
    for b in (0, 3, 64, 2048, 2055, 2100):
        out.append(pt('valid/%d' % b, valid_sizes(b), real=True, gmp=big))
    for what in ('ops', 'order', 'point', 'urandom', 'curve', 'make'):
        for k in OTHERS + (('badstr', 'nulstr') if what in ('ops', 'point', 'curve') else ()):
            out.append(pt('wrong/%s/%s' % (what, k), wrong(what, k)))
    for name in ('secp112r1', 'secp256k1', 'secp521r1', 'E-521', 'Ed25519') if quick else ('secp112r1', 'secp160k1', 'secp192k1', 'secp224r1', 'secp256k1', 'P384', 'brainpoolP512r1', 'secp521r1', 'E-222', 'Curve1174', 'Ed448-Goldilocks', 'E-521', 'Ed25519'):
        import c17
        b = c17.TABLE[name]['p'].bit_length()
        for bits in ((b, b), (b - 1, b - 17), (b - 9, b), (b - 70, 60)):
            for ng in (False, True) if bits == (b - 1, b - 17) and name in ('secp521r1', 'Ed25519') else (False,):
                out.append(pt('standard/%s/%d,%d%s' % (name, *bits, '/negative' if ng else ''), standard(name, bits, ng), real=True, gmp=lambda n=(b + 63) // 64: gmpsym.UFKernel(n + 1)))
    for kind in CTOR:
        for b in (0, 1, 3, 5, 31, 32, 40, 70) if quick else (0, 1, 3, 4, 5, 25, 29, 31, 32, 33, 40, 63, 64, 70, 2100):
            out.append(pt('size/%s/%d' % (kind, b), sized(kind, b), real=True, gmp=big if b > 2000 else None or (lambda: gmpsym.Kernel(128))))
    for kind in CTOR:
        for i in range(7):
            for b in ((0, 1025, 2048, 2100) if i in (0, 3) else (2048, 2100)) if quick else (0, 5, 64, 1025, 2048, 2055, 2100):
                out.append(pt('curve/%s/%d/%d' % (kind, i, b), curve(kind, i, b), real=True, gmp=big))
    return out
