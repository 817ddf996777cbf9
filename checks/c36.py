"""C36 the Go package: curves and points."""
from hgocv import *

BOUNDS = 'groups of order 7 to 23 on curves of the four types over fields of 5 and 6 bits: every pair of points with every choice of the receiver, integer scalars of either sign of the listed lengths up to 300 bits; ' \
         'every pair of coordinates of the listed lengths; byte strings up to 3 bytes and their texts; every curve parameter in turn negative; objects whose finalizers may have run are finalised'
OUTSIDE = 'a finalizer that runs while a C function is still using the object (the calls hold no runtime.KeepAlive); memory leaks; operands on different curves (the C library aborts); larger curves (C07 to C22)'
ASSUMES = ['math/big behaves as documented (modelled; replay runs the real Go program)', 'cgo passes arguments and results as declared', 'group arithmetic of the library: C11 to C18 (replaced by exact arithmetic on logarithms, except in tasks over concrete points)']
CURVES = ('ws19', 'ws23', 'ed43', 'te41', 'mo43')


def two(op, name, recv, second):
    """R.op(A, B): everything but the result is garbage when the result is used"""
    def h(x):
        g = make(x)
        c, CV = gocurve(x, g, name)
        CV2 = gocurve(x, g, name)[1] if second == 'equal' else CV
        n = c['n']
        a, b = logarithm(x, 'a', n), logarithm(x, 'b', n)
        A = gopoint(x, g, c, CV, a)
        B = A if recv == 'aa' else gopoint(x, g, c, CV2, b)
        b = a if recv == 'aa' else b
        Z = {'z': lambda: gopoint(x, g, c, CV2, 3), 'other': lambda: g.call('NewPointGenerator', gocurve(x, g, 'mo31')[1]), 'a': lambda: A, 'b': lambda: B, 'aa': lambda: A}[recv]()
        R = g.method(Z, op, A, B) if op in ('Add', 'Sub') else g.method(Z, op, A)
        if not ok(x, g, R, op):
            return
        W = 2 * n.bit_length()
        v = {'Add': lambda: bv(a, W) + bv(b, W), 'Sub': lambda: bv(a, W) + (n - bv(b, W)), 'Neg': lambda: n - bv(a, W), 'Set': lambda: bv(a, W)}[op]()
        v = simp(z3.Extract(n.bit_length() - 1, 0, z3.URem(v, bv(n, W))))
        same_point(x, g, R, c, CV, v, op)
        same_point(x, g, Z, c, CV, v, op)
        if recv in ('z', 'other', 'b') and (op in ('Add', 'Sub') or recv != 'b'):
            same_point(x, g, A, c, CV, a, op + ' changed an operand')
        if recv in ('z', 'other', 'a') and op in ('Add', 'Sub'):
            same_point(x, g, B, c, CV, b, op + ' changed an operand')
        if recv in ('z', 'a', 'b') and second == 'same' and op in ('Add', 'Sub'):
            t = bv(g.int(g.method(R, 'Cmp', A)), 64)
            eq = bv(v, 8) == bv(v if recv == 'a' else a, 8)
            x.check((t == 0) == eq, 'Cmp: wrong answer')
        g.done()
        x.reach()
    return h


def life(op, name, ks, second):
    """real code throughout; only the result survives the collector"""
    def h(x):
        g = make(x)
        c, CV = gocurve(x, g, name)
        x.ctx['dl_off'] = True
        CV2, CV3 = (gocurve(x, g, name)[1], gocurve(x, g, name)[1]) if second else (CV, CV)
        A, B = gopoint(x, g, c, CV, ks[0]), gopoint(x, g, c, CV2, ks[1])
        Z = gopoint(x, g, c, CV3, 3)
        k = x.sym('k', 3)
        x.assume(z3.Or(bv(k, 8) == 0, bv(k, 8) == 5))
        k = simp(k) if x.native else x.concretize(k, 3)
        i, j, n = ks[0], ks[1], c['n']
        if op in ('Add', 'Sub'):
            R = g.method(Z, op, A, B)
            v = i + j if op == 'Add' else i - j
        elif op in ('Neg', 'Set'):
            R = g.method(Z, op, A)
            v = i if op == 'Set' else -i
        else:
            if op == 'base':
                x.check(z3.BoolVal(not g.panicked(g.method(A, 'SetupBaseMul'))), 'SetupBaseMul fails')
            R = g.method(Z, 'Mul', A, g.big(3 - k if k <= 3 else k - 3, k > 3))
            v = i * (3 - k)
        if not ok(x, g, R, op):
            return
        x.check(z3.BoolVal(not g.isnil(R)), op + ': no result')
        g.gc(R)
        c2, CVn = gocurve(x, g, name)
        E = gopoint(x, g, c, CVn, v % n)
        d = g.int(g.method(R, 'Cmp', E))
        x.check(bv(d, 64) == 0, op + ': wrong point')
        g.gc(R)
        use(x, g, R)
        g.done()
        x.reach()
    return h


def named_life(op, name, second):
    """curves by name are finalised; real code throughout; only the result survives the collector"""
    def h(x):
        g = make(x)
        x.ctx['dl_off'] = True
        x.ctx['randval'] = 1
        new = lambda: g.call('NamedCurve', g.string(name))
        CV = new()
        CV2, CV3 = (new(), new()) if second else (CV, CV)
        k = x.sym('k', 1)
        k = simp(k) if x.native else x.concretize(k, 1)
        G = lambda c: g.call('NewPointGenerator', c)
        A, B = G(CV), g.method(g.call('NewPointNeutral', CV2), 'Neg', G(CV2))
        Z = g.call('NewPointNeutral', CV3) if k else G(CV3)
        if op in ('Add', 'Sub'):
            R = g.method(Z, op, A, B)
        elif op in ('Neg', 'Set'):
            R = g.method(Z, op, A)
        elif op in ('Mul', 'base'):
            if op == 'base':
                g.method(A, 'SetupBaseMul')
            R = g.method(Z, 'Mul', A, g.big(1, True))
        elif op == 'XY':
            R = g.call('NewPointXY', g.method(CV, 'GetAttr', g.string('gx')), g.method(CV, 'GetAttr', g.string('gy')), CV)
        elif op in ('String', 'Bytes'):
            s = g.method(A, op + ('Compressed' if k else 'Uncompressed'))
            R = g.call('NewPointFrom' + op, g.string(conc(g.text(s))) if op == 'String' else g.bytes(conc(g.data(s))), CV)
        else:
            R = g.call('NewPoint' + op, CV)
        x.check(z3.BoolVal(not g.panicked(R) and not g.isnil(R)), op + ': no result')
        g.gc(R)
        CV = new()
        neg = op in ('Neg', 'Mul', 'base')
        E = G(CV)
        if op == 'Sub':
            E = g.method(g.call('NewPointNeutral', CV), 'Add', E, G(CV))
        elif op in ('Add', 'Neutral'):
            E = g.call('NewPointNeutral', CV)
        elif neg:
            E = g.method(g.call('NewPointNeutral', CV), 'Neg', E)
        d = g.int(g.method(R, 'Cmp', E))
        if op != 'URandom':
            x.check(bv(d, 64) == 0, op + ': wrong point')
        g.gc(R)
        use(x, g, R)
        g.done()
        x.reach()
    return h


def mul(name, bits, recv):
    def h(x):
        g = make(x)
        c, CV = gocurve(x, g, name)
        n = c['n']
        a = logarithm(x, 'a', n)
        A = gopoint(x, g, c, CV, a)
        S, neg, m = integer(x, g, 'k', bits)
        Z = A if recv == 'a' else gopoint(x, g, c, CV, 2)
        W = 2 * n.bit_length() + 2
        for t in range(1 if recv == 'a' else 2):
            R = g.method(Z, 'Mul', A, S)
            if not ok(x, g, R, 'Mul'):
                return
            intact(x, g, S, neg, m, 'Mul')
            k = bv(kmod(x, m, n), W)
            v = z3.URem(bv(a, W) * z3.If(z3.And(neg, k != 0), n - k, k), bv(n, W))
            v = simp(z3.Extract(n.bit_length() - 1, 0, v))
            same_point(x, g, R, c, CV, v, 'Mul')
            same_point(x, g, Z, c, CV, v, 'Mul')
            if recv != 'a':
                same_point(x, g, A, c, CV, a, 'Mul changed its operand')
        g.done()
        x.reach()
    return h


def eqn_term(c, X, Y):
    W = 40
    X, Y, p, a, b = bv(X, W), bv(Y, W), c['p'], c['a'], c['b']
    m = lambda t: z3.URem(t, bv(p, W))
    x2, y2 = m(X * X), m(Y * Y)
    k = c['kind']
    if k == 'ws':
        return y2 == m(m(x2 * X) + m(bv(a % p, W) * X) + b % p)
    if k == 'mo':
        return m(bv(a % p, W) * y2) == m(m(x2 * X) + m(bv(b % p, W) * x2) + X)
    xy = m(x2 * y2)
    if k == 'ed':
        return m(x2 + y2) == m(a * a % p * (1 + m(bv(b % p, W) * xy)))
    return m(m(a % p * x2) + y2) == m(1 + m(bv(b % p, W) * xy))


def construct(name, bits):
    """NewPointXY, Affine, PointCheck on arbitrary integers"""
    def h(x):
        g = make(x)
        c, CV = gocurve(x, g, name)
        p = c['p']
        x.ctx['dl_off'] = True
        X, nx, mx = integer(x, g, 'x', bits[0])
        Y, ny, my = integer(x, g, 'y', bits[1])
        rx, ry = residue(x, nx, mx, p), residue(x, ny, my, p)
        v = g.method(CV, 'PointCheck', X, Y)
        if ok(x, g, v, 'PointCheck'):
            intact(x, g, X, nx, mx, 'PointCheck')
            intact(x, g, Y, ny, my, 'PointCheck')
            on = z3.And(eqn_term(c, rx, ry), z3.Not(boolz(nx)), z3.Not(boolz(ny)))
            x.check(on if g.boolean(v) else z3.Not(on), 'PointCheck: wrong answer')
        P = g.call('NewPointXY', X, Y, CV)
        if not ok(x, g, P, 'NewPointXY'):
            return
        intact(x, g, X, nx, mx, 'NewPointXY')
        intact(x, g, Y, ny, my, 'NewPointXY')
        g.gc(P)
        for t in range(2):
            for o, w in zip(g.method(P, 'Affine'), (rx, ry)):
                is_value(x, g, o, w, 'Affine')
        g.done()
        x.reach()
    return h


def encoded(name, L, text):
    """a point from L arbitrary bytes (or the text of them)"""
    def h(x):
        g = make(x)
        c, CV = gocurve(x, g, name)
        x.ctx['dl_off'] = True
        bs = [x.sym('b%d' % i, 8) for i in range(L)]
        if L == 3:
            x.assume(bv(bs[0], 8) == 4)
        if text:
            ch = lambda v: simp(z3.If(z3.ULE(v, 9), v + 0x30, v + 0x37))
            S = g.string([ch(z3.ZeroExt(4, z3.Extract(h, l, bv(b, 8)))) for b in bs for h, l in ((7, 4), (3, 0))])
        else:
            S = g.bytes(bs)
        P = g.call('NewPointFromString' if text else 'NewPointFromBytes', S, CV)
        if not ok(x, g, P, 'import'):
            return
        if g.isnil(P):
            if L == 3:
                x.check(z3.Not(z3.And(z3.ULT(bv(bs[1], 8), c['p']), z3.ULT(bv(bs[2], 8), c['p']), eqn_term(c, bs[1], bs[2]))), 'the encoding of a point is refused')
            g.done()
            x.reach()
            return
        g.gc(P)
        if L == 3:
            x.check(eqn_term(c, bs[1], bs[2]), 'something that encodes no point is accepted')
            u = g.data(g.method(P, 'BytesUncompressed'))
            x.check(z3.BoolVal(len(u) == 3), 'BytesUncompressed: wrong length')
            for a, b in zip(u, bs):
                x.check(bv(a, 8) == bv(b, 8), 'BytesUncompressed: another encoding')
        else:
            x.check(z3.BoolVal(L == 2 or L == 1 and name.startswith(('ws', 'mo'))), 'something that encodes no point is accepted')
        g.done()
        x.reach()
    return h


def textual(name, k):
    """the four encodings agree and give the point back"""
    def h(x):
        g = make(x)
        c, CV = gocurve(x, g, name)
        x.ctx['dl_off'] = True
        P = gopoint(x, g, c, CV, k)
        for m, head in (('Compressed', None), ('Uncompressed', 4)):
            b = conc(g.data(g.method(P, 'Bytes' + m)))
            s = conc(g.text(g.method(P, 'String' + m)))
            x.check(z3.BoolVal(bytes(s).lower() == bytes(b).hex().encode()), 'String%s is not the text of the bytes' % m)
            x.check(z3.BoolVal(k == 0 and c['T'][0] is None or (b[0] == 4) == (head == 4) and len(b) == (3 if head else 2) and b[1] == c['T'][k][0]), m + ': wrong form')
            for Q in (g.call('NewPointFromBytes', g.bytes(b), CV), g.call('NewPointFromString', g.string(s), CV)):
                x.check(z3.BoolVal(not g.panicked(Q) and not g.isnil(Q)), 'own encoding refused')
                x.check(bv(g.int(g.method(Q, 'Cmp', P)), 64) == 0, 'own encoding gives another point')
            if k == 0:
                continue
            t = g.call('NewPointFromBytes', g.bytes(b[:-1]), CV)
            x.check(z3.BoolVal(g.isnil(t)), 'a truncated encoding is accepted')
            t = g.call('NewPointFromBytes', g.bytes(b + [0]), CV)
            x.check(z3.BoolVal(g.isnil(t)), 'an encoding with an extra byte is accepted')
        x.check(z3.BoolVal(g.boolean(g.method(P, 'IsNeutral')) == (k == 0)), 'IsNeutral: wrong answer')
        N, G = g.call('NewPointNeutral', CV), g.call('NewPointGenerator', CV)
        x.check(z3.BoolVal(g.boolean(g.method(N, 'IsNeutral'))), 'NewPointNeutral is not neutral')
        x.check((bv(g.int(g.method(G, 'Cmp', P)), 64) == 0) == z3.BoolVal(k == 1), 'NewPointGenerator is not the generator')
        x.check((bv(g.int(g.method(N, 'Cmp', P)), 64) == 0) == z3.BoolVal(k == 0), 'Cmp: wrong answer')
        j = x.sym('z', 1)
        x.check(z3.ULE(bv(j, 8), 1), 'encoding')
        g.done()
        x.reach()
    return h


def attrs(name):
    """the attributes are the parameters; those of other types and unknown names give nil"""
    def h(x):
        g = make(x)
        c, CV = gocurve(x, g, name)
        x.check(bv(g.int(g.method(CV, 'Type')), 64) == TYPE[c['kind']], 'Type: wrong')
        want = dict(zip(('p', *ATTR[c['kind']], 'n', 'h', 'gx', 'gy', 'bits'), params(c) + [c['p'].bit_length()]))
        for r in range(2):
            for k, v in want.items():
                is_value(x, g, g.method(CV, 'GetAttr', g.string(k)), v, 'GetAttr(%s)' % k)
            for k in ['', 'P', 'q', 'ws', 'bits ', 'G'] + [a for t in ATTR.values() for a in t if a not in want]:
                x.check(z3.BoolVal(g.isnil(g.method(CV, 'GetAttr', g.string(k)))), 'GetAttr(%s) of a curve without it' % k)
        CV2 = gocurve(x, g, name)[1]
        x.check(bv(g.int(g.method(CV, 'Cmp', CV2)), 64) == 0, 'equal curves compare different')
        for o in CURVES:
            if o != name:
                x.check(bv(g.int(g.method(CV, 'Cmp', gocurve(x, g, o)[1])), 64) != 0, 'different curves compare equal')
        b = x.sym('b', 8)
        x.check(z3.BoolVal(g.isnil(g.method(CV, 'GetAttr', g.string([0x7a, simp(b) if x.native else b])))), 'GetAttr of an unknown name')
        g.done()
        x.reach()
    return h


def curve(kind, bad, bits):
    """a negative parameter gives no curve; the parameters given stay as they are"""
    def h(x):
        g = make(x)
        c = table({'ws': 'ws19', 'ed': 'ed43', 'te': 'te41', 'mo': 'mo43'}[kind])
        ps = [g.big(v) for v in params(c)]
        q = params(c)
        if bad is not None:
            m = x.sym('v', bits)
            x.assume(z3.Extract(bits - 1, bits - 1, m) == 1)
            ps[bad] = g.big(m, True, bits)
        CV = g.call(CTOR[kind], *ps, c['p'].bit_length())
        if not ok(x, g, CV, CTOR[kind]):
            return
        x.check(z3.BoolVal(g.isnil(CV) == (bad is not None)), 'a negative parameter is accepted' if bad is not None else 'a curve is refused')
        for i, (o, v) in enumerate(zip(ps, q)):
            if i == bad:
                intact(x, g, o, True, m, CTOR[kind])
            else:
                intact(x, g, o, False, v, CTOR[kind])
        g.done()
        x.reach()
    return h


def named(L):
    """names: every listed one is a curve, an arbitrary other one is not"""
    def h(x):
        g = make(x)
        if L is None:
            for nm in g.strings(g.call('CurveNames'))[:60:9]:
                CV = g.call('NamedCurve', g.string(nm))
                x.check(z3.BoolVal(not g.panicked(CV) and not g.isnil(CV)), nm + ': no such curve')
                import c17
                if nm in c17.TABLE:
                    d = c17.TABLE[nm]
                    for k, v in (('p', d['p']), ('n', d['n']), ('h', d['h']), ('gx', d['gx']), ('gy', d['gy'])):
                        is_value(x, g, g.method(CV, 'GetAttr', g.string(k)), v, '%s of %s' % (k, nm))
            b = x.sym('b', 8)
            x.check(z3.ULE(bv(b, 9), 255), 'name')
        else:
            s = [x.sym('c%d' % i, 8) for i in range(L)]
            for v in s:
                x.assume(bv(v, 8) != 0)
            CV = g.call('NamedCurve', g.string(s))
            x.check(z3.BoolVal(not g.panicked(CV) and g.isnil(CV)), 'a curve of an unknown name')
        g.done()
        x.reach()
    return h


def rand(name):
    """a random point is usable after the curve handle is gone"""
    def h(x):
        g = make(x)
        c, CV = gocurve(x, g, name)
        x.ctx['dl_off'] = True
        x.ctx['randval'] = x.sym('v', 2)
        P = g.call('NewPointURandom', CV)
        if ok(x, g, P, 'NewPointURandom'):
            g.gc(P)
            use(x, g, P)
        g.done()
        x.reach()
    return h


def st_rand(ex, a):
    v = ex.ctx['randval']
    gmpsym.zwrite(ex, a[0], False, v if isinstance(v, int) else ex.concretize(v, 2))


def tasks(tier):
    prepare()
    out = []
    quick = tier == 'quick'
    for name in ('ws19', 'te41') if quick else CURVES:
        for op in ('Add', 'Sub', 'Neg', 'Set'):
            for recv in ('z', 'a', 'b', 'aa', 'other'):
                if op in ('Neg', 'Set') and recv in ('b', 'aa'):
                    continue
                for s in ('same', 'equal') if recv == 'z' else ('same',):
                    out.append(gpt('op/%s/%s/%s/%s' % (op, name, recv, s), two(op, name, recv, s)))
        for b in (0, 1, 5, 8, 64) + ((300,) if name == 'ws19' else ()) if quick else (0, 1, 3, 5, 7, 8, 9, 63, 64, 65, 128, 300, 2100):
            for recv in 'za':
                out.append(gpt('mul/%s/%d/%s' % (name, b, recv), mul(name, b, recv), gmp=lambda b=b: gmpsym.Kernel(max(64, b + 64))))
        for b in ((0, 1), (5, 5), (9, 3)) if quick and name == 'ws19' else ((5, 4),) if quick else ((0, 1), (6, 6), (3, 8), (8, 2), (5, 5), (1, 0), (9, 9), (10, 10)):
            out.append(gpt('construct/%s/%d,%d' % (name, *b), construct(name, b), real=True, weight=9))
        for L in (0, 1, 3, 4):
            for t in (False, True):
                if not quick or L < 2 or L == 3 and name == 'ws19' and not t:
                    out.append(gpt('encoded/%s/%d%s' % (name, L, '/text' if t else ''), encoded(name, L, t), real=True, weight=9))
    for name in ('ws19', 'te41') if quick else CURVES:
        for op in ('Add', 'Sub', 'Neg', 'Set', 'Mul', 'base'):
            for ks in ((0, 2), (2, 0), (1, 2)) if op in ('Add', 'Sub') else ((2, 1),) if quick else ((0, 1), (1, 1), (2, 1)):
                for sec in (False, True):
                    out.append(gpt('life/%s/%s/%d,%d%s' % (op, name, *ks, '/equal curves' if sec else ''), life(op, name, ks, sec), real=True))
    for name in CURVES:
        for k in range(0, 4):
            out.append(gpt('text/%s/%d' % (name, k), textual(name, k), real=True))
        out.append(gpt('attrs/' + name, attrs(name), real=True))
        out.append(gpt('random/' + name, rand(name), real=True, stubs={'mpz_urandom': st_rand}, validate=False))
    for name in ('secp112r1', 'E-222', 'Curve25519', 'Ed25519'):
        for op in ('Add', 'Sub', 'Neg', 'Set', 'Mul', 'base', 'XY', 'String', 'Bytes', 'Neutral', 'Generator', 'URandom'):
            for sec in (False, True) if op in ('Add', 'Sub', 'Neg', 'Set', 'Mul', 'base') else (False,):
                if quick and (op == 'base' or op in ('Mul', 'URandom') and name != 'secp112r1'):
                    continue
                out.append(gpt('named life/%s/%s%s' % (op, name, '/equal curves' if sec else ''), named_life(op, name, sec), real=True, gmp=lambda: gmpsym.Kernel(1200), stubs={'mpz_urandom': st_rand} if op == 'URandom' else {},
                               validate=op != 'URandom', cfg={'max_steps': 30000000}))
    for kind in CTOR:
        for bad in (None, *range(7)):
            for b in (4,) if bad is None or quick else (1, 4, 64, 200):
                out.append(gpt('curve/%s/%s/%d' % (kind, bad, b), curve(kind, bad, b), real=True, gmp=lambda: gmpsym.UFKernel(8)))
    for L in (None, 0, 1, 3):
        out.append(gpt('named/%s' % L, named(L), real=True, gmp=lambda: gmpsym.UFKernel(10)))
    return out
