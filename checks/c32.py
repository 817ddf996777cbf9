"""C32 field-element operators of the Python binding."""
from hpy import *
from htiny import set_draws, random_source, more_draws

BOUNDS = 'every pair of values of the fields of 97 and 2^255-19; integers of either sign of exactly the listed bit lengths (0 to 2100 bits) on either side; operands of eight unrelated ' \
         'types on either side; elements of another field; exponents up to 2^8 (97) or 0..3 and every length from 64 bits on'
OUTSIDE = 'subclasses of FieldElement; objects made by __new__ without __init__; memory leaks; running out of memory'
ASSUMES = ['the CPython 3.12 API functions behave as documented (modelled; replay runs the real interpreter)', 'products and reductions of 255-bit values: C02']
SIZES = [0, 1, 7, 64, 255, 2047, 2048, 2049, 2056, 2100]


def two(op, p, q, swap_del):
    """both operands are elements, of fields p and q"""
    def h(x):
        py = make(x)
        A, a = element(x, py, 'a', p)
        B, b = element(x, py, 'b', q)
        R = Refs(x, py, A, B)
        r = py.binop(op, A, B)
        R.kept(op)
        if p != q:
            x.check(z3.BoolVal(exc(r)), 'elements of different fields are combined')
            x.reach()
            return
        x.check(z3.BoolVal(not exc(r)), op + ' of two elements fails')
        if swap_del:
            py.decref(A)
            py.decref(B)
        x.check(value(x, py, r, p, op) == expect(x, op, a, b, p), op + ' of two elements: wrong value')
        if not swap_del:
            x.check(value(x, py, A, p, op) == bv(a, p.bit_length() + 1), op + ' changed its operand')
        py.decref(r)
        x.reach()
    return h


def mixed(op, p, bits, left):
    """one operand is an integer"""
    def h(x):
        py = make(x)
        A, a = element(x, py, 'a', p)
        I, neg, m = integer(x, py, 'i', bits)
        R = Refs(x, py, A)
        r = py.binop(op, A, I) if left else py.binop(op, I, A)
        R.kept(op)
        if exc(r):
            x.check(z3.BoolVal(bits >= 2048), op + ' with an ordinary integer fails')
            x.reach()
            return
        i = residue(x, neg, m, p)
        x.check(value(x, py, r, p, op) == (expect(x, op, a, i, p) if left else expect(x, op, i, a, p)), op + ' with an integer: wrong value')
        x.reach()
    return h


def foreign(op, kind, left):
    """an operand of another type: an exception, nothing else"""
    def h(x):
        py = make(x)
        A, a = element(x, py, 'a', P97)
        o = py.other(kind)
        R = Refs(x, py, A, o)
        r = py.pow(A, o) if op == '**' and left else py.pow(o, A) if op == '**' else py.binop(op, A, o) if left else py.binop(op, o, A)
        R.kept(op)
        x.check(z3.BoolVal(exc(r)), '%s with a %s does not raise' % (op, kind))
        x.check(value(x, py, A, P97, op) == bv(a, 8), op + ' changed its operand')
        x.reach()
    return h


def compare(p, other, size=0):
    """== and !=: equality of values in the same field; never an error"""
    def h(x):
        py = make(x)
        A, a = element(x, py, 'a', p)
        W = max(p.bit_length() + 1, size + 1)
        if other == 'int':
            B, neg, m = integer(x, py, 'b', size)
            neg = z3.BoolVal(neg) if isinstance(neg, bool) else neg
            same = z3.And(z3.Or(z3.Not(neg), bv(m, W) == 0), bv(a, W) == bv(m, W))
        elif isinstance(other, int):
            B, b = element(x, py, 'b', other)
            W = max(p, other).bit_length() + 1
            same = bv(a, W) == bv(b, W) if other == p else z3.BoolVal(False)
        else:
            B, same = py.other(other), z3.BoolVal(False)
        R = Refs(x, py, A, B)
        for op in ('==', '!='):
            for l, r in ((A, B), (B, A)):
                t = py.cmp(op, l, r)
                if exc(t):
                    x.check(z3.BoolVal(other == 'int' and size >= 2048), op + ' raises')
                    continue
                x.check(z3.BoolVal(py.kind(t) == 'bool'), op + ' is not a truth value')
                want = same if op == '==' else z3.Not(same)
                x.check(want if py.is_true(t) else z3.Not(want), op + ': wrong answer')
        for op in ('<', '<=', '>', '>='):
            x.check(z3.BoolVal(exc(py.cmp(op, A, B))), 'elements are ordered')
        R.kept('comparison')
        x.reach()
    return h


def unary(p, what):
    def h(x):
        py = make(x)
        A, a = element(x, py, 'a', p)
        R = Refs(x, py, A)
        W = p.bit_length() + 1
        a = bv(a, W)
        if what == 'neg':
            r = py.neg(A)
            x.check(value(x, py, r, p, what) == z3.If(a == 0, a, p - a), 'negation: wrong value')
        elif what == 'inverse':
            r = py.method(A, 'inverse')
            if py.kind(r) == 'NoneType':
                x.check(a == 0, 'no inverse of a nonzero element')
            else:
                v = value(x, py, r, p, what)
                x.check(a != 0, 'zero has an inverse')
                f = lambda t: simp(z3.Extract(p.bit_length() - 1, 0, t))
                x.check(bv(kmod(x, kmul(x, f(a), f(v)), p), W) == 1, 'inverse: wrong value')
        elif what == 'sqrt':
            r = py.method(A, 'sqrt')
            if py.kind(r) == 'NoneType':
                sq = sorted({i * i % p for i in range(p)})
                x.check(z3.And(*[a != s for s in sq]), 'no square root of a square')
            else:
                v = value(x, py, r, p, what)
                f = lambda t: simp(z3.Extract(p.bit_length() - 1, 0, t))
                x.check(bv(kmod(x, kmul(x, f(v), f(v)), p), W) == a, 'square root: wrong value')
        R.kept(what)
        py.decref(A)
        py.decref(r)
        x.reach()
    return h


def power(p, bits):
    def h(x):
        py = make(x)
        A, a = element(x, py, 'a', p)
        if isinstance(bits, tuple):
            e = bits[0]
            E, neg, m = py.int(e), False, e
        else:
            E, neg, m = integer(x, py, 'e', bits)
        R = Refs(x, py, A)
        r = py.pow(A, E)
        R.kept('power')
        if exc(r):
            n = neg if isinstance(neg, bool) else x.branch(neg)
            x.check(z3.BoolVal(n or isinstance(bits, int) and bits > 64), 'power with an ordinary exponent fails')
        else:
            n = neg if isinstance(neg, bool) else x.branch(neg)
            x.check(z3.BoolVal(not n), 'negative exponent accepted')
            if isinstance(m, int):
                want = 1
                aa = a
                for _ in range(m):
                    want = kmod(x, kmul(x, want, aa), p) if not (isinstance(want, int) and want == 1) else aa
            else:
                T = 16
                want = z3.BitVecVal(1, T)
                acc = bv(a, T)
                for i in range(m.size()):
                    want = z3.If(z3.Extract(i, i, m) == 1, z3.URem(want * acc, p), want)
                    acc = z3.URem(acc * acc, p)
                want = z3.Extract(p.bit_length(), 0, want)
            x.check(value(x, py, r, p, 'power') == bv(want, p.bit_length() + 1), 'power: wrong value')
        for bad in (py.pow(A, E, py.int(5)), py.pow(A, A), py.pow(py.int(3), A)):
            x.check(z3.BoolVal(exc(bad)), 'three-argument power, or an exponent that is no integer, is accepted')
        x.reach()
    return h


def badfield(bits):
    """moduli no field has, or that the library cannot represent, are refused; any other modulus is taken"""
    def h(x):
        py = make(x)
        if bits in ((0, False), (0, True)):
            P, ok = py.int(0, bits=0), False
        elif isinstance(bits, tuple):
            P, ok = py.int((1 << bits[0] - 1) + (5 << bits[0] // 2) + 1 if bits[0] > 8 else (1 << bits[0]) - 1, bits[1]), not bits[1] and bits[0] <= 1024
        else:
            P, neg, m = integer(x, py, 'p', bits)
            ok = None
            if bits <= 1024:
                x.assume(neg)
        if ok:
            p = (1 << bits[0] - 1) + (5 << bits[0] // 2) + 1 if bits[0] > 8 else (1 << bits[0]) - 1
            d = x.sym('d', bits[0])
            x.assume(z3.ULT(d, p))
            set_draws(x, [d], p)
        for e in (py.new('FieldElement', py.int(5), P), py.method('FieldElement', 'urandom', P)):
            if not ok:
                x.check(z3.BoolVal(exc(e)), 'a modulus that is not positive, or too large, is accepted')
            else:
                x.check(z3.BoolVal(not exc(e)), 'a modulus is refused')
                i = py.int_of(py.binop('*', e, py.int(0)))
                x.check(z3.BoolVal(py.intval(i)[1] == 0), 'zero is not zero')
        if ok:
            x.check(value(x, py, e, p, 'urandom') == bv(d, p.bit_length() + 1), 'urandom is not the drawn number')
        x.reach()
    return h


def badargs(kinds):
    def h(x):
        py = make(x)
        args = [py.other(k) if k != 'int' else py.int(7) for k in kinds]
        r = py.new('FieldElement', *args)
        x.check(z3.BoolVal(exc(r)), 'constructor accepts wrong arguments')
        if len(kinds) == 1:
            r = py.method('FieldElement', 'urandom', args[0])
            x.check(z3.BoolVal(exc(r) or kinds[0] == 'int'), 'urandom accepts wrong arguments')
        x.reach()
    return h


def text(p):
    """repr(e) is ECC.FieldElement(value, modulus)"""
    def h(x):
        py = make(x)
        A, a = element(x, py, 'a', p)
        s = py.repr(A)
        if x.native:
            x.check(z3.BoolVal(s.o == 'ECC.FieldElement(%d, %d)' % (simp(a), p)), 'repr: wrong text')
        else:
            t = py.tokens(s)
            x.check(z3.BoolVal(len(t) == 5 and bytes(t[0]) == b'ECC.FieldElement(' and bytes(t[2]) == b', ' and bytes(t[4]) == b')'), 'repr: wrong text')
            W = p.bit_length() + 1
            x.check(z3.And(bv(t[1][1], max(W, gmpsym.width(t[1][1]))) == bv(a, max(W, gmpsym.width(t[1][1]))), z3.BoolVal(t[3] == (False, p))), 'repr: wrong numbers')
        x.reach()
    return h


def tasks(tier):
    out = []

    def add(name, fn, p=P97, wide=0, **kw):
        out.append(pytask(name, fn, gmp=kernel(p, wide), **kw))
    for op in '+-*':
        for p in (P97, P64, P255):
            for d in (False, True):
                add('elements/%s/%d bits%s' % (op, p.bit_length(), '/dropped' if d else ''), two(op, p, p, d), p)
        add('elements/%s/other field' % op, two(op, P97, 101, False), P97)
        add('elements/%s/wider field' % op, two(op, P97, P127, False), P127)
        for b in SIZES:
            for left in (True, False):
                for p in (P97, P64) if b <= 16 else (P64,):
                    add('integer/%s/%d bits/%s/p=%d bits' % (op, b, 'right' if left else 'left', p.bit_length()), mixed(op, p, b, left), p, b)
    for op in ('+', '-', '*', '**'):
        for k in OTHERS:
            for left in (True, False):
                add('foreign/%s/%s/%s' % (op, k, 'right' if left else 'left'), foreign(op, k, left))
    for p in (P97, P127):
        for o in (P97, P127, 101):
            add('compare/%d bits/%d' % (p.bit_length(), o), compare(p, o), P127)
    for b in SIZES:
        add('compare/int %d bits' % b, compare(P127, 'int', b), P127, b)
    for k in OTHERS:
        add('compare/' + k, compare(P97, k))
    for w in ('neg', 'inverse', 'sqrt'):
        add('unary/%s/97' % w, unary(P97, w))
    for w in ('neg',):
        add('unary/%s/255' % w, unary(P255, w), P255)
    for b in (1, 3, 5) if tier == 'quick' else (1, 2, 3, 4, 5, 6, 7, 8):
        add('power/97/%d bits' % b, power(P97, b), weight=b)
    for e in (0, 1, 2, 3):
        add('power/64/%d' % e, power(P64, (e,)), P64)
    for b in (65, 128, 2048, 2100):
        add('power/64/%d bits' % b, power(P64, b), P64, b)
    for b in (1, 64, 1000, 1024, 1025, 1088, 2047, 2048, 2055, 2100):
        add('modulus/%d bits symbolic' % b, badfield(b), P255, 2200)
    for b in (0, 1, 2, 64, 65, 1023, 1024, 1025):
        for neg in (False, True):
            add('modulus/%d bits%s' % (b, ' negative' if neg else ''), badfield((b, neg)), P255, 2200, native=pynative_random, stubs={'mpz_urandom': random_source(None, more_draws)})
    for k in OTHERS:
        add('construct/%s' % k, badargs((k,)))
        add('construct/%s,int' % k, badargs((k, 'int')))
        add('construct/int,%s' % k, badargs(('int', k)))
    for p in (P97, P255):
        add('repr/%d bits' % p.bit_length(), text(p), p)
    return out
