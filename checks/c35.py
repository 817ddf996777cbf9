"""C35 the Go package: integers and field elements."""
from hgo import *

BOUNDS = 'every integer of either sign whose length is one of the listed numbers of bits (to 2100) into and out of field elements modulo 97 and 2^255-19; every pair of elements of the field of 97 with every ' \
         'choice of the receiver (fresh, either operand); every 64-bit exponent and bit number; negative, zero and foreign moduli; every finalizer that may have run in between has run'
OUTSIDE = 'bit lengths not listed; a finalizer that runs while a C function is still using the object (the calls hold no runtime.KeepAlive); memory leaks; moduli that are not prime; integers changed by other goroutines'
ASSUMES = ['math/big behaves as documented (modelled; replay runs the real Go program)', 'cgo passes arguments and results as declared']


def construct(bits, p):
    """AsInt(NewFieldElement(v, p)) = v mod p; the integers given stay as they are"""
    def h(x):
        g = make(x)
        v, neg, m = integer(x, g, 'v', bits)
        pp = g.big(p)
        want = residue(x, neg, m, p)
        if p > 1000 and bits > 200:          # the longest results (the lengths in between are those of shorter integers)
            x.assume(z3.UGE(want, 1 << p.bit_length() - 8))
        e = g.call('NewFieldElement', v, pp)
        if ok(x, g, e, 'NewFieldElement'):
            intact(x, g, v, neg, m, 'NewFieldElement')
            intact(x, g, pp, False, p, 'NewFieldElement')
            g.gc(e, v, pp)
            is_value(x, g, g.method(e, 'AsInt'), want, 'AsInt')
            is_value(x, g, g.method(e, 'Order'), p, 'Order')
            is_value(x, g, g.method(e, 'AsInt'), want, 'AsInt (again)')
            is_value(x, g, g.method(e, 'Order'), p, 'Order (again)')
        g.done()
        x.reach()
    return h


def unsigned(p):
    def h(x):
        g = make(x)
        v = x.sym('v', 64)
        pp = g.big(p)
        e = g.call('NewFieldElementUI', simp(v) if x.native else v, pp)
        if ok(x, g, e, 'NewFieldElementUI'):
            is_value(x, g, g.method(e, 'AsInt'), bv(kmod(x, v, p), max(64, p.bit_length())), 'NewFieldElementUI')
            is_value(x, g, g.method(e, 'Order'), p, 'Order')
        g.done()
        x.reach()
    return h


def modulus(bits):
    """a negative modulus gives no element, zero panics, others are taken as they are"""
    def h(x):
        g = make(x)
        p, neg, m = integer(x, g, 'p', bits)
        for i, (f, v) in enumerate((('NewFieldElement', g.big(1, True)), ('NewFieldElementUI', 0), ('NewFieldElementURandom', None))):
            if v is None and not x.native:
                x.ctx['randval'] = 0
            e = g.call(f, *([] if v is None else [v]), p)
            if bits == 0:
                x.check(z3.BoolVal(g.panicked(e)), f + ': a zero modulus is accepted')
                continue
            if not ok(x, g, e, f):
                continue
            n = x.branch(neg)
            x.check(z3.BoolVal(g.isnil(e) == bool(n)), f + (': a negative modulus is accepted' if n else ': a positive modulus is refused'))
            intact(x, g, p, neg, m, f)
            if not g.isnil(e):
                is_value(x, g, g.method(e, 'Order'), m, 'Order')
                if i == 0:
                    is_value(x, g, g.method(e, 'AsInt'), bv(m, bits) - 1, 'NewFieldElement(-1)')
        g.done()
        x.reach()
    return h


def elem(x, g, name, p):
    v = x.sym(name, p.bit_length())
    x.assume(z3.ULT(v, p))
    return g.call('NewFieldElement', g.big(simp(v) if x.native else v, False), g.big(p)), bv(v, p.bit_length())


def arith(op, recv, p):
    """z.op(a, b): the receiver is the result and holds op(a, b); operands that are not the receiver keep their values"""
    def h(x):
        g = make(x)
        W = 2 * p.bit_length()
        a, va = elem(x, g, 'a', p)
        b, vb = elem(x, g, 'b', p) if op in ('Add', 'Sub', 'Mul') and recv != 'aa' else (a, va)
        z = {'z': lambda: g.call('NewFieldElementUI', 5, g.big(p)), 'other': lambda: g.call('NewFieldElementUI', 5, g.big(101)), 'a': lambda: a, 'b': lambda: b, 'aa': lambda: a}[recv]()
        r = g.method(z, op, a, b) if op in ('Add', 'Sub', 'Mul') else g.method(z, op, a)
        if not ok(x, g, r, op):
            return
        A, B = bv(va, W), bv(vb, W)
        want = {'Add': lambda: A + B, 'Sub': lambda: A + (p - B), 'Mul': lambda: A * B, 'Neg': lambda: p - A}[op]()
        want = z3.URem(want, bv(p, W))
        g.gc(z, r, a, b)
        for o in (z, r):
            is_value(x, g, g.method(o, 'AsInt'), want, op)
            is_value(x, g, g.method(o, 'Order'), p, op)
        if recv in ('z', 'other', 'b') and op != 'Neg' or recv in ('z', 'other'):
            is_value(x, g, g.method(a, 'AsInt'), va, op + ' changed an operand')
        if recv in ('z', 'other', 'a') and op != 'Neg':
            is_value(x, g, g.method(b, 'AsInt'), vb, op + ' changed an operand')
        g.done()
        x.reach()
    return h


def partial(op, recv, p):
    """Inv and Sqrt: the inverse or a root, or an error where there is none"""
    def h(x):
        g = make(x)
        a, va = elem(x, g, 'a', p)
        z = a if recv == 'a' else g.call('NewFieldElementUI', 5, g.big(p))
        r = g.method(z, op, a)
        if not ok(x, g, r, op):
            return
        e, err = r
        W = 16
        T = [pow(v, -1, p) if v else None for v in range(p)] if op == 'Inv' else [next((s for s in range(p) if s * s % p == v), None) for v in range(p)]
        has = z3.Or(*[va == v for v in range(p) if T[v] is not None])
        x.check(z3.BoolVal(g.isnil(e) != g.isnil(err)), op + ': a result with an error, or neither')
        if g.isnil(e):
            x.check(z3.Not(has), op + ': an error although there is a result')
        else:
            x.check(has, op + ': a result although there is none')
            g.gc(e)
            n, v = g.bigval(g.method(e, 'AsInt'))
            v, A = bv(v, W), bv(va, W)
            x.check(z3.And(z3.ULT(v, p), z3.URem(v * (A if op == 'Inv' else v), bv(p, W)) == (1 if op == 'Inv' else A)), op + ': wrong value')
        g.done()
        x.reach()
    return h


def foreign(op):
    def h(x):
        g = make(x)
        a, va = elem(x, g, 'a', 97)
        b, vb = elem(x, g, 'b', 101)
        z = g.call('NewFieldElementUI', 5, g.big(97))
        x.check(z3.BoolVal(g.panicked(g.method(z, op, a, b))), op + ' of elements of two fields')
        x.check(z3.BoolVal(g.panicked(g.method(z, op, b, a))), op + ' of elements of two fields')
        is_value(x, g, g.method(a, 'AsInt'), va, 'operand')
        is_value(x, g, g.method(b, 'AsInt'), vb, 'operand')
        g.done()
        x.reach()
    return h


def power(p, base):
    def h(x):
        g = make(x)
        e = x.sym('e', 64)
        a = g.call('NewFieldElementUI', base, g.big(p))
        z = g.call('NewFieldElementUI', 5, g.big(p))
        if p > 1000:
            x.assume(z3.UGE(bv(kpow(x, base, e, p), p.bit_length() + 1), 1 << p.bit_length() - 8))
        r = g.method(z, 'Exp', a, simp(e) if x.native else e)
        if ok(x, g, r, 'Exp'):
            is_value(x, g, g.method(r, 'AsInt'), bv(kpow(x, base, e, p), p.bit_length() + 1), 'Exp')
            is_value(x, g, g.method(z, 'AsInt'), bv(kpow(x, base, e, p), p.bit_length() + 1), 'Exp')
            is_value(x, g, g.method(a, 'AsInt'), base, 'Exp changed its operand')
        g.done()
        x.reach()
    return h


def bit(p, v):
    def h(x):
        g = make(x)
        i = x.sym('i', 64)
        x.assume(z3.ULT(bv(i, 64), 1 << 63))
        a = g.call('NewFieldElement', g.big(v), g.big(p))
        r = g.method(a, 'Bit', simp(i) if x.native else i)
        if ok(x, g, r, 'Bit'):
            r = g.int(r)
            W = max(64, p.bit_length())
            want = z3.If(z3.ULT(bv(i, 64), p.bit_length()), z3.LShR(bv(v, W), bv(i, W)) & 1, bv(0, W))
            x.check(bv(r, W) == want, 'Bit: wrong bit')
        g.done()
        x.reach()
    return h


def order(p):
    def h(x):
        g = make(x)
        a, va = elem(x, g, 'a', p)
        b, vb = elem(x, g, 'b', p)
        r = g.int(g.method(a, 'Cmp', b))
        r = bv(r, 64)
        x.check(z3.And((r == 0) == (va == vb), (r < 0) == z3.ULT(va, vb)), 'Cmp: wrong answer')
        g.done()
        x.reach()
    return h


def rand(p):
    def h(x):
        g = make(x)
        v = x.sym('v', p.bit_length())
        x.assume(z3.ULT(v, p))
        x.ctx['randval'] = v
        e = g.call('NewFieldElementURandom', g.big(p))
        if ok(x, g, e, 'NewFieldElementURandom'):
            n, r = g.bigval(g.method(e, 'AsInt'))
            if x.native:
                x.check(z3.BoolVal(r < p), 'a random element is not reduced')
            else:
                x.check(bv(r, 16) == bv(v, 16), 'a random element is not the one drawn')
        g.done()
        x.reach()
    return h


def st_rand(ex, a):
    gmpsym.zwrite(ex, a[0], False, ex.ctx['randval'])


def tasks(tier):
    prepare()
    out = []
    quick = tier == 'quick'
    for b in (0, 1, 7, 8, 9, 63, 64, 65, 255, 256, 2100) + (() if quick else (15, 16, 17, 127, 128, 129, 511, 512, 1024, 2040, 2047, 2048, 2049)):
        for p in (97, P255) if b <= 256 else (P255,):
            out.append(gotask('construct/%d bits/p=%d bits' % (b, p.bit_length()), construct(b, p), gmp=gmpsym.UFKernel(max(b // 64 + 2, 8))))
    st = {'mpz_urandom': st_rand}
    for b in (0, 2, 5, 64, 200):
        out.append(gotask('modulus/%d' % b, modulus(b), gmp=gmpsym.UFKernel(8), stubs=st))
    for p in (97, P255):
        out.append(gotask('unsigned/p=%d bits' % p.bit_length(), unsigned(p), gmp=gmpsym.UFKernel(8)))
    for op in ('Add', 'Sub', 'Mul', 'Neg'):
        for recv in ('z', 'a', 'b', 'aa', 'other'):
            if op != 'Neg' or recv in ('z', 'a', 'other'):
                out.append(gotask('arith/%s/%s' % (op, recv), arith(op, recv, 97), gmp=lambda: gmpsym.Kernel(64)))
        if op != 'Neg':
            out.append(gotask('foreign/' + op, foreign(op), gmp=lambda: gmpsym.Kernel(64)))
    for op in ('Inv', 'Sqrt'):
        for recv in 'za':
            out.append(gotask('partial/%s/%s' % (op, recv), partial(op, recv, 23), gmp=lambda: gmpsym.Kernel(64), weight=5))
    for p, b in ((97, 5), (P255, 3)):
        out.append(gotask('power/%d bits' % p.bit_length(), power(p, b), gmp=gmpsym.UFKernel(8)))
        out.append(gotask('bit/%d bits' % p.bit_length(), bit(p, 0x5a if p == 97 else (1 << 254) + 0x5a5a1234567887651122334455667788990011), gmp=gmpsym.UFKernel(8)))
    out.append(gotask('order', order(97), gmp=lambda: gmpsym.Kernel(64)))
    out.append(gotask('random', rand(97), gmp=lambda: gmpsym.Kernel(64), stubs=st, validate=True))
    return out
