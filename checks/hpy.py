"""Shared by the checks of the Python binding."""
from pysym import *

P97, P64, P127, P255 = 97, 2**64 - 59, 2**127 - 1, 2**255 - 19
OTHERS = ('none', 'str', 'bytes', 'list', 'tuple', 'dict', 'float', 'object')


def integer(x, py, name, bits):
    """(handle, negative, magnitude) of an arbitrary integer of exactly that many bits"""
    if bits == 0:
        return py.int(0, bits=0), False, z3.BitVecVal(0, 8)
    m = x.sym(name, bits)
    x.assume(z3.Extract(bits - 1, bits - 1, m) == 1)
    n = x.symbool(name + '_neg')
    if x.native:
        m = simp(m)
        return py.int(m, n, bits), n, z3.BitVecVal(m, bits)
    return py.int(m, n, bits), n, m


def residue(x, neg, m, p):
    """(+-m) mod p, one bit wider than p"""
    r = bv(kmod(x, m, p), p.bit_length() + 1)
    neg = z3.BoolVal(neg) if isinstance(neg, bool) else neg
    return z3.If(z3.And(neg, r != 0), p - r, r)


def element(x, py, name, p, v=None):
    """(handle, value) of an arbitrary element"""
    if v is None:
        v = x.sym(name, p.bit_length())
        x.assume(z3.ULT(v, p))
        if p.bit_length() > 64:      # longest values only: the sizes in between are C01 to C03
            x.assume(z3.UGE(v, 1 << 64 * ((p.bit_length() - 1) // 64)))
    if x.native:
        v = z3.BitVecVal(simp(v), p.bit_length())
        return py.new('FieldElement', py.int(simp(v)), py.int(p)), v
    e = py.new('FieldElement', py.int(1), py.int(p))
    d = x.ld(e, 24, 8)
    n = (p.bit_length() + 63) // 64
    if isinstance(d, Ptr) and [x.ld(d, 8 * i, 8) for i in range(n)] == [1] + [0] * (n - 1):
        for i in range(n):           # the value is written into place: one path instead of one per length
            x.st(d, 8 * i, 8, gmpsym.limb(bv(v, 64 * n), i))
        return e, v
    return py.new('FieldElement', py.int(simp(v)), py.int(p)), v


def exc(o):
    return isinstance(o, Exc)


def value(x, py, o, p, what):
    """the value of a result element, checked to be canonical"""
    x.check(z3.BoolVal(py.kind(o) == 'FieldElement'), what + ': the result is not a field element')
    r = py.int_of(o)
    x.check(z3.BoolVal(not exc(r) and py.kind(r) == 'int'), what + ': int() of the result fails')
    n, v = py.intval(r)
    x.check(z3.BoolVal(n is False), what + ': negative result')
    W = max(p.bit_length() + 1, gmpsym.width(v) if not x.native else v.bit_length())
    x.check(z3.ULT(bv(v, W), p), what + ': the result is not reduced')
    return bv(v, W) if W == p.bit_length() + 1 else simp(z3.Extract(p.bit_length(), 0, bv(v, W)))


def expect(x, op, a, b, p):
    """a op b mod p for values below p (one bit wider than p)"""
    W = p.bit_length() + 1
    a, b = bv(a, W), bv(b, W)
    if op == '+':
        s = a + b
        return z3.If(z3.UGE(s, p), s - p, s)
    if op == '-':
        return z3.If(z3.UGE(a, b), a - b, a - b + p)
    f = lambda t: simp(z3.Extract(p.bit_length() - 1, 0, t))
    return bv(kmod(x, kmul(x, f(a), f(b)), p), W)


class Refs:
    """the operands' reference counts before and after"""
    def __init__(self, x, py, *objs):
        self.x, self.py = x, py
        self.objs = [(o, py.refs(o)) for o in objs if o is not None]

    def kept(self, what):
        """no operand has lost a reference it still owes to its owner"""
        for o, n in self.objs:
            if isinstance(n, int) and n & 0x80000000:
                continue
            self.x.check(z3.BoolVal(self.py.refs(o) >= n), what + ': an operand lost a reference')


def kernel(p, wide=0):
    if p < 1 << 12:
        return gmpsym.Kernel(24)
    return gmpsym.UFKernel(max(wide // 64 + 2, 2 * (p.bit_length() + 63) // 64 + 2))
