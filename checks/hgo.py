"""Shared by the checks of the Go package."""
from gosym import *

P97, P64, P127, P255 = 97, 2**64 - 59, 2**127 - 1, 2**255 - 19


def prepare():
    if '--native' not in sys.argv:
        goprogram()


def integer(x, g, name, bits):
    """(handle, negative, magnitude) of an arbitrary integer of exactly that many bits"""
    if bits == 0:
        return g.big(0), z3.BoolVal(False), z3.BitVecVal(0, 8)
    m = x.sym(name, bits)
    x.assume(z3.Extract(bits - 1, bits - 1, m) == 1)
    n = x.symbool(name + '_neg')
    h = g.big(m, n, bits)
    return h, boolz(n), bv(simp(m), bits)


def residue(x, neg, m, p):
    r = bv(kmod(x, m, p), p.bit_length() + 1)
    return z3.If(z3.And(boolz(neg), r != 0), p - r, r)


def intact(x, g, h, neg, m, what):
    """the argument still is the integer it was"""
    n, v = g.bigval(h)
    W = max(gmpsym.width(m), gmpsym.width(v) if is_z3(v) else v.bit_length(), 1)
    x.check(z3.And(boolz(n) == boolz(neg), bv(v, W) == bv(m, W)), what + ' changed the integer it was given')


def is_value(x, g, h, want, what):
    """h is the non-negative integer want"""
    x.check(z3.BoolVal(not g.isnil(h)), what + ': no result')
    if g.isnil(h):
        return
    n, v = g.bigval(h)
    W = max(gmpsym.width(want) if is_z3(want) else want.bit_length(), gmpsym.width(v) if is_z3(v) else v.bit_length(), 1)
    x.check(z3.And(z3.Not(boolz(n)), bv(v, W) == bv(want, W)), what + ': wrong value')


def ok(x, g, r, what):
    x.check(z3.BoolVal(not g.panicked(r)), what + ' panics')
    return not g.panicked(r)
