"""C01 addition, subtraction and negation of field elements."""
from hfield import *

BOUNDS = 'every modulus p >= 2 of exactly n limbs, every pair of reduced operands, every 64-bit word operand; n = 1..4 (quick), also 6 and 9 (thorough); ' \
         'every aliasing of result and operands; result element previously unused, or holding a value of a smaller or a larger field'
OUTSIDE = 'limb counts not listed; GMP itself is modelled, not verified'
ASSUMES = ['GMP functions behave as documented (their model is validated against libgmp by replaying path inputs on the compiled library)']

UI = ('add_ui', 'sub_ui')


def expect(op, a, b, p, n):
    W = 64 * n + 2
    A, B, Pp = bv(a, W), bv(b, W), bv(p, W)
    if op in UI:
        B = bv(z3.URem(bv(b, 64), p), W) if n == 1 else B
        op = op[:3]
    if op == 'add':
        s = A + B
        return z3.If(z3.UGE(s, Pp), s - Pp, s)
    if op == 'sub':
        return z3.If(z3.UGE(A, B), A - B, A - B + Pp)
    return z3.If(A == 0, A, Pp - A)


def harness(op, n, alias, prev):
    def h(x):
        p, a, b = x.sym('p', 64 * n), x.sym('a', 64 * n), x.sym('b', 64 if op in UI else 64 * n)
        x.assume(z3.Extract(64 * n - 1, 64 * n - 64, p) != 0)
        x.assume(z3.UGE(p, 2))
        x.assume(z3.ULT(a, p))
        if op in ('add', 'sub') and 'b=a' in alias:
            b = a
        elif op in ('add', 'sub'):
            x.assume(z3.ULT(b, p))
        F, pz = field(x, p, n)
        A = fp_elem(x, F, a, n)
        if op in UI:
            B, bval = b, b
        elif 'b=a' in alias:
            B = A
        else:
            B = fp_elem(x, F, b, n)
        if 'c=a' in alias:
            C = A
        elif 'c=b' in alias:
            C = B
        elif prev:
            G, _ = field(x, 23 if prev == 'small' else (1 << (64 * (n + 2))) - 59)
            C = fp_elem(x, G, 7, 1 if prev == 'small' else n + 2)
        else:
            C = fp_new(x, F)
        if op == 'neg':
            x.call('mpFp_neg', C, A)
        else:
            x.call('mpFp_' + op, C, A, B)
        v = wellformed(x, C, F, p, n, op)
        x.check(bv(v, 64 * n + 2) == expect(op, a, b, p, n), op + ': wrong value')
        if C is not A and 'c=a' not in alias:
            x.check(bv(fp_val(x, A, n), 64 * n) == a, op + ': first operand changed')
        if op in ('add', 'sub') and not alias:
            x.check(bv(fp_val(x, B, n), 64 * n) == b, op + ': second operand changed')
        x.reach()
    return h


def tasks(tier):
    out = []
    for op in ('add', 'sub', 'neg', 'add_ui', 'sub_ui'):
        al = [(), ('c=a',)] + ([('c=b',), ('b=a',), ('b=a', 'c=a')] if op in ('add', 'sub') else [])
        for n in ([1, 2, 3, 4] if tier == 'quick' else [1, 2, 3, 4, 6, 9]):
            for A in al:
                for prev in ([None, 'small', 'large'] if A == () and n in (1, 3) else [None]):
                    if op in ('add', 'sub') and n == 4 and A == ('c=b',) and tier == 'quick':
                        pass
                    out.append(Task('%s/%d limbs/%s%s' % (op, n, '+'.join(A) or 'distinct', '/prev-' + prev if prev else ''), harness(op, n, A, prev),
                                    weight=n * (3 if op == 'sub' else 2)))
    return out
