"""C06 the field registry: one object per modulus, never disturbed."""
from hfield import *

BOUNDS = 'every sequence of three moduli of the listed limb shapes (1..4 limbs, symbolic values, equal or not), looked up in order and again; the caller overwrites its modulus integer in between'
OUTSIDE = 'more than three distinct moduli; concurrent use'
ASSUMES = ['GMP functions behave as documented']


def same(x, a, b):
    return a == b if x.native else isinstance(a, Ptr) and isinstance(b, Ptr) and a.o is b.o and a.off == b.off


def pval(x, F, p, n, what):
    ng, v = zval(x, F)
    x.check(bv(v, 64 * 16) == bv(p, 64 * 16), what)
    x.check(bv(x.ld(F, 32, 8), 64) == n, 'registry: wrong limb count')


def harness(shape, how):
    def h(x):
        ps, zs, Fs = [], [], []
        for i, n in enumerate(shape):
            p = x.sym('p%d' % i, 64 * n)
            x.assume(z3.Extract(64 * n - 1, 64 * n - 64, p) != 0)
            x.assume(z3.UGE(p, 2))
            ps.append(p)
            z = gmpsym_full(x, p, n)
            zs.append(z)
            if how == 'init':
                t = x.alloc(FP, 'mpFp')
                x.call('mpFp_init', t, z)
            else:
                # assigning through the modulus must end in the same field object
                t = x.alloc(FP, 'mpFp')
                x.call('mpFp_init', t, zs[0])
                x.call('mpFp_set_ui', t, 1, z)
            F = x.ld(t, 16, 8)
            Fs.append(F)
            pval(x, F, p, n, 'registry: the field does not hold the modulus asked for')
            if i == 1:
                x.call('mpFp_clear', t)
        for i in range(len(shape)):
            for j in range(i):
                W = 64 * max(shape)
                x.check(z3.BoolVal(same(x, Fs[i], Fs[j])) == (bv(ps[i], W) == bv(ps[j], W)), 'registry: same field object exactly for the same modulus')
        # the caller's integer is its own: reuse it for another number
        for i in range(len(shape)):
            x.call('mpz_setter', zs[i]) if False else overwrite(x, zs[i], shape[i])
        for i, n in enumerate(shape):
            pval(x, Fs[i], ps[i], n, 'registry: a field changed after it was created')
            z = gmpsym_full(x, ps[i], n)
            t = x.alloc(FP, 'mpFp')
            x.call('mpFp_init', t, z)
            x.check(z3.BoolVal(same(x, x.ld(t, 16, 8), Fs[i])), 'registry: a second look-up gives another object')
        x.reach()
    return h


def overwrite(x, z, n):
    d = x.ld(z, 8, 8)
    for i in range(n):
        x.st(d, 8 * i, 8, 3 + i)


def tasks(tier):
    out = []
    shapes = [(1, 1, 1), (1, 2, 1), (2, 1, 2), (2, 2, 2), (3, 2, 3), (4, 4, 3)] + ([(4, 4, 4), (9, 9, 4), (3, 3, 3), (1, 9, 16), (16, 16, 1)] if tier != 'quick' else [(9, 1, 9)])
    for s in shapes:
        for how in ('init', 'assign'):
            out.append(Task('registry/%s/%s' % ('-'.join(map(str, s)), how), harness(s, how), gmp=lambda s=s: gmpsym.UFKernel(max(s))))
    return out
