"""C09 named curves: exactly the listed names are known, each with its standard parameters."""
import json, os
from vf import *
REF = json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'curves.json')))

BOUNDS = 'every name of up to 18 bytes (one more than the longest standard name) ended by a NUL, any content; fresh curve objects and objects that hold a curve; ' \
         'for each known name the parameters are compared with a table of the published standards (checks/curves.json, validated arithmetically: primality, base point, order, Hasse bound)'
OUTSIDE = 'names longer than 18 bytes'
ASSUMES = ['strcmp and the GMP functions behave as documented']

TYPES = {'ws': 2, 'ed': 3, 'mo': 4, 'te': 5}


def fpval(x, cv, off):
    return limbs(x, x.ld(cv, off + 8, 8), x.concretize(x.ld(cv, off + 4, 4), 32))


def name_of(x, bs):
    """the name the current path is about, if it is one of the reference names; decided by the solver"""
    for nm in sorted(REF):
        c = [ord(k) for k in nm] + [0]
        if len(c) > len(bs):
            continue
        e = z3.And(*[bv(b, 8) == k for b, k in zip(bs, c)])
        if x.branch(simp(e)):
            return nm
    return None


def harness(group, used):
    """group: the first byte class, to split the work"""
    def h(x):
        L = 18
        bs = [x.sym('s%d' % i, 8) for i in range(L)] + [0]
        lo, hi = group
        x.assume(z3.And(z3.UGE(bs[0], lo), z3.ULE(bs[0], hi)))
        s = mkbytes(x, bs, 'name')
        cv = x.alloc(512, 'curve')
        x.call('mpECurve_init', cv)
        if used:
            x.check(bv(ci(x, 'mpECurve_set_named', cv, mkstr(x, used)), 32) == 0, 'standard curve not known')
        st = ci(x, 'mpECurve_set_named', cv, s)
        nm = name_of(x, bs)
        x.check((bv(st, 32) == 0) == z3.BoolVal(nm is not None), 'a name is known that should not be, or the reverse')
        if nm is None:
            if used:
                c2 = x.alloc(512, 'curve')
                x.call('mpECurve_init', c2)
                x.call('mpECurve_set_named', c2, mkstr(x, used))
                x.check(bv(ci(x, 'mpECurve_cmp', cv, c2), 32) == 0, 'an unknown name changed the curve object')
            return x.reach()
        r = REF[nm]
        if not x.check(bv(x.ld(cv, 0, 4), 32) == TYPES[r['kind']], nm + ': equation type'):
            return
        F = x.ld(cv, 8, 8)
        for what, got, want in (('p', zval(x, F)[1], r['p']), ('first coefficient', fpval(x, cv, 16), r['a'] % r['p']), ('second coefficient', fpval(x, cv, 40), r['b'] % r['p']),
                                ('n', zval(x, x.padd(cv, 160))[1], r['n']), ('h', zval(x, x.padd(cv, 176))[1], r['h']),
                                ('base point x', zval(x, x.padd(cv, 192))[1], r['gx']), ('base point y', zval(x, x.padd(cv, 208))[1], r['gy']), ('bits', x.ld(cv, 224, 4), r['bits'])):
            x.check(z3.BoolVal(simp(got) == want), '%s: %s' % (nm, what))
        x.check(bv(ci(x, 'mpECurve_point_check', cv, x.padd(cv, 192), x.padd(cv, 208)), 32) != 0, nm + ': base point not on the curve')
        x.reach()
    return h


def listing(x):
    """the listing names exactly the known curves, once each"""
    l = x.call('_mpECurve_list_standard_curves')
    seen = []
    for i in range(200):
        p = x.ld(l, 8 * i, 8)
        if (p == 0 if x.native or isinstance(p, int) else False):
            break
        seen.append(''.join(chr(x.concretize(b, 8)) for b in cstr(x, p)))
    x.check(z3.BoolVal(sorted(seen) == sorted(REF)), 'the list of standard curves is not the set of known names')
    for nm in seen:
        cv = x.alloc(512, 'curve')
        x.call('mpECurve_init', cv)
        x.check(bv(ci(x, 'mpECurve_set_named', cv, mkstr(x, nm)), 32) == 0, nm + ' is listed but not known')
    x.reach()


def tasks(tier):
    out = []
    firsts = sorted({ord(n[0]) for n in REF})
    bounds = [0] + firsts + [255]
    groups, prev = [], 0
    for f in firsts:
        if f > prev:
            groups.append((prev, f - 1))
        groups.append((f, f))
        prev = f + 1
    groups.append((prev, 255))
    for g in groups:
        for used in (None, 'secp256k1', 'Curve25519') if tier != 'quick' else (None, 'Ed25519'):
            out.append(Task('name/%d-%d/%s' % (g + (used or 'fresh',)), harness(g, used), gmp=lambda: gmpsym.Kernel(64), cfg={'max_paths': 400}))
    out.append(Task('listing', listing, gmp=lambda: gmpsym.Kernel(64)))
    return out
