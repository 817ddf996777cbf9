"""C30 cleaned memory: nothing that was stored in a block survives its release, also after optimisation."""
import ctypes, threading
from hfield import *
import vf
from vf import *

BOUNDS = 'the memory functions registered with GMP: every content, blocks of 0 to 40 bytes and of listed sizes up to 2064 bytes, growing, shrinking and freeing in every combination of listed sizes, on the unoptimised code and on the code as optimised at -O2; ' \
         'with SAFE_CLEAN: the objects of field elements, points (with and without table) and curves after their clear functions'
OUTSIDE = 'copies left in registers and on the stack; larger blocks'
ASSUMES = ['GMP calls the registered functions with the sizes it allocated', 'clang -O2 stands for the optimiser; the replays use gcc -O2']
_lock = threading.Lock()
MEM = 'FREED'


def lib(variant):
    out = os.path.join(scratch(), 'libfree_%s.so' % variant)
    with _lock:
        if not os.path.exists(out):
            fl = {'plain': ['-O2'], 'zero': ['-O1', '-ftrivial-auto-var-init=zero'], 'pattern': ['-O1', '-ftrivial-auto-var-init=pattern'],
                  'asan': ['-O1', '-fsanitize=address,undefined', '-fno-sanitize-recover=undefined', '-fno-omit-frame-pointer']}[variant]
            vf.sh(['gcc', '-g', '-w', '-fPIC', '-shared', '-Wl,--wrap=free', *fl, '-I' + vf.REPO + '/include', *lib_sources(), os.path.join(vf.HERE, 'native', 'fakefree.c'), '-lgmp', '-o', out])
        return out


def register(x):
    """the functions GMP is given"""
    if not x.native:
        x.call('_enable_gmp_safe_clean')
        a = x.ctx['gmp_memory_functions']
        return lambda *v: x.call(a[1].name, *v), lambda *v: x.call(a[2].name, *v)
    g = ctypes.CDLL('libgmp.so.10')
    old = [ctypes.c_void_p() for _ in range(3)]
    g.__gmp_get_memory_functions(*[ctypes.byref(o) for o in old])
    x.call('_enable_gmp_safe_clean')
    new = [ctypes.c_void_p() for _ in range(3)]
    g.__gmp_get_memory_functions(*[ctypes.byref(o) for o in new])
    g.__gmp_set_memory_functions(*old)
    re = ctypes.CFUNCTYPE(ctypes.c_void_p, ctypes.c_void_p, ctypes.c_size_t, ctypes.c_size_t)(new[1].value)
    fr = ctypes.CFUNCTYPE(None, ctypes.c_void_p, ctypes.c_size_t)(new[2].value)
    x.keep.append((re, fr))
    return re, fr


def watch(x, blocks):
    """blocks: [(pointer, size)]: at release every byte must be zero"""
    if not x.native:
        def hook(ex, p):
            for q, n in blocks:
                if p.o is q.o:
                    for i in range(n):
                        ex.check(bv(ex.load(ex.padd(q, i), 1), 8) == 0, 'a released block still holds its content')
                    ex.ctx.setdefault(MEM, []).append(q)
        x.cfg.free_hook = hook
        return
    x.call('vf_set_free_hook', 0)

    def cb(p):
        for q, n in blocks:
            if p == q:
                x.check(z3.BoolVal(ctypes.string_at(q, n) == bytes(n)), 'a released block still holds its content')
                x.ctx.setdefault(MEM, []).append(q)
    f = ctypes.CFUNCTYPE(None, ctypes.c_void_p)(cb)
    x.keep.append(f)
    x.call('vf_set_free_hook', ctypes.cast(f, ctypes.c_void_p).value)


def unwatch(x):
    if x.native:
        x.call('vf_set_free_hook', 0)
    else:
        x.cfg.free_hook = None


def same(x, a, b):
    return a == b if x.native else isinstance(a, Ptr) and isinstance(b, Ptr) and a.o is b.o and a.off == b.off


def chain(sizes):
    """allocate sizes[0] bytes, reallocate through the other sizes, filling the block each time, then free"""
    def h(x):
        re, fr = register(x)
        blocks = []
        n = sizes[0]
        p = x.alloc(n, 'block')
        blocks.append((p, n))
        watch(x, blocks)
        cont = []
        for i in range(n):
            b = x.sym('b%d' % i, 8)
            x.store(x.padd(p, i), 1, b)
            cont.append(b)
        for k, m in enumerate(sizes[1:]):
            q = re(p, n, m)
            for i in range(min(n, m)):
                x.check(bv(x.ld(q, i, 1), 8) == bv(cont[i], 8), 'reallocation changed the content')
            if same(x, q, p):
                # the block keeps its place: the part given up is clean
                x.check(z3.BoolVal(m <= blocks[-1][1]), 'the block is too small')
                for i in range(m, n):
                    x.check(bv(x.ld(q, i, 1), 8) == 0, 'the part of a block given up still holds its content')
            else:
                x.check(z3.BoolVal(any(same(x, p, f) for f in x.ctx.get(MEM, []))), 'the old block is not released')
                blocks.append((q, m))
            cont = cont[:m]
            for i in range(len(cont), m):
                b = x.sym('c%d_%d' % (k, i), 8)
                x.store(x.padd(q, i), 1, b)
                cont.append(b)
            p, n = q, m
        fr(p, n)
        x.check(z3.BoolVal(any(same(x, p, f) for f in x.ctx.get(MEM, []))), 'the block is not released')
        unwatch(x)
        x.reach()
    return h


def allzero(x, t, n, what):
    for i in range(0, n, 8):
        v = x.ld(t, i, 8)
        x.check(z3.BoolVal(not isinstance(v, Undef) and not isinstance(v, Ptr)), what)
        if not isinstance(v, (Undef, Ptr)):
            x.check(bv(v, 64) == 0, what)


def wipe(kind):
    def h(x):
        from hsmall import tcurve, pnew
        cv = tcurve(x, 'ed11' if kind == 'ed' else 'te11' if kind == 'te' else 'mo11' if kind == 'mo' else 'ws11')
        if kind == 'fp':
            t = x.alloc(24, 'element')
            x.call('mpFp_init', t, mpz(x, 2**127 - 1))
            v = x.sym('v', 120)
            x.call('mpFp_set_mpz', t, mpz(x, v), mpz(x, 2**127 - 1))
            x.call('mpFp_clear', t)
            allzero(x, t, 24, 'a cleared field element keeps data')
        elif kind in ('point', 'table'):
            t = x.alloc(104, 'point')
            x.call('mpECP_init', t, cv)
            v = x.sym('v', 3)
            x.call('mpECP_set_mpz', t, mpz(x, v), mpz(x, 1), cv)
            if kind == 'table':
                x.call('mpECP_set_mpz', t, mpz(x, 1), mpz(x, 0), cv)
                x.call('mpECP_set_neutral', t, cv)
                x.call('mpECP_scalar_base_mul_setup', t)
            x.call('mpECP_clear', t)
            allzero(x, t, 104, 'a cleared point keeps data')
        else:
            x.call('mpECurve_clear', cv)
            allzero(x, cv, 232, 'a cleared curve keeps data')
        x.reach()
    return h


def safelib(variant):
    out = os.path.join(scratch(), 'libsafe_%s.so' % variant)
    with _lock:
        if not os.path.exists(out):
            fl = {'plain': ['-O2'], 'zero': ['-O1', '-ftrivial-auto-var-init=zero'], 'pattern': ['-O1', '-ftrivial-auto-var-init=pattern'],
                  'asan': ['-O1', '-fsanitize=address,undefined', '-fno-sanitize-recover=undefined', '-fno-omit-frame-pointer']}[variant]
            vf.sh(['gcc', '-g', '-w', '-DSAFE_CLEAN', '-fPIC', '-shared', *fl, '-I' + vf.REPO + '/include', *lib_sources(), '-lgmp', '-o', out])
        return out


def tasks(tier):
    out = []
    S = (0, 1, 7, 8, 24, 40) if tier == 'quick' else (0, 1, 2, 7, 8, 9, 16, 24, 31, 40, 64, 100)
    # the code as the optimiser leaves it
    o2 = dict(prog=lambda: program(lib_sources(), cflags=('-fno-vectorize', '-fno-slp-vectorize', '-fno-unroll-loops'), passes=None, opt='-O2'))
    for tag, kw in (('O0', {}), ('O2', o2)):
        for a in S:
            out.append(Task('%s/free/%d' % (tag, a), chain((a,)), native_lib=lib, gmp=lambda: gmpsym.Kernel(64), **kw))
            for b in S:
                if a != b:
                    out.append(Task('%s/realloc/%d-%d' % (tag, a, b), chain((a, b)), native_lib=lib, gmp=lambda: gmpsym.Kernel(64), **kw))
        for a in (64, 65, 129, 256, 264, 1024, 1032) if tier == 'quick' else (63, 64, 65, 128, 129, 255, 256, 257, 264, 512, 520, 1000, 1024, 1032, 2048, 4096, 4104):
            out.append(Task('%s/free/%d' % (tag, a), chain((a,)), native_lib=lib, gmp=lambda: gmpsym.Kernel(64), cfg={'max_steps': 4000000}, **kw))
            for b in (16, a // 2, a + 8, 2 * a):
                out.append(Task('%s/realloc/%d-%d' % (tag, a, b), chain((a, b)), native_lib=lib, gmp=lambda: gmpsym.Kernel(64), cfg={'max_steps': 4000000}, **kw))
        for c in ((8, 24, 16), (24, 8, 16), (24, 8, 40), (40, 24, 8)):
            out.append(Task('%s/realloc/%s' % (tag, '-'.join(map(str, c))), chain(c), native_lib=lib, gmp=lambda: gmpsym.Kernel(64), **kw))
    for k in ('fp', 'point', 'table', 'ws', 'ed', 'te', 'mo'):
        out.append(Task('wipe/' + k, wipe(k), native_lib=safelib, gmp=lambda: gmpsym.Kernel(64), prog=lambda: program('lib', cflags=('-DSAFE_CLEAN',)), cfg={'max_steps': 4000000}))
    return out
