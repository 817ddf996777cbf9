"""Framework: compiling /repo to IR, running symbolic tasks, replaying counterexamples on the real library, reporting."""
import atexit, ctypes, glob, importlib, json, os, shutil, subprocess, sys, tempfile, time, traceback, signal
import multiprocessing as mp
import z3
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path[:0] = [HERE, os.path.join(ROOT, 'checks')]
import ir, sym, gmpsym, libcsym
from sym import bv, simp, is_z3, boolz, Ex, Config, explore, Undef, Ptr, Fault, Inconclusive, PathEnd, Opaque, FnPtr

REPO = os.environ.get('VERIF_REPO', '/repo')
OPT = '/usr/lib/llvm-18/bin/opt'
LIB = ['field', 'ecurve', 'ecpoint', 'ecdsa', 'ecelgamal', 'mpzurandom', 'safememory']

_scratch = [None]


def scratch():
    if _scratch[0] is None:
        d = tempfile.mkdtemp(prefix='vf-', dir=os.environ.get('VF_TMP', '/tmp'))
        _scratch[0] = d
        pid = os.getpid()

        def clean():
            if os.getpid() == pid:
                shutil.rmtree(d, ignore_errors=True)
        atexit.register(clean)
    return _scratch[0]


class BuildError(Exception):
    pass


def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode:
        raise BuildError('%s\n%s' % (' '.join(cmd), r.stdout[-3000:]))
    return r.stdout


def lib_sources():
    """every C file of the library directory (a helper may have moved into a new file)"""
    return sorted(glob.glob(REPO + '/src/*.c'))


def compile_ir(src, passes='sroa', cflags=(), opt='-O1', tag=''):
    out = os.path.join(scratch(), tag + os.path.basename(src) + '.ll')
    cmd = ['clang', opt, '-w', '-fno-discard-value-names', '-I' + REPO + '/include', *cflags, '-S', '-emit-llvm', src, '-o', out]
    if passes is not None:
        cmd[2:2] = ['-Xclang', '-disable-llvm-passes']
    sh(cmd)
    if passes:
        sh([OPT, '-passes=' + passes, '-S', out, '-o', out])
    return open(out).read()


_progs = {}


def program(srcs='lib', cflags=(), passes='sroa', opt='-O1'):
    key = (srcs if isinstance(srcs, str) else tuple(srcs), tuple(cflags), passes, opt)
    if key in _progs:
        return _progs[key]
    P = ir.Program()
    files = lib_sources() if srcs == 'lib' else list(srcs)
    for f in files:
        ir.Module(P, compile_ir(f, passes, cflags, opt, tag='%d-' % len(_progs)), os.path.basename(f)[:-2])
    _progs[key] = P
    return P


# ---------------------------------------------------------------------------------------------- native side
def build_native(variant='plain', outdir=None):
    out = os.path.join(outdir or scratch(), 'libv_%s.so' % variant)
    if os.path.exists(out):
        return out
    fl = {'plain': ['-O2'], 'zero': ['-O1', '-ftrivial-auto-var-init=zero'], 'pattern': ['-O1', '-ftrivial-auto-var-init=pattern'], 'asan': ['-O1', '-fsanitize=address,undefined', '-fno-sanitize-recover=undefined',
                                     '-fno-omit-frame-pointer']}[variant]
    sh(['gcc', '-g', '-w', '-fPIC', '-shared', *fl, '-I' + REPO + '/include', *lib_sources(), '-lgmp', '-o', out])
    return out


class NativeX:
    """the harness interface, executed for one concrete input on the compiled library"""
    native = True

    def __init__(self, lib, wit):
        self.lib = ctypes.CDLL(lib)
        self.libc = ctypes.CDLL(None)
        self.libc.malloc.restype = ctypes.c_void_p
        self.wit = wit
        self.failed = []
        self.reached = 0
        self.ctx = {}
        self.notes = []
        self.inputs = {}
        self.keep = []
        self.log = []

    def sym(self, name, bits):
        return z3.BitVecVal(self.wit.get(name, 0), bits)

    def symbool(self, name):
        return bool(self.wit.get(name, 0) & 1)

    def hint(self, *a):
        pass

    def assume(self, c):
        c = simp(c)
        if isinstance(c, int) and not c:
            raise PathEnd('assumption not met by the witness')

    assume_nc = assume

    def branch(self, c):
        c = simp(c)
        if not isinstance(c, int):
            raise Inconclusive('symbolic in native run')
        return bool(c)

    def concretize(self, v, w=64, limit=0, what=''):
        v = simp(v)
        assert isinstance(v, int)
        return v

    def check(self, c, msg):
        c = simp(c)
        self.log.append(c)
        if not isinstance(c, int):
            raise Inconclusive('symbolic in native run')
        if not c:
            self.failed.append(msg)
        return bool(c)

    def fail(self, msg):
        self.failed.append(msg)

    def reach(self, *a):
        self.reached += 1

    def alloc(self, size, name='heap', kind='heap', fill=None):
        p = self.libc.malloc(ctypes.c_size_t(max(size, 1)))
        ctypes.memset(p, 0xA5 if fill is None else fill, size)
        return p

    def padd(self, p, off):
        return p + (off if isinstance(off, int) else simp(off))

    def load(self, p, n):
        v = int.from_bytes(ctypes.string_at(p, n), 'little')
        if n < 8 or v < 1 << 40:      # not an address
            self.log.append(v)
        return v

    def store(self, p, n, v):
        if is_z3(v):
            v = simp(v)
        ctypes.memmove(p, (v & ((1 << (8 * n)) - 1)).to_bytes(n, 'little'), n)

    def ld(self, p, off, n):
        return self.load(p + off, n)

    def st(self, p, off, n, v):
        self.store(p + off, n, v)

    def call(self, name, *args):
        f = getattr(self.lib, name)
        f.restype = ctypes.c_uint64
        f.argtypes = None
        a = []
        for v in args:
            v = simp(v) if is_z3(v) else v
            a.append(ctypes.c_uint64(v & sym.MASK[64]))
        return f(*a)

    def free(self, p):
        self.libc.free(ctypes.c_void_p(p))


def ci(x, name, *args):
    """call of a function returning int: the 32-bit result"""
    r = x.call(name, *args)
    if x.native:
        return r & 0xffffffff
    return simp(r)


def mkbytes(x, bs, name='bytes'):
    p = x.alloc(len(bs), name)
    for i, b in enumerate(bs):
        x.store(x.padd(p, i), 1, b)
    return p


def mkstr(x, s):
    bs = [ord(c) for c in s] if isinstance(s, str) else list(s)
    return mkbytes(x, bs + [0], 'string')


def cstr(x, p, maxlen=100000):
    out = []
    while True:
        b = x.load(p, 1)
        if isinstance(b, Undef):
            raise Fault('uninit', 'string byte')
        if x.branch(bv(b, 8) == 0):
            return out
        out.append(b)
        p = x.padd(p, 1)


# ---- GMP objects in either mode
def mpz(x, v, w=None, neg=False):
    """a normal mpz_t with the value v (int or bit-vector)"""
    if x.native:
        v = simp(v) if is_z3(v) else v
        if neg is not False and x.branch(neg):
            v = -v
        p = x.alloc(16)
        g = ctypes.CDLL('libgmp.so.10')
        g.__gmpz_init.argtypes = [ctypes.c_void_p]
        g.__gmpz_set_str.argtypes = [ctypes.c_void_p, ctypes.c_char_p, ctypes.c_int]
        g.__gmpz_init(p)
        g.__gmpz_set_str(p, hex(v).replace('0x', '').encode(), 16)
        return p
    return gmpsym.mpz_new(x, v, neg=neg)


def zval(x, p):
    """(negative, magnitude) of an mpz_t"""
    if x.native:
        n = x.ld(p, 4, 4)
        n = n - (1 << 32) if n >> 31 else n
        d = x.ld(p, 8, 8)
        return n < 0, int.from_bytes(ctypes.string_at(d, 8 * abs(n)), 'little')
    return gmpsym.zread(x, p)


def limbs(x, d, n):
    v = 0
    ls = []
    for i in range(n):
        l = x.ld(d, 8 * i, 8)
        if isinstance(l, Undef):
            raise Fault('uninit', 'limb %d of the result' % i)
        ls.append(l)
    return gmpsym.concat_limbs(ls)


# ---- task plumbing
class Task:
    def __init__(self, name, fn, prog=None, stubs=None, gmp=None, replay='auto', fault_ok=(), weight=1, bounds='', cfg=None,
                 replay_fn=None, must_reach=True, variants=('plain', 'asan', 'uninit'), native_lib=None, budget=600, sig=None,
                 validate=True, candidates=None):
        self.__dict__.update(locals())
        del self.__dict__['self']


def run_task(task, deadline):
    t0 = time.time()
    cfg = Config(stubs=task.stubs or {}, gmp=task.gmp() if callable(task.gmp) else task.gmp, fault_ok=task.fault_ok, deadline=deadline)
    for k, v in (task.cfg or {}).items():
        setattr(cfg, k, v)
    prog = task.prog() if callable(task.prog) else (task.prog or program())
    return explore(prog, task.fn, cfg, task.name)


def kmul(x, a, b):
    return simp(a) * simp(b) if x.native else gmpsym.K(x).mul(x, a, b)


def kmod(x, a, m):
    return simp(a) % simp(m) if x.native else gmpsym.K(x).mod(x, a, m)


def kpow(x, a, e, m):
    return pow(simp(a), simp(e), simp(m)) if x.native else gmpsym.K(x).powm(x, a, e, m)


PRIMES = {   # by limb count: shapes with dense, sparse and almost-full top limbs
    1: [97, 2**31 - 1, 2**64 - 59, 2**64 - 2**32 + 1],
    2: [2**127 - 1, 2**128 - 159, 2**112 - 75],
    3: [2**192 - 2**64 - 1, 2**130 - 5, 2**160 - 2**31 - 1],
    4: [2**255 - 19, 2**256 - 2**224 + 2**192 + 2**96 - 1, 2**256 - 2**32 - 977, 2**224 - 2**96 + 1],
    5: [2**320 - 197],
    6: [2**384 - 2**128 - 2**96 + 2**32 - 1, 2**383 - 187],
    7: [2**448 - 2**224 - 1],
    9: [2**521 - 1],
    16: [2**1024 - 105],
}
