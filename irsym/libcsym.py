"""Models of the C library calls the code makes."""
import re
import z3
from sym import BUILTIN, builtin, Ptr, Undef, Fault, Inconclusive, PathEnd, bv, simp, is_z3, sgn, MASK, Obj, FnPtr


@builtin('malloc')
def _(ex, a):
    n = a[0]
    if isinstance(n, Undef):
        raise Fault('uninit', 'malloc size')
    n = simp(n)
    if not isinstance(n, int) and not ex.cfg.__dict__.get('symbolic_malloc'):
        n = ex.concretize(n, 64, what='malloc size')
    f = ex.cfg.__dict__.get('malloc_hook')
    if f:
        r = f(ex, n)
        if r is not None:
            return r
    return ex.alloc(n, 'malloc')


@builtin('calloc')
def _(ex, a):
    n = ex.concretize(a[0], 64) * ex.concretize(a[1], 64)
    return ex.alloc(n, 'calloc', fill=0)


@builtin('realloc')
def _(ex, a):
    n = ex.concretize(a[1], 64)
    p = ex.alloc(n, 'realloc')
    if isinstance(a[0], Ptr):
        ex.copy(p, a[0], min(n, a[0].o.size))
        hook = ex.cfg.__dict__.get('free_hook')
        if hook:
            hook(ex, a[0])
        ex.free(a[0])
    return p


@builtin('free')
def _(ex, a):
    hook = ex.cfg.__dict__.get('free_hook')
    if hook and isinstance(a[0], Ptr):
        hook(ex, a[0])
    ex.free(a[0])


@builtin('memcpy', 'memmove', '__memcpy_chk', '__memmove_chk')
def _(ex, a):
    ex.copy(a[0], a[1], a[2])
    return a[0]


@builtin('memset', '__memset_chk')
def _(ex, a):
    b = a[1]
    b = b & 0xff if isinstance(b, int) else z3.Extract(7, 0, b)
    ex.fillmem(a[0], b, a[2])
    return a[0]


@builtin('explicit_bzero', 'bzero')
def _(ex, a):
    ex.fillmem(a[0], 0, a[1])


@builtin('memcmp', 'bcmp', 'strncmp_')
def _(ex, a):
    n = ex.concretize(a[2], 64, what='memcmp length')
    for i in range(n):
        x, y = ex.load(ex.padd(a[0], i), 1), ex.load(ex.padd(a[1], i), 1)
        c = ex.icmp('ne', ('i', 8), x, y)
        if ex.branch(c):
            return simp(bv(x, 32) - bv(y, 32))
    return 0


@builtin('strlen')
def _(ex, a):
    return len(ex.cstr(a[0]))


def strcmp_expr(ex, x, y):
    """comparison with a constant string as one expression, when the other buffer is long enough"""
    def const(p):
        out = []
        while True:
            if p.off + len(out) >= p.o.size:
                return None
            b = ex.load(ex.padd(p, len(out)), 1)
            if not isinstance(b, int):
                return None
            out.append(b)
            if b == 0:
                return out
    if not (isinstance(x, Ptr) and isinstance(y, Ptr) and isinstance(x.off, int) and isinstance(y.off, int)):
        return None
    sgn, c = 1, const(y)
    if c is None:
        c, x, sgn = const(x), y, -1
    if c is None or x.off + len(c) > x.o.size:
        return None
    bs = [ex.load(ex.padd(x, i), 1) for i in range(len(c))]
    if any(isinstance(b, Undef) for b in bs) or all(isinstance(b, int) for b in bs):
        return None
    r = z3.BitVecVal(0, 32)
    for b, k in reversed(list(zip(bs, c))):
        b = bv(b, 32) if isinstance(b, int) else z3.ZeroExt(24, bv(b, 8))
        r = z3.If(b != k, (b - k) * sgn, r)
    return simp(r)


@builtin('strcmp')
def _(ex, a):
    x, y = a
    e = strcmp_expr(ex, x, y)
    if e is not None:
        return e
    while True:
        p, q = ex.load(x, 1), ex.load(y, 1)
        if ex.branch(ex.icmp('ne', ('i', 8), p, q)):
            return simp(bv(p, 32) - bv(q, 32))
        if ex.branch(ex.icmp('eq', ('i', 8), p, 0)):
            return 0
        x, y = ex.padd(x, 1), ex.padd(y, 1)


@builtin('strncmp')
def _(ex, a):
    x, y = a[0], a[1]
    for _ in range(ex.concretize(a[2], 64)):
        p, q = ex.load(x, 1), ex.load(y, 1)
        if ex.branch(ex.icmp('ne', ('i', 8), p, q)):
            return simp(bv(p, 32) - bv(q, 32))
        if ex.branch(ex.icmp('eq', ('i', 8), p, 0)):
            return 0
        x, y = ex.padd(x, 1), ex.padd(y, 1)
    return 0


@builtin('strcpy', 'strdup', 'strcat', 'strncpy')
def _(ex, a):
    raise Inconclusive('string copy')


def _strcpy(ex, a):
    s = ex.cstr(a[1])
    for i, b in enumerate(s + [0]):
        ex.store(ex.padd(a[0], i), 1, b)
    return a[0]


BUILTIN['strcpy'] = _strcpy
BUILTIN['__strcpy_chk'] = _strcpy


def _strdup(ex, a):
    s = ex.cstr(a[0])
    p = ex.alloc(len(s) + 1, 'strdup')
    for i, b in enumerate(s + [0]):
        ex.store(ex.padd(p, i), 1, b)
    return p


BUILTIN['strdup'] = _strdup


@builtin('__assert_fail')
def _(ex, a):
    try:
        what = ex.pystr(a[0])
        line = a[2]
    except Exception:
        what, line = '?', 0
    raise Fault('abort', 'assertion `%s` at line %s' % (what, line))


@builtin('abort')
def _(ex, a):
    raise Fault('abort', 'abort()')


@builtin('exit', '_exit')
def _(ex, a):
    if 'exit' in ex.cfg.fault_ok:
        raise PathEnd('exit')
    raise Fault('exit', 'exit()')


@builtin('atexit', 'printf', 'fprintf', 'puts', 'putchar', 'fputs', 'perror', 'fputc', '__printf_chk', '__fprintf_chk', 'fflush')
def _(ex, a):
    return 0


@builtin('__errno_location')
def _(ex, a):
    if 'errno' not in ex.ctx:
        ex.ctx['errno'] = ex.alloc(4, 'errno', fill=0)
    return ex.ctx['errno']


def ctype_table():
    # glibc flag bits (little endian): upper 0x100 lower 0x200 alpha 0x400 digit 0x800 xdigit 0x1000 space 0x2000 print 0x4000
    t = []
    for c in range(-128, 256):
        f = 0
        if 0 <= c < 128:
            ch = chr(c)
            if ch.isupper(): f |= 0x100
            if ch.islower(): f |= 0x200
            if ch.isalpha(): f |= 0x400
            if ch.isdigit(): f |= 0x800
            if ch in '0123456789abcdefABCDEF': f |= 0x1000
            if ch in ' \t\n\v\f\r': f |= 0x2000
            if 32 <= c < 127: f |= 0x4000
            if 33 <= c < 127: f |= 0x8000
            if ch in ' \t': f |= 0x1
            if c < 32 or c == 127: f |= 0x2
            if 33 <= c < 127 and not ch.isalnum(): f |= 0x4
            if ch.isalnum(): f |= 0x8
        t.append(f)
    return t


@builtin('__ctype_b_loc')
def _(ex, a):
    if 'ctype' not in ex.ctx:
        o = Obj('ctype table', 768, 'global')
        for i, f in enumerate(ctype_table()):
            ex._put(o, 2 * i, 2, f)
        o.const = True
        pp = Obj('ctype ptr', 8, 'global')
        ex._put(pp, 0, 8, Ptr(o, 256))
        ex.ctx['ctype'] = Ptr(pp, 0)
    return ex.ctx['ctype']


def isx(ex, b):
    """branch: is this byte a hex digit; returns its value or None"""
    if isinstance(b, int):
        return int(chr(b), 16) if chr(b) in '0123456789abcdefABCDEF' else None
    dig, up, lo = [z3.And(z3.UGE(b, l), z3.ULE(b, h)) for l, h in ((0x30, 0x39), (0x41, 0x46), (0x61, 0x66))]
    if not ex.branch(z3.Or(dig, up, lo)):
        return None
    return simp(z3.If(dig, b - 0x30, z3.If(up, b - 0x41 + 10, b - 0x61 + 10)))


def is_space(ex, b):
    if isinstance(b, int):
        return b in (32, 9, 10, 11, 12, 13)
    return ex.branch(z3.Or(b == 32, z3.And(z3.UGE(b, 9), z3.ULE(b, 13))))


@builtin('isxdigit')
def _(ex, a):
    c = a[0]
    b = c & 0xff if isinstance(c, int) else simp(z3.Extract(7, 0, c))
    return int(isx(ex, b) is not None)


@builtin('toupper', 'tolower')
def _(ex, a):
    raise Inconclusive('toupper')


def scan_hex(ex, p, maxw):
    """glibc %<maxw>X: returns (status, value, pointer after); status 1 matched, 0 no match, -1 end of input"""
    def peek():
        b = ex.load(p, 1)
        if isinstance(b, Undef):
            raise Fault('uninit', 'scan of uninitialised memory')
        return b

    def is_nul(b):
        return b == 0 if isinstance(b, int) else ex.branch(b == 0)
    b = peek()
    while not is_nul(b) and is_space(ex, b):
        p = ex.padd(p, 1)
        b = peek()
    if is_nul(b):
        return -1, 0, p
    left = maxw
    neg = False
    if (b in (0x2b, 0x2d)) if isinstance(b, int) else ex.branch(z3.Or(b == 0x2b, b == 0x2d)):
        neg = (b == 0x2d) if isinstance(b, int) else ex.branch(b == 0x2d)
        p = ex.padd(p, 1)
        left -= 1
        if left == 0:
            return 0, 0, p
        b = peek()
    digits = []
    # optional 0x prefix
    if left > 0 and not is_nul(b) and ((b == 0x30) if isinstance(b, int) else ex.branch(b == 0x30)):
        digits.append(0)
        p = ex.padd(p, 1)
        left -= 1
        if left > 0:
            b = peek()
            if (b in (0x78, 0x58)) if isinstance(b, int) else ex.branch(z3.Or(b == 0x78, b == 0x58)):
                p = ex.padd(p, 1)
                left -= 1
                digits = [] if left > 0 else [0]
                if left > 0:
                    b = peek()
                # glibc: "0x" alone scans as no match on recent versions; width 2 leaves no room anyway
                if left == 0:
                    return 0, 0, p
    while left > 0:
        b = peek()
        if is_nul(b):
            break
        d = isx(ex, b)
        if d is None:
            break
        digits.append(d)
        p = ex.padd(p, 1)
        left -= 1
    if not digits:
        return 0, 0, p
    v = 0
    for d in digits:
        if isinstance(v, int) and isinstance(d, int):
            v = v * 16 + d
        else:
            v = bv(v, 64) * 16 + bv(d, 64)
    if neg:
        v = (-v) & MASK[64] if isinstance(v, int) else -v
    return 1, v, p


@builtin('sscanf', '__isoc99_sscanf', '__isoc23_sscanf')
def _(ex, a):
    fmt = ex.pystr(a[1])
    m = re.match(r'^%(0?\d*)(hh|h|l|ll)?([xX])$', fmt)
    if not m:
        m2 = re.match(r'^%(0?\d*)(hh|h|l|ll)?([xX])%c$|.*', fmt)
        raise Inconclusive('sscanf format %r' % fmt)
    w = int(m.group(1)) if m.group(1) else 1000
    st, v, p = scan_hex(ex, a[0], w)
    if st == 1:
        n = {'hh': 1, 'h': 2, None: 4, 'l': 8, 'll': 8}[m.group(2)]
        ex.store(a[2], n, v & MASK[8 * n] if isinstance(v, int) else simp(bv(v, 8 * n)))
        return 1
    return MASK[32] if st < 0 else 0


@builtin('sprintf', '__sprintf_chk', 'snprintf', '__snprintf_chk')
def _(ex, a):
    raise Inconclusive('sprintf variant')


def hexd(d):
    if isinstance(d, int):
        return ord('0123456789ABCDEF'[d])
    return z3.If(z3.ULT(d, 10), d + 0x30, d - 10 + 0x41)


def _fmt(ex, dst, limit, fmt, args):
    """supports %02X / %02x / %s / %d with concrete widths; returns the length"""
    out = []
    i = 0
    args = list(args)
    while i < len(fmt):
        c = fmt[i]
        if c != '%':
            out.append(ord(c))
            i += 1
            continue
        m = re.match(r'%(0?)(\d*)(hh|h|l|ll|z)?([xXdsuc%])', fmt[i:])
        if not m:
            raise Inconclusive('format %r' % fmt)
        i += m.end()
        k = m.group(4)
        if k == '%':
            out.append(37)
        elif k == 's':
            out += ex.cstr(args.pop(0))
        elif k in 'xX' and m.group(1) == '0' and m.group(2) == '2':
            v = args.pop(0)
            if isinstance(v, Undef):
                raise Fault('uninit', 'formatted output')
            v = simp(bv(v, 32)) if is_z3(v) else v & MASK[32]
            if isinstance(v, int) and v >= 256:
                out += [ord(ch) for ch in ('%x' % v if k == 'x' else '%X' % v)]
                continue
            if not isinstance(v, int) and ex.branch(z3.UGE(v, 256)):
                raise Inconclusive('wide hex output')
            v = v if isinstance(v, int) else z3.Extract(7, 0, v)
            hi = v >> 4 if isinstance(v, int) else simp(z3.LShR(v, 4))
            lo = v & 15 if isinstance(v, int) else simp(v & 15)
            up = [hexd(hi), hexd(lo)]
            if k == 'x':
                up = [(u | 0x20 if u > 0x40 else u) if isinstance(u, int) else z3.If(z3.UGT(u, 0x40), u | 0x20, u) for u in up]
            out += up
        elif k in 'du':
            v = ex.concretize(args.pop(0), 32)
            out += [ord(ch) for ch in str(sgn(v & MASK[32], 32) if k == 'd' else v)]
        elif k == 'c':
            v = args.pop(0)
            out.append(v & 0xff if isinstance(v, int) else simp(z3.Extract(7, 0, v)))
        else:
            raise Inconclusive('format %r' % fmt)
    n = len(out)
    if limit is not None:
        if limit == 0:
            return n
        out = out[:limit - 1]
    for j, b in enumerate(out + [0]):
        ex.store(ex.padd(dst, j), 1, simp(b) if is_z3(b) else b)
    return n


BUILTIN['sprintf'] = lambda ex, a: _fmt(ex, a[0], None, ex.pystr(a[1]), a[2:])
BUILTIN['__sprintf_chk'] = lambda ex, a: _fmt(ex, a[0], None, ex.pystr(a[3]), a[4:])
BUILTIN['snprintf'] = lambda ex, a: _fmt(ex, a[0], ex.concretize(a[1], 64), ex.pystr(a[2]), a[3:])
