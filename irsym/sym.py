"""Symbolic executor for the IR of the real code.

One Ex object executes one path.  Explorer re-executes the harness with recorded decisions until every
feasible path is done.  Integers are Python ints when concrete and z3 bit-vectors otherwise; i1 is 0/1 or a
z3 Bool.  Pointers are (object, offset); every access is checked for null, bounds and lifetime."""
import time, traceback
import z3

MASK = {n: (1 << n) - 1 for n in list(range(1, 130)) + [192, 256, 512]}


def mask(n):
    return (1 << n) - 1


class PathEnd(Exception):
    """path stops without verdict (infeasible, assumption violated, exit)"""


class Fault(Exception):
    """the code under test does something it must never do on this path"""

    def __init__(self, kind, msg):
        self.kind, self.msg = kind, msg
        Exception.__init__(self, kind + ': ' + msg)


class Inconclusive(Exception):
    pass


class Undef:
    def __init__(self, why='uninitialised'):
        self.why = why

    def __repr__(self):
        return '<undef %s>' % self.why


class Ptr:
    __slots__ = ('o', 'off')

    def __init__(self, o, off=0):
        self.o, self.off = o, off

    def __repr__(self):
        return '<%s+%s>' % (self.o.name, self.off)


class FnPtr:
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name


class Opaque:
    """an abstract value (field element, ...) that code may only move around"""
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v


class Abs:
    """an abstract integer (held by a GMP object or a limb array): code may move it around and hand it to GMP or field
    functions; what those do with it is defined by the subclass"""
    nlimbs = 1

    def _no(self, what):
        raise Inconclusive('%s of an abstract %s' % (what, type(self).__name__))

    def mul(self, ex, o): self._no('product')
    def add(self, ex, o, sub): self._no('sum')
    def mod(self, ex, m): self._no('remainder')
    def modneg(self, ex, m): self._no('remainder of the negated')
    def powm(self, ex, e, m): self._no('power')
    def invert(self, ex, m): self._no('inverse')
    def legendre(self, ex, p): self._no('quadratic character')
    def cmp(self, ex, o): self._no('comparison')
    def bit(self, ex, k): self._no('bit')
    def ite(self, ex, c, o): self._no('selection')
    def limb_icmp(self, ex, i, pred, o): self._no('limb comparison')
    def export(self, ex, n): self._no('export')


class AbsLimb:
    __slots__ = ('a', 'i')

    def __init__(self, a, i):
        self.a, self.i = a, i


def abs_of(v):
    return v.v.a if isinstance(v, Opaque) and isinstance(v.v, AbsLimb) else None


_oid = [0]


class Obj:
    __slots__ = ('name', 'size', 'cells', 'own', 'alive', 'kind', 'id', 'fill', 'const', 'watch', 'addr')

    def __init__(self, name, size, kind, fill=None):
        self.name, self.size, self.kind = name, size, kind
        self.cells = {}     # off -> (nbytes, value)
        self.own = {}       # byte off -> start off of the covering cell (only for cells wider than 1)
        self.alive = True
        self.fill = fill    # value of never-written bytes: None = uninitialised, 0 = zero
        self.const = False
        self.watch = None
        _oid[0] += 1
        self.id = _oid[0]
        self.addr = None


def bitvars(e, most=99):
    """the one-bit variables of e if it has no others, else None"""
    out, seen, todo = [], set(), [e]
    while todo:
        t = todo.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if len(seen) > 400:
            return None
        if z3.is_const(t):
            if t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                if not (z3.is_bv(t) and t.size() == 1):
                    return None
                out.append(t)
                if len(out) > most:
                    return None
        else:
            todo += t.children()
    return sorted(out, key=lambda v: v.decl().name())


def is_z3(x):
    return isinstance(x, z3.ExprRef)


def simp(x):
    """simplify; collapse numerals to ints and literals to 0/1"""
    if not is_z3(x):
        return x
    x = z3.simplify(x)
    if z3.is_bv_value(x):
        return x.as_long()
    if z3.is_true(x):
        return 1
    if z3.is_false(x):
        return 0
    return x


def bv(x, w):
    if isinstance(x, bool):
        x = int(x)
    if isinstance(x, int):
        return z3.BitVecVal(x, w)
    if isinstance(x, z3.BoolRef):
        return z3.If(x, z3.BitVecVal(1, w), z3.BitVecVal(0, w))
    if isinstance(x, z3.BitVecRef):
        s = x.size()
        if s == w:
            return x
        if s < w:
            return z3.ZeroExt(w - s, x)
        return z3.Extract(w - 1, 0, x)
    if isinstance(x, Undef):
        raise Fault('uninit', 'use of an uninitialised value')
    raise Inconclusive('value %r where an integer is needed' % (x,))


def boolz(x):
    if isinstance(x, (int, bool)):
        return z3.BoolVal(bool(x))
    return x


def sgn(x, w):
    return x - (1 << w) if x >> (w - 1) else x


class Config:
    def __init__(self, **kw):
        self.max_steps = 400000
        self.hang = False
        self.max_paths = 4000
        self.feas_ms = 4000
        self.check_ms = 60000
        self.stubs = {}
        self.gmp = None
        self.small_load = 600
        self.deadline = None
        self.fault_ok = ()          # kinds of Fault that only end the path
        self.check_uninit = True
        self.__dict__.update(kw)


class Stats:
    def __init__(self):
        self.paths = 0
        self.steps = 0
        self.queries = 0
        self.solver_s = 0.0
        self.checks = 0
        self.discharged = 0
        self.reached = 0
        self.functions = set()
        self.stubbed = set()
        self.forks = 0
        self.infeasible = 0

    def merge(self, o):
        for k in ('paths', 'steps', 'queries', 'solver_s', 'checks', 'discharged', 'reached', 'forks', 'infeasible'):
            setattr(self, k, getattr(self, k) + getattr(o, k))
        self.functions |= o.functions
        self.stubbed |= o.stubbed


class Ex:
    native = False

    def __init__(self, prog, cfg, stats, prefix=()):
        self.prog, self.cfg, self.stats = prog, cfg, stats
        self.prefix = list(prefix)
        self.trace = []
        self.memo_bits, self.memo_off = {}, {}           # decisions taken: (kind, choice)
        self.alts = []            # prefixes left to explore
        self.pc = []
        self.solver = z3.Solver()
        self.solver.set('timeout', cfg.feas_ms)
        self.inputs = {}
        self.hints = {}
        self.globals = {}
        self.fresh_n = 0
        self.steps = 0
        self.depth = 0
        self.violations = []
        self.inconclusive = []
        self.notes = []
        self.heap = []
        self.ctx = {}             # scratch for stubs
        self.stack = []
        self.did_reach = False

    # ------------------------------------------------------------ symbolic inputs
    def sym(self, name, bits):
        v = z3.BitVec(name, bits)
        self.inputs[name] = v
        return v

    def symbool(self, name):
        return self.sym(name, 1) == 1

    def fresh(self, name, bits):
        self.fresh_n += 1
        return z3.BitVec('%s!%d' % (name, self.fresh_n), bits)

    def hint(self, name, v):
        self.hints[name] = v

    # ------------------------------------------------------------ solver
    def add(self, c):
        self.pc.append(c)
        self.solver.add(c)

    def q(self, c):
        """sat / unsat / unknown of pc and c (incremental, short timeout)"""
        self.stats.queries += 1
        t = time.time()
        self.solver.push()
        self.solver.add(c)
        r = self.solver.check()
        self.solver.pop()
        self.stats.solver_s += time.time() - t
        return r

    def assume(self, c):
        c = simp(c)
        if isinstance(c, int):
            if not c:
                raise PathEnd('assume')
            return
        self.add(c)
        if len(self.trace) >= len(self.prefix):
            self.stats.queries += 1
            t = time.time()
            r = self.solver.check()
            self.stats.solver_s += time.time() - t
            if r == z3.unsat:
                raise PathEnd('assume')

    def assume_nc(self, c):
        """add a fact without a feasibility query"""
        c = simp(c)
        if isinstance(c, int):
            if not c:
                raise PathEnd('assume')
            return
        self.add(c)

    def constant_bits(self, c):
        """the value of a condition over a few one-bit variables when it is the same for all of their values"""
        m = self.memo_bits.get(c.get_id())
        if m is None:
            m = self.memo_bits[c.get_id()] = (c, self._constant_bits(c))
        return m[1]

    def _constant_bits(self, c):
        vs = bitvars(c, 3)
        if not vs:
            return None
        r = None
        for k in range(1 << len(vs)):
            t = z3.simplify(z3.substitute(c, *[(v, z3.BitVecVal((k >> i) & 1, 1)) for i, v in enumerate(vs)]))
            t = True if z3.is_true(t) else False if z3.is_false(t) else None
            if t is None or (r is not None and r != t):
                return None
            r = t
        self.stats.queries += 1
        return r

    def branch(self, c):
        """decide a condition on this path; the other feasible outcome is explored later"""
        if isinstance(c, Undef):
            raise Fault('uninit', 'control flow depends on an uninitialised value')
        c = simp(c)
        if isinstance(c, int):
            return bool(c)
        if isinstance(c, z3.BitVecRef):
            c = c != 0
        t = self.constant_bits(c)
        if t is not None:
            return t
        k = len(self.trace)
        if k < len(self.prefix):
            d = self.prefix[k]
            self.trace.append(d)
            self.add(c if d else z3.Not(c))
            return d
        if self.cfg.deadline and time.time() > self.cfg.deadline:
            raise Inconclusive('time budget')
        rt = self.q(c)
        if rt == z3.unsat:
            d = False
            self.trace.append(d)
            self.add(z3.Not(c))
            return d
        rf = self.q(z3.Not(c))
        if rf == z3.unsat:
            self.trace.append(True)
            self.add(c)
            return True
        self.stats.forks += 1
        self.alts.append(self.trace + [False])
        self.trace.append(True)
        self.add(c)
        return True

    def concretize(self, v, w=64, limit=600, what='value'):
        """make v concrete, forking over its feasible values"""
        v = simp(v)
        if isinstance(v, int):
            return v
        if isinstance(v, Undef):
            raise Fault('uninit', what)
        n = 0
        while True:
            self.stats.queries += 1
            # during replay of a prefix the model may differ, so the candidate must be chosen deterministically: smallest value
            c = self._min_value(v, w)
            if c is None:
                raise PathEnd('infeasible')
            if self.branch(v == c):
                return c
            n += 1
            if n > limit:
                raise Inconclusive('too many values of ' + what)

    def _min_value(self, v, w):
        s = self.solver
        t = time.time()
        if s.check() == z3.unsat:
            return None
        m = s.model().eval(v, True).as_long()
        lo, hi = 0, m
        while lo < hi:
            mid = (lo + hi) // 2
            s.push()
            s.add(z3.ULE(v, mid))
            r = s.check()
            if r == z3.sat:
                hi = s.model().eval(v, True).as_long()
            else:
                lo = mid + 1
            s.pop()
        self.stats.solver_s += time.time() - t
        return lo

    def decide(self, c, ms=None):
        """full-strength query of pc and c; returns (result, model)"""
        self.stats.queries += 1
        t = time.time()
        s = self.cfg.mk_solver() if hasattr(self.cfg, 'mk_solver') else z3.Solver()
        s.set('timeout', ms or self.cfg.check_ms)
        for x in self.pc:
            s.add(x)
        s.add(c)
        r = s.check()
        m = s.model() if r == z3.sat else None
        self.stats.solver_s += time.time() - t
        return r, m

    def witness(self, m):
        out = {}
        for k, v in self.inputs.items():
            x = m.eval(v, True)
            out[k] = x.as_long() if z3.is_bv_value(x) or z3.is_int_value(x) else (1 if z3.is_true(x) else 0)
        for k, v in self.hints.items():
            if is_z3(v):
                x = m.eval(v, True)
                if z3.is_bv_value(x) or z3.is_int_value(x):
                    out['hint:' + k] = x.as_long()
            elif isinstance(v, int):
                out['hint:' + k] = v
        out.update(self.ctx.get('extra', {}))
        return out

    def check(self, c, msg):
        """the property: must hold for every input that reaches this point on this path"""
        self.stats.checks += 1
        c = simp(c)
        if isinstance(c, int) and c:
            self.stats.discharged += 1
            self.last_ok = True
            return True
        r, m = self.decide(z3.Not(boolz(c)))
        if r == z3.unsat:
            self.stats.discharged += 1
            return True
        if r == z3.sat:
            self.violations.append(('property', msg, self.witness(m)))
            return False
        self.inconclusive.append('solver gave up on: ' + msg)
        return None

    def fail(self, msg):
        self.check(z3.BoolVal(False), msg)

    def reach(self, *a):
        self.stats.reached += 1
        self.did_reach = True

    # ------------------------------------------------------------ memory
    def alloc(self, size, name='heap', kind='heap', fill=None):
        o = Obj('%s#%d' % (name, len(self.heap)), size, kind, fill)
        self.heap.append(o)
        return Ptr(o, 0)

    def at(self, p, off):
        return self.padd(p, off)

    def padd(self, p, off):
        if isinstance(p, Ptr):
            if isinstance(off, int) and isinstance(p.off, int):
                v = (p.off + off) & MASK[64]
                return Ptr(p.o, sgn(v, 64))
            v = simp(bv(p.off & MASK[64] if isinstance(p.off, int) else p.off, 64) + bv(off & MASK[64] if isinstance(off, int) else off, 64))
            if isinstance(v, int):
                v = sgn(v, 64)
            return Ptr(p.o, v)
        if isinstance(p, int):
            if isinstance(off, int):
                return (p + off) & MASK[64]
            return simp(bv(p, 64) + bv(off, 64))
        if isinstance(p, Undef):
            return p
        if is_z3(p):
            return simp(p + bv(off, 64))
        raise Inconclusive('pointer arithmetic on %r' % (p,))

    def _access(self, p, n, what):
        if isinstance(p, Undef):
            raise Fault('uninit', '%s through an uninitialised pointer' % what)
        if isinstance(p, int):
            raise Fault('null', '%s through a null or invalid pointer (%#x)' % (what, p))
        if not isinstance(p, Ptr):
            raise Inconclusive('%s through %r' % (what, p))
        o = p.o
        if not o.alive:
            raise Fault('uaf', '%s of %s after its lifetime' % (what, o.name))
        off = p.off
        if isinstance(off, int) and isinstance(o.size, int):
            if off < 0 or off + n > o.size:
                raise Fault('bounds', '%s of %d bytes at offset %d of %s (size %s)' % (what, n, off, o.name, o.size))
        else:
            ob, sz = bv(off & MASK[64] if isinstance(off, int) else off, 64), bv(o.size, 64)
            bad = z3.Or(z3.UGT(ob, sz), z3.UGT(z3.BitVecVal(n, 64), sz - ob))
            if self.branch(bad):
                raise Fault('bounds', '%s of %d bytes outside %s' % (what, n, o.name))
        return o, off

    def _split(self, o, start):
        n, v = o.cells.pop(start)
        for i in range(n):
            o.own.pop(start + i, None)
        if n == 1:
            return
        for i in range(n):
            o.cells[start + i] = (1, self._byte(v, n, i))

    def _byte(self, v, n, i):
        if isinstance(v, int):
            return (v >> (8 * i)) & 0xff
        if isinstance(v, Undef):
            return v
        if isinstance(v, z3.BoolRef):
            return bv(v, 8) if i == 0 else 0
        if isinstance(v, z3.BitVecRef):
            return simp(z3.Extract(8 * i + 7, 8 * i, bv(v, 8 * n)))
        return ('part', v, n, i)

    def _get_byte(self, o, off):
        c = o.cells.get(off)
        if c is not None and c[0] == 1:
            return c[1]
        s = o.own.get(off)
        if s is not None:
            n, v = o.cells[s]
            return self._byte(v, n, off - s)
        if o.fill is not None:
            return o.fill
        return Undef('byte %d of %s' % (off, o.name))

    def _get(self, o, off, n):
        c = o.cells.get(off)
        if c is not None and c[0] == n:
            return c[1]
        bs = [self._get_byte(o, off + i) for i in range(n)]
        if all(isinstance(b, int) for b in bs):
            return sum(b << (8 * i) for i, b in enumerate(bs))
        if n == 1:
            return bs[0]
        if isinstance(bs[0], tuple):
            f = bs[0]
            if f[2] == n and all(isinstance(b, tuple) and b[1] is f[1] and b[3] == i for i, b in enumerate(bs)):
                return f[1]
        und = [b for b in bs if isinstance(b, Undef)]
        if und:
            return und[0]
        if any(isinstance(b, tuple) for b in bs):
            raise Inconclusive('partial read of a pointer or abstract value')
        return simp(z3.Concat(*[bv(b, 8) for b in reversed(bs)]))

    def _put(self, o, off, n, v):
        c = o.cells.get(off)
        if c is None or c[0] != n:
            for i in range(n):
                s = o.own.get(off + i)
                if s is not None:
                    self._split(o, s)
            for i in range(n):
                o.cells.pop(off + i, None)
            if n > 1:
                for i in range(n):
                    o.own[off + i] = off
        o.cells[off] = (n, v)

    def ld(self, p, off, n):
        return self.load(self.padd(p, off) if off else p, n)

    def st(self, p, off, n, v):
        self.store(self.padd(p, off) if off else p, n, v)

    def load(self, p, n):
        o, off = self._access(p, n, 'read')
        if isinstance(off, int):
            return self._get(o, off, n)
        # symbolic offset over a few one-bit inputs: enumerate those
        r = self._load_bits(o, off, n)
        if r is not None:
            return r
        # symbolic offset: one ite per candidate position
        cands = [k for k in self._cands(o, n)]
        if not cands:
            raise Inconclusive('symbolic read of %s' % o.name)
        if len(cands) > self.cfg.small_load:
            raise Inconclusive('symbolic read over %d cells' % len(cands))
        vals = [(k, self._get(o, k, n)) for k in cands]
        vals = [(k, v) for k, v in vals if not isinstance(v, Undef)] + [(k, v) for k, v in vals if isinstance(v, Undef)]
        if any(not isinstance(v, (int, z3.ExprRef, Undef)) for k, v in vals):
            k = self.concretize(off, 64, what='offset into ' + o.name)
            return self._get(o, k, n)
        miss = z3.And(*[off != k for k in cands])
        if self.q(miss) != z3.unsat:
            if len(cands) < (o.size if isinstance(o.size, int) else 0) // n:
                pass
            if self.branch(miss):
                k = self.concretize(off, 64, what='offset into ' + o.name)
                return self._get(o, k, n)
        und = [k for k, v in vals if isinstance(v, Undef)]
        if und:
            c = z3.Or(*[off == k for k in und])
            if self.branch(c):
                return Undef('byte of ' + o.name)
            vals = [(k, v) for k, v in vals if not isinstance(v, Undef)]
        r = bv(vals[-1][1], 8 * n)
        for k, v in reversed(vals[:-1]):
            r = z3.If(off == k, bv(v, 8 * n), r)
        return r

    def _off_bits(self, off):
        vs = bitvars(off, 9)
        if not vs:
            return None, None
        vals = []
        for k in range(1 << len(vs)):
            v = z3.simplify(z3.substitute(off, *[(x, z3.BitVecVal((k >> i) & 1, 1)) for i, x in enumerate(vs)]))
            if not z3.is_bv_value(v):
                return None, None
            vals.append(sgn(v.as_long(), 64))
        return vs, vals

    def _load_bits(self, o, off, n):
        m = self.memo_off.get(off.get_id())
        if m is None:
            m = self.memo_off[off.get_id()] = (off,) + self._off_bits(off)
        vs, offs = m[1:]
        if not vs:
            return None
        vals = []
        for v in offs:
            if v < 0 or (isinstance(o.size, int) and v + n > o.size):
                return None
            vals.append(self._get(o, v, n))
        if any(isinstance(v, (Undef, Ptr, FnPtr)) for v in vals):
            return None
        # fold one variable at a time
        for x in vs:
            vals = [self._sel(x == 1, vals[i + 1], vals[i], n) for i in range(0, len(vals), 2)]
        return vals[0]

    def _sel(self, c, a, b, n):
        if a is b or (isinstance(a, int) and isinstance(b, int) and a == b):
            return a
        if abs_of(a) is not None and abs_of(b) is not None and a.v.i == b.v.i:
            r = a.v.a.ite(self, c, b.v.a)
            return Opaque(AbsLimb(r, a.v.i))
        return z3.If(c, bv(a, 8 * n), bv(b, 8 * n))

    def _cands(self, o, n):
        if not isinstance(o.size, int):
            raise Inconclusive('symbolic offset into an object of symbolic size')
        return range(0, o.size - n + 1, n)

    def store(self, p, n, v):
        o, off = self._access(p, n, 'write')
        if o.const:
            raise Fault('bounds', 'write to constant %s' % o.name)
        if o.watch:
            o.watch(self, o, off, n, v)
        if isinstance(off, int):
            self._put(o, off, n, v)
            return
        cands = list(self._cands(o, n))
        if len(cands) > 70 or not isinstance(v, (int, z3.ExprRef)):
            k = self.concretize(off, 64, what='offset into ' + o.name)
            self._put(o, k, n, v)
            return
        miss = z3.And(*[off != k for k in cands])
        if self.branch(miss):
            k = self.concretize(off, 64, what='offset into ' + o.name)
            self._put(o, k, n, v)
            return
        for k in cands:
            old = self._get(o, k, n)
            if isinstance(old, Undef):
                old = self.fresh('uninit', 8 * n)
            elif not isinstance(old, (int, z3.ExprRef)):
                k = self.concretize(off, 64, what='offset into ' + o.name)
                self._put(o, k, n, v)
                return
            self._put(o, k, n, simp(z3.If(off == k, bv(v, 8 * n), bv(old, 8 * n))))

    def copy(self, dst, src, n):
        if isinstance(n, Undef):
            raise Fault('uninit', 'copy length')
        n = self.concretize(n, 64, what='copy length')
        if n == 0:
            return
        so, soff = self._access(src, n, 'read')
        do, doff = self._access(dst, n, 'write')
        if do.const:
            raise Fault('bounds', 'write to constant %s' % do.name)
        soff = sgn(self.concretize(soff if not isinstance(soff, int) else soff & MASK[64], 64, what='copy offset'), 64)
        doff = sgn(self.concretize(doff if not isinstance(doff, int) else doff & MASK[64], 64, what='copy offset'), 64)
        if do.watch:
            do.watch(self, do, doff, n, None)
        out = []
        i = 0
        while i < n:
            c = so.cells.get(soff + i)
            if c is not None and i + c[0] <= n:
                out.append((i, c[0], c[1]))
                i += c[0]
            else:
                out.append((i, 1, self._get_byte(so, soff + i)))
                i += 1
        for i, k, v in out:
            if k == 1 and isinstance(v, Undef):
                # keep it absent
                s = do.own.get(doff + i)
                if s is not None:
                    self._split(do, s)
                do.cells[doff + i] = (1, v)
                continue
            self._put(do, doff + i, k, v)

    def fillmem(self, dst, byte, n):
        n = self.concretize(n, 64, what='fill length')
        if n == 0:
            return
        o, off = self._access(dst, n, 'write')
        off = sgn(self.concretize(off if not isinstance(off, int) else off & MASK[64], 64, what='fill offset'), 64)
        if o.watch:
            o.watch(self, o, off, n, byte)
        byte = simp(byte) if is_z3(byte) else byte
        i = 0
        while i < n:
            if isinstance(byte, int) and i + 8 <= n and (off + i) % 8 == 0:
                self._put(o, off + i, 8, byte * 0x0101010101010101)
                i += 8
            else:
                self._put(o, off + i, 1, byte)
                i += 1

    def free(self, p):
        if isinstance(p, int) and p == 0:
            return
        if isinstance(p, Undef):
            raise Fault('uninit', 'free of an uninitialised pointer')
        if not isinstance(p, Ptr):
            raise Inconclusive('free of %r' % (p,))
        if p.off != 0 or p.o.kind != 'heap':
            raise Fault('free', 'free of %r, not the start of an allocation' % (p,))
        if not p.o.alive:
            raise Fault('uaf', 'double free of %s' % p.o.name)
        p.o.alive = False

    def cstr(self, p, limit=4096):
        """concrete prefix of a C string as a list of byte values, forking on symbolic terminators"""
        out = []
        while True:
            b = self.load(p, 1)
            if isinstance(b, Undef):
                raise Fault('uninit', 'string byte')
            if not isinstance(b, int):
                if self.branch(b == 0):
                    return out
            elif b == 0:
                return out
            out.append(b)
            p = self.padd(p, 1)
            if len(out) > limit:
                raise Inconclusive('string too long')

    def pystr(self, p):
        return bytes(self.concretize(b, 8) for b in self.cstr(p)).decode('latin1')

    def mkstr(self, s, name='str'):
        b = s.encode('latin1') if isinstance(s, str) else bytes(s)
        p = self.alloc(len(b) + 1, name)
        for i, c in enumerate(b + b'\0'):
            self._put(p.o, i, 1, c)
        return p

    def mkbytes(self, vals, name='buf', extra=0):
        """exact-size heap buffer from a list of byte values"""
        p = self.alloc(len(vals) + extra, name)
        for i, c in enumerate(vals):
            self._put(p.o, i, 1, c)
        return p

    # ------------------------------------------------------------ globals
    def gptr(self, key):
        g = self.globals.get(key)
        if g is not None:
            return g
        if key in self.prog.funcs or ('~' + key) in self.prog.funcs or key in self.prog.declared:
            if key not in self.prog.globals:
                return FnPtr(key)
        if key not in self.prog.globals:
            return FnPtr(key)
        ty, init, const = self.prog.globals[key]
        o = Obj('@' + key, self.prog.sizeof(ty), 'global', None)
        g = Ptr(o, 0)
        self.globals[key] = g
        if init is None:
            if 'extern_global' in self.ctx:
                self.ctx['extern_global'](self, key, o)
        else:
            self._init(o, 0, ty, init)
        o.const = const
        return g

    def _init(self, o, off, ty, op):
        k = op[0]
        ty = self.prog.resolve(ty)
        if k == 'zero' or (k == 'c' and op[1] == 0 and ty[0] in ('ptr',)):
            sz = self.prog.sizeof(ty)
            if k == 'zero' and sz == o.size:
                o.fill = 0
                return
            if ty[0] in ('ptr', 'i'):
                self._put(o, off, sz, 0)
            else:
                i = 0
                while i < sz:
                    n = 8 if (off + i) % 8 == 0 and i + 8 <= sz else 1
                    self._put(o, off + i, n, 0)
                    i += n
        elif k == 'str':
            for i, b in enumerate(op[1]):
                self._put(o, off + i, 1, b)
        elif k == 'agg':
            for i, (et, e) in enumerate(op[1]):
                if ty[0] in ('arr', 'vec'):
                    self._init(o, off + i * self.prog.sizeof(ty[2]), ty[2], e)
                else:
                    fo, ft = self.prog.field(ty, i)
                    self._init(o, off + fo, ft, e)
        elif k == 'undef':
            pass
        else:
            self._put(o, off, self.prog.sizeof(ty), self.val(op, None, ty))

    # ------------------------------------------------------------ operands
    def val(self, op, regs, ty=None):
        k = op[0]
        if k == 'r':
            return regs[op[1]]
        if k == 'c':
            return op[1]
        if k == 'g':
            return self.gptr(op[1])
        if k == 'undef':
            return Undef('undef constant')
        if k == 'cegep':
            base = self.val(op[2][0][1], regs)
            return self.gep(op[1], base, op[2][1:], regs, op[2][0])
        if k == 'cecast':
            return self.cast(op[1], op[2], self.val(op[3], regs, op[2]), op[4])
        if k == 'cebin':
            return self.binop(op[1], op[2], self.val(op[3], regs), self.val(op[4], regs), ())
        if k == 'zero':
            t = self.prog.resolve(op[1])
            if t[0] == 'struct':
                return [self.val(('zero', m), regs) for m in t[1]]
            if t[0] == 'arr':
                return [self.val(('zero', t[2]), regs) for _ in range(t[1])]
            return 0
        if k == 'agg':
            return [self.val(e, regs, et) for et, e in op[1]]
        raise Inconclusive('operand %r' % (op,))

    def gep(self, bt, base, idx, regs, first=None):
        P = self.prog
        off = 0
        cur = bt
        # idx: list of (type, operand); first element index scales by sizeof(bt)
        n = 0
        for ity, iop in idx:
            v = self.val(iop, regs, ity)
            if isinstance(v, Undef):
                raise Fault('uninit', 'address computed from an uninitialised value')
            w = ity[1]
            if n == 0:
                sz = P.sizeof(bt)
            else:
                cur = P.resolve(cur)
                if cur[0] == 'struct':
                    fo, cur = P.field(cur, v)
                    off = off + fo
                    n += 1
                    continue
                sz = P.sizeof(cur[2])
                cur = cur[2]
            if isinstance(v, int):
                d = sgn(v, w) * sz
                off = off + d
            else:
                v = simp(z3.SignExt(64 - w, v) * sz if w < 64 else v * sz)
                if isinstance(v, int):
                    v = sgn(v, 64)
                if isinstance(off, int) and isinstance(v, int):
                    off += v
                else:
                    off = bv(off & MASK[64] if isinstance(off, int) else off, 64) + bv(v & MASK[64] if isinstance(v, int) else v, 64)
            n += 1
        return self.padd(base, off)

    # ------------------------------------------------------------ arithmetic
    def binop(self, op, ty, a, b, flags):
        if ty[0] == 'vec':
            raise Inconclusive('vector operation')
        w = ty[1]
        if isinstance(a, Undef) or isinstance(b, Undef):
            if op in ('and', 'mul') and (a == 0 if isinstance(a, int) else (b == 0 if isinstance(b, int) else False)):
                return 0
            return a if isinstance(a, Undef) else b
        if isinstance(a, (Ptr, FnPtr)) or isinstance(b, (Ptr, FnPtr)):
            if op == 'add':
                if isinstance(a, Ptr) and not isinstance(b, Ptr):
                    return self.padd(a, sgn(b, 64) if isinstance(b, int) else b)
                if isinstance(b, Ptr) and not isinstance(a, Ptr):
                    return self.padd(b, sgn(a, 64) if isinstance(a, int) else a)
            if op == 'sub' and isinstance(a, Ptr):
                if isinstance(b, Ptr):
                    if a.o is b.o:
                        if isinstance(a.off, int) and isinstance(b.off, int):
                            return (a.off - b.off) & MASK[64]
                        return simp(bv(a.off & MASK[64] if isinstance(a.off, int) else a.off, 64) - bv(b.off & MASK[64] if isinstance(b.off, int) else b.off, 64))
                else:
                    return self.padd(a, -sgn(b, 64) if isinstance(b, int) else -b)
            if op == 'and' and isinstance(a, Ptr) and isinstance(b, int) and b < 16 and isinstance(a.off, int):
                return a.off & b
            raise Inconclusive('%s on pointers' % op)
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            raise Inconclusive('arithmetic on an abstract value')
        if w == 1:
            if isinstance(a, int) and isinstance(b, int):
                return {'and': a & b, 'or': a | b, 'xor': a ^ b, 'add': a ^ b, 'sub': a ^ b, 'mul': a & b}[op]
            az, bz = boolz(a), boolz(b)
            f = {'and': z3.And, 'or': z3.Or, 'xor': z3.Xor, 'add': z3.Xor, 'sub': z3.Xor, 'mul': z3.And}[op]
            return simp(f(az, bz))
        if op in ('udiv', 'sdiv', 'urem', 'srem'):
            if isinstance(b, int):
                if b == 0:
                    raise Fault('div0', 'division by zero')
            elif self.branch(bv(b, w) == 0):
                raise Fault('div0', 'division by zero')
        if isinstance(a, int) and isinstance(b, int):
            m = (1 << w) - 1
            if op == 'add':
                return (a + b) & m
            if op == 'sub':
                return (a - b) & m
            if op == 'mul':
                return (a * b) & m
            if op == 'and':
                return a & b
            if op == 'or':
                return a | b
            if op == 'xor':
                return a ^ b
            if op in ('shl', 'lshr', 'ashr'):
                if b >= w:
                    self.notes.append('shift amount %d of a %d-bit value' % (b, w))
                    b &= w - 1            # what the target machine does
                if op == 'shl':
                    return (a << b) & m
                if op == 'lshr':
                    return a >> b
                return (sgn(a, w) >> b) & m
            if op == 'udiv':
                return a // b
            if op == 'urem':
                return a % b
            sa, sb = sgn(a, w), sgn(b, w)
            qq = abs(sa) // abs(sb)
            if (sa < 0) != (sb < 0):
                qq = -qq
            return (qq if op == 'sdiv' else sa - qq * sb) & m
        if isinstance(b, int):
            if op in ('add', 'sub', 'or', 'xor', 'shl', 'lshr', 'ashr') and b == 0:
                return a
            if op == 'mul' and b == 1:
                return a
            if op in ('mul', 'and') and b == 0:
                return 0
            if op in ('udiv', 'urem') and b & (b - 1) == 0:
                k = b.bit_length() - 1
                return simp(z3.LShR(bv(a, w), k)) if op == 'udiv' else simp(bv(a, w) & (b - 1))
        if isinstance(a, int):
            if op in ('add', 'or', 'xor') and a == 0:
                return b
            if op == 'mul' and a == 1:
                return b
            if op in ('mul', 'and') and a == 0:
                return 0
        x, y = bv(a, w), bv(b, w)
        if op == 'add':
            return x + y
        if op == 'sub':
            return x - y
        if op == 'mul':
            return x * y
        if op == 'and':
            return x & y
        if op == 'or':
            return x | y
        if op == 'xor':
            return x ^ y
        if op in ('shl', 'lshr', 'ashr'):
            if not isinstance(b, int):
                y = y & (w - 1) if (w & (w - 1)) == 0 else y
            elif b >= w:
                y = z3.BitVecVal(b & (w - 1), w)
            return x << y if op == 'shl' else (z3.LShR(x, y) if op == 'lshr' else x >> y)
        if op == 'udiv':
            return z3.UDiv(x, y)
        if op == 'urem':
            return z3.URem(x, y)
        if op == 'sdiv':
            return x / y
        if op == 'srem':
            return z3.SRem(x, y)
        raise Inconclusive(op)

    def icmp(self, pred, ty, a, b):
        if isinstance(a, Undef):
            return a
        if isinstance(b, Undef):
            return b
        if isinstance(a, FnPtr) or isinstance(b, FnPtr):
            same = isinstance(a, FnPtr) and isinstance(b, FnPtr) and a.name == b.name
            return int(same) if pred == 'eq' else int(not same)
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            x, y = abs_of(a), abs_of(b)
            if x is not None and isinstance(b, int):
                return x.limb_icmp(self, a.v.i, pred, b)
            if y is not None and isinstance(a, int) and pred in ('eq', 'ne'):
                return y.limb_icmp(self, b.v.i, pred, a)
            if x is not None and x is y and a.v.i == b.v.i and pred in ('eq', 'ne'):
                return int(pred == 'eq')
            raise Inconclusive('comparison of an abstract value')
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if isinstance(a, Ptr) and isinstance(b, Ptr):
                if a.o is b.o:
                    a, b = a.off, b.off
                    if isinstance(a, int):
                        a &= MASK[64]
                    if isinstance(b, int):
                        b &= MASK[64]
                elif pred == 'eq':
                    return 0
                elif pred == 'ne':
                    return 1
                else:
                    a, b = a.o.id << 32, b.o.id << 32
            else:
                if pred == 'eq':
                    return 0
                if pred == 'ne':
                    return 1
                a = (1 << 48) if isinstance(a, Ptr) else a
                b = (1 << 48) if isinstance(b, Ptr) else b
            w = 64
        else:
            w = 64 if ty[0] == 'ptr' else ty[1]
        if isinstance(a, int) and isinstance(b, int):
            if pred == 'eq':
                return int(a == b)
            if pred == 'ne':
                return int(a != b)
            if pred[0] == 's':
                a, b = sgn(a, w), sgn(b, w)
            p = pred[1:]
            return int(a > b if p == 'gt' else a >= b if p == 'ge' else a < b if p == 'lt' else a <= b)
        if w == 1:
            az, bz = boolz(a), boolz(b)
            if pred == 'eq':
                return simp(az == bz)
            if pred == 'ne':
                return simp(z3.Xor(az, bz))
        # (ite c 1 0) compared with a constant
        for x, y in ((a, b), (b, a)):
            if isinstance(y, int) and is_z3(x) and z3.is_app_of(x, z3.Z3_OP_ITE) and pred in ('eq', 'ne'):
                t, e = x.arg(1), x.arg(2)
                if z3.is_bv_value(t) and z3.is_bv_value(e):
                    c, tv, ev = x.arg(0), t.as_long() == y, e.as_long() == y
                    if pred == 'ne':
                        tv, ev = not tv, not ev
                    if tv == ev:
                        return int(tv)
                    return c if tv else z3.Not(c)
        x, y = bv(a, w), bv(b, w)
        f = {'eq': lambda: x == y, 'ne': lambda: x != y, 'ugt': lambda: z3.UGT(x, y), 'uge': lambda: z3.UGE(x, y),
             'ult': lambda: z3.ULT(x, y), 'ule': lambda: z3.ULE(x, y), 'sgt': lambda: x > y, 'sge': lambda: x >= y,
             'slt': lambda: x < y, 'sle': lambda: x <= y}[pred]
        return f()

    def cast(self, op, st, v, dt):
        if op in ('bitcast', 'freeze', 'ptrtoint', 'inttoptr'):
            return v
        if isinstance(v, (Undef, Opaque)):
            return v
        if isinstance(v, (Ptr, FnPtr)):
            raise Inconclusive('%s of a pointer' % op)
        if st[0] != 'i' or dt[0] != 'i':
            raise Inconclusive('floating point')
        a, b = st[1], dt[1]
        if isinstance(v, int):
            if op == 'sext':
                return sgn(v, a) & mask(b)
            return v & mask(b)
        if op == 'zext':
            if isinstance(v, z3.BoolRef):
                return bv(v, b)
            return z3.ZeroExt(b - a, v)
        if op == 'sext':
            if isinstance(v, z3.BoolRef):
                return z3.If(v, z3.BitVecVal(mask(b), b), z3.BitVecVal(0, b))
            return z3.SignExt(b - a, v)
        if op == 'trunc':
            if b == 1:
                return simp(z3.Extract(0, 0, v) == 1)
            return simp(z3.Extract(b - 1, 0, v))
        raise Inconclusive(op)

    def ite(self, c, a, b, ty):
        c = simp(c) if is_z3(c) else c
        if isinstance(c, Undef):
            raise Fault('uninit', 'selection depends on an uninitialised value')
        if isinstance(c, int):
            return a if c else b
        if a is b or (isinstance(a, int) and isinstance(b, int) and a == b):
            return a
        if isinstance(a, (int, z3.ExprRef)) and isinstance(b, (int, z3.ExprRef)) and ty[0] == 'i':
            if ty[1] == 1:
                return simp(z3.If(c, boolz(a), boolz(b)))
            return z3.If(c, bv(a, ty[1]), bv(b, ty[1]))
        if abs_of(a) is not None and abs_of(b) is not None and a.v.i == b.v.i:
            return Opaque(AbsLimb(a.v.a.ite(self, c, b.v.a), a.v.i))
        return a if self.branch(c) else b

    def ite_abs(self, c, a, b):
        c = simp(c)
        if isinstance(c, int):
            return a if c else b
        if a is b:
            return a
        return a.ite(self, c, b)

    # ------------------------------------------------------------ calls
    def call(self, name, *args):
        return self.call_fn(name, list(args))

    def call_fn(self, name, args, rty=None):
        if isinstance(name, FnPtr):
            name = name.name
        base = name.split(':')[-1]
        st = self.cfg.stubs.get(base) or self.cfg.stubs.get(name)
        if st is not None:
            self.stats.stubbed.add(base)
            return st(self, args)
        f = self.prog.funcs.get(name)
        if f is None:
            st = BUILTIN.get(base)
            if st is not None:
                return st(self, args)
            f = self.prog.funcs.get('~' + name)
            if f is None:
                raise Inconclusive('call of %s, for which there is neither code nor a model' % name)
        return self.run(f, args)

    def run(self, f, args):
        self.stats.functions.add(f.name)
        self.depth += 1
        if self.depth > 200:
            raise Inconclusive('recursion too deep')
        self.stack.append(f.name)
        regs = {}
        for (ty, n), a in zip(f.params, args):
            regs[n] = a
        locals_ = []
        cur, prev = f.entry, None
        blocks = f.blocks
        P = self.prog
        try:
            while True:
                ins = blocks[cur]
                i = 0
                # phis first, in parallel
                if ins and ins[0][0] == 'phi':
                    new = []
                    while i < len(ins) and ins[i][0] == 'phi':
                        x = ins[i]
                        new.append((x[1], self.val(x[3][prev], regs, x[2])))
                        i += 1
                    for n, v in new:
                        regs[n] = v
                n_ins = len(ins)
                while i < n_ins:
                    x = ins[i]
                    i += 1
                    self.steps += 1
                    op = x[0]
                    if op == 'gep':
                        regs[x[1]] = self.gep(x[2], self.val(x[3], regs), x[4], regs)
                    elif op == 'load':
                        ty = x[2]
                        v = self.load(self.val(x[3], regs), P.sizeof(ty))
                        if ty[0] == 'i' and ty[1] == 1 and isinstance(v, z3.BitVecRef):
                            v = simp(z3.Extract(0, 0, v) == 1)
                        regs[x[1]] = v
                    elif op == 'store':
                        ty = x[1]
                        v = self.val(x[2], regs, ty)
                        if ty[0] in ('struct', 'named', 'arr') and isinstance(v, list):
                            self._store_agg(self.val(x[3], regs), ty, v)
                        else:
                            if isinstance(v, z3.BoolRef):
                                v = bv(v, 8)
                            self.store(self.val(x[3], regs), P.sizeof(ty), v)
                    elif op == 'call':
                        regs_v = self._docall(x, regs)
                        if x[1] is not None:
                            regs[x[1]] = regs_v
                    elif op == 'bin':
                        regs[x[1]] = self.binop(x[2], x[3], self.val(x[4], regs), self.val(x[5], regs), x[6])
                    elif op == 'icmp':
                        regs[x[1]] = self.icmp(x[2], x[3], self.val(x[4], regs), self.val(x[5], regs))
                    elif op == 'cast':
                        regs[x[1]] = self.cast(x[2], x[3], self.val(x[4], regs, x[3]), x[5])
                    elif op == 'br':
                        prev = cur
                        cur = x[2] if self.branch(self.val(x[1], regs)) else x[3]
                        break
                    elif op == 'jmp':
                        prev = cur
                        cur = x[1]
                        break
                    elif op == 'select':
                        regs[x[1]] = self.ite(self.val(x[2], regs), self.val(x[3], regs, x[5]), self.val(x[4], regs, x[5]), x[5])
                    elif op == 'alloca':
                        cnt = self.concretize(self.val(x[3], regs), 64, what='stack array size')
                        p = self.alloc(P.sizeof(x[2]) * cnt, f.name.split(':')[-1] + '.local', 'stack')
                        locals_.append(p.o)
                        regs[x[1]] = p
                    elif op == 'ret':
                        return None if x[2] is None else self.val(x[2], regs, x[1])
                    elif op == 'switch':
                        v = self.val(x[2], regs)
                        prev = cur
                        nxt = None
                        if isinstance(v, Undef):
                            raise Fault('uninit', 'switch on an uninitialised value')
                        for cv, lab in x[4]:
                            if self.branch(bv(v, x[1][1]) == cv if is_z3(v) else v == cv):
                                nxt = lab
                                break
                        cur = nxt if nxt is not None else x[3]
                        break
                    elif op == 'extract':
                        v = self.val(x[2], regs)
                        for k in x[3]:
                            v = v[k]
                        regs[x[1]] = v
                    elif op == 'insert':
                        v = self.val(x[3], regs, x[2])
                        if isinstance(v, Undef):
                            v = self._undef_agg(x[2])
                        regs[x[1]] = self._insert(v, x[5], self.val(x[4], regs))
                    elif op == 'unreachable':
                        raise PathEnd('unreachable')
                    elif op == 'nop':
                        pass
                    else:
                        raise Inconclusive('instruction %r' % (x,))
                else:
                    raise Inconclusive('block without terminator')
                if self.steps > self.cfg.max_steps:
                    if self.cfg.hang:
                        raise Fault('hang', 'no end of the call within the step bound')
                    raise Inconclusive('step bound %d' % self.cfg.max_steps)
                if self.cfg.deadline and (self.steps & 0xff) == 0 and time.time() > self.cfg.deadline:
                    raise Inconclusive('time budget')
        finally:
            for o in locals_:
                o.alive = False
            self.depth -= 1
            self.stack.pop()

    def _undef_agg(self, ty):
        t = self.prog.resolve(ty)
        if t[0] == 'struct':
            return [self._undef_agg(m) for m in t[1]]
        if t[0] == 'arr':
            return [self._undef_agg(t[2]) for _ in range(t[1])]
        return Undef('undef')

    def _insert(self, v, idx, e):
        v = list(v)
        if len(idx) == 1:
            v[idx[0]] = e
        else:
            v[idx[0]] = self._insert(v[idx[0]], idx[1:], e)
        return v

    def _store_agg(self, p, ty, v):
        t = self.prog.resolve(ty)
        for i, e in enumerate(v):
            if t[0] == 'struct':
                fo, ft = self.prog.field(t, i)
            else:
                fo, ft = i * self.prog.sizeof(t[2]), t[2]
            if isinstance(e, list):
                self._store_agg(self.padd(p, fo), ft, e)
            else:
                self.store(self.padd(p, fo), self.prog.sizeof(ft), e)

    def _docall(self, x, regs):
        callee = x[3]
        args = x[4]
        if callee[0] == 'g':
            name = callee[1]
            if name.startswith('llvm.'):
                return self.intrinsic(name, [(ty, self.val(a, regs, ty) if ty[0] != 'metadata' else None) for ty, a in args])
        else:
            fp = self.val(callee, regs)
            if isinstance(fp, Undef):
                raise Fault('uninit', 'call through an uninitialised function pointer')
            if isinstance(fp, int):
                raise Fault('null', 'call through a null function pointer')
            if not isinstance(fp, FnPtr):
                if callable(fp):
                    return fp(self, [self.val(a, regs, ty) for ty, a in args])
                raise Inconclusive('indirect call')
            name = fp.name
        return self.call_fn(name, [self.val(a, regs, ty) for ty, a in args], x[2])

    def intrinsic(self, name, args):
        a = [v for _, v in args]
        if name.startswith(('llvm.lifetime', 'llvm.dbg', 'llvm.assume', 'llvm.experimental', 'llvm.donothing', 'llvm.va_', 'llvm.stack',
                            'llvm.prefetch', 'llvm.invariant')):
            return None
        if name.startswith(('llvm.memcpy', 'llvm.memmove')):
            self.copy(a[0], a[1], a[2])
            return None
        if name.startswith('llvm.memset'):
            self.fillmem(a[0], a[1], a[2])
            return None
        if name.startswith('llvm.expect'):
            return a[0]
        if name.startswith('llvm.objectsize'):
            return MASK[64]
        if name.startswith('llvm.is.constant'):
            return 0
        ty = args[0][0] if args else None
        if name.startswith(('llvm.smax', 'llvm.smin', 'llvm.umax', 'llvm.umin')):
            pred = {'sma': 'sgt', 'smi': 'slt', 'uma': 'ugt', 'umi': 'ult'}[name[5:8]]
            return self.ite(self.icmp(pred, ty, a[0], a[1]), a[0], a[1], ty)
        if name.startswith('llvm.abs'):
            return self.ite(self.icmp('slt', ty, a[0], 0), self.binop('sub', ty, 0, a[0], ()), a[0], ty)
        if '.with.overflow' in name:
            w = ty[1]
            opn = name[6:9]
            s = name[5] == 's'
            x, y = bv(a[0], w), bv(a[1], w)
            ext = (lambda v: z3.SignExt(w, v)) if s else (lambda v: z3.ZeroExt(w, v))
            full = {'add': lambda: ext(x) + ext(y), 'sub': lambda: ext(x) - ext(y), 'mul': lambda: ext(x) * ext(y)}[opn]()
            res = z3.Extract(w - 1, 0, full)
            ov = ext(res) != full
            return [simp(res), simp(ov)]
        if name.startswith('llvm.bswap'):
            w = ty[1]
            if isinstance(a[0], int):
                return int.from_bytes(a[0].to_bytes(w // 8, 'little'), 'big')
            return z3.Concat(*[z3.Extract(8 * i + 7, 8 * i, a[0]) for i in range(w // 8)])
        if name.startswith(('llvm.fshl', 'llvm.fshr')):
            w = ty[1]
            sh = a[2]
            x = z3.Concat(bv(a[0], w), bv(a[1], w))
            s = z3.ZeroExt(w, bv(sh, w) & (w - 1))
            if name[8] == 'l':
                return simp(z3.Extract(2 * w - 1, w, x << s))
            return simp(z3.Extract(w - 1, 0, z3.LShR(x, s)))
        if name.startswith(('llvm.ctlz', 'llvm.cttz', 'llvm.ctpop')):
            w = ty[1]
            if isinstance(a[0], int):
                v = a[0]
                if 'ctpop' in name:
                    return bin(v).count('1')
                if 'ctlz' in name:
                    return w - v.bit_length()
                return w if v == 0 else (v & -v).bit_length() - 1
            v = a[0]
            if 'ctlz' in name:
                r = z3.BitVecVal(w, w)
                for i in range(w):
                    r = z3.If(z3.Extract(i, i, v) == 1, z3.BitVecVal(w - 1 - i, w), r)
                return r
            if 'cttz' in name:
                r = z3.BitVecVal(w, w)
                for i in reversed(range(w)):
                    r = z3.If(z3.Extract(i, i, v) == 1, z3.BitVecVal(i, w), r)
                return r
            return sum([z3.ZeroExt(w - 1, z3.Extract(i, i, v)) for i in range(w)], z3.BitVecVal(0, w))
        if name in ('llvm.trap', 'llvm.ubsantrap'):
            raise Fault('abort', 'trap')
        raise Inconclusive('intrinsic ' + name)


BUILTIN = {}


def builtin(*names):
    def d(f):
        for n in names:
            BUILTIN[n] = f
        return f
    return d


class Result:
    def __init__(self, name=''):
        self.name = name
        self.stats = Stats()
        self.violations = []      # (kind, msg, witness)
        self.inconclusive = []
        self.notes = set()
        self.wall = 0.0
        self.sample = None        # an input of one completed path
        self.stuck = []           # inputs of paths that could not be followed to their end

    @property
    def ok(self):
        return not self.violations and not self.inconclusive and self.stats.reached > 0


def explore(prog, harness, cfg, name='', max_viol=6):
    """Run harness(ex) over every feasible path."""
    res = Result(name)
    t0 = time.time()
    work = [[]]
    while work:
        if len(res.violations) >= max_viol:
            break
        if res.stats.paths >= cfg.max_paths:
            res.inconclusive.append('path bound %d reached with %d prefixes left' % (cfg.max_paths, len(work)))
            break
        if cfg.deadline and time.time() > cfg.deadline:
            res.inconclusive.append('time budget used up with %d prefixes left' % len(work))
            break
        prefix = work.pop()
        ex = Ex(prog, cfg, res.stats, prefix)
        res.stats.paths += 1
        stuck = False
        try:
            harness(ex)
        except PathEnd:
            pass
        except Fault as e:
            if e.kind not in cfg.fault_ok:
                r, m = ex.decide(z3.BoolVal(True))
                where = ex.stack[-1] if ex.stack else getattr(ex, 'last_fn', '')
                if r == z3.sat:
                    res.violations.append((e.kind, e.msg, ex.witness(m)))
                elif r == z3.unknown:
                    res.inconclusive.append('feasibility of a fault path undecided: ' + str(e))
        except Inconclusive as e:
            res.inconclusive.append(str(e))
            stuck = True
        except z3.Z3Exception as e:
            res.inconclusive.append('solver error: %s %s' % (e, traceback.format_exc()[-700:] if __import__('os').environ.get('VF_TB') else ''))
        except (MemoryError, KeyboardInterrupt):
            raise
        except Exception as e:
            if type(e).__name__ == 'BuildError':
                raise
            res.inconclusive.append('engine error: ' + traceback.format_exc()[-1500:])
            stuck = True
        if (stuck or ex.inconclusive) and len(res.stuck) < 3 and not ex.violations:
            # what the solver says reaches this point is at least run on the real code
            try:
                r, m = ex.decide(z3.BoolVal(True), 5000)
                if r == z3.sat:
                    res.stuck.append(ex.witness(m))
            except z3.Z3Exception:
                pass
        if ex.did_reach and not ex.violations and (res.sample is None or (res.stats.paths % 7 == 3 and res.stats.paths < 40)):
            try:
                r, m = ex.decide(z3.BoolVal(True), 5000)
                if r == z3.sat:
                    res.sample = ex.witness(m)
            except z3.Z3Exception:
                pass
        res.stats.steps += ex.steps
        res.violations += ex.violations
        res.inconclusive += ex.inconclusive
        res.notes |= set(ex.notes)
        work += ex.alts
    res.wall = time.time() - t0
    return res
