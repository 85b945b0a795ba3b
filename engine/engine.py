"""Symbolic executor over LLVM IR (path exploration by re-execution)."""
import math
import sys
import time
from fractions import Fraction

import z3

import ir
import terms as tm
from terms import T, B, U, add, sub, mul, div, neg, sqrt, fabs, fn, ite, bite, band, bor, bxor, bnot, fcmp, f32
from codegen import Gen

sys.setrecursionlimit(20000)

SHIFT = 36
HALF = 1 << 35
FUNC_ID = 1 << 20


class CxxThrow(Exception):
    def __init__(self, ptr, tinfo):
        self.ptr = ptr
        self.tinfo = tinfo


class PathEnd(Exception):
    """path stops (assumption violated, program exit)"""


class Fault(Exception):
    """the program did something undefined"""
    def __init__(self, kind, detail=''):
        Exception.__init__(self, kind + ((': ' + detail) if detail else ''))
        self.kind = kind
        self.detail = detail


class Unsupported(Exception):
    pass


class Limit(Exception):
    pass


class BI:
    """integer (b ? 1 : 0) for a boolean over reals"""
    __slots__ = ('b',)

    def __init__(self, b):
        self.b = b


class Obj:
    __slots__ = ('id', 'base', 'size', 'cells', 'alive', 'kind', 'name', 'const')

    def __init__(self, id, size, kind, align):
        self.id = id
        # heap blocks are only 16-byte aligned, as malloc guarantees: make every
        # other block land off any stronger alignment
        self.base = (id << SHIFT) + HALF + (16 if kind == 'heap' else 0)
        self.size = size
        self.cells = {}
        self.alive = True
        self.kind = kind
        self.name = None
        self.const = False


def sx(v, w):
    return v - (1 << w) if v >> (w - 1) else v


class Path:
    """record of one explored path"""


class Engine:
    def __init__(self, mod, opts=None):
        self.mod = mod
        self.opts = opts or {}
        self.compiled = {}
        self.lazies = {}
        self.faddr = {}
        self.fname = {}
        self.gaddr = {}
        self.ext_globals = []
        self.cur = None
        self.externs = {}
        self.funcs_run = set()
        self.ns = dict(E=self, add=add, sub=sub, mul=mul, div=div, neg=neg, sqrt=sqrt, fabs=fabs, fn=fn, ite=ite,
                       bite=bite, band=band, bor=bor, bxor=bxor, bnot=bnot, fcmp=fcmp, f32=f32, CxxThrow=CxxThrow,
                       U=U)
        self.stats = dict(paths=0, ticks=0, bvq=0, bvt=0.0, realq=0, realt=0.0, forks=0, merges=0)
        import externs
        externs.install(self)
        import omp
        omp.install(self)
        self.layout_globals()

    # ------------------------------------------------------------ globals
    def layout_globals(self):
        i = 1
        self.gobj = {}
        for name, (ty, init, const) in self.mod.globals.items():
            self.gobj[name] = i
            i += 1
        for name in self.mod.aliases:
            pass
        self.first_dyn = i + 1
        for k, name in enumerate(list(self.mod.functions) + list(self.mod.declared)):
            a = ((FUNC_ID + k) << SHIFT) + HALF
            self.faddr.setdefault(name, a)
            self.fname[self.faddr[name]] = name

    def addr_of(self, name):
        g = self.gobj.get(name)
        if g is not None:
            return (g << SHIFT) + HALF
        if name in self.mod.aliases:
            return self.constval(self.mod.aliases[name], ('ptr',))
        if name in self.faddr:
            return self.faddr[name]
        raise Unsupported('global %s' % name)

    def constval(self, v, t):
        """IR constant -> value"""
        k = v[0]
        t = self.mod.resolve(t)
        if k == 'int':
            w = 64 if t[0] == 'ptr' else t[1]
            return v[1] & ((1 << w) - 1)
        if k == 'fp':
            s = v[1]
            if s.startswith('0x'):
                return tm.from_bits(int(s, 16), 8)
            return tm.ideal(float(s))
        if k == 'undef':
            if t[0] in ('struct', 'array'):
                return self.undef_agg(t)
            return U
        if k == 'zero':
            return self.zero(t)
        if k == 'global':
            return self.addr_of(v[1])
        if k == 'bytes':
            return list(v[1])
        if k == 'agg':
            return [self.constval(x, tt) for tt, x in v[1]]
        if k == 'cgep':
            sty, ops = v[1], v[2]
            p = self.constval(ops[0][1], ops[0][0])
            ty = sty
            first = True
            for ot, ov in ops[1:]:
                idx = sx(self.constval(ov, ot), self.mod.resolve(ot)[1])
                if first:
                    p += idx * self.mod.size(ty)
                    first = False
                    continue
                rt = self.mod.resolve(ty)
                if rt[0] == 'struct':
                    o, ty = self.mod.field(rt, idx)
                    p += o
                else:
                    ty = rt[2]
                    p += idx * self.mod.size(ty)
            return p
        if k == 'ccast':
            x = self.constval(v[3], v[2])
            if v[1] in ('ptrtoint', 'inttoptr', 'bitcast'):
                return x
            if v[1] == 'trunc':
                return x & ((1 << self.mod.resolve(v[4])[1]) - 1)
            if v[1] == 'zext':
                return x
            raise Unsupported('const cast %s' % v[1])
        if k == 'cbin':
            a, b = self.constval(v[3], v[2]), self.constval(v[4], v[2])
            return self.bvop(v[1], a, b, self.mod.resolve(v[2])[1])
        if k == 'splat':
            return [self.constval(v[1], t[2])] * t[1]
        raise Unsupported('const %r' % (v,))

    def zero(self, t):
        t = self.mod.resolve(t)
        if t[0] in ('i', 'ptr'):
            return 0
        if t[0] in ('double', 'float'):
            return Fraction(0)
        if t[0] == 'struct':
            return [self.zero(e) for e in t[1]]
        if t[0] in ('array', 'vector'):
            return [self.zero(t[2]) for _ in range(t[1])]
        raise Unsupported('zero %r' % (t,))

    def undef_agg(self, t):
        t = self.mod.resolve(t)
        if t[0] == 'struct':
            return [self.undef_agg(e) for e in t[1]]
        if t[0] in ('array', 'vector'):
            return [self.undef_agg(t[2]) for _ in range(t[1])]
        return U

    def init_globals(self):
        if not hasattr(self, '_gtemplate'):
            tpl = []
            for name, (ty, init, const) in self.mod.globals.items():
                o = Obj(self.gobj[name], 0, 'global', 16)
                o.name = name
                try:
                    o.size = self.mod.size(ty)
                except ir.IRError:
                    o.size = 8
                tpl.append((o, ty, init, const))
            self._gtemplate = tpl
            self._gcells = {}
            self._gsize = {}
            self._gconst = {}
            for o, ty, init, const in tpl:
                self._gconst[o.name] = bool(const)
                if init is None:
                    # external data: type-info vtables and the like; opaque storage
                    o.size = max(o.size, 256)
                    self._gcells[o.name] = {}
                elif name_skip(o.name):
                    self._gcells[o.name] = {}
                else:
                    self.curobj = o
                    self.fill(o, 0, ty, self.constval(init, ty))
                    self._gcells[o.name] = o.cells
                self._gsize[o.name] = o.size
        for o, ty, init, const in self._gtemplate:
            n = Obj(o.id, o.size, 'global', 16)
            n.name = o.name
            n.cells = o.cells if const else dict(self._gcells[o.name])
            n.const = const
            self.objs[o.id] = n

    def fill(self, o, off, ty, v):
        ty = self.mod.resolve(ty)
        if ty[0] == 'struct':
            for j in range(len(ty[1])):
                fo, ft = self.mod.field(ty, j)
                self.fill(o, off + fo, ft, v[j])
        elif ty[0] in ('array', 'vector'):
            es = self.mod.size(ty[2])
            if ty[1] > 100000:
                raise Unsupported('huge global')
            for j in range(ty[1]):
                self.fill(o, off + j * es, ty[2], v[j])
        else:
            o.cells[off] = (v, self.mod.size(ty))

    # ------------------------------------------------------------ functions
    def lazy(self, name):
        f = self.lazies.get(name)
        if f is None:
            eng = self

            def f(*args):
                g = eng.getfn(name)
                f.target = g
                return g(*args)
            self.lazies[name] = f
        return f

    def getfn(self, name):
        g = self.compiled.get(name)
        if g is not None:
            return g
        if name in self.externs:
            g = self.externs[name]
        elif name in self.mod.aliases:
            a = self.mod.aliases[name]
            g = self.getfn(a[1])
        elif name in self.mod.functions:
            self.funcs_run.add(name[1:])
            g = Gen(self, self.mod.functions[name]).generate()
        else:
            def g(*a):
                raise Unsupported('external function %s' % name)
        self.compiled[name] = g
        return g

    def icall(self, p):
        p = self.ptr(p)
        n = self.fname.get(p)
        if n is None:
            self.err('bad-call', 'indirect call through %#x' % p if type(p) is int else 'symbolic')
        return self.getfn(n)

    # ------------------------------------------------------------ faults
    def err(self, kind, detail=''):
        raise Fault(kind, detail)

    def tick(self):
        self.ticks += 1
        if self.ticks > self.max_ticks:
            raise Fault('runaway', 'more than %d basic blocks executed on one path' % self.max_ticks)

    # ------------------------------------------------------------ memory
    def alloc(self, size, kind, align=16):
        if type(size) is not int:
            size = self.concretize(size)
        if size > (1 << 28):
            self.err('huge-allocation', str(size))
        i = self.next_obj
        self.next_obj += 1
        o = Obj(i, size, kind, align)
        self.objs[i] = o
        return o

    def ptr(self, p):
        if type(p) is int:
            return p
        if p is U:
            self.err('uninitialised-pointer')
        if isinstance(p, BI):
            return self.forceint(p)
        if isinstance(p, z3.ExprRef):
            return self.concretize(p, addr=True)
        self.err('bad-pointer', repr(p))

    def find(self, p, n, what):
        o = self.objs.get(p >> SHIFT)
        if o is None:
            self.err('null-dereference' if p < (1 << SHIFT) else 'wild-pointer', '%s at %#x' % (what, p))
        off = p - o.base
        if not o.alive:
            self.err('use-after-free', '%s of %d bytes in dead %s object' % (what, n, o.kind))
        if off < 0 or off + n > o.size:
            self.err('out-of-bounds', '%s of %d bytes at offset %d of a %d-byte %s object %s' % (
                what, n, off, o.size, o.kind, o.name or ''))
        return o, off

    def load(self, p, n):
        if type(p) is not int:
            p = self.ptr(p)
        o, off = self.find(p, n, 'read')
        if self.acclog is not None:
            self.acclog.append(('r', o.id, off, n))
        c = o.cells.get(off)
        if c is not None and c[1] == n:
            return c[0]
        return self.load_slow(o, off, n)

    def load1(self, p):
        v = self.load(p, 1)
        if type(v) is int:
            return v & 1
        if isinstance(v, BI):
            return v.b
        if v is U:
            return U
        return self.icast('trunc', v, 8, 1)

    def loadf(self, p, n):
        v = self.load(p, n)
        t = type(v)
        if t is Fraction or t is T or v is U:
            return v
        if t is int:
            return tm.from_bits(v, n)
        raise Unsupported('double load of %r' % (v,))

    def load_slow(self, o, off, n):
        # exact cell(s) missing: assemble from bytes
        cells = o.cells
        out = []
        i = off
        while i < off + n:
            c = cells.get(i)
            if c is not None and i + c[1] <= off + n:
                out.append((c[0], c[1]))
                i += c[1]
                continue
            # inside a bigger cell?
            found = None
            for back in range(0, 17):
                c2 = cells.get(i - back)
                if c2 is not None and c2[1] > back:
                    found = (c2, back)
                    break
                if c2 is not None:
                    break
            if not found:
                out.append((U, 1))
                i += 1
                continue
            (v, sz), back = found
            take = min(sz - back, off + n - i)
            if type(v) is int:
                out.append(((v >> (8 * back)) & ((1 << (8 * take)) - 1), take))
            elif isinstance(v, z3.BitVecRef):
                out.append((z3.simplify(z3.Extract(8 * (back + take) - 1, 8 * back, v)), take))
            elif v is U:
                out.append((U, take))
            elif type(v) is Fraction or type(v) is T:
                out.append((('part', v, back), take))
            else:
                raise Unsupported('partial read of %r' % (v,))
            i += take
        if len(out) == 1:
            return out[0][0]
        if any(v is U for v, _ in out):
            return U
        if all(type(v) is int for v, _ in out):
            r = 0
            s = 0
            for v, sz in out:
                r |= v << s
                s += 8 * sz
            return r
        if all(type(v) is int or isinstance(v, z3.BitVecRef) for v, _ in out):
            parts = [v if isinstance(v, z3.BitVecRef) else z3.BitVecVal(v, 8 * sz) for v, sz in out]
            return z3.simplify(z3.Concat(*reversed(parts)))
        # a mix containing doubles (e.g. 16-byte copies): aggregate value
        return ('parts', out)

    def store(self, p, n, v):
        if type(p) is not int:
            p = self.ptr(p)
        o, off = self.find(p, n, 'write')
        if o.const:
            self.err('write-to-constant', o.name or '')
        if self.acclog is not None:
            self.acclog.append(('w', o.id, off, n))
        cells = o.cells
        if type(v) is tuple and v[0] == 'parts':
            i = off
            for x, sz in v[1]:
                self.store(p + (i - off), sz, x)
                i += sz
            return
        if n == 1 and type(v) is B:
            v = BI(v)
        c = cells.get(off)
        if c is not None and c[1] == n:
            cells[off] = (v, n)
            return
        self.clear(o, off, n)
        cells[off] = (v, n)

    def clear(self, o, off, n):
        """remove/split cells overlapping [off, off+n)"""
        cells = o.cells
        for i in range(off - 15, off + n):
            c = cells.get(i)
            if c is None:
                continue
            if i + c[1] <= off:
                continue
            if i >= off and i + c[1] <= off + n:
                del cells[i]
                continue
            v, sz = c
            del cells[i]
            # keep outside bytes
            lo = (i, off) if i < off else None
            hi = (off + n, i + sz) if i + sz > off + n else None
            for rng in (lo, hi):
                if rng is None:
                    continue
                a, b2 = rng
                k = a - i
                if type(v) is int:
                    cells[a] = ((v >> (8 * k)) & ((1 << (8 * (b2 - a))) - 1), b2 - a)
                elif isinstance(v, z3.BitVecRef):
                    cells[a] = (z3.simplify(z3.Extract(8 * (k + b2 - a) - 1, 8 * k, v)), b2 - a)
                else:
                    for q in range(a, b2):
                        cells[q] = (U, 1)

    def load_agg(self, p, t):
        t = self.mod.resolve(t)
        if t[0] == 'struct':
            return [self.load_agg(p + self.mod.field(t, j)[0], e) for j, e in enumerate(t[1])]
        if t[0] in ('array', 'vector'):
            s = self.mod.size(t[2])
            return [self.load_agg(p + j * s, t[2]) for j in range(t[1])]
        if t[0] in ('double', 'float'):
            return self.loadf(p, self.mod.size(t))
        return self.load(p, self.mod.size(t))

    def store_agg(self, p, v, t):
        t = self.mod.resolve(t)
        if t[0] == 'struct':
            for j, e in enumerate(t[1]):
                self.store_agg(p + self.mod.field(t, j)[0], v[j], e)
        elif t[0] in ('array', 'vector'):
            s = self.mod.size(t[2])
            for j in range(t[1]):
                self.store_agg(p + j * s, v[j], t[2])
        else:
            self.store(p, self.mod.size(t), v)

    def pload(self, g, p, n, k):
        """load under guard g (predicated execution)"""
        if g == 0 and type(g) is int:
            return U
        try:
            return self.loadf(p, n) if k == 'double' else self.load(p, n)
        except Fault:
            if type(g) is int:
                raise
            return U

    def pstore(self, g, p, v):
        if type(g) is int:
            if g:
                self.store(p, 8, v)
            return
        try:
            old = self.loadf(p, 8)
        except Fault:
            # would fault if the guard can hold: decide by forking on it
            if self.branch(g):
                self.store(p, 8, v)
            return
        self.store(p, 8, ite(g, v, old))

    def memcpy(self, d, s, n, move):
        n = self.concretize(n)
        if n == 0:
            return
        d, s = self.ptr(d), self.ptr(s)
        so, soff = self.find(s, n, 'read')
        do, doff = self.find(d, n, 'write')
        if self.acclog is not None:
            self.acclog.append(('r', so.id, soff, n))
            self.acclog.append(('w', do.id, doff, n))
        if not move and so is do and soff != doff and abs(soff - doff) < n:
            self.err('overlapping-memcpy')
        if do.const:
            self.err('write-to-constant', do.name or '')
        # gather aligned to source cells
        parts = []
        i = soff
        end = soff + n
        cells = so.cells
        while i < end:
            c = cells.get(i)
            if c is not None and i + c[1] <= end:
                parts.append((i - soff, c))
                i += c[1]
                continue
            step = 1
            v = self.load_slow(so, i, 1)
            if v is not U or c is not None:
                parts.append((i - soff, (v, 1)))
            i += step
        self.clear(do, doff, n)
        for k, c in parts:
            if c[0] is U:
                continue
            do.cells[doff + k] = c

    def memset(self, d, v, n):
        n = self.concretize(n)
        if n == 0:
            return
        d = self.ptr(d)
        o, off = self.find(d, n, 'write')
        if self.acclog is not None:
            self.acclog.append(('w', o.id, off, n))
        v = self.concretize(v) & 255
        self.clear(o, off, n)
        i = 0
        w8 = int.from_bytes(bytes([v] * 8), 'little')
        while i + 8 <= n:
            o.cells[off + i] = (w8, 8)
            i += 8
        while i < n:
            o.cells[off + i] = (v, 1)
            i += 1

    def byval(self, frame, p, n):
        o = self.alloc(n, 'stack')
        frame.append(o)
        self.memcpy(o.base, p, n, False)
        return o.base

    def cstr(self, p, maxn=100000):
        p = self.ptr(p)
        out = bytearray()
        while True:
            c = self.load(p, 1)
            c = self.concretize(c)
            if c == 0:
                return bytes(out).decode('latin-1')
            out.append(c)
            p += 1
            if len(out) > maxn:
                self.err('unterminated-string')

    def bytes_at(self, p, n):
        return bytes(self.concretize(self.load(p + i, 1)) for i in range(n)).decode('latin-1')

    def new_cstr(self, s):
        b = s.encode('latin-1') + b'\0'
        o = self.alloc(len(b), 'heap')
        for i, c in enumerate(b):
            o.cells[i] = (c, 1)
        return o.base

    # ------------------------------------------------------------ integers
    def bv(self, v, w):
        if type(v) is int:
            return z3.BitVecVal(v, w)
        if isinstance(v, BI):
            return z3.BitVecVal(self.forceint(v), w)
        if type(v) is bool:
            return z3.BitVecVal(int(v), w)
        if isinstance(v, z3.BitVecRef):
            return v
        raise Unsupported('integer op on %r' % (v,))

    def norm(self, e):
        e = z3.simplify(e)
        if z3.is_bv_value(e):
            return e.as_long()
        return e

    def forceint(self, v):
        if isinstance(v, BI):
            return 1 if self.branch(v.b) else 0
        return v

    def bvop(self, op, a, b, w):
        if a is U or b is U:
            if op in ('and', 'mul') and (a == 0 if b is U and type(a) is int else type(b) is int and b == 0):
                return 0
            return U
        if isinstance(a, BI):
            a = self.forceint(a)
        if isinstance(b, BI):
            b = self.forceint(b)
        M = (1 << w) - 1
        if type(a) is int and type(b) is int:
            if op == 'add':
                return (a + b) & M
            if op == 'sub':
                return (a - b) & M
            if op == 'mul':
                return (a * b) & M
            if op == 'and':
                return a & b
            if op == 'or':
                return a | b
            if op == 'xor':
                return a ^ b
            if op == 'shl':
                return (a << b) & M if b < w else U
            if op == 'lshr':
                return a >> b if b < w else U
            if op == 'ashr':
                return (sx(a, w) >> b) & M if b < w else U
            if b == 0:
                self.err('division-by-zero')
            if op == 'udiv':
                return a // b
            if op == 'urem':
                return a % b
            x, y = sx(a, w), sx(b, w)
            q = abs(x) // abs(y)
            if (x < 0) != (y < 0):
                q = -q
            if op == 'sdiv':
                return q & M
            if op == 'srem':
                return (x - q * y) & M
            raise Unsupported(op)
        x, y = self.bv(a, w), self.bv(b, w)
        if op == 'xor' and type(b) is int and b == M:
            return self.norm(z3.BitVecVal(M, w) - x)
        if op == 'xor' and type(a) is int and a == M:
            return self.norm(z3.BitVecVal(M, w) - y)
        if op == 'shl' and type(b) is int:
            return self.norm(x * z3.BitVecVal(1 << b, w)) if b < w else U
        if op in ('udiv', 'sdiv', 'urem', 'srem') and type(b) is not int:
            if self.branch(tm.zb(z3.simplify(y == 0))) if not z3.is_false(z3.simplify(y == 0)) else False:
                self.err('division-by-zero')
        f = {'add': lambda: x + y, 'sub': lambda: x - y, 'mul': lambda: x * y, 'and': lambda: x & y,
             'or': lambda: x | y, 'xor': lambda: x ^ y, 'shl': lambda: x << y, 'lshr': lambda: z3.LShR(x, y),
             'ashr': lambda: x >> y, 'udiv': lambda: z3.UDiv(x, y), 'urem': lambda: z3.URem(x, y),
             'sdiv': lambda: x / y, 'srem': lambda: z3.SRem(x, y)}[op]
        return self.norm(f())

    def zbool(self, e):
        e = z3.simplify(e)
        if z3.is_true(e):
            return 1
        if z3.is_false(e):
            return 0
        self.keep.append(e)
        return tm.zb(e)

    def icmp(self, p, a, b, w):
        if a is U or b is U:
            return U
        if isinstance(a, BI) or isinstance(b, BI):
            if isinstance(a, BI) and type(b) is int and p in ('eq', 'ne') and b in (0, 1):
                return a.b if (p == 'eq') == (b == 1) else bnot(a.b)
            a, b = self.forceint(a), self.forceint(b)
        if type(a) in (Fraction, T) or type(b) in (Fraction, T):
            raise Unsupported('integer comparison of a floating-point bit pattern')
        if type(a) is int and type(b) is int:
            if p[0] == 's':
                a, b = sx(a, w), sx(b, w)
            k = p[-2:]
            return int({'eq': a == b, 'ne': a != b, 'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b}[k])
        x, y = self.bv(a, w), self.bv(b, w)
        if p in ('eq', 'ne'):
            d = z3.simplify(z3.simplify(x - y, som=True, som_blowup=2000), som=True, som_blowup=2000)
            if z3.is_bv_value(d):
                return int((d.as_long() == 0) == (p == 'eq'))
        e = {'eq': lambda: x == y, 'ne': lambda: x != y, 'slt': lambda: x < y, 'sle': lambda: x <= y,
             'sgt': lambda: x > y, 'sge': lambda: x >= y, 'ult': lambda: z3.ULT(x, y), 'ule': lambda: z3.ULE(x, y),
             'ugt': lambda: z3.UGT(x, y), 'uge': lambda: z3.UGE(x, y)}[p]()
        return self.zbool(e)

    def icmp1(self, p, a, b):
        if p == 'eq':
            return bnot(bxor(a, b))
        if p == 'ne':
            return bxor(a, b)
        if p in ('ult', 'sgt'):
            return band(bnot(a), b)
        if p in ('ugt', 'slt'):
            return band(a, bnot(b))
        if p in ('ule', 'sge'):
            return bor(bnot(a), b)
        return bor(a, bnot(b))

    def icast(self, op, a, w, w2):
        if a is U:
            return U
        if w == 1:
            if type(a) is int:
                return a if op == 'zext' else (-a) & ((1 << w2) - 1)
            if a.k == 'z' and op == 'zext':
                return self.norm(z3.If(a.a, z3.BitVecVal(1, w2), z3.BitVecVal(0, w2)))
            if op == 'zext':
                return BI(a)
            return self.icast(op, 1 if self.branch(a) else 0, 1, w2)
        if isinstance(a, BI):
            if op == 'trunc' and w2 == 1:
                return a.b
            return a
        if type(a) in (Fraction, T):
            if op == 'zext' or op == 'sext' or op == 'trunc':
                raise Unsupported('cast of floating-point bit pattern')
        if op == 'trunc':
            if w2 == 1:
                if type(a) is int:
                    return a & 1
                return self.zbool(z3.Extract(0, 0, a) == 1)
            if type(a) is int:
                return a & ((1 << w2) - 1)
            return self.norm(z3.Extract(w2 - 1, 0, self.bv(a, w)))
        if type(a) is int:
            return a if op == 'zext' else sx(a, w) & ((1 << w2) - 1)
        if op == 'zext':
            return self.norm(z3.ZeroExt(w2 - w, a))
        return self.norm(z3.SignExt(w2 - w, a))

    def trunc(self, a, w, w2):
        return self.icast('trunc', a, w, w2)

    def iselect(self, c, a, b, w):
        if c is U:
            return U
        if type(a) is int and type(b) is int and a == b:
            return a
        if a is b:
            return a
        if c.k == 'z' and not (type(a) in (Fraction, T) or type(b) in (Fraction, T) or a is U or b is U):
            return self.norm(z3.If(c.a, self.bv(a, w), self.bv(b, w)))
        if type(a) in (Fraction, T) and type(b) in (Fraction, T):
            return ite(c, a, b)
        if a == 1 and b == 0 and type(a) is int and type(b) is int:
            return BI(c)
        if a == 0 and b == 1 and type(a) is int and type(b) is int:
            return BI(bnot(c))
        return a if self.branch(c) else b

    def iminmax(self, op, a, b, w):
        if op == 'abs':
            if type(a) is int:
                return abs(sx(a, w)) & ((1 << w) - 1)
            if a is U:
                return U
            return self.norm(z3.If(a < 0, -a, a))
        p = {'smax': 'sgt', 'smin': 'slt', 'umax': 'ugt', 'umin': 'ult'}[op]
        c = self.icmp(p, a, b, w)
        if type(c) is int:
            return a if c else b
        return self.iselect(c, a, b, w)

    def bitint(self, op, *args):
        w = args[-1]
        args = [self.concretize(a) for a in args[:-1]]
        x = args[0]
        if op == 'ctpop':
            return bin(x).count('1')
        if op == 'ctlz':
            return w - x.bit_length()
        if op == 'cttz':
            return w if x == 0 else (x & -x).bit_length() - 1
        if op == 'bswap':
            return int.from_bytes(x.to_bytes(w // 8, 'little'), 'big')
        s = args[2] % w
        v = (args[0] << w) | args[1]
        if op == 'fshl':
            return (v << s >> w) & ((1 << w) - 1)
        return (v >> s) & ((1 << w) - 1)

    def withoverflow(self, op, a, b, w):
        o = {'add': 'add', 'sub': 'sub', 'mul': 'mul'}[op[1:]]
        r = self.bvop(o, a, b, w)
        if type(a) is int and type(b) is int:
            if op[0] == 's':
                x, y = sx(a, w), sx(b, w)
                f = {'add': x + y, 'sub': x - y, 'mul': x * y}[o]
                return [r, int(not -(1 << (w - 1)) <= f < (1 << (w - 1)))]
            f = {'add': a + b, 'sub': a - b, 'mul': a * b}[o]
            return [r, int(not 0 <= f < (1 << w))]
        ext = z3.SignExt if op[0] == 's' else z3.ZeroExt
        x, y = ext(w, self.bv(a, w)), ext(w, self.bv(b, w))
        f = {'add': x + y, 'sub': x - y, 'mul': x * y}[o]
        return [r, self.zbool(f != ext(w, self.bv(r, w)))]

    def satop(self, op, a, b, w):
        a, b = self.concretize(a), self.concretize(b)
        if op[0] == 's':
            x, y = sx(a, w), sx(b, w)
            f = x + y if op == 'sadd' else x - y
            f = max(-(1 << (w - 1)), min((1 << (w - 1)) - 1, f))
            return f & ((1 << w) - 1)
        f = a + b if op == 'uadd' else a - b
        return max(0, min((1 << w) - 1, f))

    def gep(self, base, off, terms_):
        e = self.bv(base, 64) if not type(base) is int else base
        if base is U:
            return U
        acc = (base + off) if type(base) is int else self.norm(e + off)
        for v, w, sz in terms_:
            if v is U:
                return U
            if isinstance(v, BI):
                v = self.forceint(v)
            if type(v) is int:
                d = sx(v, w) * sz
                acc = acc + d if type(acc) is int else self.norm(acc + z3.BitVecVal(d, 64))
            else:
                x = z3.SignExt(64 - w, v) if w < 64 else v
                acc = self.norm(self.bv(acc, 64) + x * sz)
        return acc

    # ------------------------------------------------------------ int <-> real
    def itofp(self, a, w, signed, ty):
        if a is U:
            return U
        if type(a) is int:
            if signed:
                a = sx(a, w)
            r = Fraction(a)
            return f32(r) if ty == 'float' else r
        if isinstance(a, BI):
            return ite(a.b, Fraction(1), Fraction(0))
        if type(a) is B:
            return ite(a, Fraction(-1 if signed else 1), Fraction(0))
        if ty == 'float':
            a = self.concretize(a)
            return self.itofp(a, w, signed, ty)
        return self.int_real(a, w, signed)

    def int_real(self, a, w, signed):
        """real value of a symbolic bit-vector; base + constant split when it cannot wrap"""
        off = 0
        base = a
        if z3.is_app_of(a, z3.Z3_OP_BADD):
            ch = a.children()
            k = [c for c in ch if z3.is_bv_value(c)]
            if len(k) == 1:
                rest = [c for c in ch if not z3.is_bv_value(c)]
                b2 = rest[0]
                for c in rest[1:]:
                    b2 = b2 + c
                b2 = z3.simplify(b2)
                kv = sx(k[0].as_long(), w)
                kb = z3.BitVecVal(kv, w)
                ok = z3.And(z3.BVAddNoOverflow(b2, kb, True), z3.BVAddNoUnderflow(b2, kb)) if signed else None
                if signed and self.bv_valid(ok):
                    base = b2
                    off = kv
        self.keep.append(base)
        e = z3.BV2Int(base, signed)
        self.keep.append(e)
        return add(tm.i2r((base, w, signed), (base.get_id(), signed)), Fraction(off))

    def fptoi(self, a, w, signed):
        if a is U:
            return U
        if type(a) is Fraction:
            v = math.trunc(a)
            lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if signed else (0, (1 << w) - 1)
            if not lo <= v <= hi:
                self.err('float-to-int-overflow')
            return v & ((1 << w) - 1)
        if a.k == 'bad':
            self.err('float-to-int-overflow')
        # a sum of integer-valued terms with integer coefficients is an integer
        c, d = tm.as_sum(a)
        if c.denominator == 1 and all(n.k == 'i2r' and co.denominator == 1 for n, co in d.items()):
            e = z3.BitVecVal(int(c) & ((1 << w) - 1), w)
            for n, co in d.items():
                b, bw, sg = n.a
                if bw < w:
                    b = z3.SignExt(w - bw, b) if sg else z3.ZeroExt(w - bw, b)
                elif bw > w:
                    b = z3.Extract(w - 1, 0, b)
                e = e + b * z3.BitVecVal(int(co) & ((1 << w) - 1), w)
            return self.norm(e)
        i2 = [n for n in tm.topo([a]) if n.k in ('i2r', 'v', 'fn')]
        if i2 and all(n.k == 'i2r' or (n.k == 'fn' and n.a[0] in ('ceil', 'floor')) for n in i2):
            asg = {}
            for n in i2:
                if n.k == 'i2r':
                    v = self.concretize(n.a[0])
                    asg[n] = Fraction(sx(v, n.a[1]) if n.a[2] else v)
            r = tm.subst([a], asg)[0]
            if type(r) is Fraction:
                return self.fptoi(r, w, signed)
        raise Unsupported('float-to-int of a symbolic real')

    def bitcast(self, a, t, t2):
        if t[0] == 'double' and t2 == ('i', 64) or t == ('i', 64) and t2[0] == 'double':
            if type(a) is int and t2[0] == 'double':
                return tm.from_bits(a, 8)
            return a
        raise Unsupported('bitcast %r to %r' % (t, t2))

    def copysign(self, a, b):
        return ite(fcmp('olt', b, Fraction(0)), neg(fabs(a)), fabs(a))

    def fpclass(self, a, mask):
        # finite values only
        if a is U:
            return U
        b = type(a) is T and a.k == 'bad'
        nan = mask & 3
        inf = mask & (4 | 512)
        if b:
            return 1 if (nan or inf) else 0
        if mask & ~(3 | 4 | 512) == 0:
            return 0
        raise Unsupported('is.fpclass')

    def powi(self, a, n):
        return tm.power(a, sx(self.concretize(n), 32))

    def freeze(self, a, k):
        if a is U:
            return 0 if k in ('i', 'ptr') else Fraction(0)
        return a

    # ------------------------------------------------------------ control: decisions
    def pcond(self, c):
        if c is U:
            self.err('branch-on-uninitialised')
        return c

    def mergeable(self, c):
        if c is U:
            self.err('branch-on-uninitialised')
        if c.k == 'z':
            return False
        if self.decided(c) is not None:
            return False
        self.stats['merges'] += 1
        return True

    def truth(self, c):
        if type(c) is int or type(c) is bool:
            return c
        return self.branch(c)

    def decided(self, c):
        """value of boolean c implied syntactically by the path condition, or None"""
        n = self.known.get(c)
        if n is not None:
            return n
        n = self.known.get(bnot(c))
        if n is not None:
            return 1 - n
        return None

    def learn(self, c, v):
        if v == 0:
            c = bnot(c)
        self.pc.append(c)
        st = [c]
        while st:
            x = st.pop()
            if type(x) is int:
                continue
            self.known[x] = 1
            self.known[bnot(x)] = 0
            if x.k == 'and':
                st.extend(x.a)
            if x.k == 'not':
                self.known[x.a] = 0
        if is_bv(c):
            self.solver.add(to_z3bv(c))
            self.model = None

    def branch(self, c):
        if type(c) is int:
            return c
        if c is U:
            self.err('branch-on-uninitialised')
        if isinstance(c, BI):
            c = c.b
        d = self.decided(c)
        if d is not None:
            return d
        if self.pos < len(self.prefix):
            v = self.prefix[self.pos]
            self.pos += 1
            self.trace.append(v)
            self.learn(c, v)
            return v
        # new decision
        if is_bv(c):
            z = to_z3bv(c)
            ft = self.bv_feasible(z)
            ff = self.bv_feasible(z3.Not(z)) if ft else True
        else:
            ft, ff = self.real_feasible(c)
        if not ft and not ff:
            raise PathEnd()
        v = 1 if ft else 0
        if ft and ff:
            self.stats['forks'] += 1
            self.worklist.append(self.trace + [0])
            v = 1
        self.pos += 1
        self.prefix = self.prefix + [v] if False else self.prefix
        self.trace.append(v)
        self.pos = len(self.trace)
        self.learn(c, v)
        return v

    def concretize(self, e, addr=False):
        if type(e) is int:
            return e
        if isinstance(e, BI):
            return self.forceint(e)
        if e is U:
            self.err('uninitialised-value-used')
        if not isinstance(e, z3.BitVecRef):
            raise Unsupported('concretize %r' % (e,))
        key = e
        if self.pos < len(self.prefix):
            v = self.prefix[self.pos]
            self.pos += 1
        else:
            vals = self.bv_values(e)
            if not vals:
                raise PathEnd()
            v = vals[0]
            for o in vals[1:]:
                self.worklist.append(self.trace + [o])
            self.stats['forks'] += len(vals) - 1
        self.trace.append(v)
        self.pos = len(self.trace)
        c = self.zbool(e == v)
        if type(c) is not int:
            self.learn(c, 1)
        return v

    def choose(self, n):
        """fork over n alternatives"""
        if n <= 1:
            return 0
        if self.pos < len(self.prefix):
            v = self.prefix[self.pos]
        else:
            v = 0
            for o in range(n - 1, 0, -1):
                self.worklist.append(self.trace + [o])
            self.stats['forks'] += n - 1
        self.trace.append(v)
        self.pos = len(self.trace)
        return v

    # ------------------------------------------------------------ solver access
    def bv_check(self, *extra):
        t = time.time()
        self.stats['bvq'] += 1
        self.solver.push()
        for x in extra:
            self.solver.add(x)
        r = self.solver.check()
        m = self.solver.model() if r == z3.sat else None
        self.solver.pop()
        self.stats['bvt'] += time.time() - t
        if r == z3.unknown:
            raise Limit('bit-vector query undecided: %s %s' % (self.solver.reason_unknown(), str(extra)[:600]))
        return m

    def bv_feasible(self, z):
        if self.model is not None:
            if z3.is_true(self.model.eval(z, model_completion=True)):
                return True
        m = self.bv_check(z)
        if m is not None:
            self.model = m
            return True
        return False

    def bv_valid(self, z):
        return self.bv_check(z3.Not(z)) is None

    def bv_values(self, e, limit=600):
        out = []
        self.solver.push()
        t = time.time()
        while True:
            self.stats['bvq'] += 1
            r = self.solver.check()
            if r != z3.sat:
                break
            v = self.solver.model().eval(e, model_completion=True).as_long()
            out.append(v)
            self.solver.add(e != v)
            if len(out) > limit:
                self.solver.pop()
                raise Limit('more than %d feasible values for a value that must be concrete' % limit)
        self.solver.pop()
        self.stats['bvt'] += time.time() - t
        if r == z3.unknown:
            raise Limit('bit-vector query undecided')
        out.sort()
        return out

    def real_feasible(self, c):
        import decide
        return decide.feasible_both(self, c)

    # ------------------------------------------------------------ exceptions
    def landingpad(self, exc, cleanup, clauses):
        self.exc_types[exc.ptr] = exc
        for c in clauses:
            if c == 0 or self.catches(exc.tinfo, c):
                return [exc.ptr, self.typeid(c)]
        if cleanup:
            return [exc.ptr, 0]
        raise exc

    def typeid(self, ti):
        return (ti >> SHIFT) & 0x7fffffff if type(ti) is int else 1

    def bases(self, ti):
        """base class type-infos of a type-info global"""
        if isinstance(ti, str):
            return self.std_bases.get(ti, [])
        o = self.objs.get(ti >> SHIFT)
        if o is None or o.name is None:
            return []
        g = self.mod.globals.get(o.name)
        if g is None or g[1] is None:
            b = STD_BASES.get(o.name[1:])
            return [self.addr_of('@' + b)] if b and '@' + b in self.gobj else ([b] if b else [])
        cells = o.cells
        n = o.size
        if n == 16:
            return []
        if n == 24:
            return [cells[16][0]]
        cnt = cells[20][0]
        return [cells[24 + 16 * i][0] for i in range(cnt)]

    def tiname(self, ti):
        if isinstance(ti, str):
            return ti
        o = self.objs.get(ti >> SHIFT)
        return o.name[1:] if o is not None and o.name else '?'

    def catches(self, thrown, want):
        wn = self.tiname(want)
        st = [thrown]
        while st:
            x = st.pop()
            if self.tiname(x) == wn:
                return True
            n = self.tiname(x)
            st.extend(self.bases(x))
            if n in STD_BASES:
                st.append(STD_BASES[n])
        return False

    def resume(self, v):
        raise self.exc_types[v[0]]

    def insertvalue(self, agg, e, idx, t):
        if agg is U:
            agg = self.undef_agg(t)
        agg = list(agg)
        if len(idx) == 1:
            agg[idx[0]] = e
        else:
            sub_t = self.mod.resolve(t)
            et = sub_t[1][idx[0]] if sub_t[0] == 'struct' else sub_t[2]
            agg[idx[0]] = self.insertvalue(agg[idx[0]], e, idx[1:], self.mod.resolve(et))
        return agg

    def assume_align(self, p, al):
        al = self.concretize(al)
        p = self.ptr(p)
        if p % al != 0:
            self.err('misaligned-assumption', 'pointer assumed %d-byte aligned is not guaranteed to be' % al)

    def llvm_assume(self, c):
        if type(c) is int:
            if not c:
                self.err('assume-false')
        # symbolic: optimiser hint only

    # ------------------------------------------------------------ running
    def start_path(self, prefix):
        self.prefix = prefix
        self.pos = 0
        self.trace = []
        self.pc = []
        self.known = {}
        self.solver = z3.Solver()
        self.solver.set('timeout', self.opts.get('bv_timeout_ms', 60000))
        self.model = None
        self.objs = {}
        self.next_obj = self.first_dyn
        self.ticks = 0
        self.max_ticks = self.opts.get('max_ticks', 3000000)
        self.depth = 0
        self.exc_types = {}
        self.acclog = None
        self.region = None
        self.inputs = []        # (kind, name, symbol/value, lo, hi)
        self.input_names = {}
        self.streams = {}
        self.marks = []
        self.fault = None
        self.digits = 15
        self.console_at = 0
        self.labels = []
        self.keep = []
        self.tok = None
        self.std_bases = {}
        self.init_globals()
        ctors = self.mod.globals.get('@llvm.global_ctors')
        if ctors and ctors[1] and ctors[1][0] == 'agg':
            lst = []
            for tt, v in ctors[1][1]:
                f = v[1]
                lst.append((f[0][1][1], f[1][1][1]))
            for _, name in sorted(lst, key=lambda x: x[0]):
                self.lazy(name)()


STD_BASES = {
    '_ZTISt12length_error': '_ZTISt11logic_error', '_ZTISt12out_of_range': '_ZTISt11logic_error',
    '_ZTISt16invalid_argument': '_ZTISt11logic_error', '_ZTISt12domain_error': '_ZTISt11logic_error',
    '_ZTISt11logic_error': '_ZTISt9exception', '_ZTISt13runtime_error': '_ZTISt9exception',
    '_ZTISt9bad_alloc': '_ZTISt9exception', '_ZTISt8bad_cast': '_ZTISt9exception',
    '_ZTISt20bad_array_new_length': '_ZTISt9bad_alloc', '_ZTISt10bad_typeid': '_ZTISt9exception',
}


def name_skip(n):
    return n.startswith('@llvm.')


_bvmemo = {}


def is_bv(b):
    if type(b) is int:
        return True
    r = b.vs
    if r is None:
        if b.k == 'z':
            r = True
        elif b.k == 'not':
            r = is_bv(b.a)
        elif b.k == 'and':
            r = is_bv(b.a[0]) and is_bv(b.a[1])
        else:
            r = False
        b.vs = r
    return r


def to_z3bv(b):
    if type(b) is int:
        return z3.BoolVal(bool(b))
    if b.k == 'z':
        return b.a
    if b.k == 'not':
        return z3.Not(to_z3bv(b.a))
    return z3.And(to_z3bv(b.a[0]), to_z3bv(b.a[1]))
