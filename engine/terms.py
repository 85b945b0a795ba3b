"""Exact real-arithmetic term DAG used for double-precision values.

Terms are hash-consed and kept in a sum-of-products normal form at
construction (commutativity, associativity, rational constants, division as a
negative exponent, like terms collected), without distributing products over
sums.  Meaning: exact real arithmetic; every operation is assumed
non-exceptional (no division by zero, no square root of a negative number, no
overflow, no NaN).  That assumption is reported as part of each claim.
"""
from fractions import Fraction
import math
import struct

F0 = Fraction(0)
F1 = Fraction(1)


class Undef:
    """an uninitialised value; poisons everything computed from it"""
    def __repr__(self):
        return 'UNDEF'


U = Undef()


class T:
    __slots__ = ('k', 'a', 'id', 'ev', 'vs')

    def __init__(self, k, a, id):
        self.k = k
        self.a = a
        self.id = id
        self.ev = None
        self.vs = None

    def __repr__(self):
        return show(self)


class B:
    __slots__ = ('k', 'a', 'id', 'vs')

    def __init__(self, k, a, id):
        self.k = k
        self.a = a
        self.id = id
        self.vs = None

    def __repr__(self):
        return showb(self)


_tab = {}
_next = [0]


def reset():
    _tab.clear()
    _const_cache.clear()
    _next[0] = 0


def _mk(k, a, key):
    t = _tab.get(key)
    if t is None:
        _next[0] += 1
        t = T(k, a, _next[0])
        _tab[key] = t
    return t


def _mkb(k, a, key):
    t = _tab.get(key)
    if t is None:
        _next[0] += 1
        t = B(k, a, _next[0])
        _tab[key] = t
    return t


# ---------------------------------------------------------------- constants
_const_cache = {}


def ideal(x):
    """the rational a double literal stands for: the simplest rational that
    rounds to it (1./3. -> 1/3, 0.1 -> 1/10), the exact binary value if none"""
    c = _const_cache.get(x)
    if c is not None:
        return c
    if x == 0:
        r = F0
    else:
        ex = Fraction(x)
        r = None
        tol = abs(ex) / (1 << 51)
        s = repr(x)
        f = Fraction(s)
        mant = s.split('e')[0].replace('-', '').replace('.', '').strip('0')
        if len(mant) <= 12:
            r = f
        else:
            g = ex.limit_denominator(5000)
            if g != 0 and abs(g - ex) <= tol:
                r = g
            elif abs(ex) < Fraction(1, 1000) or abs(ex) > 1000:
                inv = (1 / ex).limit_denominator(5000)
                if inv != 0 and abs(1 / inv - ex) <= tol:
                    r = 1 / inv
        if r is None:
            r = ex
    _const_cache[x] = r
    return r


def bad(tag='bad'):
    """result of an exceptional concrete operation (inf or nan)"""
    return _mk('bad', tag, ('bad', tag))


def var(name):
    return _mk('v', name, ('v', name))


def is_const(x):
    return type(x) is Fraction


# ---------------------------------------------------------------- sums
# sum node: a = (const, ((node,coef),...)) sorted by node id

def as_sum(x):
    """x -> (const, dict node->coef)"""
    if type(x) is Fraction:
        return x, {}
    if x.k == '+':
        return x.a[0], dict(x.a[1])
    return F0, {x: F1}


def mk_sum(c, d):
    it = [(n, co) for n, co in d.items() if co]
    if not it:
        return c
    if len(it) == 1 and not c and it[0][1] == 1:
        return it[0][0]
    it.sort(key=lambda p: p[0].id)
    tup = tuple(it)
    return _mk('+', (c, tup), ('+', c, tuple((n.id, co) for n, co in tup)))


def add(x, y):
    if x is U or y is U:
        return U
    if type(x) is Fraction:
        if type(y) is Fraction:
            return x + y
        if not x:
            return y
    elif type(y) is Fraction and not y:
        return x
    c, d = as_sum(x)
    if type(y) is Fraction:
        return mk_sum(c + y, d)
    if y.k == '+':
        c += y.a[0]
        for n, co in y.a[1]:
            d[n] = d.get(n, F0) + co
    else:
        d[y] = d.get(y, F0) + 1
    return mk_sum(c, d)


def scale(x, f):
    if x is U:
        return U
    if type(x) is Fraction:
        return x * f
    if f == 1:
        return x
    if f == 0:
        return F0
    c, d = as_sum(x)
    return mk_sum(c * f, {n: co * f for n, co in d.items()})


def neg(x):
    return scale(x, Fraction(-1))


def sub(x, y):
    if x is U or y is U:
        return U
    if type(x) is Fraction and type(y) is Fraction:
        return x - y
    return add(x, neg(y))


# ---------------------------------------------------------------- products
# product node: a = ((factor,exp),...) sorted by id; no constants

def as_prod(x):
    """x -> (coef, dict factor->exp)"""
    if type(x) is Fraction:
        return x, {}
    if x.k == '*':
        return F1, dict(x.a)
    if x.k == '+':
        c, its = x.a
        if not c and len(its) == 1:
            n, co = its[0]
            if n.k == '*':
                return co, dict(n.a)
            return co, {n: 1}
        lead = its[0][1]
        if lead != 1:
            return lead, {scale(x, 1 / lead): 1}
        return F1, {x: 1}
    return F1, {x: 1}


def mk_prod(coef, d):
    if not coef:
        return F0
    # sqrt(x)^2 -> x ; abs(x)^2 -> x^2
    again = True
    while again:
        again = False
        for n in list(d):
            e = d[n]
            if e == 0:
                del d[n]
                continue
            if n.k == 'sqrt' and (e >= 2 or e <= -2):
                h = int(e / 2)
                d[n] = e - 2 * h
                c2, d2 = as_prod(n.a)
                coef *= c2 ** h
                for m, ee in d2.items():
                    d[m] = d.get(m, 0) + ee * h
                again = True
                break
            if n.k == 'abs' and (e >= 2 or e <= -2):
                h = int(e / 2)
                d[n] = e - 2 * h
                c2, d2 = as_prod(n.a)
                coef *= c2 ** (2 * h)
                for m, ee in d2.items():
                    d[m] = d.get(m, 0) + ee * h * 2
                again = True
                break
    it = [(n, e) for n, e in d.items() if e]
    if not it:
        return coef
    if len(it) == 1 and it[0][1] == 1:
        p = it[0][0]
    else:
        it.sort(key=lambda p: p[0].id)
        tup = tuple(it)
        p = _mk('*', tup, ('*', tuple((n.id, e) for n, e in tup)))
    if coef == 1:
        return p
    return scale(p, coef)


def mul(x, y):
    if x is U or y is U:
        return U
    if type(x) is Fraction:
        if type(y) is Fraction:
            return x * y
        if y.k == 'bad':
            return y
        return scale(y, x)
    if type(y) is Fraction:
        if x.k == 'bad':
            return x
        return scale(x, y)
    if x.k == 'bad':
        return x
    if y.k == 'bad':
        return y
    c1, d1 = as_prod(x)
    c2, d2 = as_prod(y)
    for n, e in d2.items():
        d1[n] = d1.get(n, 0) + e
    return mk_prod(c1 * c2, d1)


def inv(x):
    if x is U:
        return U
    if type(x) is Fraction:
        if not x:
            return bad('div0')
        return 1 / x
    if x.k == 'bad':
        return x
    c, d = as_prod(x)
    return mk_prod(1 / c, {n: -e for n, e in d.items()})


def div(x, y):
    if x is U or y is U:
        return U
    if type(x) is Fraction and type(y) is Fraction and y:
        return x / y
    i = inv(y)
    if type(i) is T and i.k == 'bad':
        return i
    return mul(x, i)


def power(x, n):
    r = F1
    for _ in range(abs(n)):
        r = mul(r, x)
    return inv(r) if n < 0 else r


def sqrt(x):
    if x is U:
        return U
    if type(x) is Fraction:
        if x < 0:
            return bad('sqrtneg')
        p = math.isqrt(x.numerator)
        q = math.isqrt(x.denominator)
        if p * p == x.numerator and q * q == x.denominator:
            return Fraction(p, q)
        return _mk('sqrt', x, ('sqrt', x))
    if x.k == 'bad':
        return x
    return _mk('sqrt', x, ('sqrt', x.id))


def fabs(x):
    if x is U:
        return U
    if type(x) is Fraction:
        return abs(x)
    if x.k in ('bad', 'abs', 'sqrt'):
        return x
    # sign-normalise
    c, d = as_prod(x)
    out = abs(c)
    rest = {}
    r = F1
    for n, e in d.items():
        if n.k in ('sqrt', 'abs') or e % 2 == 0 or (n.k == 'fn' and n.a[0] in ('exp', 'cosh')):
            r = mul(r, power(n, e))
        else:
            rest[n] = e
    if rest:
        p = mk_prod(F1, rest)
        if type(p) is Fraction:
            r = mul(r, abs(p))
        else:
            r = mul(r, _mk('abs', p, ('abs', p.id)))
    return scale(r, out) if type(r) is not Fraction else r * out


ODD = {'sin', 'tan', 'tanh', 'sinh', 'atan', 'asin'}
EVEN = {'cos', 'cosh'}
AT0 = {'sin': 0, 'cos': 1, 'tan': 0, 'tanh': 0, 'sinh': 0, 'cosh': 1, 'exp': 1, 'atan': 0, 'asin': 0}


def _leadneg(x):
    return type(x) is T and x.k == '+' and x.a[1][0][1] < 0 or type(x) is Fraction and x < 0


def fn(name, *args):
    for x in args:
        if x is U:
            return U
        if type(x) is T and x.k == 'bad':
            return x
    if len(args) == 1:
        x = expand_light(args[0])
        if type(x) is Fraction and x == 0 and name in AT0:
            return Fraction(AT0[name])
        if type(x) is Fraction and x == 1 and name == 'log':
            return F0
        if name in EVEN and _leadneg(x):
            x = neg(x)
        if name in ODD and _leadneg(x):
            return neg(fn(name, neg(x)))
        args = (x,)
    if name == 'pow':
        x, y = args
        if type(y) is Fraction and y.denominator == 1 and abs(y.numerator) <= 8:
            return power(x, int(y))
        if type(y) is Fraction and y == Fraction(1, 2):
            return sqrt(x)
        # power laws on [0, oo): 0**y = 0 (y > 0), 1**y = 1, (x**a)**b = x when a*b = 1
        if type(x) is Fraction and x == 1:
            return F1
        if type(x) is Fraction and x == 0 and (type(y) is not Fraction or y > 0):
            return F0
        if type(x) is T and x.k == 'fn' and x.a[0] == 'pow' and (type(x.a[1]) is not Fraction or x.a[1] >= 0):
            if mul(x.a[2], y) == F1:
                return x.a[1]
    if name == 'ceil' and is_const(args[0]):
        return Fraction(math.ceil(args[0]))
    if name == 'floor' and is_const(args[0]):
        return Fraction(math.floor(args[0]))
    key = ('fn', name) + tuple(('c', x) if type(x) is Fraction else x.id for x in args)
    return _mk('fn', (name,) + tuple(args), key)


def i2r(expr, key):
    """real value of a (z3) integer bit-vector expression, identified by key"""
    return _mk('i2r', expr, ('i2r', key))


# ---------------------------------------------------------------- booleans
TRUE, FALSE = 1, 0


def lt0(x):
    if x is U:
        return U
    if type(x) is Fraction:
        return 1 if x < 0 else 0
    if x.k == 'bad':
        return 0
    c, its = (F0, ((x, F1),)) if x.k != '+' else x.a
    l = abs(its[0][1])
    if l != 1:
        x = scale(x, 1 / l)
    if not c and len(its) == 1 and its[0][0].k in ('sqrt', 'abs') and its[0][1] > 0:
        return 0          # sqrt(.) < 0, |.| < 0
    return _mkb('lt0', x, ('lt0', x.id))


def eq0(x):
    if x is U:
        return U
    if type(x) is Fraction:
        return 1 if x == 0 else 0
    if x.k == 'bad':
        return 0
    if x.k == '+':
        l = x.a[1][0][1]
        if l != 1:
            x = scale(x, 1 / l)
    return _mkb('eq0', x, ('eq0', x.id))


def zb(expr):
    """wrap a z3 Bool over bit-vectors"""
    return _mkb('z', expr, ('z', expr.get_id(), expr.hash()))


def bnot(b):
    if b is U:
        return U
    if type(b) is int:
        return 1 - b
    if b.k == 'not':
        return b.a
    return _mkb('not', b, ('not', b.id))


def band(a, b):
    if a is U or b is U:
        if type(a) is int and a == 0 or type(b) is int and b == 0:
            return 0
        return U
    if type(a) is int:
        return b if a else 0
    if type(b) is int:
        return a if b else 0
    if a is b:
        return a
    if bnot(a) is b:
        return 0
    if a.id > b.id:
        a, b = b, a
    return _mkb('and', (a, b), ('and', a.id, b.id))


def bor(a, b):
    if a is U or b is U:
        if type(a) is int and a == 1 or type(b) is int and b == 1:
            return 1
        return U
    if type(a) is int:
        return 1 if a else b
    if type(b) is int:
        return 1 if b else a
    return bnot(band(bnot(a), bnot(b)))


def bite(c, a, b):
    if type(c) is int:
        return a if c else b
    if a is b:
        return a
    return bor(band(c, a), band(bnot(c), b))


def bxor(a, b):
    if type(a) is int:
        return bnot(b) if a else b
    if type(b) is int:
        return bnot(a) if b else a
    return bor(band(a, bnot(b)), band(bnot(a), b))


def ite(c, x, y):
    if c is U:
        return U
    if type(c) is int:
        return x if c else y
    if x is y or (type(x) is Fraction and type(y) is Fraction and x == y):
        return x
    if x is U or y is U:
        return Poison(c, x, y)
    if c.k == 'not':
        return ite(c.a, y, x)
    # nested same-condition
    if type(x) is T and x.k == 'ite' and x.a[0] is c:
        x = x.a[1]
    if type(y) is T and y.k == 'ite' and y.a[0] is c:
        y = y.a[2]
    # ite(x<0,-x,x) -> |x| ;  ite(x<0, x, -x) -> -|x|
    if c.k == 'lt0':
        s = add(x, y)
        if type(s) is Fraction and s == 0 and type(y) is T:
            q = div(y, c.a) if True else None
            if type(q) is Fraction:
                return scale(fabs(c.a), q)
    key = ('ite', c.id, ('c', x) if type(x) is Fraction else x.id, ('c', y) if type(y) is Fraction else y.id)
    return _mk('ite', (c, x, y), key)


def Poison(c, x, y):
    # one arm uninitialised: keep it as undefined only if it can be selected;
    # represented conservatively as an ite on a special leaf
    u = _mk('undef', None, ('undef',))
    return ite(c, u if x is U else x, u if y is U else y)


def fcmp(pred, a, b):
    if pred == 'true':
        return 1
    if pred == 'false':
        return 0
    if a is U or b is U:
        return U
    isbad = (type(a) is T and a.k == 'bad') or (type(b) is T and b.k == 'bad')
    if isbad:
        return 1 if pred[0] == 'u' else 0
    if pred == 'ord':
        return 1
    if pred == 'uno':
        return 0
    p = pred[1:]
    if p == 'eq':
        return eq0(sub(a, b))
    if p == 'ne':
        return bnot(eq0(sub(a, b)))
    if p == 'lt':
        return lt0(sub(a, b))
    if p == 'gt':
        return lt0(sub(b, a))
    if p == 'le':
        return bnot(lt0(sub(b, a)))
    if p == 'ge':
        return bnot(lt0(sub(a, b)))
    raise ValueError(pred)


# ---------------------------------------------------------------- bit patterns
def from_bits(n, size):
    f = struct.unpack('<d', n.to_bytes(8, 'little'))[0] if size == 8 else \
        struct.unpack('<f', n.to_bytes(4, 'little'))[0]
    if f != f or f in (math.inf, -math.inf):
        return bad('nan' if f != f else 'inf')
    return ideal(f)


def f32(x):
    """round a constant to float precision"""
    if type(x) is not Fraction:
        if type(x) is T and x.k not in ('bad', 'undef'):
            return x if x.k == 'fn' and x.a[0] == 'f32' else fn('f32', x)
        return x
    return Fraction(struct.unpack('<f', struct.pack('<f', float(x)))[0])


def _f32v(x):
    return struct.unpack('<f', struct.pack('<f', float(x)))[0]


# ---------------------------------------------------------------- traversal
def topo(roots):
    """post-order list of all T/B nodes below roots"""
    seen = set()
    out = []
    st = [(r, False) for r in roots if isinstance(r, (T, B))]
    while st:
        n, done = st.pop()
        if done:
            out.append(n)
            continue
        if n in seen:
            continue
        seen.add(n)
        st.append((n, True))
        for c in children(n):
            if c not in seen:
                st.append((c, False))
    return out


def children(n):
    k = n.k
    if k == '+':
        return [m for m, _ in n.a[1]]
    if k == '*':
        return [m for m, _ in n.a]
    if k in ('sqrt', 'abs', 'lt0', 'eq0', 'not'):
        return [n.a] if isinstance(n.a, (T, B)) else []
    if k == 'fn':
        return [m for m in n.a[1:] if isinstance(m, T)]
    if k == 'ite' or k == 'and':
        return [m for m in n.a if isinstance(m, (T, B))]
    return []


def show(t, depth=4):
    if type(t) is Fraction:
        return str(t)
    if t is U:
        return 'UNDEF'
    if depth == 0:
        return '#%d' % t.id
    s = lambda x: show(x, depth - 1) if not isinstance(x, B) else showb(x, depth - 1)
    k = t.k
    if k == 'v':
        return t.a
    if k == '+':
        parts = [('' if co == 1 else '-' if co == -1 else str(co) + '*') + s(n) for n, co in t.a[1]]
        if t.a[0]:
            parts.append(str(t.a[0]))
        return '(' + ' + '.join(parts) + ')'
    if k == '*':
        return '*'.join(s(n) + ('' if e == 1 else '^%d' % e) for n, e in t.a)
    if k in ('sqrt', 'abs'):
        return '%s(%s)' % (k, s(t.a))
    if k == 'fn':
        return '%s(%s)' % (t.a[0], ', '.join(s(x) for x in t.a[1:]))
    if k == 'ite':
        return 'ite(%s, %s, %s)' % (s(t.a[0]), s(t.a[1]), s(t.a[2]))
    return '%s[%s]' % (k, t.a)


def showb(b, depth=4):
    if type(b) is int:
        return str(bool(b))
    if depth == 0:
        return '#%d' % b.id
    if b.k == 'lt0':
        return show(b.a, depth - 1) + ' < 0'
    if b.k == 'eq0':
        return show(b.a, depth - 1) + ' == 0'
    if b.k == 'not':
        return '!(' + showb(b.a, depth - 1) + ')'
    if b.k == 'and':
        return '(' + showb(b.a[0], depth - 1) + ' && ' + showb(b.a[1], depth - 1) + ')'
    return str(b.a)


# ---------------------------------------------------------------- expansion
class Budget(Exception):
    pass


def expand_light(x, budget=2000):
    try:
        return expand(x, budget)
    except Budget:
        return x


def _pmul(p, q, budget):
    out = {}
    if len(p) * len(q) > budget:
        raise Budget()
    for m1, c1 in p.items():
        for m2, c2 in q.items():
            m = _mmul(m1, m2)
            c = out.get(m, 0) + c1 * c2
            out[m] = c
    return {m: c for m, c in out.items() if c}


def _mmul(m1, m2):
    if not m1:
        return m2
    if not m2:
        return m1
    d = dict(m1)
    for n, e in m2:
        d[n] = d.get(n, 0) + e
    return tuple(sorted(((n, e) for n, e in d.items() if e), key=lambda p: p[0].id))


def poly(x, budget):
    """expand x into {monomial: coef}; monomial = sorted ((atom,exp),...) where
    atoms are non-sum nodes, plus sums raised to negative powers"""
    memo = {}

    def go(n):
        if type(n) is Fraction:
            return {(): n} if n else {}
        r = memo.get(n)
        if r is not None:
            return r
        if n.k == '+':
            out = {}
            if n.a[0]:
                out[()] = n.a[0]
            for m, co in n.a[1]:
                for mm, c in go(m).items():
                    out[mm] = out.get(mm, 0) + c * co
            r = {m: c for m, c in out.items() if c}
            if len(r) > budget:
                raise Budget()
        elif n.k == '*':
            r = {(): F1}
            for f, e in n.a:
                if f.k == '+' and e > 0:
                    pf = go(f)
                    for _ in range(e):
                        r = _pmul(r, pf, budget)
                else:
                    r = {_mmul(m, ((f, e),)): c for m, c in r.items()}
            r = _fix(r, budget)
        else:
            r = {((n, 1),): F1}
        memo[n] = r
        return r

    def _fix(r, budget):
        # sqrt(S)^2 -> S , abs(S)^2 -> S^2 after multiplication
        out = {}
        dirty = False
        for m, c in r.items():
            hit = None
            for n, e in m:
                if n.k in ('sqrt', 'abs') and (e >= 2 or e <= -2):
                    hit = True
            if hit:
                dirty = True
                t = mk_prod(c, dict(m))
                sub_ = poly(t, budget)
                for mm, cc in sub_.items():
                    out[mm] = out.get(mm, 0) + cc
            else:
                out[m] = out.get(m, 0) + c
        return {m: c for m, c in out.items() if c} if dirty else r

    return go(x)


def from_poly(p):
    c = F0
    d = {}
    for m, co in p.items():
        t = mk_prod(co, dict(m))
        cc, dd = as_sum(t)
        c += cc
        for n, e in dd.items():
            d[n] = d.get(n, F0) + e
    return mk_sum(c, d)


def expand(x, budget=20000):
    if type(x) is Fraction or x is U:
        return x
    return from_poly(poly(x, budget))


def clear_denominators(x, budget=20000, rounds=40):
    """a polynomial multiple of x by denominators (assumed non-zero); zero iff x is zero"""
    for _ in range(rounds):
        if type(x) is Fraction:
            return x
        p = poly(x, budget)
        x = from_poly(p)
        if type(x) is Fraction:
            return x
        # most complex denominator first (largest id ~ outermost)
        den = {}
        for m in p:
            for n, e in m:
                if e < 0:
                    den[n] = min(den.get(n, 0), e)
        if not den:
            return x
        n = max(den, key=lambda q: q.id)
        e = den[n]
        # multiply every monomial by n^-e
        fac = {n: -e}
        out = F0
        c = F0
        d = {}
        for m, co in p.items():
            dd = dict(m)
            dd[n] = dd.get(n, 0) - e
            t = mk_prod(co, dd)
            cc, sd = as_sum(t)
            c += cc
            for a, b in sd.items():
                d[a] = d.get(a, F0) + b
        x = mk_sum(c, d)
    raise Budget()


# ---------------------------------------------------------------- substitution of booleans
def subst(roots, asg):
    """rebuild roots replacing boolean atoms per asg {B: 0/1}; returns list"""
    memo = {}
    for n in topo(roots):
        if n in asg:
            memo[n] = asg[n]
            continue
        memo[n] = rebuild(n, memo)
    return [memo[r] if isinstance(r, (T, B)) else r for r in roots]


def rebuild(n, memo):
    g = lambda x: memo[x] if isinstance(x, (T, B)) else x
    k = n.k
    if k == '+':
        r = n.a[0]
        c = n.a[0]
        d = {}
        same = True
        for m, co in n.a[1]:
            mm = g(m)
            if mm is not m:
                same = False
            if mm is U:
                return U
            cc, dd = as_sum(mm)
            c += cc * co
            for a, b in dd.items():
                d[a] = d.get(a, F0) + b * co
        return n if same else mk_sum(c, d)
    if k == '*':
        if all(g(m) is m for m, _ in n.a):
            return n
        r = F1
        for m, e in n.a:
            r = mul(r, power(g(m), e))
        return r
    if k == 'sqrt':
        return n if g(n.a) is n.a else sqrt(g(n.a))
    if k == 'abs':
        return n if g(n.a) is n.a else fabs(g(n.a))
    if k == 'fn':
        if all(g(m) is m for m in n.a[1:]):
            return n
        return fn(n.a[0], *[g(m) for m in n.a[1:]])
    if k == 'ite':
        return ite(g(n.a[0]), g(n.a[1]), g(n.a[2]))
    if k == 'lt0':
        return n if g(n.a) is n.a else lt0(g(n.a))
    if k == 'eq0':
        return n if g(n.a) is n.a else eq0(g(n.a))
    if k == 'not':
        return bnot(g(n.a))
    if k == 'and':
        return band(g(n.a[0]), g(n.a[1]))
    return n


# ---------------------------------------------------------------- numeric evaluation
FN = {'exp': math.exp, 'sin': math.sin, 'cos': math.cos, 'tan': math.tan, 'tanh': math.tanh, 'cosh': math.cosh,
      'sinh': math.sinh, 'log': math.log, 'pow': math.pow, 'ceil': math.ceil, 'floor': math.floor,
      'atan': math.atan, 'asin': math.asin, 'acos': math.acos, 'atan2': math.atan2, 'cbrt': lambda x: math.copysign(abs(x) ** (1 / 3), x),
      'log10': math.log10, 'log2': math.log2, 'exp2': lambda x: 2.0 ** x, 'hypot': math.hypot, 'fmod': math.fmod, 'f32': lambda x: _f32v(x)}


def evaluate(nodes, env, ienv):
    """float-evaluate a topo-ordered node list; env: var->float, ienv: callable(z3 expr)->int/bool"""
    val = {}
    nan = math.nan

    def g(x):
        if isinstance(x, (T, B)):
            return val[x]
        return float(x) if type(x) is Fraction else x
    for n in nodes:
        k = n.k
        try:
            if k == 'v':
                v = float(env[n.a])
            elif k == '+':
                v = float(n.a[0])
                for m, co in n.a[1]:
                    v += float(co) * val[m]
            elif k == '*':
                v = 1.0
                for m, e in n.a:
                    v *= val[m] ** e
            elif k == 'sqrt':
                v = math.sqrt(g(n.a))
            elif k == 'abs':
                v = abs(g(n.a))
            elif k == 'fn':
                if n.a[0] in FN:
                    v = FN[n.a[0]](*[g(x) for x in n.a[1:]])
                elif n.a[0].startswith('rounded'):
                    v = g(n.a[1]) * 1.001 + 1e-3
                else:
                    v = nan
            elif k == 'ite':
                v = g(n.a[1]) if g(n.a[0]) else g(n.a[2])
            elif k == 'i2r':
                v = float(ienv(n.a))
            elif k == 'lt0':
                v = g(n.a) < 0
            elif k == 'eq0':
                v = g(n.a) == 0
            elif k == 'not':
                v = not g(n.a)
            elif k == 'and':
                v = bool(g(n.a[0])) and bool(g(n.a[1]))
            elif k == 'z':
                v = bool(ienv(n.a))
            else:
                v = nan
        except (ValueError, ZeroDivisionError, OverflowError):
            v = nan
        if isinstance(v, complex):
            v = nan
        val[n] = v
    return val
