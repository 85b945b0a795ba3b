"""Decision layer: real-arithmetic obligations, witnesses, feasibility."""
import math
import random
import time
from fractions import Fraction

import z3

import terms as tm
from terms import T, B, U
import engine as en


class Ctx:
    """z3 translation context for real terms"""

    def __init__(self, E):
        self.E = E
        self.memo = {}
        self.side = []
        self.n = 0

    def fresh(self, p):
        self.n += 1
        return z3.Real('%s!%d' % (p, self.n))

    def num(self, f):
        return z3.RealVal(str(f))

    def tr(self, roots):
        for n in tm.topo(roots):
            if n not in self.memo:
                self.memo[n] = self.node(n)
        return [self.memo[r] if isinstance(r, (T, B)) else
                (self.num(r) if type(r) is Fraction else z3.BoolVal(bool(r))) for r in roots]

    def g(self, x):
        if isinstance(x, (T, B)):
            return self.memo[x]
        return self.num(x) if type(x) is Fraction else z3.BoolVal(bool(x))

    def node(self, n):
        k = n.k
        if k == 'v':
            return z3.Real(n.a)
        if k == '+':
            e = self.num(n.a[0]) if n.a[0] else None
            for m, c in n.a[1]:
                t = self.memo[m] if c == 1 else self.num(c) * self.memo[m]
                e = t if e is None else e + t
            return e
        if k == '*':
            e = None
            for m, x in n.a:
                b = self.memo[m]
                if x < 0:
                    key = ('inv', m)
                    if key not in self.memo:
                        i = self.fresh('inv')
                        self.side.append(i * b == 1)
                        self.memo[key] = i
                    b = self.memo[key]
                for _ in range(abs(x)):
                    e = b if e is None else e * b
            return e
        if k == 'sqrt':
            s = self.fresh('sqrt')
            self.side.append(s >= 0)
            self.side.append(s * s == self.g(n.a))
            return s
        if k == 'abs':
            a = self.g(n.a)
            return z3.If(a < 0, -a, a)
        if k == 'fn':
            f = z3.Function('fn_' + n.a[0], *([z3.RealSort()] * len(n.a)))
            e = f(*[self.g(x) for x in n.a[1:]])
            if n.a[0] in ('exp', 'cosh'):
                self.side.append(e > 0)
            return e
        if k == 'ite':
            return z3.If(self.g(n.a[0]), self.g(n.a[1]), self.g(n.a[2]))
        if k == 'i2r':
            b, w, sg = n.a
            return z3.ToReal(z3.BV2Int(b, sg))
        if k == 'lt0':
            return self.g(n.a) < 0
        if k == 'eq0':
            return self.g(n.a) == 0
        if k == 'not':
            return z3.Not(self.g(n.a))
        if k == 'and':
            return z3.And(self.g(n.a[0]), self.g(n.a[1]))
        if k == 'z':
            return n.a
        if k in ('bad', 'undef'):
            return self.fresh(k)
        raise en.Unsupported('z3 translation of ' + k)


def z3_check(E, bs, timeout_ms):
    """satisfiability of the conjunction of boolean terms bs; returns (result, model)"""
    c = Ctx(E)
    es = c.tr(bs)
    s = z3.Solver()
    s.set('timeout', timeout_ms)
    for e in es:
        s.add(e)
    for e in c.side:
        s.add(e)
    t = time.time()
    r = s.check()
    E.stats['realq'] += 1
    E.stats['realt'] += time.time() - t
    return str(r), (s.model() if r == z3.sat else None)


def lin_check(E, bs, timeout_ms=1500):
    """abstract feasibility: non-linear sub-terms as free variables (unsat is conclusive)"""
    c = LinCtx(E)
    es = c.tr(bs)
    s = z3.Solver()
    s.set('timeout', timeout_ms)
    for e in es:
        s.add(e)
    for e in c.side:
        s.add(e)
    t = time.time()
    r = s.check()
    E.stats['realq'] += 1
    E.stats['realt'] += time.time() - t
    return str(r)


class LinCtx(Ctx):
    def tr(self, roots):
        # products, roots and functions are opaque: nothing below them is needed
        st = [(r, False) for r in roots if isinstance(r, (T, B))]
        while st:
            n, done = st.pop()
            if n in self.memo:
                continue
            if done or n.k in ('*', 'sqrt', 'fn'):
                self.memo[n] = self.node(n)
                continue
            st.append((n, True))
            for c in tm.children(n):
                if isinstance(c, (T, B)) and c not in self.memo:
                    st.append((c, False))
        return [self.g(r) for r in roots]

    def node(self, n):
        if n.k == '*':
            v = self.fresh('p')
            # even powers / all-nonnegative factors are non-negative
            if all(x % 2 == 0 or m.k in ('sqrt', 'abs') for m, x in n.a):
                self.side.append(v >= 0)
            elif all(self.pos(m) for m, x in n.a):
                self.side.append(v > 0)
            return v
        if n.k == 'sqrt':
            v = self.fresh('s')
            self.side.append(v >= 0)
            return v
        if n.k == 'fn':
            v = self.fresh('f')
            if n.a[0] in ('exp', 'cosh'):
                self.side.append(v > 0)
            return v
        return Ctx.node(self, n)

    def pos(self, m):
        """m > 0 known from the path condition"""
        return self.E.known.get(tm.lt0(tm.neg(m))) == 1


# ---------------------------------------------------------------- sampling (witness search only)
SEED = int(__import__('os').environ.get('VERIF_SEED') or 1)


class Sampler:
    def __init__(self, E, seed=1, order=None):
        self.E = E
        self.rnd = random.Random(seed * 1000003 + SEED)
        self.reals = [(n, float(lo) if type(lo) is Fraction else 0.25, float(hi) if type(hi) is Fraction else 4.0)
                      for k, n, v, lo, hi in E.inputs if k == 'real']
        self.rest = []
        if order is not None:
            use = set(n.a for n in order if n.k == 'v')
            self.rest = [x for x in self.reals if x[0] not in use]
            self.reals = [x for x in self.reals if x[0] in use]
        self.model = None
        self.ients = {}

    def ienv(self):
        E = self.E
        if E.model is None:
            E.model = E.bv_check()
        m = E.model

        def f(x):
            if isinstance(x, tuple):
                b, w, sg = x
                v = m.eval(b, model_completion=True).as_long()
                return en.sx(v, w) if sg else v
            return z3.is_true(m.eval(x, model_completion=True))
        return f

    def sample(self, mode):
        r = self.rnd
        env = {}
        pool = None
        if mode == 1:      # few distinct values
            pool = [r.randint(1, 255) / 256.0 for _ in range(2)]
        elif mode == 2:
            pool = [0.5]
        base = r.randint(1, 255) / 256.0
        for n, lo, hi in self.reals:
            if pool:
                u = r.choice(pool)
            elif mode == 3:  # smooth: small perturbations
                u = min(1.0, max(0.0, base + r.randint(-16, 16) / 512.0))
            else:
                u = r.randint(1, 1 << 30) / float(1 << 30)
            env[n] = quant(lo + (hi - lo) * u)
        return env

    def complete(self, env):
        """values for the inputs nothing depends on"""
        for n, lo, hi in self.rest:
            env[n] = quant(lo + (hi - lo) * self.rnd.randint(1, 1023) / 1024.0)
        return env


def quant(x):
    if x == 0:
        return 0.0
    e = math.floor(math.log2(abs(x))) - 36
    return round(x / 2.0 ** e) * 2.0 ** e


def find_sample(E, conds, extra=None, tries=400, seed=1, score=None):
    """environment satisfying PC and conds, maximising score(vals)"""
    cs = [c for c in E.pc if not en.is_bv(c)] + [c for c in conds if not en.is_bv(c)]
    if any(type(c) is int and not c for c in cs):
        return None
    roots = [c for c in cs if isinstance(c, B)] + [x for x in (extra or []) if isinstance(x, (T, B))]
    order = tm.topo(roots)
    S = Sampler(E, seed, order)
    ie = S.ienv()
    best = None
    got = 0
    for i in range(tries):
        env = S.sample(i % 4 if i % 4 != 2 or i < 4 else 0)
        vals = tm.evaluate(order, env, ie)
        ok = True
        for c in cs:
            if isinstance(c, B) and not vals[c]:
                ok = False
                break
        if not ok:
            continue
        if score is None:
            return S.complete(env), vals
        sc = score(vals)
        got += 1
        if sc > 0 and (best is None or sc > best[0]):
            best = (sc, env, vals)
            if got > 60:
                break
        if got > 250:
            break
    if score is None:
        return None
    return (S.complete(best[1]), best[2]) if best else None


def find_sample_z3(E, conds, timeout=4000):
    r, m = z3_check(E, [c for c in E.pc if isinstance(c, B)] + [c for c in conds if isinstance(c, B)], timeout)
    if r != 'sat':
        return r, None
    env = {}
    for k, n, v, lo, hi in E.inputs:
        if k == 'real':
            x = m.eval(z3.Real(n), model_completion=True)
            try:
                if z3.is_algebraic_value(x):
                    x = x.approx(30)
                env[n] = float(x.as_fraction())
            except Exception:
                env[n] = 0.5
    E.model = m_bv(E, m)
    return r, env


class MixModel:
    def __init__(self, m):
        self.m = m

    def eval(self, e, model_completion=True):
        return self.m.eval(e, model_completion=True)


def m_bv(E, m):
    return MixModel(m)


# ---------------------------------------------------------------- feasibility of a branch
def feasible_both(E, c):
    out = []
    for x in (c, tm.bnot(c)):
        if find_sample(E, [x], tries=60) is not None:
            out.append(True)
            continue
        pcs = [p for p in E.pc if isinstance(p, B)]
        if lin_check(E, pcs + [x]) == 'unsat':
            out.append(False)
            continue
        r, _ = z3_check(E, pcs + [x], 3000)
        out.append(r != 'unsat')
    return out[0], out[1]


# ---------------------------------------------------------------- proving d == 0
class Proof:
    def __init__(self, E, budget_s):
        self.E = E
        self.deadline = time.time() + budget_s
        self.leaves = 0
        self.how = None


def norm_zero(d, budget=6000):
    """True if d is identically zero by polynomial normalisation; else residual term"""
    if type(d) is Fraction:
        return d == 0, d
    try:
        e = tm.expand(d, budget)
        if type(e) is Fraction:
            return e == 0, e
        e2 = tm.clear_denominators(e, budget)
        if type(e2) is Fraction:
            return e2 == 0, (e2 if e2 == 0 else e)
    except tm.Budget:
        pass
    return False, d


def bool_atoms(roots):
    return [n for n in tm.topo(roots) if isinstance(n, B) and n.k in ('lt0', 'eq0', 'z')]


def solve_eq(x):
    """x == 0 with x linear in some variable: (var, term) or None"""
    c, d = tm.as_sum(x)
    for n, co in d.items():
        if n.k == 'v':
            rest = dict(d)
            del rest[n]
            # n must not occur in the rest
            if any(n in tm.topo([m]) for m in rest):
                continue
            return n, tm.scale(tm.mk_sum(c, rest), -1 / co)
    return None


def prove_zero(E, d, budget_s=20):
    """decide d == 0 under the path condition.
    returns ('proved', how) | ('cex', env) | ('unknown', why)"""
    if d is U:
        return ('cex', None)
    if type(d) is Fraction:
        return ('proved', 'syntactic') if d == 0 else ('cex', None)
    if d.k == 'bad':
        return ('cex', None)
    ats = bool_atoms([d])
    ok, e = norm_zero(d, 200 if ats else 1500)
    if ok:
        return ('proved', 'normalisation')
    # substitute what the path condition already fixes
    known = {a: E.known[a] for a in ats if a in E.known}
    if known:
        d = tm.subst([d], known)[0]
        ok, e = norm_zero(d, 200 if type(d) is T and bool_atoms([d]) else 1500)
        if ok:
            return ('proved', 'normalisation')
    return None


def prove_eq(E, a, b, budget_s=20):
    if a is U or b is U:
        return ('cex', None)
    for x in (a, b):
        if type(x) is T and x.k == 'bad':
            return ('cex', None)
    d = tm.sub(a, b)
    r = prove_zero(E, d)
    if r is not None:
        return r
    # witness search first: cheap refutation
    w = witness(E, a, b, [], tries=160)
    if w:
        return ('cex', w)
    p = Proof(E, budget_s)
    p.cex = None
    known = {x: E.known[x] for x in bool_atoms([d]) if x in E.known}
    if known:
        d = tm.subst([d], known)[0]
    try:
        d = spread(d)
        parts = components(d)
        if len(parts) > 1:
            try:
                for x in parts:
                    ok = False
                    if type(x) is Fraction or not bool_atoms([x]):
                        ok, _ = norm_zero(x, 6000)
                    if not ok:
                        split(E, p, x, [])
                return ('proved', 'case-split(%d)' % p.leaves)
            except Stop:
                p.cex = None
        if split(E, p, d, []):
            return ('proved', 'case-split(%d)' % p.leaves if p.leaves > 1 else 'solver')
    except Stop:
        pass
    if p.cex is not None:
        return ('cex', p.cex)
    w = witness(E, a, b, [], tries=3000, seed=7)
    if w:
        return ('cex', w)
    return ('unknown', 'undecided within budget')


class Stop(Exception):
    pass


def spread(d, rounds=6, limit=400):
    """distribute common factors over sums whose parts depend on branch conditions"""
    for _ in range(rounds):
        if type(d) is Fraction:
            return d
        c, ds = tm.as_sum(d)
        out, changed = c, False
        for n, co in ds.items():
            t = None
            if n.k == '*' and len(ds) < limit:
                for f, e in n.a:
                    if f.k == '+' and e == 1 and len(f.a[1]) > 1 and any(bool_atoms([m]) for m, _ in f.a[1]):
                        rest = tm.mk_prod(Fraction(1), {g: x for g, x in n.a if g is not f})
                        t = tm.mul(f.a[0], rest) if f.a[0] else Fraction(0)
                        for m, k in f.a[1]:
                            t = tm.add(t, tm.scale(tm.mul(m, rest), k))
                        break
            if t is None:
                t = n
            else:
                changed = True
            out = tm.add(out, tm.scale(t, co))
        if not changed:
            return out
        d = out
    return d


def components(d):
    """split a sum into summands that share no undecided boolean atom; each of them vanishing
    is sufficient for the sum to vanish"""
    if type(d) is Fraction:
        return [d]
    c, ds = tm.as_sum(d)
    groups = []
    for n, co in ds.items():
        ats = set(bool_atoms([n]))
        new = (ats, {n: co})
        rest = []
        for g in groups:
            if (g[0] & ats) or (not g[0] and not ats):
                new[0].update(g[0])
                new[1].update(g[1])
            else:
                rest.append(g)
        groups = rest + [new]
    free = [g for g in groups if not g[0]]
    out = [tm.mk_sum(Fraction(0), g[1]) for g in groups if g[0]]
    if free or c:
        out.append(tm.mk_sum(c, free[0][1] if free else {}))
    return out


def witness(E, a, b, conds, tries=200, seed=1):
    def score(vals):
        x = vals[a] if isinstance(a, T) else float(a)
        y = vals[b] if isinstance(b, T) else float(b)
        if x != x or y != y:
            return 0
        df = abs(x - y)
        m = max(abs(x), abs(y))
        if m == math.inf:
            return 0
        if df > 1e-8 * m and df > 1e-8:
            return min(df / m, 1.0) if m > 0 else 0
        return 0
    r = find_sample(E, conds, [a, b], tries=tries, seed=seed, score=score)
    return r[0] if r else None


def split(E, p, d, lits):
    """prove d==0 for all valuations consistent with PC and lits"""
    if time.time() > p.deadline or p.leaves > 3000:
        raise Stop()
    if type(d) is Fraction:
        p.leaves += 1
        if d == 0:
            return True
    else:
        ats = bool_atoms([d])
        pcs = [x for x in E.pc if isinstance(x, B)]
        if ats:
            # innermost atom first
            at = min(ats, key=lambda n: n.id)
            for v in (1, 0):
                l = at if v else tm.bnot(at)
                if lin_check(E, pcs + lits + [l]) == 'unsat':
                    p.leaves += 1
                    continue
                d2 = tm.subst([d], {at: v})[0]
                if v and at.k == 'eq0':
                    s = solve_eq(at.a)
                    if s:
                        d2 = tm.subst([d2], {s[0]: s[1]})[0]
                if type(d2) is T and bool_atoms([d2]):
                    ok = False
                else:
                    ok, e = norm_zero(d2, 1500)
                if ok:
                    p.leaves += 1
                    continue
                if d2 is U or type(d2) is T and d2.k in ('bad', 'undef'):
                    raise Stop()
                if not split(E, p, d2, lits + [l]):
                    return False
            return True
        ok, e = norm_zero(d, 60000)
        p.leaves += 1
        if ok:
            return True
    # leaf: is the residual really non-zero somewhere?
    pcs = [x for x in E.pc if isinstance(x, B)]
    nz = tm.bnot(tm.eq0(d)) if not type(d) is Fraction else 1
    q = pcs + lits + ([nz] if isinstance(nz, B) else [])
    left = max(1000, int((p.deadline - time.time()) * 1000))
    r, m = z3_check(E, q, min(left, 10000))
    if r == 'unsat':
        return True
    if r == 'sat':
        env = {}
        for k, n, v, lo, hi in E.inputs:
            if k == 'real':
                x = m.eval(z3.Real(n), model_completion=True)
                if z3.is_algebraic_value(x):
                    x = x.approx(30)
                env[n] = float(x.as_fraction())
        p.cex = env
    raise Stop()


# ---------------------------------------------------------------- proving a boolean
def prove_bool(E, c, budget_s=20):
    if c is U:
        return ('cex', None)
    if type(c) is int:
        return ('proved', 'syntactic') if c else ('cex', None)
    d = E.decided(c)
    if d is not None:
        return ('proved', 'path-condition') if d else ('cex', None)
    if en.is_bv(c):
        z = en.to_z3bv(c)
        m = E.bv_check(z3.Not(z))
        if m is None:
            return ('proved', 'solver')
        E.model = m
        return ('cex', 'model')
    if c.k == 'eq0':
        r = prove_eq(E, c.a, Fraction(0), budget_s)
        return r
    n = tm.bnot(c)
    pcs = [p for p in E.pc if isinstance(p, B)]
    f = find_sample(E, [n], tries=200)
    if f:
        return ('cex', f[0])
    if lin_check(E, pcs + [n]) == 'unsat':
        return ('proved', 'solver')
    r, m = z3_check(E, pcs + [n], int(budget_s * 1000))
    if r == 'unsat':
        return ('proved', 'solver')
    if r == 'sat':
        r2, env = find_sample_z3(E, [n])
        return ('cex', env)
    f = find_sample(E, [n], tries=4000, seed=5)
    if f:
        return ('cex', f[0])
    return ('unknown', 'undecided within budget')
