"""OpenMP regions (clang's __kmpc_* entry points) for the symbolic executor.

A parallel region is executed once per loop iteration, as if every iteration ran on a thread of
its own; accesses to memory that existed before the region are recorded per iteration. The
schedule is left to the solver: is there a thread assignment under which two iterations on
different threads touch the same byte, one of them writing, without a common lock?
"""
import time
import z3

NTHREADS = 'threads'


class Region:
    def __init__(self, mark):
        self.mark = mark          # objects older than this are shared
        self.k = 0                # iteration being executed (its own thread)
        self.n = None             # number of iterations, once a worksharing loop told us
        self.epoch = 0
        self.acc = {}             # epoch -> {(iter, obj, w, locks): set of (lo, hi)}
        self.locks = ()
        self.given = False


def install(E):
    X = E.externs
    E.region = None

    def ext(*names):
        def deco(f):
            for n in names:
                X['@' + n] = f
            return f
        return deco

    def flush():
        r = E.region
        if r is None or E.acclog is None:
            return
        d = r.acc.setdefault(r.epoch, {})
        for w, oid, off, n in E.acclog:
            if oid < r.mark:
                d.setdefault((r.k, oid, w, r.locks), set()).add((off, off + n))
        E.acclog = []

    @ext('__kmpc_fork_call')
    def fork(loc, nargs, fn, *args):
        if E.region is not None:          # nested regions run serialised on the thread
            o = E.alloc(8, 'stack')
            E.store(o.base, 4, 0)
            E.store(o.base + 4, 4, 0)
            E.icall(fn)(o.base, o.base + 4, *args)
            return
        r = E.region = Region(E.next_obj)
        try:
            E.acclog = []
            o = E.alloc(8, 'stack')
            while True:
                r.epoch = 0
                r.given = False
                r.locks = ()
                E.store(o.base, 4, r.k)
                E.store(o.base + 4, 4, r.k)
                E.icall(fn)(o.base, o.base + 4, *args)
                flush()
                r.k += 1
                if r.k >= max(r.n if r.n is not None else 2, 1):
                    break
        finally:
            E.region = None
            E.acclog = None
        races(E, r)

    def bounds(lo, up):
        """trip range of a worksharing loop -> this thread's share of it"""
        r = E.region
        n = up - lo + 1
        if n < 0:
            n = 0
        if r.n is None or n > r.n:
            r.n = n
        return n

    def static_init(w, signed):
        def f(loc, gtid, sched, plast, plb, pub, pst, incr, chunk):
            lo, up = E.concretize(E.load(plb, w)), E.concretize(E.load(pub, w))
            if signed:
                h = 1 << (8 * w - 1)
                lo, up = (lo ^ h) - h, (up ^ h) - h
            if E.region is None:
                E.store(plast, 4, 1)
                return
            n = bounds(lo, up)
            k = E.region.k
            m = (1 << (8 * w)) - 1
            if k < n:
                E.store(plb, w, (lo + k) & m)
                E.store(pub, w, (lo + k) & m)
            else:
                E.store(plb, w, (up + 1) & m)
                E.store(pub, w, up & m)
            E.store(pst, w, max(n, 1))
            E.store(plast, 4, int(k == n - 1))
        return f
    for w, s in ((4, '4'), (8, '8')):
        X['@__kmpc_for_static_init_' + s] = static_init(w, True)
        X['@__kmpc_for_static_init_' + s + 'u'] = static_init(w, False)

    disp = {}

    def dispatch_init(w, signed):
        def f(loc, gtid, sched, lb, ub, st, chunk):
            h = 1 << (8 * w - 1)
            lo, up = E.concretize(lb), E.concretize(ub)
            if signed:
                lo, up = (lo ^ h) - h, (up ^ h) - h
            disp['r'] = (lo, up)
            disp['todo'] = True
        return f

    def dispatch_next(w):
        def f(loc, gtid, plast, plb, pub, pst):
            if not disp.get('todo'):
                return 0
            disp['todo'] = False
            lo, up = disp['r']
            m = (1 << (8 * w)) - 1
            if E.region is not None:
                n = bounds(lo, up)
                k = E.region.k
                if k >= n:
                    return 0
                E.store(plast, 4, int(k == n - 1))
                lo = up = lo + k
            else:
                if lo > up:
                    return 0
                E.store(plast, 4, 1)
            E.store(plb, w, lo & m)
            E.store(pub, w, up & m)
            E.store(pst, w, 1)
            return 1
        return f
    for w, s in ((4, '4'), (8, '8')):
        for u in ('', 'u'):
            X['@__kmpc_dispatch_init_' + s + u] = dispatch_init(w, not u)
            X['@__kmpc_dispatch_next_' + s + u] = dispatch_next(w)
            X['@__kmpc_dispatch_fini_' + s + u] = lambda *a: None

    @ext('__kmpc_barrier')
    def barrier(*a):
        if E.region is not None:
            flush()
            E.region.epoch += 1

    def locked(name, on):
        if E.region is not None:
            flush()
            l = set(E.region.locks)
            (l.add if on else l.discard)(name)
            E.region.locks = tuple(sorted(l))
    X['@__kmpc_critical'] = lambda loc, g, lk: locked('c%d' % E.ptr(lk), True)
    X['@__kmpc_critical_with_hint'] = lambda loc, g, lk, h: locked('c%d' % E.ptr(lk), True)
    X['@__kmpc_end_critical'] = lambda loc, g, lk: locked('c%d' % E.ptr(lk), False)

    def reduce_(*a):
        locked('reduction', True)
        return 1
    X['@__kmpc_reduce'] = X['@__kmpc_reduce_nowait'] = reduce_
    X['@__kmpc_end_reduce'] = X['@__kmpc_end_reduce_nowait'] = lambda *a: locked('reduction', False)
    X['@__kmpc_for_static_fini'] = lambda *a: None
    X['@__kmpc_push_num_threads'] = lambda *a: None
    X['@__kmpc_global_thread_num'] = lambda *a: E.region.k if E.region else 0
    X['@__kmpc_serialized_parallel'] = lambda *a: None
    X['@__kmpc_end_serialized_parallel'] = lambda *a: None
    X['@__kmpc_master'] = X['@__kmpc_masked'] = lambda *a: int(E.region is None or E.region.k == 0)
    X['@__kmpc_single'] = lambda *a: int(E.region is None or E.region.k == 0)
    X['@__kmpc_end_master'] = X['@__kmpc_end_masked'] = X['@__kmpc_end_single'] = lambda *a: None
    X['@__kmpc_flush'] = lambda *a: None
    X['@omp_get_thread_num'] = lambda: E.region.k if E.region else 0
    X['@omp_get_num_threads'] = lambda: 1 if E.region is None or E.region.n is None else max(1, E.region.n)
    X['@omp_get_max_threads'] = lambda: 8


def squash(s):
    out = []
    for lo, hi in sorted(s):
        if out and lo <= out[-1][1]:
            out[-1][1] = max(out[-1][1], hi)
        else:
            out.append([lo, hi])
    return [tuple(x) for x in out]


MEMO = {}


def races(E, r):
    """ask the solver for two iterations on different threads that race; one query per region and phase"""
    ck = E.checker
    for ep, d in r.acc.items():
        written = {o for (k, o, w, l) in d if w == 'w'}
        base = min(written) if written else 0
        rows = sorted((k, o, w, l, tuple(squash(s))) for (k, o, w, l), s in d.items() if o in written)
        key = tuple((k, o - base, w, l, s) for k, o, w, l, s in rows)
        res = MEMO.get(key)
        if res is None:
            res = MEMO[key] = query(E, rows)
        if res == 'unsat':
            ck.result('no-data-race', ('proved', 'solver'))
        elif res == 'unknown':
            ck.result('no-data-race', ('unknown', 'undecided within budget'))
        else:
            ck.result('no-data-race', ('cex', None, res))


def query(E, rows):
    t = time.time()
    E.stats['bvq'] += 1
    s = z3.Solver()
    s.set('timeout', 20000)
    i, j, o, b, li, lj = z3.Ints('i j obj byte locks_i locks_j')
    th = z3.Function('thread', z3.IntSort(), z3.IntSort())
    locks = sorted({l for _, _, _, l, _ in rows})

    def touch(v, lv, w):
        return z3.Or([z3.And(v == k, o == ob, lv == locks.index(l), z3.Or([z3.And(b >= lo, b < hi) for lo, hi in iv]))
                      for k, ob, ww, l, iv in rows if ww == w] or [z3.BoolVal(False)])
    s.add(touch(i, li, 'w'))
    s.add(z3.Or(touch(j, lj, 'w'), touch(j, lj, 'r')))
    s.add(th(i) != th(j))
    for a in range(len(locks)):
        for c in range(len(locks)):
            if set(locks[a]) & set(locks[c]):
                s.add(z3.Not(z3.And(li == a, lj == c)))
    q = s.check()
    E.stats['bvt'] += time.time() - t
    if q == z3.unsat:
        return 'unsat'
    if q != z3.sat:
        return 'unknown'
    m = s.model()
    return 'iterations %s and %s both touch byte %s of object %s' % tuple(m.eval(x, model_completion=True) for x in (i, j, b, o))
