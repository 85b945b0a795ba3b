"""LLVM IR function -> Python function generator for the symbolic executor.

SSA values become Python locals.  Integers are Python ints in [0,2^w) while
concrete and z3 bit-vectors while symbolic; i1 is 0/1 or a terms.B; doubles are
Fractions or terms.T; pointers are integers.  Control flow is a block-index
dispatch; phi nodes are assigned on edges.  Branches on conditions over *real*
symbolic values whose arms are side-effect-simple are executed predicated
(both arms, merged with if-then-else terms) instead of forking.
"""
import re
from ir import IRError, parse_body

PURE_CALLS = {'sqrt', 'exp', 'sin', 'cos', 'tan', 'tanh', 'cosh', 'sinh', 'log', 'pow', 'fabs', 'fmin', 'fmax',
              'floor', 'ceil', 'atan', 'hypot', 'cbrt'}
PURE_INTR = ('llvm.fabs.', 'llvm.sqrt.', 'llvm.fmuladd.', 'llvm.fma.', 'llvm.exp.', 'llvm.sin.', 'llvm.cos.',
             'llvm.pow.', 'llvm.maxnum.', 'llvm.minnum.', 'llvm.floor.', 'llvm.ceil.', 'llvm.smax.', 'llvm.smin.',
             'llvm.umax.', 'llvm.umin.', 'llvm.abs.', 'llvm.lifetime.', 'llvm.dbg.', 'llvm.experimental.noalias',
             'llvm.tan.', 'llvm.log.', 'llvm.powi.', 'llvm.assume')

ICMP = {'eq', 'ne', 'slt', 'sle', 'sgt', 'sge', 'ult', 'ule', 'ugt', 'uge'}


class Gen:
    def __init__(self, eng, f):
        self.e = eng
        self.m = eng.mod
        self.f = f
        self.names = {}
        self.lines = []
        self.consts = []
        parse_body(self.m, f)
        self.bidx = {b.name: i for i, b in enumerate(f.blocks)}
        self.bmap = {b.name: b for b in f.blocks}

    # ----- naming
    def loc(self, n):
        v = self.names.get(n)
        if v is None:
            v = self.names[n] = 'v%d' % len(self.names)
        return v

    def const(self, obj):
        self.consts.append(obj)
        return 'K[%d]' % (len(self.consts) - 1)

    def width(self, t):
        t = self.m.resolve(t)
        if t[0] == 'i':
            return t[1]
        if t[0] == 'ptr':
            return 64
        raise IRError('width %r' % (t,))

    def val(self, v, t):
        k = v[0]
        if k == 'local':
            return self.loc(v[1])
        c = self.e.constval(v, t)
        if type(c) is int:
            return str(c)
        return self.const(c)

    # ----- emit
    def emit(self, ind, s):
        self.lines.append('    ' * ind + s)

    def generate(self):
        f = self.f
        args = [self.loc(nm) for _, nm, _ in f.params]
        self.find_regions()
        self.emit(0, 'def qkv_body(%s):' % ', '.join(args + ['*va'] if f.vararg else args))
        self.emit(1, 'frame = []')
        self.emit(1, 'E.depth += 1')
        self.emit(1, 'if E.depth > 400: E.err("stack-overflow")')
        self.emit(1, 'try:')
        self.emit(2, 'b = 0')
        self.emit(2, 'while True:')
        self.dispatch(3, 0, len(f.blocks))
        self.emit(1, 'finally:')
        self.emit(2, 'E.depth -= 1')
        self.emit(2, 'for o in frame: o.alive = False')
        src = '\n'.join(self.lines)
        ns = dict(self.e.ns)
        ns['K'] = self.consts
        try:
            exec(compile(src, '<%s>' % f.name, 'exec'), ns)
        except SyntaxError:
            print(src)
            raise
        return ns['qkv_body']

    def dispatch(self, ind, lo, hi):
        if hi - lo == 1:
            self.block(ind, self.f.blocks[lo])
            return
        if hi - lo <= 3:
            for i in range(lo, hi):
                if i < hi - 1:
                    self.emit(ind, ('if' if i == lo else 'elif') + ' b == %d:' % i)
                else:
                    self.emit(ind, 'else:')
                self.block(ind + 1, self.f.blocks[i])
            return
        mid = (lo + hi) // 2
        self.emit(ind, 'if b < %d:' % mid)
        self.dispatch(ind + 1, lo, mid)
        self.emit(ind, 'else:')
        self.dispatch(ind + 1, mid, hi)

    def block(self, ind, b):
        n0 = len(self.lines)
        self.emit(ind, 'E.tick()')
        for ins in b.insts:
            if ins.op == 'phi':
                continue
            self.inst(ind, ins, b)
        if len(self.lines) == n0:
            self.emit(ind, 'pass')

    def phis(self, ind, src, dst):
        ps = []
        for ins in self.bmap[dst].insts:
            if ins.op != 'phi':
                break
            for v, lb in ins.d['inc']:
                if lb == src:
                    ps.append((self.loc(ins.res), self.val(v, ins.d['ty'])))
                    break
            else:
                raise IRError('phi edge')
        ps = [(a, c) for a, c in ps if a != c]
        if ps:
            self.emit(ind, ', '.join(a for a, _ in ps) + ' = ' + ', '.join(c for _, c in ps))

    def goto(self, ind, src, dst):
        self.phis(ind, src.name, dst)
        self.emit(ind, 'b = %d' % self.bidx[dst])
        self.emit(ind, 'continue')

    # ----- region discovery for predicated execution
    def find_regions(self):
        f = self.f
        n = len(f.blocks)
        succ = {}
        for b in f.blocks:
            t = b.insts[-1]
            if t.op == 'br':
                succ[b.name] = [t.d['t']] + ([t.d['f']] if t.d['f'] else [])
            elif t.op == 'switch':
                succ[b.name] = [t.d['default']] + [l for _, l in t.d['cases']]
            elif t.op == 'invoke':
                succ[b.name] = [t.d['normal'], t.d['unwind']]
            else:
                succ[b.name] = []
        self.succ = succ
        self.regions = {}
        for b in f.blocks:
            t = b.insts[-1]
            if t.op == 'br' and t.d['cond'] is not None:
                r = self.region(b.name)
                if r:
                    self.regions[b.name] = r

    def region(self, start, limit=24):
        """blocks of an acyclic, side-effect-simple region from start to a single merge block"""
        # grow: repeatedly pick candidates; find merge = nearest common post-dominator by simple search
        s = self.succ[start]
        # candidate merges: BFS order from both sides
        def reach(x):
            out = [x]
            seen = {x}
            i = 0
            while i < len(out) and len(out) < limit * 2:
                for y in self.succ[out[i]]:
                    if y not in seen:
                        seen.add(y)
                        out.append(y)
                i += 1
            return out
        ra, rb = reach(s[0]), reach(s[1])
        sb = set(rb)
        for m in ra:
            if m not in sb or m == start:
                continue
            # blocks between
            blocks = []
            ok = True
            st = [x for x in s if x != m]
            seen = set(st)
            while st and ok:
                x = st.pop()
                blocks.append(x)
                if len(blocks) > limit or x == start or not self.simple(x) or not self.succ[x]:
                    ok = False
                    break
                for y in self.succ[x]:
                    if y != m and y not in seen:
                        seen.add(y)
                        st.append(y)
            if not ok:
                continue
            # single entry: every pred of region blocks inside region or start
            bs = set(blocks)
            for x in self.succ:
                for y in self.succ[x]:
                    if y in bs and x not in bs and x != start:
                        ok = False
            if not ok:
                continue
            # topological order
            order = []
            mark = {}

            def visit(x):
                if mark.get(x) == 1:
                    return False
                if mark.get(x) == 2:
                    return True
                mark[x] = 1
                for y in self.succ[x]:
                    if y != m and not visit(y):
                        return False
                mark[x] = 2
                order.append(x)
                return True
            if not all(visit(x) for x in s if x != m):
                continue
            order.reverse()
            # phis must be double or i1
            good = True
            for x in order + [m]:
                for ins in self.bmap[x].insts:
                    if ins.op != 'phi':
                        break
                    t = ins.d['ty']
                    if t != ('double',) and t != ('i', 1):
                        inc = [v for v, lb in ins.d['inc'] if lb in bs or lb == start]
                        if any(v != inc[0] for v in inc[1:]):
                            good = False
            if not good:
                continue
            return order, m
        return None

    def simple(self, bn):
        for ins in self.bmap[bn].insts:
            if ins.op in ('bin', 'fneg', 'icmp', 'fcmp', 'cast', 'load', 'gep', 'phi', 'select', 'freeze'):
                if ins.op == 'bin' and ins.d['bop'] in ('udiv', 'sdiv', 'urem', 'srem'):
                    return False
                if ins.op == 'load' and ins.d['ty'] not in (('double',), ('i', 64)):
                    return False
                continue
            if ins.op == 'br':
                continue
            if ins.op == 'store' and ins.d['ty'] in (('double',),):
                continue
            if ins.op == 'call':
                c = ins.d['callee']
                if c[0] == 'global':
                    n = c[1][1:]
                    if n in PURE_CALLS or n.startswith(PURE_INTR):
                        continue
                return False
            return False
        return True

    def predicated(self, ind, b, cond, order, m):
        """emit straight-line predicated code for the region, then goto m"""
        t = b.insts[-1]
        gid = len(self.lines)
        edge = {}   # (src,dst) -> python var of guard

        def newg(expr):
            nonlocal gid
            gid += 1
            v = 'g%d' % gid
            self.emit(ind, '%s = %s' % (v, expr))
            return v
        edge[(b.name, t.d['t'])] = newg(cond)
        ge = newg('bnot(%s)' % cond)
        if t.d['t'] == t.d['f']:
            raise IRError('same targets')
        edge[(b.name, t.d['f'])] = ge

        def merge_phis(x):
            src = [(s, g) for (s, d), g in edge.items() if d == x]
            outs = []
            for ins in self.bmap[x].insts:
                if ins.op != 'phi':
                    break
                vals = []
                for s, g in src:
                    for v, lb in ins.d['inc']:
                        if lb == s:
                            vals.append((g, self.val(v, ins.d['ty'])))
                            break
                expr = vals[-1][1]
                op = 'ite' if ins.d['ty'] == ('double',) else 'bite'
                if ins.d['ty'] not in (('double',), ('i', 1)):
                    outs.append((self.loc(ins.res), vals[0][1]))
                    continue
                for g, v in reversed(vals[:-1]):
                    expr = '%s(%s, %s, %s)' % (op, g, v, expr)
                outs.append((self.loc(ins.res), expr))
            if outs:
                self.emit(ind, ', '.join(a for a, _ in outs) + ' = ' + ', '.join(c for _, c in outs))
        for x in order:
            inc = [g for (s, d), g in edge.items() if d == x]
            g = inc[0]
            for h in inc[1:]:
                g = newg('bor(%s, %s)' % (g, h))
            merge_phis(x)
            for ins in self.bmap[x].insts:
                if ins.op == 'phi':
                    continue
                if ins.op == 'load':
                    self.emit(ind, '%s = E.pload(%s, %s, %d, %r)' % (
                        self.loc(ins.res), g, self.val(ins.d['ptr'], ('ptr',)), 8, ins.d['ty'][0]))
                elif ins.op == 'store':
                    self.emit(ind, 'E.pstore(%s, %s, %s)' % (
                        g, self.val(ins.d['ptr'], ('ptr',)), self.val(ins.d['val'], ins.d['ty'])))
                elif ins.op == 'br':
                    if ins.d['cond'] is None:
                        edge[(x, ins.d['t'])] = g
                    else:
                        c = newg('E.pcond(%s)' % self.val(ins.d['cond'], ('i', 1)))
                        edge[(x, ins.d['t'])] = newg('band(%s, %s)' % (g, c))
                        edge[(x, ins.d['f'])] = newg('band(%s, bnot(%s))' % (g, c))
                else:
                    self.inst(ind, ins, self.bmap[x])
        # phis of m from region edges only
        merge_phis(m)
        self.emit(ind, 'b = %d' % self.bidx[m])
        self.emit(ind, 'continue')

    # ----- instructions
    def inst(self, ind, ins, blk):
        d = ins.d
        op = ins.op
        E = lambda s: self.emit(ind, s)
        r = self.loc(ins.res) if ins.res else None
        if op == 'bin':
            t = self.m.resolve(d['ty'])
            a = self.val(d['a'], t)
            b = self.val(d['b'], t)
            bop = d['bop']
            if t[0] in ('double', 'float'):
                fnm = {'fadd': 'add', 'fsub': 'sub', 'fmul': 'mul', 'fdiv': 'div'}.get(bop)
                if not fnm:
                    raise IRError('fp op %s' % bop)
                x = '%s(%s, %s)' % (fnm, a, b)
                E('%s = %s' % (r, x if t[0] == 'double' else 'f32(%s)' % x))
                return
            if t[0] == 'vector':
                raise IRError('vector op')
            w = t[1]
            M = (1 << w) - 1
            if w == 1:
                fnm = {'and': 'band', 'or': 'bor', 'xor': 'bxor', 'add': 'bxor', 'sub': 'bxor', 'mul': 'band'}[bop]
                E('%s = %s(%s, %s)' % (r, fnm, a, b))
                return
            guard = 'type(%s) is int and type(%s) is int' % (a, b)
            if re.fullmatch(r'\d+', b):
                guard = 'type(%s) is int' % a
            fl = d['flags']
            if bop in ('add', 'sub', 'mul') and 'nsw' in fl:
                o = {'add': '+', 'sub': '-', 'mul': '*'}[bop]
                S = 1 << (w - 1)
                # signed values
                E('if %s:' % guard)
                E('    x = ((%s ^ %d) - %d) %s ((%s ^ %d) - %d)' % (a, S, S, o, b, S, S))
                E('    if not -%d <= x < %d: E.err("signed-overflow")' % (S, S))
                E('    %s = x & %d' % (r, M))
                E('else: %s = E.bvop(%r, %s, %s, %d)' % (r, bop, a, b, w))
                return
            o = {'add': '+', 'sub': '-', 'mul': '*', 'and': '&', 'or': '|', 'xor': '^'}.get(bop)
            if o:
                mask = '' if o in '&|^' else ' & %d' % M
                E('%s = (%s %s %s)%s if %s else E.bvop(%r, %s, %s, %d)' % (r, a, o, b, mask, guard, bop, a, b, w))
                return
            E('%s = E.bvop(%r, %s, %s, %d)' % (r, bop, a, b, w))
            return
        if op == 'fneg':
            E('%s = neg(%s)' % (r, self.val(d['a'], d['ty'])))
            return
        if op == 'icmp':
            t = self.m.resolve(d['ty'])
            w = self.width(t)
            a = self.val(d['a'], t)
            b = self.val(d['b'], t)
            p = d['pred']
            if w == 1:
                E('%s = E.icmp1(%r, %s, %s)' % (r, p, a, b))
                return
            guard = 'type(%s) is int and type(%s) is int' % (a, b)
            if re.fullmatch(r'\d+', b):
                guard = 'type(%s) is int' % a
            if p in ('eq', 'ne'):
                x = '%s %s %s' % (a, '==' if p == 'eq' else '!=', b)
            else:
                o = {'lt': '<', 'le': '<=', 'gt': '>', 'ge': '>='}[p[1:]]
                if p[0] == 's':
                    S = 1 << (w - 1)
                    x = '(%s ^ %d) %s (%s ^ %d)' % (a, S, o, b, S)
                else:
                    x = '%s %s %s' % (a, o, b)
            E('%s = (1 if %s else 0) if %s else E.icmp(%r, %s, %s, %d)' % (r, x, guard, p, a, b, w))
            return
        if op == 'fcmp':
            E('%s = fcmp(%r, %s, %s)' % (r, d['pred'], self.val(d['a'], d['ty']), self.val(d['b'], d['ty'])))
            return
        if op == 'cast':
            t, t2 = self.m.resolve(d['ty']), self.m.resolve(d['to'])
            a = self.val(d['a'], t)
            c = d['cop']
            if c in ('ptrtoint', 'inttoptr', 'bitcast', 'addrspacecast'):
                if c == 'bitcast' and t[0] != t2[0]:
                    E('%s = E.bitcast(%s, %r, %r)' % (r, a, t, t2))
                elif c == 'ptrtoint' and self.width(t2) < 64:
                    E('%s = E.trunc(%s, 64, %d)' % (r, a, self.width(t2)))
                else:
                    E('%s = %s' % (r, a))
                return
            if c in ('zext', 'sext', 'trunc'):
                w, w2 = self.width(t), self.width(t2)
                if w > 1 and w2 > 1:
                    if c == 'trunc':
                        x = '%s & %d' % (a, (1 << w2) - 1)
                    elif c == 'zext':
                        x = a
                    else:
                        S = 1 << (w - 1)
                        x = '((%s ^ %d) - %d) & %d' % (a, S, S, (1 << w2) - 1)
                    E('%s = %s if type(%s) is int else E.icast(%r, %s, %d, %d)' % (r, x, a, c, a, w, w2))
                else:
                    E('%s = E.icast(%r, %s, %d, %d)' % (r, c, a, w, w2))
                return
            if c in ('sitofp', 'uitofp'):
                E('%s = E.itofp(%s, %d, %d, %r)' % (r, a, self.width(t), c == 'sitofp', t2[0]))
                return
            if c in ('fptosi', 'fptoui'):
                E('%s = E.fptoi(%s, %d, %d)' % (r, a, self.width(t2), c == 'fptosi'))
                return
            if c == 'fpext':
                E('%s = %s' % (r, a))
                return
            if c == 'fptrunc':
                E('%s = f32(%s)' % (r, a))
                return
            raise IRError('cast %s' % c)
        if op == 'alloca':
            sz = self.m.size(d['ty'])
            al = d['align'] or 8
            if d['count'] is None:
                E('o = E.alloc(%d, "stack", %d); frame.append(o); %s = o.base' % (sz, al, r))
            else:
                E('o = E.alloc(E.concretize(%s) * %d, "stack", %d); frame.append(o); %s = o.base' % (
                    self.val(d['count'][1], d['count'][0]), sz, al, r))
            return
        if op == 'load':
            t = self.m.resolve(d['ty'])
            p = self.val(d['ptr'], ('ptr',))
            E('%s = %s' % (r, self.load_expr(t, p)))
            return
        if op == 'store':
            t = self.m.resolve(d['ty'])
            p = self.val(d['ptr'], ('ptr',))
            v = self.val(d['val'], t)
            if t[0] in ('struct', 'array', 'vector'):
                E('E.store_agg(%s, %s, %s)' % (p, v, self.const(t)))
            else:
                E('E.store(%s, %d, %s)' % (p, self.m.size(t), v))
            return
        if op == 'gep':
            E('%s = %s' % (r, self.gep_expr(d['sty'], d['ops'])))
            return
        if op == 'select':
            t = self.m.resolve(d['ty'])
            c = self.val(d['c'], d['cty'])
            a = self.val(d['a'], t)
            b = self.val(d['b'], t)
            if t[0] == 'double':
                E('%s = ite(E.pcond(%s), %s, %s)' % (r, c, a, b))
            elif t == ('i', 1):
                E('%s = bite(E.pcond(%s), %s, %s)' % (r, c, a, b))
            elif t[0] in ('i', 'ptr'):
                E('%s = (%s if %s else %s) if type(%s) is int else E.iselect(%s, %s, %s, %d)' % (
                    r, a, c, b, c, c, a, b, self.width(t)))
            else:
                E('%s = (%s if E.branch(%s) else %s)' % (r, a, c, b))
            return
        if op == 'freeze':
            E('%s = E.freeze(%s, %r)' % (r, self.val(d['a'], d['ty']), self.m.resolve(d['ty'])[0]))
            return
        if op == 'br':
            if d['cond'] is None:
                self.goto(ind, blk, d['t'])
                return
            c = self.val(d['cond'], ('i', 1))
            if d['t'] == d['f']:
                self.goto(ind, blk, d['t'])
                return
            if blk.name in self.regions and not re.fullmatch(r'\d+', c):
                order, m = self.regions[blk.name]
                E('if type(%s) is not int and E.mergeable(%s):' % (c, c))
                self.predicated(ind + 1, blk, c, order, m)
            E('if (%s if type(%s) is int else E.branch(%s)):' % (c, c, c))
            self.goto(ind + 1, blk, d['t'])
            E('else:')
            self.goto(ind + 1, blk, d['f'])
            return
        if op == 'switch':
            w = self.width(d['ty'])
            v = self.val(d['v'], d['ty'])
            E('s = %s' % v)
            for cv, lb in d['cases']:
                k = cv[1] & ((1 << w) - 1)
                E('if E.truth(E.icmp("eq", s, %d, %d) if type(s) is not int else s == %d):' % (k, w, k))
                self.goto(ind + 1, blk, lb)
            self.goto(ind, blk, d['default'])
            return
        if op == 'ret':
            if d['v'] is None:
                E('return None')
            else:
                E('return %s' % self.val(d['v'], d['ty']))
            return
        if op == 'unreachable':
            E('E.err("unreachable-executed")')
            return
        if op == 'resume':
            E('E.resume(%s)' % self.val(d['v'], d['ty']))
            return
        if op == 'landingpad':
            cl = []
            for c in d['clauses']:
                cl.append(self.e.constval(c, ('ptr',)))
            E('%s = E.landingpad(exc, %r, %s)' % (r, bool(d['cleanup']), self.const(cl)))
            return
        if op == 'extractvalue':
            E('%s = %s%s' % (r, self.val(d['v'], d['ty']), ''.join('[%d]' % i for i in d['idx'])))
            return
        if op == 'insertvalue':
            E('%s = E.insertvalue(%s, %s, %r, %s)' % (r, self.val(d['v'], d['ty']), self.val(d['e'], d['ety']),
                                                      d['idx'], self.const(self.m.resolve(d['ty']))))
            return
        if op in ('call', 'invoke'):
            self.call(ind, ins, blk)
            return
        if op == 'fence':
            return
        if op == 'atomicrmw':
            t = self.m.resolve(d['ty'])
            p = self.val(d['ptr'], ('ptr',))
            E('x = %s' % self.load_expr(t, p))
            v = self.val(d['v'], t)
            if d['aop'] == 'xchg':
                E('E.store(%s, %d, %s)' % (p, self.m.size(t), v))
            elif t[0] == 'i':
                E('E.store(%s, %d, E.bvop(%r, x, %s, %d))' % (p, self.m.size(t), d['aop'], v, t[1]))
            elif d['aop'] in ('fadd', 'fsub'):
                E('E.store(%s, %d, %s(x, %s))' % (p, self.m.size(t), d['aop'][1:], v))
            else:
                raise IRError('atomicrmw %s' % d['aop'])
            E('%s = x' % r)
            return
        raise IRError('inst %s: %s' % (op, ins.text))

    def load_expr(self, t, p):
        if t[0] == 'double' or t[0] == 'float':
            return 'E.loadf(%s, %d)' % (p, self.m.size(t))
        if t[0] == 'i' and t[1] == 1:
            return 'E.load1(%s)' % p
        if t[0] in ('i', 'ptr'):
            return 'E.load(%s, %d)' % (p, self.m.size(t))
        return 'E.load_agg(%s, %s)' % (p, self.const(t))

    def gep_expr(self, sty, ops):
        base = self.val(ops[0][1], ops[0][0])
        off = 0
        terms = []
        t = sty
        first = True
        for ot, ov in ops[1:]:
            if first:
                sz = self.m.size(t)
                first = False
            else:
                rt = self.m.resolve(t)
                if rt[0] == 'struct':
                    o, t = self.m.field(rt, ov[1])
                    off += o
                    continue
                t = rt[2]
                sz = self.m.size(t)
            if ov[0] == 'int':
                off += ov[1] * sz
            else:
                w = self.width(ot)
                terms.append((self.val(ov, ot), w, sz))
        if not terms:
            if off == 0:
                return base
            return '(%s + %d) if type(%s) is int else E.gep(%s, %d, ())' % (base, off, base, base, off)
        if len(terms) == 1:
            v, w, sz = terms[0]
            S = 1 << (w - 1)
            return '(%s + %d + ((%s ^ %d) - %d) * %d) if type(%s) is int and type(%s) is int else E.gep(%s, %d, ((%s, %d, %d),))' % (
                base, off, v, S, S, sz, base, v, base, off, v, w, sz)
        return 'E.gep(%s, %d, (%s))' % (base, off, ''.join('(%s, %d, %d),' % x for x in terms))

    def call(self, ind, ins, blk):
        d = ins.d
        callee = d['callee']
        r = self.loc(ins.res) if ins.res else '_'
        args = [self.val(v, t) if t != ('metadata',) else '0' for t, v, _ in d['args']]
        expr = None
        if callee[0] == 'global':
            name = callee[1]
            nm = name[1:]
            if nm.startswith('llvm.'):
                expr = self.intrinsic(ind, nm, ins, args)
                if expr is None:
                    if ins.op == 'invoke':
                        self.goto(ind, blk, d['normal'])
                    return
            else:
                # byval
                expr = '%s(%s)' % (self.const(self.e.lazy(name)), ', '.join(args))
        else:
            expr = 'E.icall(%s)(%s)' % (self.val(callee, ('ptr',)), ', '.join(args))
        for (t, v, at), a in zip(d['args'], args):
            if 'byval' in at:
                sz = self.m.size(at['byval'])
                cp = 'E.byval(frame, %s, %d)' % (a, sz)
                expr = expr.replace(a, cp, 1) if expr.count(a) == 1 else None
                if expr is None:
                    raise IRError('byval')
        if ins.op == 'call':
            self.emit(ind, '%s = %s' % (r, expr))
            return
        self.emit(ind, 'try:')
        self.emit(ind + 1, '%s = %s' % (r, expr))
        self.emit(ind, 'except CxxThrow as ex_:')
        self.emit(ind + 1, 'exc = ex_')
        self.goto(ind + 1, blk, d['unwind'])
        self.goto(ind, blk, d['normal'])

    def intrinsic(self, ind, nm, ins, args):
        E = lambda s: self.emit(ind, s)
        base = nm[5:]
        if base.startswith(('dbg.', 'lifetime.', 'experimental.noalias', 'invariant.', 'prefetch', 'donothing',
                            'stackrestore', 'stacksave', 'var.annotation')):
            if base.startswith('stacksave'):
                return '0'
            return None
        if base.startswith('assume'):
            for tag, ops in ins.d['bundles']:
                if tag == 'align':
                    al = ops[1][1]
                    E('E.assume_align(%s, %s)' % (self.val(ops[0][1], ('ptr',)), self.val(al, ops[1][0])))
            if not ins.d['bundles']:
                E('E.llvm_assume(%s)' % args[0])
            return None
        t = self.m.resolve(ins.d['ret'])
        if base.startswith(('memcpy.', 'memmove.')):
            E('E.memcpy(%s, %s, %s, %r)' % (args[0], args[1], args[2], base.startswith('memmove')))
            return None
        if base.startswith('memset.'):
            E('E.memset(%s, %s, %s)' % (args[0], args[1], args[2]))
            return None
        stem = base.split('.')[0]
        if stem in ('fabs', 'sqrt') and t[0] in ('double', 'float'):
            return '%s(%s)' % (stem, args[0])
        if stem in ('exp', 'sin', 'cos', 'tan', 'log', 'floor', 'ceil', 'log10', 'log2', 'exp2', 'tanh', 'cosh', 'sinh'):
            return 'fn(%r, %s)' % (stem, args[0])
        if stem == 'pow':
            return 'fn("pow", %s, %s)' % (args[0], args[1])
        if stem == 'powi':
            return 'E.powi(%s, %s)' % (args[0], args[1])
        if stem in ('fmuladd', 'fma'):
            return 'add(mul(%s, %s), %s)' % tuple(args)
        if stem in ('maxnum', 'maximum'):
            return 'ite(fcmp("olt", %s, %s), %s, %s)' % (args[0], args[1], args[1], args[0])
        if stem in ('minnum', 'minimum'):
            return 'ite(fcmp("olt", %s, %s), %s, %s)' % (args[1], args[0], args[1], args[0])
        if stem == 'copysign':
            return 'E.copysign(%s, %s)' % (args[0], args[1])
        if stem == 'is' and base.startswith('is.fpclass'):
            return 'E.fpclass(%s, %s)' % (args[0], args[1])
        if stem in ('smax', 'smin', 'umax', 'umin', 'abs'):
            return 'E.iminmax(%r, %s, %s, %d)' % (stem, args[0], args[1], t[1])
        if stem in ('ctlz', 'cttz', 'ctpop', 'bswap', 'fshl', 'fshr'):
            return 'E.bitint(%r, %s, %d)' % (stem, ', '.join(args), t[1])
        if base.startswith('eh.typeid.for'):
            return 'E.typeid(%s)' % args[0]
        if stem == 'trap' or stem == 'ubsantrap' or stem == 'debugtrap':
            return 'E.err("trap")'
        if stem == 'expect':
            return args[0]
        if stem == 'objectsize':
            return str((1 << t[1]) - 1)
        if re.match(r'[us](add|sub|mul)\.with\.overflow', base):
            return 'E.withoverflow(%r, %s, %s, %d)' % (base.split('.')[0], args[0], args[1],
                                                       self.m.resolve(ins.d['args'][0][0])[1])
        if re.match(r'[us](add|sub)\.sat', base):
            return 'E.satop(%r, %s, %s, %d)' % (base.split('.')[0], args[0], args[1], t[1])
        if base.startswith('is.constant'):
            return '0'
        if base.startswith('launder') or base.startswith('strip'):
            return args[0]
        if base.startswith('load.relative'):
            return 'E.load_relative(%s, %s)' % tuple(args)
        if base.startswith('threadlocal.address'):
            return args[0]
        raise IRError('intrinsic %s' % nm)
