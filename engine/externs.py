"""Models of the C/C++ runtime and the harness API (qkv_*)."""
import re
from fractions import Fraction
import z3
import terms as tm
from terms import T, B, U
import engine as en

NUMBER = r'[-+]?(?:\d+\.?\d*|\.\d+)(?:[eE][-+]?\d+)?'


def install(E):
    X = E.externs

    def ext(*names):
        def deco(f):
            for n in names:
                X['@' + n] = f
            return f
        return deco

    # ------------------------------------------------------------ allocation
    @ext('_Znwm', '_Znam', 'malloc')
    def new(n):
        return E.alloc(n, 'heap').base

    @ext('_ZnwmSt11align_val_t', '_ZnamSt11align_val_t', 'aligned_alloc')
    def new_al(a, b):
        n = a
        o = E.alloc(n, 'heap')
        o.base -= 16
        return o.base

    @ext('calloc')
    def calloc(a, b):
        o = E.alloc(E.concretize(a) * E.concretize(b), 'heap')
        E.memset(o.base, 0, o.size)
        return o.base

    @ext('posix_memalign')
    def posix_memalign(pp, al, n):
        o = E.alloc(n, 'heap')
        o.base -= 16
        E.store(pp, 8, o.base)
        return 0

    def delete(p, *a):
        p = E.ptr(p)
        if p == 0:
            return None
        o = E.objs.get(p >> en.SHIFT)
        if o is None or o.kind != 'heap' or p != o.base:
            E.err('bad-free')
        if not o.alive:
            E.err('double-free')
        o.alive = False
        o.cells = {}
        return None
    for n in ('_ZdlPv', '_ZdlPvm', '_ZdaPv', '_ZdaPvm', 'free', '_ZdlPvSt11align_val_t', '_ZdlPvmSt11align_val_t',
              '_ZdaPvSt11align_val_t'):
        X['@' + n] = delete

    # ------------------------------------------------------------ memory / strings
    @ext('memcpy')
    def memcpy(d, s, n):
        E.memcpy(d, s, n, False)
        return d

    @ext('memmove')
    def memmove(d, s, n):
        E.memcpy(d, s, n, True)
        return d

    @ext('memset')
    def memset(d, v, n):
        E.memset(d, v if type(v) is int else E.concretize(v), n)
        return d

    @ext('strlen')
    def strlen(p):
        return len(E.cstr(p))

    @ext('memcmp', 'bcmp')
    def memcmp(a, b, n):
        n = E.concretize(n)
        a, b = E.ptr(a), E.ptr(b)
        xs = [(E.load(a + i, 1), E.load(b + i, 1)) for i in range(n)]
        if any(x is U or y is U for x, y in xs):
            E.err('uninitialised-value-used', 'memcmp')
        if all(type(x) is int and type(y) is int for x, y in xs):
            for x, y in xs:
                if x != y:
                    return 1 if x > y else 0xffffffff
            return 0
        r = z3.BitVecVal(0, 32)
        for x, y in reversed(xs):
            p, q = E.bv(x, 8), E.bv(y, 8)
            r = z3.If(z3.UGT(p, q), z3.BitVecVal(1, 32), z3.If(z3.ULT(p, q), z3.BitVecVal(0xffffffff, 32), r))
        return E.norm(r)

    @ext('strcmp')
    def strcmp(a, b):
        x, y = E.cstr(a), E.cstr(b)
        return 0 if x == y else (1 if x > y else 0xffffffff)

    @ext('memchr')
    def memchr(p, c, n):
        p = E.ptr(p)
        n = E.concretize(n)
        c = E.concretize(c) & 255
        for i in range(n):
            if E.concretize(E.load(p + i, 1)) == c:
                return p + i
        return 0

    # ------------------------------------------------------------ math library
    for n in ('exp', 'sin', 'cos', 'tan', 'tanh', 'cosh', 'sinh', 'log', 'atan', 'asin', 'acos', 'cbrt', 'log10',
              'log2', 'exp2', 'floor', 'ceil'):
        X['@' + n] = (lambda nm: lambda x: tm.fn(nm, x))(n)
    X['@sqrt'] = tm.sqrt
    X['@fabs'] = tm.fabs
    X['@pow'] = lambda x, y: tm.fn('pow', x, y)
    X['@atan2'] = lambda x, y: tm.fn('atan2', x, y)
    X['@hypot'] = lambda x, y: tm.sqrt(tm.add(tm.mul(x, x), tm.mul(y, y)))
    X['@fmax'] = lambda x, y: tm.ite(tm.fcmp('olt', x, y), y, x)
    X['@fmin'] = lambda x, y: tm.ite(tm.fcmp('olt', y, x), y, x)
    X['@ceilf'] = lambda x: tm.fn('ceil', x)
    X['@floorf'] = lambda x: tm.fn('floor', x)

    # ------------------------------------------------------------ exceptions
    @ext('__cxa_allocate_exception')
    def cxa_alloc(n):
        return E.alloc(n, 'heap').base

    @ext('__cxa_free_exception')
    def cxa_free(p):
        return None

    @ext('__cxa_throw')
    def cxa_throw(p, ti, dtor):
        raise en.CxxThrow(p, ti)

    @ext('__cxa_begin_catch')
    def begin_catch(p):
        E.caught = getattr(E, 'caught', [])
        E.caught.append(p)
        return p

    @ext('__cxa_end_catch')
    def end_catch():
        if getattr(E, 'caught', None):
            E.caught.pop()
        return None

    @ext('__cxa_get_exception_ptr')
    def get_exc(p):
        return p

    @ext('__cxa_rethrow')
    def rethrow():
        p = E.caught[-1]
        e = E.exc_types[p]
        raise en.CxxThrow(e.ptr, e.tinfo)

    def throw_std(ti):
        def f(*a):
            o = E.alloc(16, 'heap')
            raise en.CxxThrow(o.base, ti)
        return f
    for nm, ti in (('_ZSt20__throw_length_errorPKc', '_ZTISt12length_error'),
                   ('_ZSt19__throw_logic_errorPKc', '_ZTISt11logic_error'),
                   ('_ZSt20__throw_out_of_rangePKc', '_ZTISt12out_of_range'),
                   ('_ZSt24__throw_out_of_range_fmtPKcz', '_ZTISt12out_of_range'),
                   ('_ZSt24__throw_invalid_argumentPKc', '_ZTISt16invalid_argument'),
                   ('_ZSt17__throw_bad_allocv', '_ZTISt9bad_alloc'),
                   ('_ZSt28__throw_bad_array_new_lengthv', '_ZTISt20bad_array_new_length'),
                   ('_ZSt21__throw_runtime_errorPKc', '_ZTISt13runtime_error'),
                   ('__cxa_bad_cast', '_ZTISt8bad_cast'),
                   ('__cxa_throw_bad_array_new_length', '_ZTISt20bad_array_new_length')):
        X['@' + nm] = throw_std(ti)

    @ext('_ZSt9terminatev', '__clang_call_terminate', 'abort', '__cxa_pure_virtual', '_ZSt21__glibcxx_assert_failPKciS0_S0_')
    def terminate(*a):
        E.err('terminate')

    @ext('exit', '_exit')
    def exit_(*a):
        raise en.PathEnd()

    @ext('_ZNSt9exceptionD2Ev', '_ZNSt9exceptionD1Ev', '_ZNSt8ios_base4InitC1Ev', '_ZNSt8ios_base4InitD1Ev',
         '_ZNSt9exceptionD0Ev')
    def nop(*a):
        return None

    @ext('_ZNKSt9exception4whatEv')
    def what(*a):
        return E.new_cstr('std::exception')

    @ext('__cxa_atexit')
    def atexit(*a):
        return 0

    @ext('__cxa_guard_acquire')
    def guard_acq(p):
        v = E.load(p, 1)
        return 1 if v == 0 else 0

    @ext('__cxa_guard_release', '__cxa_guard_abort')
    def guard_rel(p):
        E.store(p, 1, 1)
        return None

    @ext('__dynamic_cast')
    def dyncast(p, src, dst, hint):
        p = E.ptr(p)
        vptr = E.load(p, 8)
        off = en.sx(E.load(vptr - 16, 8), 64)
        ti = E.load(vptr - 8, 8)
        if E.catches(ti, dst):
            return (p + off)     # single inheritance throughout
        return 0

    # ------------------------------------------------------------ openmp entry points used without -fopenmp
    X['@omp_get_thread_num'] = lambda: 0
    X['@omp_get_num_threads'] = lambda: 1
    X['@omp_get_max_threads'] = lambda: 1
    X['@omp_get_wtime'] = lambda: tm.var('wtime')

    X['@printf'] = lambda *a: 0
    X['@puts'] = lambda *a: 0
    X['@putchar'] = lambda *a: 0
    X['@fprintf'] = lambda *a: 0
    X['@_ZNSt6chrono3_V212steady_clock3nowEv'] = lambda *a: 0
    X['@_ZNSt6chrono3_V212system_clock3nowEv'] = lambda *a: 0

    # ------------------------------------------------------------ harness API
    def uname(p, idx=None):
        s = E.cstr(p)
        return s if idx is None else '%s.%d' % (s, idx)

    @ext('qkv_symbolic')
    def q_sym():
        return 1

    @ext('qkv_bound')
    def q_bound(quick, thorough):
        return thorough if E.opts.get('tier') == 'thorough' else quick

    @ext('qkv_int')
    def q_int(name, lo, hi):
        return new_int(uname(name), lo, hi)

    def new_int(n, lo, hi):
        if n in E.input_names:
            return E.input_names[n]
        v = z3.BitVec(n, 32)
        lo_, hi_ = en.sx(E.concretize(lo), 32), en.sx(E.concretize(hi), 32)
        if lo_ > hi_:
            raise en.PathEnd()
        if lo_ == hi_:
            E.inputs.append(('pick', n, lo_, lo_, hi_))
            E.input_names[n] = lo_ & 0xffffffff
            return lo_ & 0xffffffff
        E.inputs.append(('int', n, v, lo_, hi_))
        E.input_names[n] = v
        c = E.zbool(z3.And(v >= lo_, v <= hi_))
        if type(c) is not int:
            E.learn(c, 1)
        return v

    @ext('qkv_inti')
    def q_inti(name, idx, lo, hi):
        n = uname(name, en.sx(E.concretize(idx), 32))
        return new_int(n, lo, hi)

    @ext('qkv_picki')
    def q_picki(name, idx, lo, hi):
        return new_pick(uname(name, en.sx(E.concretize(idx), 32)), lo, hi)

    @ext('qkv_pick')
    def q_pick(name, lo, hi):
        return new_pick(uname(name), lo, hi)

    def new_pick(n, lo, hi):
        if n in E.input_names:
            return E.input_names[n]
        lo, hi = en.sx(E.concretize(lo), 32), en.sx(E.concretize(hi), 32)
        v = (lo + E.choose(hi - lo + 1)) & 0xffffffff
        E.inputs.append(('pick', n, en.sx(v, 32), lo, hi))
        E.input_names[n] = v
        return v

    @ext('qkv_real')
    def q_real(name, idx, lo, hi):
        n = uname(name, en.sx(E.concretize(idx), 32))
        if n in E.input_names:
            return E.input_names[n]
        v = tm.var(n)
        E.inputs.append(('real', n, v, lo, hi))
        E.input_names[n] = v
        return v

    @ext('qkv_assume')
    def q_assume(c):
        c = boolof(c)
        if c is U:
            E.err('assume-on-uninitialised')
        if type(c) is int:
            if not c:
                raise en.PathEnd()
            return None
        d = E.decided(c)
        if d == 0:
            raise en.PathEnd()
        if d is None:
            E.learn(c, 1)
            if en.is_bv(c):
                if E.bv_check() is None:
                    raise en.PathEnd()
        return None

    def boolof(c):
        if isinstance(c, en.BI):
            return c.b
        if isinstance(c, z3.BitVecRef):
            return E.zbool(c != 0)
        if type(c) is int:
            return 1 if c else 0
        return c

    @ext('qkv_check')
    def q_check(c, label):
        E.checker.check_bool(boolof(c), E.cstr(label))

    @ext('qkv_check_eq')
    def q_check_eq(a, b, label):
        E.checker.check_eq(a, b, E.cstr(label))

    ext('qkv_check_tight')(q_check_eq)
    ext('qkv_check_digits')(q_check_eq)

    @ext('qkv_digits')
    def q_digits(n):
        E.digits = E.concretize(n)

    @ext('qkv_check_int')
    def q_check_int(a, b, label):
        E.checker.check_bool(E.icmp('eq', a, b, 32), E.cstr(label))

    @ext('qkv_alone')
    def q_alone(f, arg, out, n):
        import copy
        out, n = E.ptr(out), E.concretize(n)
        saved = {}
        for i, o in E.objs.items():
            if o.const:
                saved[i] = o
            else:
                c = copy.copy(o)
                c.cells = dict(o.cells)
                saved[i] = c
        streams, marks, tok, at = copy.deepcopy(E.streams), len(E.marks), E.tok, E.console_at
        E.icall(f)(arg, out)
        res = [E.loadf(out + 8 * k, 8) for k in range(n)]
        # undo: the objects themselves stay, since live frames refer to them
        for i in list(E.objs):
            if i not in saved:
                del E.objs[i]
            elif saved[i] is not E.objs[i]:
                o, c = E.objs[i], saved[i]
                o.cells, o.alive, o.size = c.cells, c.alive, c.size
        E.streams, E.tok, E.console_at = streams, tok, at
        for k, v in enumerate(res):
            E.store(out + 8 * k, 8, v)

    @ext('qkv_reach')
    def q_reach(label):
        E.checker.reach(E.cstr(label))

    # value equality decided on the spot without forking: 1 iff provably equal
    @ext('qkv_debug')
    def q_debug(name, v):
        if E.opts.get('verbose'):
            print('DEBUG', E.cstr(name), v)

    @ext('qkv_debugf')
    def q_debugf(name, v):
        if E.opts.get('verbose'):
            print('DEBUG', E.cstr(name), tm.show(v, 6))

    # ------------------------------------------------------------ output streams
    def put_text(p, txt):
        p = E.ptr(p)
        for i, ch in enumerate(txt):
            E.store(p + i, 1, ord(ch))
        return len(txt)

    # a symbolic number formatted into text: the text carries a reference to it
    def mark(part):
        E.marks.append(part)
        return '\x01%d\x02' % (len(E.marks) - 1)

    def unmark(parts):
        out = []
        for p in parts:
            if p[0] == 's' and '\x01' in p[1]:
                for k, piece in enumerate(re.split('\x01(\\d+)\x02', p[1])):
                    if k % 2:
                        out.append(E.marks[int(piece)])
                    elif piece:
                        out.append(('s', piece))
            else:
                out.append(p)
        return out

    @ext('qkv_fmt_int')
    def fmt_int(v, p):
        return put_text(p, str(en.sx(v, 64)) if type(v) is int else mark(('i', v)))

    @ext('qkv_fmt_real')
    def fmt_real(v, prec, p):
        prec = E.concretize(prec)
        return put_text(p, ('%.*g' % (prec, float(v))) if type(v) is Fraction else mark(('f', v, prec)))

    def written(s, part):
        f = E.fault
        if f and f['name'] == s['name'] and len(s['parts']) >= f['at']:
            f['hit'] = s['failed'] = 1
        else:
            s['parts'].append(part)
        return 1 if s.get('failed') and not f['late'] else 0

    @ext('qkv_out_open')
    def out_open(name):
        n = E.cstr(name)
        if E.fault and E.fault['name'] == n and E.fault['at'] < 0:
            E.fault['hit'] = 1
            return 0
        h = len(E.streams) + 1
        s = dict(name=n, parts=[], open=True)
        E.streams[h] = s
        return h

    @ext('qkv_out_str')
    def out_str(h, p, n):
        s = E.streams[E.concretize(h)]
        n = E.concretize(n)
        return written(s, ('s', E.bytes_at(E.ptr(p), n)))

    @ext('qkv_out_int')
    def out_int(h, v):
        return written(E.streams[E.concretize(h)], ('i', v))

    @ext('qkv_out_real')
    def out_real(h, v, prec):
        return written(E.streams[E.concretize(h)], ('f', v, E.concretize(prec)))

    @ext('qkv_out_close')
    def out_close(h):
        s = E.streams[E.concretize(h)]
        s['open'] = False
        return s.get('failed', 0)

    @ext('qkv_out_flush')
    def out_flush(h):
        return E.streams[E.concretize(h)].get('failed', 0)

    # the fault: writing to the named file fails from its at-th write on (at < 0: opening it fails);
    # the stream notices at once or, buffered (late), when it is flushed or closed
    @ext('qkv_fault_file')
    def fault_file(name, at, late):
        E.fault = dict(name=E.cstr(name), at=en.sx(E.concretize(at), 32), late=E.concretize(late), hit=0)

    @ext('qkv_fault_tries')
    def fault_tries(whole):
        return 1

    @ext('qkv_fault_hit')
    def fault_hit():
        return E.fault['hit'] if E.fault else 0

    def tokens(parts):
        toks = []
        cur = None      # current token being built: list of pieces

        def flush():
            nonlocal cur
            if cur is not None:
                toks.append(cur)
                cur = None
        for p in parts:
            if p[0] == 's':
                for ch in p[1]:
                    if ch in ' \n\t\r':
                        flush()
                    else:
                        if cur is None:
                            cur = []
                        if cur and cur[-1][0] == 's':
                            cur[-1] = ('s', cur[-1][1] + ch)
                        else:
                            cur.append(('s', ch))
            else:
                if cur is None:
                    cur = []
                cur.append(p)
        flush()
        return toks

    @ext('qkv_file_read')
    def file_read(name):
        n = E.cstr(name)
        best = None
        for h, s in E.streams.items():
            if s['name'] == n:
                best = s
        if best is None:
            return 0xffffffff
        E.tok = tokens(unmark(best['parts']))
        return len(E.tok)

    # the numbers in a text, whatever stands between them
    def numbers(parts):
        text, refs = '', []
        for p in unmark(parts):
            if p[0] == 's':
                text += p[1]
            else:
                refs.append(p)
                text += '\x01%d\x02' % (len(refs) - 1)
        out = []
        end = -1
        for m in re.finditer('\x01(\\d+)\x02|' + NUMBER, text):
            piece = refs[int(m.group(1))] if m.group(1) else ('s', m.group(0))
            if m.start() == end:
                out[-1].append(piece)       # no separator: digits run together
            else:
                out.append([piece])
            end = m.end()
        return out

    @ext('qkv_text_read')
    def text_read(p, n):
        E.tok = numbers([('s', E.bytes_at(E.ptr(p), E.concretize(n)))])
        return len(E.tok)

    def console():
        return [q for h, s in E.streams.items() if s['name'] == '<console>' for q in s['parts']]

    @ext('qkv_console_begin')
    def console_begin():
        E.console_at = len(console())

    @ext('qkv_console_read')
    def console_read():
        E.tok = numbers(console()[E.console_at:])
        return len(E.tok)

    @ext('qkv_console_count')
    def console_count(p):
        w = E.cstr(p)
        txt = ''.join(q[1] if q[0] == 's' else '\x01' for q in unmark(console()[E.console_at:]))
        return txt.count(w)

    @ext('qkv_tok_is')
    def tok_is(i, p):
        i = E.concretize(i)
        w = E.cstr(p)
        t = E.tok[i] if 0 <= i < len(E.tok) else []
        if not t:
            return 0
        txt = ''
        for x in t:
            if x[0] == 's':
                txt += x[1]
            elif x[0] == 'i' and type(x[1]) is int:
                txt += str(en.sx(x[1], 64))
            else:
                return 0
        return int(txt == w)

    @ext('qkv_tok_int')
    def tok_int(i):
        i = E.concretize(i)
        t = E.tok[i] if 0 <= i < len(E.tok) else []
        if len(t) == 1 and t[0][0] == 'i':
            return E.trunc(t[0][1], 64, 32)
        if len(t) == 1 and t[0][0] == 's' and re.fullmatch(r'[-+]?\d+', t[0][1]):
            return int(t[0][1]) & 0xffffffff
        return -999999 & 0xffffffff

    @ext('qkv_tok_real')
    def tok_real(i):
        i = E.concretize(i)
        t = E.tok[i] if 0 <= i < len(E.tok) else []
        if len(t) != 1:
            return tm.bad('malformed-number')
        x = t[0]
        if x[0] == 'f':
            v, prec = x[1], x[2]
            if prec >= E.digits or type(v) is Fraction and v.denominator == 1 and abs(v) < 10 ** max(prec, 1):
                return v
            # printed with too few digits: not the value any more
            return tm.fn('rounded%d' % prec, v)
        if x[0] == 'i':
            return E.itofp(x[1], 64, True, 'double')
        try:
            return tm.ideal(float(x[1]))
        except ValueError:
            return tm.bad('not-a-number')
