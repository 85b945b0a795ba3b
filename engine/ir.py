"""Parser for the textual LLVM IR (LLVM 18, opaque pointers) emitted by clang.

Produces a light-weight Module: named types, globals with initialisers,
functions with basic blocks of decoded instructions.  Only what clang emits for
/repo's sources and our harnesses is supported; anything else raises IRError so
that a construct we do not understand can never be silently mis-executed.
"""
import re


class IRError(Exception):
    pass


TOK = re.compile(r'''\s*(?:
   (?P<str>c?"(?:[^"\\]|\\.)*")
 | (?P<id>[%@]"(?:[^"\\]|\\.)*"|[%@$][-a-zA-Z$._0-9]+)
 | (?P<md>![-a-zA-Z$._0-9]*|\#\d+)
 | (?P<num>-?\d+\.\d*(?:[eE][+-]?\d+)?|0x[KHLMR]?[0-9A-Fa-f]+|-?\d+)
 | (?P<word>[a-zA-Z_][\w.]*)
 | (?P<punc>\.\.\.|[\[\]{}()<>,=*:|])
)''', re.X)


def tokenize(s):
    out = []
    pos = 0
    n = len(s)
    while pos < n:
        m = TOK.match(s, pos)
        if not m:
            if s[pos:].strip() == '':
                break
            raise IRError('tokenize: %r' % s[pos:pos + 60])
        k = m.lastgroup
        out.append((k, m.group(k)))
        pos = m.end()
    return out


def unq(name):
    # %"foo" -> %foo
    if len(name) > 1 and name[1] == '"':
        return name[0] + unesc(name[2:-1])
    return name


def unesc(s):
    return re.sub(r'\\([0-9A-Fa-f]{2})', lambda m: chr(int(m.group(1), 16)), s)


def str_bytes(tok):
    # c"...." token
    s = tok[2:-1] if tok[0] == 'c' else tok[1:-1]
    out = bytearray()
    i = 0
    while i < len(s):
        if s[i] == '\\':
            if s[i + 1] == '\\':
                out.append(0x5c)
                i += 2
            else:
                out.append(int(s[i + 1:i + 3], 16))
                i += 3
        else:
            out += s[i].encode('utf-8')
            i += 1
    return bytes(out)


PARAM_ATTRS = {
    'noundef', 'nonnull', 'nocapture', 'readonly', 'writeonly', 'readnone', 'noalias', 'signext', 'zeroext',
    'returned', 'immarg', 'inreg', 'nofree', 'nest', 'swiftself', 'swifterror', 'allocptr', 'inalloca', 'writable',
    'dead_on_unwind', 'allocalign', 'noext',
}
PAREN_ATTRS = {'dereferenceable', 'dereferenceable_or_null', 'sret', 'byval', 'byref', 'elementtype', 'preallocated',
               'nofpclass', 'range', 'captures', 'memory', 'align', 'alignstack', 'initializes'}
FLAGS = {'nsw', 'nuw', 'exact', 'inbounds', 'fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc',
         'volatile', 'nneg', 'disjoint', 'atomic', 'nusw', 'samesign'}
CCONV = {'fastcc', 'ccc', 'coldcc', 'tailcc', 'cc'}
BINOPS = {'add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor',
          'fadd', 'fsub', 'fmul', 'fdiv', 'frem'}
CASTS = {'trunc', 'zext', 'sext', 'fptrunc', 'fpext', 'fptoui', 'fptosi', 'uitofp', 'sitofp', 'ptrtoint', 'inttoptr',
         'bitcast', 'addrspacecast'}


class P:
    """token cursor"""

    def __init__(self, toks, mod):
        self.t = toks
        self.i = 0
        self.m = mod

    def peek(self, k=0):
        j = self.i + k
        return self.t[j] if j < len(self.t) else (None, None)

    def next(self):
        x = self.t[self.i]
        self.i += 1
        return x

    def accept(self, v):
        if self.i < len(self.t) and self.t[self.i][1] == v and self.t[self.i][0] in ('punc', 'word'):
            self.i += 1
            return True
        return False

    def expect(self, v):
        if not self.accept(v):
            raise IRError('expected %r at %r' % (v, self.t[self.i:self.i + 8]))

    def done(self):
        return self.i >= len(self.t)

    # ---- types
    def type(self):
        k, v = self.next()
        if k == 'word':
            if v == 'void':
                t = ('void',)
            elif v == 'ptr':
                t = ('ptr',)
                if self.accept('addrspace'):
                    self.expect('(')
                    self.next()
                    self.expect(')')
            elif v in ('double', 'float', 'half', 'x86_fp80', 'fp128'):
                t = (v,)
            elif v in ('label', 'metadata', 'token'):
                t = (v,)
            elif re.fullmatch(r'i\d+', v):
                t = ('i', int(v[1:]))
            elif v == 'opaque':
                t = ('opaque',)
            else:
                raise IRError('type word %r' % v)
        elif k == 'id' and v[0] == '%':
            t = ('named', unq(v))
        elif v == '[':
            n = int(self.next()[1])
            self.expect('x')
            e = self.type()
            self.expect(']')
            t = ('array', n, e)
        elif v == '{':
            t = self.struct_body(False)
        elif v == '<':
            if self.peek()[1] == '{':
                self.next()
                t = self.struct_body(True)
                self.expect('>')
            else:
                n = int(self.next()[1])
                self.expect('x')
                e = self.type()
                self.expect('>')
                t = ('vector', n, e)
        else:
            raise IRError('type %r' % ((k, v),))
        # function type?
        while self.peek() == ('punc', '('):
            # only treat as function type if what follows parses as a type list
            save = self.i
            try:
                self.next()
                args = []
                va = False
                while not self.accept(')'):
                    if self.accept('...'):
                        va = True
                    else:
                        args.append(self.type())
                    self.accept(',')
                t = ('func', t, args, va)
            except IRError:
                self.i = save
                break
        return t

    def struct_body(self, packed):
        el = []
        while not self.accept('}'):
            el.append(self.type())
            self.accept(',')
        return ('struct', tuple(el), packed)

    def skip_parens(self):
        self.expect('(')
        d = 1
        while d:
            v = self.next()
            if v == ('punc', '('):
                d += 1
            elif v == ('punc', ')'):
                d -= 1

    def attrs(self):
        """parameter / return attributes; returns dict of interesting ones"""
        out = {}
        while True:
            k, v = self.peek()
            if k == 'word' and v in PAREN_ATTRS:
                self.next()
                if v == 'align' and self.peek()[0] == 'num':
                    out['align'] = int(self.next()[1])
                    continue
                if v in ('byval', 'sret'):
                    save = self.i
                    self.expect('(')
                    out[v] = self.type()
                    self.expect(')')
                    continue
                self.skip_parens()
            elif k == 'word' and v in PARAM_ATTRS:
                self.next()
            elif k == 'str':
                self.next()
                if self.accept('='):
                    self.next()
            elif k == 'md' and v[0] == '#':
                self.next()
            else:
                return out

    # ---- values (given type)
    def value(self, ty):
        k, v = self.next()
        if k == 'id':
            v = unq(v)
            if v[0] == '%':
                return ('local', v)
            return ('global', v)
        if k == 'num':
            if ty[0] in ('double', 'float'):
                return ('fp', v)
            return ('int', int(v))
        if k == 'str':
            return ('bytes', str_bytes(v))
        if k == 'word':
            if v == 'true':
                return ('int', 1)
            if v == 'false':
                return ('int', 0)
            if v == 'null':
                return ('int', 0)
            if v in ('undef', 'poison'):
                return ('undef',)
            if v == 'zeroinitializer':
                return ('zero',)
            if v == 'none':
                return ('undef',)
            if v == 'getelementptr':
                while self.peek()[1] in FLAGS or self.peek()[1] == 'inrange':
                    w = self.next()[1]
                    if w == 'inrange' and self.peek()[1] == '(':
                        self.skip_parens()
                self.expect('(')
                sty = self.type()
                self.expect(',')
                ops = []
                while True:
                    self.accept('inrange')
                    t = self.type()
                    ops.append((t, self.value(t)))
                    if not self.accept(','):
                        break
                self.expect(')')
                return ('cgep', sty, ops)
            if v in CASTS:
                self.expect('(')
                t = self.type()
                x = self.value(t)
                self.expect('to')
                t2 = self.type()
                self.expect(')')
                return ('ccast', v, t, x, t2)
            if v in BINOPS:
                while self.peek()[1] in FLAGS:
                    self.next()
                self.expect('(')
                t = self.type()
                a = self.value(t)
                self.expect(',')
                t2 = self.type()
                b = self.value(t2)
                self.expect(')')
                return ('cbin', v, t, a, b)
            if v == 'splat':
                self.expect('(')
                t = self.type()
                x = self.value(t)
                self.expect(')')
                return ('splat', x)
            raise IRError('value word %r' % v)
        if v == '[' or v == '{':
            close = {'[': ']', '{': '}'}[v]
            out = []
            while not self.accept(close):
                t = self.type()
                out.append((t, self.value(t)))
                self.accept(',')
            return ('agg', out)
        if v == '<':
            if self.accept('{'):
                out = []
                while not self.accept('}'):
                    t = self.type()
                    out.append((t, self.value(t)))
                    self.accept(',')
                self.expect('>')
                return ('agg', out)
            out = []
            while not self.accept('>'):
                t = self.type()
                out.append((t, self.value(t)))
                self.accept(',')
            return ('agg', out)
        raise IRError('value %r' % ((k, v),))

    def tv(self):
        t = self.type()
        self.attrs()
        return t, self.value(t)


class Inst:
    __slots__ = ('op', 'res', 'd', 'text')

    def __init__(self, op, res, text, **d):
        self.op = op
        self.res = res
        self.d = d
        self.text = text


class Block:
    def __init__(self, name):
        self.name = name
        self.insts = []


class Function:
    def __init__(self, name, ret, params, vararg):
        self.name = name
        self.ret = ret
        self.params = params  # list of (type, name, attrs)
        self.vararg = vararg
        self.blocks = []


class Module:
    def __init__(self):
        self.types = {}
        self.globals = {}   # name -> (type, init or None, const)
        self.functions = {}
        self.declared = {}
        self.aliases = {}

    # ---- layout (x86-64)
    def resolve(self, t):
        while t[0] == 'named':
            if t[1] not in self.types:
                raise IRError('unknown type %s' % t[1])
            t = self.types[t[1]]
        return t

    def sizealign(self, t):
        c = self._sa.get(t)
        if c is None:
            c = self._sa[t] = self._sizealign(t)
        return c

    _sa = {}

    def _sizealign(self, t):
        t = self.resolve(t)
        k = t[0]
        if k == 'i':
            b = (t[1] + 7) // 8
            a = 1
            while a < b and a < 16:
                a *= 2
            return ((b + a - 1) // a * a, a)
        if k == 'ptr' or k == 'double':
            return (8, 8)
        if k == 'float':
            return (4, 4)
        if k == 'x86_fp80':
            return (16, 16)
        if k == 'array':
            s, a = self.sizealign(t[2])
            return (s * t[1], a)
        if k == 'vector':
            s, a = self.sizealign(t[2])
            return (s * t[1], s * t[1])
        if k == 'struct':
            off = 0
            al = 1
            for e in t[1]:
                s, a = self.sizealign(e)
                if t[2]:
                    a = 1
                off = (off + a - 1) // a * a + s
                al = max(al, a)
            off = (off + al - 1) // al * al
            return (off, al)
        raise IRError('sizeof %r' % (t,))

    def size(self, t):
        return self.sizealign(t)[0]

    def field(self, t, idx):
        """(offset, type) of element idx of struct t"""
        t = self.resolve(t)
        off = 0
        for j, e in enumerate(t[1]):
            s, a = self.sizealign(e)
            if t[2]:
                a = 1
            off = (off + a - 1) // a * a
            if j == idx:
                return off, e
            off += s
        raise IRError('field')


MD_TAIL = re.compile(r'(,\s*![-\w.]+\s+!(?:\{[^}]*\}|[-\w.]+))+\s*$')


def parse(text):
    mod = Module()
    mod._sa = {}
    lines = text.split('\n')
    i = 0
    n = len(lines)
    while i < n:
        ln = lines[i]
        i += 1
        if not ln or ln[0] == ';' or ln[0] == '!':
            continue
        if ln.startswith('source_filename') or ln.startswith('target ') or ln.startswith('attributes ') or \
           ln.startswith('module asm') or ln.startswith('$'):
            continue
        if ln[0] == '%':
            m = re.match(r'(%"(?:[^"\\]|\\.)*"|%[-\w$.]+) = type (.*)$', ln)
            if not m:
                raise IRError(ln)
            p = P(tokenize(m.group(2)), mod)
            mod.types[unq(m.group(1))] = p.type()
            continue
        if ln[0] == '@':
            parse_global(mod, ln)
            continue
        if ln.startswith('declare'):
            parse_header(mod, ln, True)
            continue
        if ln.startswith('define'):
            f = parse_header(mod, ln, False)
            body = []
            while lines[i] != '}':
                body.append(lines[i])
                i += 1
            i += 1
            f.body = body
            f.parsed = False
            mod.functions[f.name] = f
            continue
        raise IRError('toplevel %r' % ln)
    return mod


def parse_global(mod, ln):
    ln = MD_TAIL.sub('', ln)
    m = re.match(r'(@"(?:[^"\\]|\\.)*"|@[-\w$.]+) = (.*)$', ln)
    name = unq(m.group(1))
    p = P(tokenize(m.group(2)), mod)
    const = False
    external = False
    while True:
        k, v = p.peek()
        if v in ('private', 'internal', 'linkonce_odr', 'linkonce', 'weak', 'weak_odr', 'common', 'appending',
                 'dso_local', 'unnamed_addr', 'local_unnamed_addr', 'hidden', 'available_externally', 'constant',
                 'global', 'external', 'extern_weak', 'thread_local', 'externally_initialized', 'alias', 'protected'):
            p.next()
            if v == 'thread_local' and p.peek()[1] == '(':
                p.skip_parens()
            if v in ('external', 'extern_weak'):
                external = True
            if v == 'alias':
                t = p.type()
                p.expect(',')
                t2 = p.type()
                mod.aliases[name] = p.value(t2)
                return
            if v == 'constant':
                const = True
                break
            if v == 'global':
                break
        else:
            break
    ty = p.type()
    init = None
    if not external:
        init = p.value(ty)
    mod.globals[name] = (ty, init, const)


def parse_header(mod, ln, decl):
    s = ln[len('declare' if decl else 'define'):]
    s = re.sub(r'\{\s*$', '', s)
    p = P(tokenize(MD_TAIL.sub('', s)), mod)
    while True:
        k, v = p.peek()
        if k == 'word' and v in ('dso_local', 'internal', 'linkonce_odr', 'weak_odr', 'weak', 'private', 'hidden',
                                 'available_externally', 'linkonce', 'unnamed_addr', 'local_unnamed_addr',
                                 'extern_weak', 'protected') or v in CCONV:
            p.next()
        elif k == 'md':
            p.next()
            if p.peek()[0] == 'md':
                p.next()
        else:
            break
    p.attrs()
    ret = p.type_nofunc() if hasattr(p, 'type_nofunc') else ptype_nofunc(p)
    k, v = p.next()
    name = unq(v)
    p.expect('(')
    params = []
    va = False
    num = 0
    while not p.accept(')'):
        if p.accept('...'):
            va = True
        else:
            t = p.type()
            a = p.attrs()
            if p.peek()[0] == 'id':
                nm = unq(p.next()[1])
            else:
                nm = '%' + str(num)
            if re.fullmatch(r'%\d+', nm):
                num = int(nm[1:]) + 1
            params.append((t, nm, a))
        p.accept(',')
    f = Function(name, ret, params, va)
    if decl:
        mod.declared[name] = f
    return f


def ptype_nofunc(p):
    """type not followed by function-parens ambiguity: return types precede an @name so no issue"""
    return p.type()


def parse_body(mod, f):
    if f.parsed:
        return
    f.parsed = True
    body = f.body
    f.body = None
    # entry label
    nums = [int(nm[1:]) for (_, nm, _) in f.params if re.fullmatch(r'%\d+', nm)]
    entry = '%' + str((max(nums) + 1) if nums else (0 if not f.params or nums else 0))
    cur = Block(entry)
    f.blocks = [cur]
    j = 0
    n = len(body)
    first = True
    while j < n:
        ln = body[j]
        j += 1
        if not ln.strip():
            continue
        if ln[0] != ' ':
            m = re.match(r'("(?:[^"\\]|\\.)*"|[-\w$.]+):', ln)
            if not m:
                raise IRError('label %r' % ln)
            nm = m.group(1)
            if nm[0] == '"':
                nm = unesc(nm[1:-1])
            if first:
                cur.name = '%' + nm
            else:
                cur = Block('%' + nm)
                f.blocks.append(cur)
            first = False
            continue
        first = False
        s = ln.strip()
        if s[0] == ';':
            continue
        # multi-line constructs
        if s.startswith('switch '):
            while ']' not in s:
                s += ' ' + body[j].strip()
                j += 1
        elif ' invoke ' in ' ' + s and re.match(r'(%\S+ = )?invoke ', s):
            while 'unwind label' not in s:
                s += ' ' + body[j].strip()
                j += 1
        elif re.search(r'= landingpad ', s):
            while j < n and re.match(r'\s+(cleanup|catch|filter)\b', body[j]):
                s += ' ' + body[j].strip()
                j += 1
        cur.insts.append(parse_inst(mod, s))


def parse_inst(mod, s):
    orig = s
    s = MD_TAIL.sub('', s)
    p = P(tokenize(s), mod)
    res = None
    if p.peek()[0] == 'id' and p.peek(1)[1] == '=':
        res = unq(p.next()[1])
        p.next()
    k, op = p.next()
    I = lambda **d: Inst(op, res, orig, **d)
    if op in ('tail', 'musttail', 'notail'):
        k, op = p.next()
    if op in BINOPS:
        fl = set()
        while p.peek()[1] in FLAGS:
            fl.add(p.next()[1])
        t = p.type()
        a = p.value(t)
        p.expect(',')
        b = p.value(t)
        return Inst('bin', res, orig, bop=op, ty=t, a=a, b=b, flags=fl)
    if op == 'fneg':
        while p.peek()[1] in FLAGS:
            p.next()
        t = p.type()
        return Inst('fneg', res, orig, ty=t, a=p.value(t))
    if op in ('icmp', 'fcmp'):
        while p.peek()[1] in FLAGS:
            p.next()
        pred = p.next()[1]
        t = p.type()
        a = p.value(t)
        p.expect(',')
        b = p.value(t)
        return Inst(op, res, orig, pred=pred, ty=t, a=a, b=b)
    if op in CASTS:
        while p.peek()[1] in FLAGS:
            p.next()
        t = p.type()
        a = p.value(t)
        p.expect('to')
        t2 = p.type()
        return Inst('cast', res, orig, cop=op, ty=t, a=a, to=t2)
    if op == 'alloca':
        p.accept('inalloca')
        t = p.type()
        cnt = None
        align = None
        while p.accept(','):
            if p.accept('align'):
                align = int(p.next()[1])
            else:
                ct = p.type()
                cnt = (ct, p.value(ct))
        return I(ty=t, count=cnt, align=align)
    if op == 'load':
        p.accept('atomic')
        p.accept('volatile')
        t = p.type()
        p.expect(',')
        pt = p.type()
        a = p.value(pt)
        return I(ty=t, ptr=a)
    if op == 'store':
        p.accept('atomic')
        p.accept('volatile')
        t = p.type()
        v = p.value(t)
        p.expect(',')
        pt = p.type()
        a = p.value(pt)
        return I(ty=t, val=v, ptr=a)
    if op == 'getelementptr':
        while p.peek()[1] in FLAGS:
            p.next()
        sty = p.type()
        ops = []
        while p.accept(','):
            t = p.type()
            ops.append((t, p.value(t)))
        return Inst('gep', res, orig, sty=sty, ops=ops)
    if op == 'phi':
        while p.peek()[1] in FLAGS:
            p.next()
        t = p.type()
        inc = []
        while True:
            p.expect('[')
            v = p.value(t)
            p.expect(',')
            lb = unq(p.next()[1])
            p.expect(']')
            inc.append((v, lb))
            if not p.accept(','):
                break
        return I(ty=t, inc=inc)
    if op == 'select':
        while p.peek()[1] in FLAGS:
            p.next()
        ct, c = p.tv()
        p.expect(',')
        t, a = p.tv()
        p.expect(',')
        t2, b = p.tv()
        return I(cty=ct, c=c, ty=t, a=a, b=b)
    if op == 'br':
        if p.accept('label'):
            return I(cond=None, t=unq(p.next()[1]), f=None)
        ct = p.type()
        c = p.value(ct)
        p.expect(',')
        p.expect('label')
        t = unq(p.next()[1])
        p.expect(',')
        p.expect('label')
        fl = unq(p.next()[1])
        return I(cond=c, t=t, f=fl)
    if op == 'switch':
        t = p.type()
        v = p.value(t)
        p.expect(',')
        p.expect('label')
        d = unq(p.next()[1])
        p.expect('[')
        cases = []
        while not p.accept(']'):
            ct = p.type()
            cv = p.value(ct)
            p.expect(',')
            p.expect('label')
            cases.append((cv, unq(p.next()[1])))
        return I(ty=t, v=v, default=d, cases=cases)
    if op == 'ret':
        t = p.type()
        if t == ('void',):
            return I(ty=t, v=None)
        return I(ty=t, v=p.value(t))
    if op == 'unreachable':
        return I()
    if op == 'resume':
        t = p.type()
        return I(ty=t, v=p.value(t))
    if op == 'landingpad':
        t = p.type()
        cleanup = False
        clauses = []
        while not p.done():
            w = p.next()[1]
            if w == 'cleanup':
                cleanup = True
            elif w == 'catch':
                ct = p.type()
                clauses.append(p.value(ct))
            elif w == 'filter':
                raise IRError('filter clause')
        return I(ty=t, cleanup=cleanup, clauses=clauses)
    if op == 'extractvalue':
        t = p.type()
        v = p.value(t)
        idx = []
        while p.accept(','):
            idx.append(int(p.next()[1]))
        return I(ty=t, v=v, idx=idx)
    if op == 'insertvalue':
        t = p.type()
        v = p.value(t)
        p.expect(',')
        t2 = p.type()
        v2 = p.value(t2)
        idx = []
        while p.accept(','):
            idx.append(int(p.next()[1]))
        return I(ty=t, v=v, ety=t2, e=v2, idx=idx)
    if op == 'freeze':
        t = p.type()
        return I(ty=t, a=p.value(t))
    if op in ('call', 'invoke'):
        while p.peek()[1] in FLAGS or p.peek()[1] in CCONV:
            p.next()
        p.attrs()
        t = p.type()
        fty = None
        if t[0] == 'func':
            fty = t
            ret = t[1]
        else:
            ret = t
        k, v = p.peek()
        if k == 'word' and v == 'asm':
            raise IRError('inline asm')
        callee = p.value(('ptr',))
        p.expect('(')
        args = []
        while not p.accept(')'):
            at = p.type()
            attrs = p.attrs()
            if at == ('metadata',):
                # skip metadata operand
                while p.peek() not in (('punc', ','), ('punc', ')')):
                    p.next()
                args.append((at, ('undef',), {}))
            else:
                args.append((at, p.value(at), attrs))
            p.accept(',')
        bundles = []
        p.attrs_fn = None
        normal = unwind = None
        while not p.done():
            k, v = p.next()
            if (k, v) == ('punc', '['):
                # operand bundles
                while True:
                    tag = p.next()[1].strip('"')
                    p.expect('(')
                    ops = []
                    while not p.accept(')'):
                        bt = p.type()
                        ops.append((bt, p.value(bt)))
                        p.accept(',')
                    bundles.append((tag, ops))
                    if p.accept(']'):
                        break
                    p.accept(',')
            elif v == 'to':
                p.expect('label')
                normal = unq(p.next()[1])
                p.expect('unwind')
                p.expect('label')
                unwind = unq(p.next()[1])
        return Inst('call' if op == 'call' else 'invoke', res, orig, ret=ret, callee=callee, args=args,
                    bundles=bundles, normal=normal, unwind=unwind)
    if op in ('extractelement', 'insertelement', 'shufflevector'):
        ops = []
        while True:
            ops.append(p.tv())
            if not p.accept(','):
                break
        return I(ops=ops)
    if op == 'fence':
        return I()
    if op == 'atomicrmw':
        p.accept('volatile')
        aop = p.next()[1]
        pt, ptr = p.tv()
        p.expect(',')
        t, v = p.tv()
        return I(aop=aop, ptr=ptr, ty=t, v=v)
    raise IRError('instruction %r' % orig)
