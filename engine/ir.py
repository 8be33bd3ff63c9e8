"""Parser for the textual LLVM IR that rustc emits (only what rustc emits for this crate)."""
import functools
import re

PTR = ('ptr',)
VOID = ('void',)


class IRError(Exception):
    pass


class Tok:
    """tiny recursive-descent helper over one line"""
    rx = re.compile(r'\s*(c"(?:[^"\\]|\\.)*"|[%@]"(?:[^"\\]|\\.)*"|"(?:[^"\\]|\\.)*"|[%@!#][-\w$.]+|-?\d+\.\d+e[+-]?\d+|-?\d+|0x[0-9A-Fa-f]+|[A-Za-z_][\w.]*|\.\.\.|<\{|\}>|[()\[\]{}<>,=*:!|])')

    def __init__(self, s):
        self.t = self.rx.findall(s)
        self.i = 0

    def peek(self, k=0):
        j = self.i + k
        return self.t[j] if j < len(self.t) else None

    def next(self):
        v = self.t[self.i]
        self.i += 1
        return v

    def accept(self, x):
        if self.i < len(self.t) and self.t[self.i] == x:
            self.i += 1
            return True
        return False

    def expect(self, x):
        v = self.next()
        if v != x:
            raise IRError('expected %r got %r in %r' % (x, v, self.t))


class Func:
    __slots__ = ('name', 'params', 'ret', 'blocks', 'entry', 'nret', 'sret', 'sig', 'text', '_cfg')


class Module:
    def __init__(self):
        self.types = {}
        self.funcs = {}
        self.decls = {}
        self.globals = {}

    # -- types ---------------------------------------------------------
    def parse_type(self, tk):
        v = tk.next()
        if v == 'ptr':
            t = PTR
        elif v == 'void':
            t = VOID
        elif re.fullmatch(r'i\d+', v):
            t = ('i', int(v[1:]))
        elif v in ('half', 'float', 'double', 'metadata', 'token'):
            t = (v,)
        elif v == '[':
            n = int(tk.next())
            tk.expect('x')
            e = self.parse_type(tk)
            tk.expect(']')
            t = ('arr', n, e)
        elif v == '<':
            n = int(tk.next())
            tk.expect('x')
            e = self.parse_type(tk)
            tk.expect('>')
            t = ('vec', n, e)
        elif v in ('{', '<{'):
            end = '}' if v == '{' else '}>'
            fs = []
            while not tk.accept(end):
                fs.append(self.parse_type(tk))
                tk.accept(',')
            t = ('struct', tuple(fs), v == '<{')
        elif v.startswith('%'):
            t = ('named', v)
        else:
            raise IRError('type? %r' % v)
        return t

    def resolve(self, t):
        while t[0] == 'named':
            t = self.types[t[1]]
        return t

    def align(self, t):
        t = self.resolve(t)
        k = t[0]
        if k == 'i':
            return min(16, max(1, 1 << ((t[1] + 7) // 8 - 1).bit_length()))
        if k == 'ptr':
            return 8
        if k == 'arr':
            return self.align(t[2])
        if k == 'struct':
            return 1 if t[2] else max([self.align(f) for f in t[1]] + [1])
        if k == 'vec':
            return self.size(t)
        raise IRError('align %r' % (t,))

    def size(self, t):
        t = self.resolve(t)
        k = t[0]
        if k == 'i':
            n = (t[1] + 7) // 8
            a = self.align(t)
            return (n + a - 1) // a * a
        if k == 'ptr':
            return 8
        if k == 'arr':
            return t[1] * self.size(t[2])
        if k == 'vec':
            return t[1] * self.size(t[2])
        if k == 'struct':
            o = 0
            for f in t[1]:
                if not t[2]:
                    a = self.align(f)
                    o = (o + a - 1) // a * a
                o += self.size(f)
            a = self.align(t)
            return (o + a - 1) // a * a
        raise IRError('size %r' % (t,))

    def field_off(self, t, idx):
        t = self.resolve(t)
        o = 0
        for j, f in enumerate(t[1]):
            if not t[2]:
                a = self.align(f)
                o = (o + a - 1) // a * a
            if j == idx:
                return o, f
            o += self.size(f)
        raise IRError('field')

    # -- values --------------------------------------------------------
    def parse_value(self, tk, t):
        """operand: int | ('r',name) | ('g',name,off) | ('agg',[...]) | ('undef',)"""
        v = tk.next()
        if v[0] == '%':
            return ('r', v)
        if v[0] == '@':
            return ('g', v, 0)
        if v in ('undef', 'poison'):
            return ('undef', t)
        if v == 'zeroinitializer':
            return ('zero', t)
        if v == 'null':
            return 0
        if v == 'true':
            return 1
        if v == 'false':
            return 0
        if re.fullmatch(r'-?\d+', v):
            return int(v) & ((1 << self.resolve(t)[1]) - 1)
        if v[:2] == 'c"':
            return ('bytes', unescape(v[2:-1]))
        if v in ('getelementptr',):
            while tk.peek() in ('inbounds', 'nuw', 'nusw', 'inrange'):
                tk.next()
            tk.expect('(')
            bt = self.parse_type(tk)
            tk.expect(',')
            self.parse_type(tk)
            base = self.parse_value(tk, PTR)
            idx = []
            while tk.accept(','):
                it = self.parse_type(tk)
                idx.append(self.parse_value(tk, it))
            tk.expect(')')
            off = self.gep_const(bt, [sx(i) for i in idx])
            assert base[0] == 'g'
            return ('g', base[1], base[2] + off)
        if v in ('ptrtoint', 'inttoptr', 'bitcast'):
            tk.expect('(')
            it = self.parse_type(tk)
            x = self.parse_value(tk, it)
            tk.expect('to')
            self.parse_type(tk)
            tk.expect(')')
            return x
        if v in ('{', '<{', '['):
            end = {'{': '}', '<{': '}>', '[': ']'}[v]
            out = []
            while not tk.accept(end):
                it = self.parse_type(tk)
                out.append((it, self.parse_value(tk, it)))
                tk.accept(',')
            return ('agg', out)
        raise IRError('value? %r in %r' % (v, tk.t))

    def gep_const(self, bt, idx):
        off = idx[0] * self.size(bt)
        t = bt
        for k in idx[1:]:
            t = self.resolve(t)
            if t[0] == 'struct':
                o, t = self.field_off(t, k)
                off += o
            else:
                t = t[2]
                off += k * self.size(t)
        return off


def sx(i, w=64):
    return i - (1 << w) if i >> (w - 1) else i


def unescape(s):
    out = bytearray()
    i = 0
    while i < len(s):
        if s[i] == '\\':
            if s[i + 1] == '\\':
                out.append(92)
                i += 2
                continue
            out.append(int(s[i + 1:i + 3], 16))
            i += 3
        else:
            out.append(ord(s[i]))
            i += 1
    return bytes(out)


PARAM_ATTR_PAREN = ('sret', 'byval', 'byref', 'dereferenceable', 'dereferenceable_or_null', 'align', 'captures',
                    'range', 'memory', 'allocsize', 'elementtype', 'initializes', 'nofpclass', 'inalloca')


def skip_attrs(tk):
    while True:
        v = tk.peek()
        if v is None:
            return
        if v in ('align',):
            tk.next()
            if tk.accept('('):
                tk.next()
                tk.expect(')')
            else:
                tk.next()
            continue
        if v in PARAM_ATTR_PAREN:
            tk.next()
            if tk.accept('('):
                d = 1
                while d:
                    x = tk.next()
                    if x == '(':
                        d += 1
                    elif x == ')':
                        d -= 1
            continue
        if re.fullmatch(r'[a-z_][a-z_0-9]*', v) and v not in ('undef', 'poison', 'null', 'true', 'false', 'zeroinitializer', 'getelementptr', 'ptr', 'void', 'ptrtoint', 'inttoptr', 'c', 'x') and not re.fullmatch(r'i\d+', v):
            tk.next()
            continue
        return


FLAGS = {'nuw', 'nsw', 'exact', 'inbounds', 'nusw', 'disjoint', 'nneg', 'samesign', 'volatile', 'atomic', 'weak', 'tail', 'musttail', 'notail'}


def parse_module(text):
    m = Module()
    lines = text.split('\n')
    i = 0
    n = len(lines)
    # types first
    for l in lines:
        if l.startswith('%') and ' = type ' in l:
            name, rest = l.split(' = type ', 1)
            if rest.strip() == 'opaque':
                continue
            m.types[name.strip()] = m.parse_type(Tok(rest))
    while i < n:
        l = lines[i]
        if l.startswith('@'):
            parse_global(m, l)
        elif l.startswith('define'):
            j = i + 1
            while lines[j] != '}':
                j += 1
            try:
                f = parse_func(m, l, lines[i + 1:j])
                m.funcs[f.name] = f
            except IRError:
                pass
            i = j
        elif l.startswith('declare'):
            mm = re.search(r'(@[\w.$]+|@"[^"]*")\(', l)
            if mm:
                m.decls[mm.group(1)] = l
        i += 1
    return m


def parse_global(m, l):
    name, rest = l.split(' = ', 1)
    mm = re.match(r'(?:(?:private|internal|external|hidden|dso_local|unnamed_addr|local_unnamed_addr|thread_local(?:\(\w+\))?|weak_odr|linkonce_odr|weak|linkonce|constant|global|common|protected)\s+)*', rest)
    head = rest[:mm.end()]
    body = rest[mm.end():]
    if head.startswith('external') or 'alias' in body[:6]:
        m.globals[name] = ('extern', l)
        return
    tk = Tok(body)
    try:
        t = m.parse_type(tk)
        v = m.parse_value(tk, t)
        m.globals[name] = ('init', t, v, 'constant' in head)
    except (IRError, IndexError) as e:
        m.globals[name] = ('bad', l, str(e))


def parse_func(m, head, body):
    f = Func()
    mm = re.search(r'(@[\w.$]+|@"[^"]*")\(', head)
    f.name = mm.group(1)
    pre = head[:mm.start()]
    # return type is at the end of the prefix
    tkp = Tok(pre)
    tkp.next()
    f.ret = None
    while f.ret is None:
        save = tkp.i
        v = tkp.peek()
        if v in ('ptr', 'void') or re.fullmatch(r'i\d+', v) or v in ('{', '[', '<', '<{') or v[0] == '%':
            f.ret = m.parse_type(tkp)
        elif v in PARAM_ATTR_PAREN:
            tkp.next()
            if tkp.accept('('):
                d = 1
                while d:
                    x = tkp.next()
                    d += (x == '(') - (x == ')')
            elif v == 'align':
                tkp.next()
        else:
            tkp.next()
    tk = Tok(head[mm.end():])
    f.params = []
    f.sret = None
    while not tk.accept(')'):
        t = m.parse_type(tk)
        save = tk.i
        if tk.peek() == 'sret':
            tk.next()
            tk.expect('(')
            f.sret = m.size(m.parse_type(tk))
            tk.expect(')')
        skip_attrs(tk)
        f.params.append((t, tk.next()))
        tk.accept(',')
    f.sig = (f.ret, tuple(p[0] for p in f.params), f.sret)
    f.blocks = {}
    cur = None
    curname = None
    k = 0
    while k < len(body):
        l = body[k]
        k += 1
        s = l.strip()
        if not s or s.startswith(';'):
            continue
        if not l.startswith(' '):
            curname = '%' + s.split(':')[0]
            cur = []
            f.blocks[curname] = cur
            if len(f.blocks) == 1:
                f.entry = curname
            continue
        if cur is None:
            curname = '%' + str(len([p for p in f.params]))
            cur = []
            f.blocks[curname] = cur
            f.entry = curname
        if s.startswith('switch') and '[' in s and ']' not in s:
            while ']' not in s:
                s += ' ' + body[k].strip()
                k += 1
        try:
            cur.append(parse_inst(m, s))
        except (IRError, IndexError, KeyError, ValueError, TypeError):
            cur.append(('unsupported', s))
    return f


def parse_inst(m, s):
    dst = None
    mm = re.match(r'(%[-\w$.]+|%"[^"]*") = ', s)
    if mm:
        dst = mm.group(1)
        s = s[mm.end():]
    tk = Tok(s)
    op = tk.next()
    while tk.peek() in FLAGS:
        if op in ('tail', 'musttail', 'notail'):
            break
        tk.next()
    if op in ('tail', 'musttail', 'notail'):
        op = tk.next()
    if op in ('add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr'):
        t = m.parse_type(tk)
        a = m.parse_value(tk, t)
        tk.expect(',')
        b = m.parse_value(tk, t)
        if t[0] == 'vec':
            raise IRError('vector op ' + s)
        return ('bin', dst, op, t[1], a, b)
    if op == 'icmp':
        while tk.peek() in FLAGS:
            tk.next()
        pred = tk.next()
        t = m.parse_type(tk)
        a = m.parse_value(tk, t)
        tk.expect(',')
        b = m.parse_value(tk, t)
        return ('icmp', dst, pred, t[1] if t[0] == 'i' else 64, a, b)
    if op in ('zext', 'sext', 'trunc', 'ptrtoint', 'inttoptr', 'bitcast'):
        t = m.parse_type(tk)
        a = m.parse_value(tk, t)
        tk.expect('to')
        t2 = m.parse_type(tk)
        return ('cast', dst, op, t[1] if t[0] == 'i' else 64, a, t2[1] if t2[0] == 'i' else 64)
    if op == 'load':
        while tk.peek() in FLAGS:
            tk.next()
        t = m.parse_type(tk)
        tk.expect(',')
        m.parse_type(tk)
        p = m.parse_value(tk, PTR)
        return ('load', dst, m.resolve(t), p)
    if op == 'store':
        while tk.peek() in FLAGS:
            tk.next()
        t = m.parse_type(tk)
        v = m.parse_value(tk, t)
        tk.expect(',')
        m.parse_type(tk)
        p = m.parse_value(tk, PTR)
        return ('store', m.resolve(t), v, p)
    if op == 'alloca':
        t = m.parse_type(tk)
        return ('alloca', dst, m.size(t))
    if op == 'getelementptr':
        while tk.peek() in FLAGS:
            tk.next()
        bt = m.parse_type(tk)
        tk.expect(',')
        m.parse_type(tk)
        base = m.parse_value(tk, PTR)
        idx = []
        while tk.accept(','):
            it = m.parse_type(tk)
            idx.append((m.parse_value(tk, it), it[1]))
        # compile into constant + list of (value,width,scale)
        off = 0
        dyn = []
        t = None
        for n_, (v, w) in enumerate(idx):
            if n_ == 0:
                sc = m.size(bt)
                t = bt
            else:
                t = m.resolve(t)
                if t[0] == 'struct':
                    o, t = m.field_off(t, v)
                    off += o
                    continue
                t = t[2]
                sc = m.size(t)
            if isinstance(v, int):
                off += sx(v, w) * sc
            else:
                dyn.append((v, w, sc))
        return ('gep', dst, base, off, tuple(dyn))
    if op == 'br':
        if tk.accept('label'):
            return ('jmp', tk.next())
        m.parse_type(tk)
        c = m.parse_value(tk, ('i', 1))
        tk.expect(',')
        tk.expect('label')
        a = tk.next()
        tk.expect(',')
        tk.expect('label')
        b = tk.next()
        return ('br', c, a, b)
    if op == 'switch':
        t = m.parse_type(tk)
        v = m.parse_value(tk, t)
        tk.expect(',')
        tk.expect('label')
        d = tk.next()
        tk.expect('[')
        cases = []
        while not tk.accept(']'):
            m.parse_type(tk)
            c = m.parse_value(tk, t)
            tk.expect(',')
            tk.expect('label')
            cases.append((c, tk.next()))
        return ('switch', v, t[1], d, tuple(cases))
    if op == 'ret':
        t = m.parse_type(tk)
        if t == VOID:
            return ('ret', None, None)
        return ('ret', t, m.parse_value(tk, t))
    if op == 'unreachable':
        return ('unreachable',)
    if op == 'phi':
        t = m.parse_type(tk)
        inc = {}
        while True:
            tk.expect('[')
            v = m.parse_value(tk, t)
            tk.expect(',')
            b = tk.next()
            tk.expect(']')
            inc[b] = v
            if not tk.accept(','):
                break
        return ('phi', dst, inc, t)
    if op == 'select':
        m.parse_type(tk)
        c = m.parse_value(tk, ('i', 1))
        tk.expect(',')
        t = m.parse_type(tk)
        a = m.parse_value(tk, t)
        tk.expect(',')
        m.parse_type(tk)
        b = m.parse_value(tk, t)
        return ('select', dst, c, a, b, t)
    if op == 'extractvalue':
        t = m.parse_type(tk)
        v = m.parse_value(tk, t)
        idx = []
        while tk.accept(','):
            idx.append(int(tk.next()))
        return ('extractvalue', dst, v, tuple(idx))
    if op == 'insertvalue':
        t = m.parse_type(tk)
        v = m.parse_value(tk, t)
        tk.expect(',')
        t2 = m.parse_type(tk)
        x = m.parse_value(tk, t2)
        idx = []
        while tk.accept(','):
            idx.append(int(tk.next()))
        return ('insertvalue', dst, v, x, tuple(idx), m.resolve(t))
    if op == 'freeze':
        t = m.parse_type(tk)
        return ('freeze', dst, m.parse_value(tk, t))
    if op in ('call', 'invoke'):
        skip_attrs(tk)
        # return type (attrs like zeroext/noundef skipped)
        t = m.parse_type(tk)
        if tk.peek() == '(':   # function type form
            d = 0
            while True:
                x = tk.next()
                d += (x == '(') - (x == ')')
                if d == 0:
                    break
        callee = tk.next()
        if callee == 'asm':
            return ('asm', s)
        tk.expect('(')
        args = []
        while not tk.accept(')'):
            at = m.parse_type(tk)
            if at == ('metadata',):
                d = 0
                while not (d == 0 and tk.peek() in (',', ')')):
                    x = tk.next()
                    d += (x in '([{') - (x in ')]}')
                tk.accept(',')
                continue
            skip_attrs(tk)
            args.append((m.parse_value(tk, at), at))
            tk.accept(',')
        if op == 'invoke':
            tk_rest = tk
            while tk_rest.next() != 'to':
                pass
            tk_rest.expect('label')
            return ('call', dst, t, callee, tuple(args), tk_rest.next())
        return ('call', dst, t, callee, tuple(args), None)
    if op == 'fence':
        return ('nop',)
    if op in ('cmpxchg', 'atomicrmw'):
        while tk.peek() in FLAGS:
            tk.next()
        how = tk.next() if op == 'atomicrmw' else None
        m.parse_type(tk)
        p = m.parse_value(tk, PTR)
        tk.expect(',')
        t = m.parse_type(tk)
        a = m.parse_value(tk, t)
        if how:
            return ('atomicrmw', dst, how, m.resolve(t), p, a)
        tk.expect(',')
        t = m.parse_type(tk)
        return ('cmpxchg', dst, m.resolve(t), p, a, m.parse_value(tk, t))
    if op in ('landingpad', 'resume', 'cleanup'):
        return ('unsupported', s)
    if op == 'assume':
        return ('nop',)
    return ('unsupported', s)


# --- v0 demangling, to a plain path -----------------------------------------
@functools.lru_cache(maxsize=None)
def demangle(name):
    """good-enough path of a Rust v0 symbol: list of identifiers, joined by ::"""
    s = name.lstrip('@').strip('"')
    if not s.startswith('_R'):
        return s
    s = s[2:]
    ids = []
    i = 0
    # identifiers are <decimal length><bytes>, optionally preceded by 's<base62>_' disambiguators
    while i < len(s):
        c = s[i]
        if c.isdigit():
            j = i
            while j < len(s) and s[j].isdigit():
                j += 1
            ln = int(s[i:j])
            if s[j:j + 1] == '_':
                j += 1
            if ln == 0:
                i = j
                continue
            ids.append(s[j:j + ln])
            i = j + ln
        elif c == 's':
            # disambiguator s[base62]_
            mm = re.match(r's[0-9a-zA-Z]*_', s[i:])
            i += mm.end() if mm else 1
        elif c == 'B':
            mm = re.match(r'B[0-9a-zA-Z]*_', s[i:])
            i += mm.end() if mm else 1
        else:
            i += 1
    r = '::'.join(ids)
    return r + '::{closure}' if re.match(r'I?NC', s) else r
