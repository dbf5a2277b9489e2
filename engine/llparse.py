"""A parser for the subset of LLVM IR that rustc emits for the harness.

Functions are parsed lazily.  Types: int n (iN), 'ptr', 'void', ('arr', n, t),
('struct', (t, ...), packed), 'float' kinds are not supported.
Operands: ('r', name) | ('c', value) | ('g', global name) | ('e', constexpr).
"""
import re

TOK = re.compile(r'''
    (?P<ws>\s+)
  | (?P<comment>;[^\n]*)
  | (?P<reg>%(?:"[^"]*"|[-a-zA-Z$._0-9]+))
  | (?P<glob>@(?:"[^"]*"|[-a-zA-Z$._0-9]+))
  | (?P<meta>!(?:"[^"]*"|[-a-zA-Z$._0-9]*))
  | (?P<attr>\#\d+)
  | (?P<cstr>c"[^"]*")
  | (?P<str>"[^"]*")
  | (?P<num>-?\d+(?:\.\d+(?:e[+-]?\d+)?)?|0x[0-9A-Fa-f]+)
  | (?P<word>[a-zA-Z_$.][-a-zA-Z$._0-9]*)
  | (?P<punct>[()\[\]{}<>,=*:|])
''', re.X)


class Unsupported(Exception):
    pass


def tokenize(s):
    out = []
    i = 0
    n = len(s)
    while i < n:
        m = TOK.match(s, i)
        if not m:
            raise Unsupported('token at: ' + s[i:i + 60])
        k = m.lastgroup
        if k not in ('ws', 'comment'):
            out.append((k, m.group()))
        i = m.end()
    return out


class Undef:
    def __repr__(self):
        return 'undef'


UNDEF = Undef()

PARAM_ATTRS = {
    'noundef', 'nofree', 'nonnull', 'noalias', 'readonly', 'writeonly', 'readnone', 'nocapture',
    'returned', 'zeroext', 'signext', 'inreg', 'immarg', 'dead_on_unwind', 'writable', 'allocptr',
    'allocalign', 'nest', 'swiftself', 'byref', 'noext', 'dead_on_return',
}
PARAM_ATTRS_PAREN = {'align', 'dereferenceable', 'dereferenceable_or_null', 'captures', 'range', 'sret', 'byval',
                     'initializes', 'nofpclass', 'elementtype', 'dead_on_return', 'memory'}
FLAGS = {'nuw', 'nsw', 'exact', 'inbounds', 'nusw', 'disjoint', 'samesign', 'nneg', 'nnan', 'ninf', 'nsz', 'fast',
         'contract', 'reassoc', 'arcp', 'afn'}
ORDERINGS = {'unordered', 'monotonic', 'acquire', 'release', 'acq_rel', 'seq_cst'}


class P:
    """token cursor"""
    __slots__ = ('t', 'i', 'mod')

    def __init__(self, toks, mod):
        self.t = toks
        self.i = 0
        self.mod = mod

    def peek(self, k=0):
        return self.t[self.i + k][1] if self.i + k < len(self.t) else None

    def kind(self):
        return self.t[self.i][0] if self.i < len(self.t) else None

    def next(self):
        v = self.t[self.i][1]
        self.i += 1
        return v

    def eat(self, s):
        if self.peek() == s:
            self.i += 1
            return True
        return False

    def need(self, s):
        if self.peek() != s:
            raise Unsupported('expected %s got %s in %s' % (s, self.peek(), ' '.join(x[1] for x in self.t)))
        self.i += 1

    def skip_parens(self):
        self.need('(')
        d = 1
        while d:
            v = self.next()
            if v == '(':
                d += 1
            elif v == ')':
                d -= 1

    def type(self):
        v = self.next()
        if v == 'ptr':
            return 'ptr'
        if v == 'void':
            return 'void'
        if v[0] == 'i' and v[1:].isdigit():
            return int(v[1:])
        if v == '[':
            n = int(self.next())
            self.need('x')
            t = self.type()
            self.need(']')
            return ('arr', n, t)
        if v == '{':
            ts = []
            while not self.eat('}'):
                ts.append(self.type())
                self.eat(',')
            return ('struct', tuple(ts), False)
        if v == '<':
            if self.peek() == '{':
                self.next()
                ts = []
                while not self.eat('}'):
                    ts.append(self.type())
                    self.eat(',')
                self.need('>')
                return ('struct', tuple(ts), True)
            n = int(self.next())
            self.need('x')
            t = self.type()
            self.need('>')
            return ('vec', n, t)
        if v in ('float', 'double', 'half', 'fp128', 'bfloat'):
            return v
        if v == 'metadata':
            return 'metadata'
        if v == 'token' or v == 'label':
            return v
        if v[0] == '%':
            return ('named', v)
        raise Unsupported('type ' + v)

    def skip_param_attrs(self):
        while True:
            v = self.peek()
            if v in PARAM_ATTRS_PAREN:
                self.next()
                if self.peek() == '(':
                    self.skip_parens()
                elif v == 'align':
                    self.next()
                continue
            if v in PARAM_ATTRS:
                self.next()
                if self.peek() == '(':
                    self.skip_parens()
                continue
            if self.kind() == 'str':
                self.next()
                if self.eat('='):
                    self.next()
                continue
            return

    def value(self, ty):
        k = self.kind()
        v = self.peek()
        if k == 'reg':
            self.next()
            return ('r', v)
        if k == 'glob':
            self.next()
            return ('g', v)
        if k == 'num':
            self.next()
            if not isinstance(ty, int):
                raise Unsupported('float const')
            return ('c', int(v) & ((1 << ty) - 1))
        if v == 'true':
            self.next()
            return ('c', 1)
        if v == 'false':
            self.next()
            return ('c', 0)
        if v == 'null':
            self.next()
            return ('c', 0)
        if v in ('undef', 'poison'):
            self.next()
            return ('c', UNDEF)
        if v == 'zeroinitializer':
            self.next()
            return ('zero', ty)
        if k == 'cstr':
            self.next()
            return ('bytes', decode_cstr(v[2:-1]))
        if v in ('inttoptr', 'ptrtoint', 'bitcast', 'trunc', 'addrspacecast'):
            self.next()
            self.need('(')
            t1 = self.type()
            x = self.value(t1)
            self.need('to')
            t2 = self.type()
            self.need(')')
            return ('e', v, t1, x, t2)
        if v == 'getelementptr':
            self.next()
            while self.peek() != '(':
                self.next()
                if self.peek() == '(' and self.peek(-1) == 'inrange':
                    self.skip_parens()
            self.need('(')
            bt = self.type()
            self.need(',')
            pt = self.type()
            base = self.value(pt)
            idx = []
            while self.eat(','):
                it = self.type()
                idx.append((it, self.value(it)))
            self.need(')')
            return ('e', 'gep', bt, base, idx)
        if v in ('sub', 'add'):
            self.next()
            while self.peek() in FLAGS:
                self.next()
            self.need('(')
            t1 = self.type()
            a = self.value(t1)
            self.need(',')
            t2 = self.type()
            b = self.value(t2)
            self.need(')')
            return ('e', v, t1, a, b)
        if v in ('{', '<', '['):
            if v == '<':
                self.next()
                self.need('{')
                close = '}'
            else:
                self.next()
                close = '}' if v == '{' else ']'
            vals = []
            while not self.eat(close):
                t = self.type()
                vals.append((t, self.value(t)))
                self.eat(',')
            if v == '<':
                self.need('>')
            return ('agg', vals)
        raise Unsupported('value %s' % v)

    def typed(self):
        t = self.type()
        self.skip_param_attrs()
        return t, self.value(t)


def decode_cstr(s):
    out = bytearray()
    i = 0
    while i < len(s):
        if s[i] == '\\':
            if s[i + 1] == '\\':
                out.append(92)
                i += 2
            else:
                out.append(int(s[i + 1:i + 3], 16))
                i += 3
        else:
            out.append(ord(s[i]))
            i += 1
    return bytes(out)


def size_of(t):
    if isinstance(t, int):
        return max(1, (t + 7) // 8) if t <= 64 else (t // 8)
    if t == 'ptr':
        return 8
    if t[0] == 'arr' or t[0] == 'vec':
        return t[1] * size_of(t[2])
    if t[0] == 'struct':
        if t[2]:
            return sum(size_of(x) for x in t[1])
        o = 0
        al = 1
        for x in t[1]:
            a = align_of(x)
            al = max(al, a)
            o = (o + a - 1) // a * a + size_of(x)
        return (o + al - 1) // al * al
    raise Unsupported('size of %r' % (t,))


def align_of(t):
    if isinstance(t, int):
        return min(8, size_of(t)) if t <= 64 else 16
    if t == 'ptr':
        return 8
    if t[0] in ('arr', 'vec'):
        return align_of(t[2])
    if t[0] == 'struct':
        return 1 if t[2] else max([1] + [align_of(x) for x in t[1]])
    raise Unsupported('align of %r' % (t,))


def field_offset(t, i):
    if t[2]:
        return sum(size_of(x) for x in t[1][:i])
    o = 0
    for j, x in enumerate(t[1]):
        a = align_of(x)
        o = (o + a - 1) // a * a
        if j == i:
            return o
        o += size_of(x)
    raise Unsupported('field')


class Fn:
    __slots__ = ('name', 'params', 'blocks', 'entry', 'nloops')


class Module:
    """One or more .ll files merged."""

    def __init__(self, paths):
        self.raw = {}        # fn name -> (header, body lines)
        self.decl = {}       # declared fn -> attrs text
        self.glob = {}       # global -> text
        self.attrs = {}      # (file, '#n') -> text
        self.fn = {}
        self.file_of = {}
        self.alias = {}
        for pi, p in enumerate(paths):
            self._load(p, pi)

    def _load(self, path, pi):
        with open(path) as f:
            lines = f.read().split('\n')
        i = 0
        n = len(lines)
        while i < n:
            l = lines[i]
            if l.startswith('define '):
                name = re.search(r'@("[^"]*"|[-a-zA-Z$._0-9]+)\(', l).group(0)[:-1]
                j = i + 1
                while lines[j] != '}':
                    j += 1
                if name not in self.raw:
                    self.raw[name] = (l, lines[i + 1:j])
                    self.file_of[name] = pi
                i = j
            elif l.startswith('declare '):
                m = re.search(r'@("[^"]*"|[-a-zA-Z$._0-9]+)\(', l)
                name = m.group(0)[:-1]
                at = re.search(r'#\d+', l)
                self.decl.setdefault(name, (pi, at.group() if at else None, l))
            elif l.startswith('attributes '):
                m = re.match(r'attributes (#\d+) = \{(.*)\}', l)
                self.attrs[(pi, m.group(1))] = m.group(2)
            elif l.startswith('@'):
                m = re.match(r'(@(?:"[^"]*"|[-a-zA-Z$._0-9]+)) = (.*)$', l)
                if m and ' alias ' in l:
                    t = re.findall(r'@(?:"[^"]*"|[-a-zA-Z$._0-9]+)', m.group(2))
                    self.alias[m.group(1)] = t[-1]
                elif m:
                    self.glob.setdefault(m.group(1), m.group(2))
            i += 1

    def decl_attrs(self, name):
        d = self.decl.get(name)
        if not d or not d[1]:
            return ''
        return self.attrs.get((d[0], d[1]), '')

    def get(self, name):
        name = self.alias.get(name, name)
        f = self.fn.get(name)
        if f is None:
            if name not in self.raw:
                return None
            f = self.fn[name] = self._parse_fn(name)
        return f

    def global_init(self, name):
        """(type, value) of a global constant/variable, or None"""
        txt = self.glob[name]
        p = P(tokenize(txt), self)
        const = False
        while True:
            v = p.peek()
            if v in ('constant', 'global'):
                const = v == 'constant'
                p.next()
                break
            if v == 'addrspace' or v == 'thread_local':
                p.next()
                if p.peek() == '(':
                    p.skip_parens()
                continue
            p.next()
            if p.peek() is None:
                return None
        t = p.type()
        if p.peek() in (None, ','):
            return (t, None, const)
        v = p.value(t)
        return (t, v, const)

    # ------------------------------------------------------------ functions
    def _parse_fn(self, name):
        head, body = self.raw[name]
        f = Fn()
        f.name = name
        m = head.index('@')
        p = P(tokenize(head[m:]), self)
        p.next()
        p.need('(')
        params = []
        while not p.eat(')'):
            if p.eat('...'):
                continue
            t = p.type()
            p.skip_param_attrs()
            params.append(p.next())
            p.eat(',')
        f.params = params
        blocks = {}
        cur = None
        ins = None
        first = None
        i = 0
        n = len(body)
        while i < n:
            l = body[i]
            i += 1
            if not l or l[0] == ';':
                continue
            if l[0] not in ' \t':
                m = re.match(r'^("[^"]*"|[-a-zA-Z$._0-9]+):', l)
                if not m:
                    raise Unsupported('label ' + l)
                cur = '%' + m.group(1)
                ins = []
                blocks[cur] = ins
                if first is None:
                    first = cur
                continue
            s = l.strip()
            if not s or s[0] == ';':
                continue
            if s.startswith('#dbg'):
                continue
            if ' switch ' in ' ' + s or s.startswith('switch '):
                while ']' not in s[s.index('['):]:
                    s += ' ' + body[i].strip()
                    i += 1
            while i < n and body[i].startswith('          ') :
                s += ' ' + body[i].strip()
                i += 1
            if cur is None:
                cur = first = '%start?'
                ins = []
                blocks[cur] = ins
            ins.append(s)
        # instructions are parsed lazily per block
        f.blocks = {b: None for b in blocks}
        f.blocks = LazyBlocks(self, blocks)
        f.entry = first
        return f


class LazyBlocks:
    __slots__ = ('mod', 'raw', 'done')

    def __init__(self, mod, raw):
        self.mod = mod
        self.raw = raw
        self.done = {}

    def __getitem__(self, b):
        d = self.done.get(b)
        if d is None:
            d = self.done[b] = parse_block(self.raw[b], self.mod)
        return d

    def keys(self):
        return self.raw.keys()


BIN = {'add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr'}
CASTS = {'zext', 'sext', 'trunc', 'ptrtoint', 'inttoptr', 'bitcast', 'ptrtoaddr', 'addrspacecast'}


def parse_block(lines, mod):
    """-> (phis, instrs); phi: (dest, ty, {pred: operand})"""
    phis = []
    out = []
    for s in lines:
        ins = parse_instr(s, mod)
        if ins is None:
            continue
        if ins[0] == 'phi':
            phis.append(ins)
        else:
            out.append(ins)
    return phis, out


IGNORED = ('@llvm.experimental.noalias', '@llvm.lifetime', '@llvm.dbg', '@llvm.donothing', '@llvm.invariant')


def parse_instr(s, mod):
    if 'call ' in s and any(x in s for x in IGNORED):
        return None
    p = P(tokenize(s), mod)
    dest = None
    if p.kind() == 'reg' and p.peek(1) == '=':
        dest = p.next()
        p.next()
    op = p.next()
    if op in ('tail', 'musttail', 'notail'):
        op = p.next()
    if op in BIN:
        while p.peek() in FLAGS:
            p.next()
        t = p.type()
        a = p.value(t)
        p.need(',')
        b = p.value(t)
        return ('bin', dest, op, t, a, b)
    if op == 'icmp':
        while p.peek() in FLAGS:
            p.next()
        pr = p.next()
        t = p.type()
        a = p.value(t)
        p.need(',')
        b = p.value(t)
        return ('icmp', dest, pr, t, a, b)
    if op == 'br':
        if p.eat('label'):
            return ('jmp', None, p.next())
        t = p.type()
        c = p.value(t)
        p.need(',')
        p.need('label')
        a = p.next()
        p.need(',')
        p.need('label')
        return ('br', None, c, a, p.next())
    if op == 'phi':
        while p.peek() in FLAGS:
            p.next()
        t = p.type()
        inc = {}
        while True:
            p.need('[')
            v = p.value(t)
            p.need(',')
            b = p.next()
            p.need(']')
            inc[b] = v
            if not p.eat(','):
                break
        return ('phi', dest, t, inc)
    if op == 'load':
        at = p.eat('atomic')
        p.eat('volatile')
        t = p.type()
        p.need(',')
        p.type()
        ptr = p.value('ptr')
        order = None
        if at:
            if p.eat('syncscope'):
                p.skip_parens()
            order = p.next()
        return ('load', dest, t, ptr, order)
    if op == 'store':
        at = p.eat('atomic')
        p.eat('volatile')
        t = p.type()
        v = p.value(t)
        p.need(',')
        p.type()
        ptr = p.value('ptr')
        order = None
        if at:
            if p.eat('syncscope'):
                p.skip_parens()
            order = p.next()
        return ('store', None, t, v, ptr, order)
    if op == 'atomicrmw':
        p.eat('volatile')
        k = p.next()
        p.type()
        ptr = p.value('ptr')
        p.need(',')
        t = p.type()
        v = p.value(t)
        if p.eat('syncscope'):
            p.skip_parens()
        return ('rmw', dest, k, t, ptr, v, p.next())
    if op == 'cmpxchg':
        weak = p.eat('weak')
        p.eat('volatile')
        p.type()
        ptr = p.value('ptr')
        p.need(',')
        t = p.type()
        e = p.value(t)
        p.need(',')
        p.type()
        n = p.value(t)
        if p.eat('syncscope'):
            p.skip_parens()
        o1 = p.next()
        o2 = p.next()
        return ('cas', dest, t, ptr, e, n, o1, o2, weak)
    if op == 'fence':
        if p.eat('syncscope'):
            p.skip_parens()
        return ('fence', None, p.next())
    if op == 'getelementptr':
        while p.peek() in FLAGS or p.peek() == 'inrange':
            p.next()
            if p.peek() == '(':
                p.skip_parens()
        bt = p.type()
        p.need(',')
        p.type()
        base = p.value('ptr')
        idx = []
        while p.eat(','):
            if p.kind() == 'meta':
                break
            t = p.type()
            idx.append((t, p.value(t)))
        return ('gep', dest, bt, base, idx)
    if op == 'alloca':
        p.eat('inalloca')
        t = p.type()
        cnt = None
        if p.eat(','):
            if p.peek() != 'align':
                ct = p.type()
                cnt = p.value(ct)
        return ('alloca', dest, t, cnt)
    if op in CASTS:
        while p.peek() in FLAGS:
            p.next()
        t = p.type()
        v = p.value(t)
        p.need('to')
        t2 = p.type()
        return ('cast', dest, op, t, v, t2)
    if op == 'select':
        while p.peek() in FLAGS:
            p.next()
        t0, c = p.typed()
        p.need(',')
        t, a = p.typed()
        p.need(',')
        _, b = p.typed()
        return ('select', dest, t, c, a, b)
    if op == 'ret':
        t = p.type()
        if t == 'void':
            return ('ret', None, None, None)
        return ('ret', None, t, p.value(t))
    if op == 'unreachable':
        return ('unreachable', None)
    if op == 'switch':
        t = p.type()
        v = p.value(t)
        p.need(',')
        p.need('label')
        d = p.next()
        p.need('[')
        cases = []
        while not p.eat(']'):
            ct = p.type()
            cv = p.value(ct)[1]
            p.need(',')
            p.need('label')
            cases.append((cv, p.next()))
        return ('switch', None, t, v, d, cases)
    if op in ('call', 'invoke'):
        while p.peek() in FLAGS or p.peek() in ('fastcc', 'ccc', 'coldcc', 'rust_cold', 'preserve_mostcc') :
            p.next()
        if p.peek() and p.peek() == 'cc':
            p.next()
            p.next()
        p.skip_param_attrs()
        t = p.type()
        if p.peek() == '(':  # function type
            p.skip_parens()
        if p.kind() == 'word' and p.peek() == 'asm':
            raise Unsupported('inline asm')
        callee = p.next()
        p.need('(')
        args = []
        while not p.eat(')'):
            at = p.type()
            p.skip_param_attrs()
            if at == 'metadata':
                args.append((at, ('c', 0)))
                d = 0
                while True:
                    v = p.peek()
                    if d == 0 and v in (',', ')'):
                        break
                    if v == '(':
                        d += 1
                    if v == ')':
                        d -= 1
                    p.next()
            else:
                args.append((at, p.value(at)))
            p.eat(',')
        attrs = []
        while p.kind() == 'attr':
            attrs.append(p.next())
        while p.peek() == '[':
            # operand bundles
            d = 0
            while True:
                v = p.next()
                if v in '[(':
                    d += 1
                elif v in '])':
                    d -= 1
                if d == 0:
                    break
        if op == 'call':
            return ('call', dest, t, callee, args, None, None)
        p.need('to')
        p.need('label')
        n = p.next()
        p.need('unwind')
        p.need('label')
        u = p.next()
        return ('call', dest, t, callee, args, n, u)
    if op == 'landingpad':
        t = p.type()
        return ('landingpad', dest, t, s)
    if op == 'resume':
        t = p.type()
        return ('resume', None, p.value(t))
    if op == 'extractvalue':
        t, v = p.typed()
        idx = []
        while p.eat(','):
            if p.kind() != 'num':
                break
            idx.append(int(p.next()))
        return ('extractvalue', dest, t, v, idx)
    if op == 'insertvalue':
        t, v = p.typed()
        p.need(',')
        t2, v2 = p.typed()
        idx = []
        while p.eat(','):
            if p.kind() != 'num':
                break
            idx.append(int(p.next()))
        return ('insertvalue', dest, t, v, v2, idx)
    if op == 'freeze':
        t, v = p.typed()
        return ('freeze', dest, t, v)
    raise Unsupported('instruction: ' + s[:120])
