"""Parser for the textual LLVM IR (version 18) that clang/opt emit.

Only the subset that clang produces for the translation units in /verif/tu is
understood; anything else raises IRError, which the driver reports as
"outside the verifier's reach", never as a proof or a violation.
"""
import re


class IRError(Exception):
    pass


TOK = re.compile(r'''\s*(
   c"(?:[^"\\]|\\.)*" |
   [%@!$]"[^"]*" | [%@!$][-\w.$]+ | "(?:[^"\\]|\\.)*" |
   0x[KLMHR]?[0-9A-Fa-f]+ | -?\d+\.\d+(?:e[+-]?\d+)? | -?\d+ |
   \.\.\. | [A-Za-z_][\w.]* | [()\[\]{}<>,=*\#:|!]
)''', re.X)


def tokenize(s):
    out = []
    i = 0
    n = len(s)
    while i < n:
        m = TOK.match(s, i)
        if not m:
            if s[i:].strip() == '':
                break
            raise IRError('tokenize: ' + s[i:i + 60])
        out.append(m.group(1))
        i = m.end()
    return out


# ---- types: ('i',w) ('ptr',) ('fp',name) ('void',) ('arr',n,T) ('st',[T..],packed) ('named',name) ('vec',n,T)
class P:
    """token stream"""
    def __init__(self, toks, mod):
        self.t = toks
        self.i = 0
        self.mod = mod

    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else None

    def next(self):
        if self.i >= len(self.t):
            raise IRError('unexpected end: ' + ' '.join(self.t))
        x = self.t[self.i]
        self.i += 1
        return x

    def acc(self, x):
        if self.peek() == x:
            self.i += 1
            return True
        return False

    def exp(self, x):
        if not self.acc(x):
            raise IRError('expected %r got %r in %s' % (x, self.peek(), ' '.join(self.t)))

    def type(self):
        t = self.next()
        r = None
        if re.fullmatch(r'i\d+', t):
            r = ('i', int(t[1:]))
        elif t == 'ptr':
            r = ('ptr',)
        elif t in ('float', 'double', 'x86_fp80', 'half', 'fp128'):
            r = ('fp', t)
        elif t in ('void', 'metadata', 'label', 'token'):
            r = (t,)
        elif t == '[':
            n = int(self.next())
            self.exp('x')
            e = self.type()
            self.exp(']')
            r = ('arr', n, e)
        elif t == '{':
            r = ('st', self._fields('}'), False)
        elif t == '<':
            if self.peek() == '{':
                self.next()
                f = self._fields('}')
                self.exp('>')
                r = ('st', f, True)
            else:
                n = int(self.next())
                self.exp('x')
                e = self.type()
                self.exp('>')
                r = ('vec', n, e)
        elif t[0] == '%':
            r = ('named', unq(t[1:]))
        elif t == 'opaque':
            r = ('opaque',)
        else:
            raise IRError('type? %r in %s' % (t, ' '.join(self.t)))
        while self.peek() == '(' and r[0] != 'ptr':  # function type
            d = 0
            while True:
                x = self.next()
                if x == '(':
                    d += 1
                elif x == ')':
                    d -= 1
                    if d == 0:
                        break
            r = ('fn', r)
            break
        return r

    def _fields(self, close):
        f = []
        if self.acc(close):
            return f
        while True:
            f.append(self.type())
            if self.acc(close):
                return f
            self.exp(',')

    ATTR0 = {'noundef', 'nonnull', 'signext', 'zeroext', 'inreg', 'nocapture', 'readonly', 'writeonly', 'noalias',
             'returned', 'immarg', 'readnone', 'nofree', 'nest', 'swiftself', 'allocptr', 'noreturn', 'allocalign',
             'dead_on_unwind', 'writable'}

    def skip_attrs(self):
        while True:
            p = self.peek()
            if p in self.ATTR0:
                self.next()
            elif p == 'align':
                self.next()
                if self.acc('('):
                    self.next(); self.exp(')')
                else:
                    self.next()
            elif p in ('dereferenceable', 'dereferenceable_or_null', 'byval', 'sret', 'elementtype', 'range', 'memory',
                       'captures', 'inalloca', 'preallocated', 'initializes', 'byref', 'nofpclass'):
                self.next()
                self.exp('(')
                d = 1
                while d:
                    x = self.next()
                    if x == '(':
                        d += 1
                    elif x == ')':
                        d -= 1
            else:
                return

    def value(self, ty):
        """value of known type -> operand tuple"""
        t = self.next()
        if t[0] == '%':
            return ('l', unq(t[1:]), ty)
        if t[0] == '@':
            return ('g', unq(t[1:]), ty)
        if re.fullmatch(r'-?\d+', t):
            return ('c', int(t), ty)
        if t == 'true':
            return ('c', 1, ty)
        if t == 'false':
            return ('c', 0, ty)
        if t == 'null':
            return ('null', None, ty)
        if t in ('undef', 'poison'):
            return ('undef', None, ty)
        if t == 'zeroinitializer':
            return ('zero', None, ty)
        if re.fullmatch(r'-?\d+\.\d+(e[+-]?\d+)?|0x[KLMHR]?[0-9A-Fa-f]+', t):
            return ('fp', t, ty)
        if t[0] == 'c' and t[1:2] == '"':
            return ('str', t[2:-1], ty)
        if t == 'getelementptr':
            while self.peek() in ('inbounds', 'nuw', 'nusw', 'inrange'):
                self.next()
            self.exp('(')
            bt = self.type()
            self.exp(',')
            ops = []
            while True:
                while self.peek() in ('inrange',):
                    self.next()
                tt = self.type()
                ops.append(self.value(tt))
                if self.acc(')'):
                    break
                self.exp(',')
            return ('cgep', (bt, ops), ty)
        if t in ('bitcast', 'inttoptr', 'ptrtoint', 'trunc', 'addrspacecast', 'zext', 'sext'):
            self.exp('(')
            tt = self.type()
            v = self.value(tt)
            self.exp('to')
            t2 = self.type()
            self.exp(')')
            return ('ccast', (t, v, t2), ty)
        if t in ('add', 'sub', 'mul', 'xor', 'icmp', 'shl'):
            while self.peek() != '(':
                self.next()
            self.exp('(')
            a = self.tv()
            self.exp(',')
            b = self.tv()
            self.exp(')')
            return ('cbin', (t, a, b), ty)
        if t in ('[', '{', '<'):
            if t == '<' and self.peek() == '{':
                self.next()
                close = '}'
            else:
                close = {'[': ']', '{': '}', '<': '>'}[t]
            vs = []
            if not self.acc(close):
                while True:
                    vs.append(self.tv())
                    if self.acc(close):
                        break
                    self.exp(',')
            if t == '<' and close == '}':
                self.exp('>')
            return ('agg', vs, ty)
        if t == 'no_cfi' or t == 'dso_local_equivalent':
            return self.value(ty)
        if t[0] == '!':
            return ('md', t, ty)
        raise IRError('value? %r in %s' % (t, ' '.join(self.t)))

    def tv(self):
        ty = self.type()
        self.skip_attrs()
        return self.value(ty)


def unq(s):
    if s and s[0] == '"':
        return s[1:-1]
    return s


class Instr:
    __slots__ = ('op', 'res', 'ty', 'ops', 'x', 'text', 'line', 'loopmd')

    def __init__(self, op, res, ty, ops, x=None):
        self.op, self.res, self.ty, self.ops, self.x = op, res, ty, ops, x
        self.line = None
        self.loopmd = None
        self.text = None

    def __repr__(self):
        return '%s = %s %s %s %s' % (self.res, self.op, self.ty, self.ops, self.x)


class Block:
    def __init__(self, name):
        self.name = name
        self.ins = []
        self.succ = []


class Function:
    def __init__(self, name):
        self.name = name
        self.params = []  # (name, type, attrs dict)
        self.ret = None
        self.blocks = {}
        self.order = []
        self.attrs = ''
        self.body = None  # raw lines
        self.parsed = False


class Module:
    def __init__(self):
        self.types = {}
        self.funcs = {}
        self.decls = {}
        self.globals = {}
        self.md = {}
        self.attrs = {}
        self.dbgline = {}

    # ---- layout
    def resolve(self, ty):
        while ty[0] == 'named':
            ty = self.types[ty[1]]
        return ty

    def sizeof(self, ty):
        ty = self.resolve(ty)
        k = ty[0]
        if k == 'i':
            w = ty[1]
            b = (w + 7) // 8
            n = 1
            while n < b:
                n *= 2
            return n
        if k == 'ptr':
            return 8
        if k == 'fp':
            return {'float': 4, 'double': 8, 'x86_fp80': 16, 'half': 2, 'fp128': 16}[ty[1]]
        if k == 'arr':
            return ty[1] * self.sizeof(ty[2])
        if k == 'vec':
            return ty[1] * self.sizeof(ty[2])
        if k == 'st':
            off = 0
            al = 1
            for f in ty[1]:
                a = 1 if ty[2] else self.alignof(f)
                al = max(al, a)
                off = (off + a - 1) // a * a + self.sizeof(f)
            return (off + al - 1) // al * al
        if k == 'fn':
            return 1
        raise IRError('sizeof %r' % (ty,))

    def alignof(self, ty):
        ty = self.resolve(ty)
        k = ty[0]
        if k == 'st':
            if ty[2]:
                return 1
            return max([1] + [self.alignof(f) for f in ty[1]])
        if k == 'arr':
            return self.alignof(ty[2])
        return min(16, self.sizeof(ty))

    def fieldoff(self, ty, i):
        ty = self.resolve(ty)
        off = 0
        for j, f in enumerate(ty[1]):
            a = 1 if ty[2] else self.alignof(f)
            off = (off + a - 1) // a * a
            if j == i:
                return off, f
            off += self.sizeof(f)
        raise IRError('fieldoff')


MDTAIL = re.compile(r'(, ![a-zA-Z_.][\w.]* !(?:\d+|\{\}))+$')
DBG = re.compile(r'!dbg !(\d+)')


def parse_module(text):
    m = Module()
    lines = text.split('\n')
    i = 0
    n = len(lines)
    while i < n:
        l = lines[i]
        if l.startswith('define '):
            f = parse_define(m, l)
            j = i + 1
            while lines[j] != '}':
                j += 1
            f.body = lines[i + 1:j]
            m.funcs[f.name] = f
            i = j + 1
            continue
        if l.startswith('declare '):
            f = parse_define(m, l)
            m.decls[f.name] = f
        elif l.startswith('%'):
            mm = re.match(r'%("[^"]*"|[-\w.$]+) = type (.*)$', l)
            if mm:
                p = P(tokenize(mm.group(2)), m)
                m.types[unq(mm.group(1))] = p.type()
        elif l.startswith('@'):
            mm = re.match(r'@("[^"]*"|[-\w.$]+) = (.*)$', l)
            if mm:
                m.globals[unq(mm.group(1))] = mm.group(2)
        elif l.startswith('!'):
            mm = re.match(r'!(\d+) = (.*)$', l)
            if mm:
                m.md[int(mm.group(1))] = mm.group(2)
        elif l.startswith('attributes'):
            mm = re.match(r'attributes #(\d+) = \{ (.*) \}', l)
            if mm:
                m.attrs[mm.group(1)] = mm.group(2)
        i += 1
    return m


def parse_define(m, l):
    p0 = l.index('@')
    mm = re.match(r'@("[^"]*"|[-\w.$]+)\(', l[p0:])
    name = unq(mm.group(1))
    f = Function(name)
    head = re.sub(r'!dbg !\d+ ', '', l[:p0])
    # return type: last type in the head
    toks = tokenize(head)
    # drop leading keywords
    k = 1
    while True:
        p = P(toks[k:], m)
        p.skip_attrs()
        if p.i:
            k += p.i
            continue
        t = toks[k]
        if t in ('linkonce_odr', 'weak_odr', 'internal', 'dso_local', 'hidden', 'private', 'weak', 'available_externally',
                 'linkonce', 'external', 'protected', 'fastcc', 'coldcc', 'extern_weak', 'unnamed_addr', 'local_unnamed_addr'):
            k += 1
            continue
        break
    f.ret = P(toks[k:], m).type()
    rest = l[p0 + mm.end():]
    # split args at matching paren
    d = 1
    q = False
    for e, ch in enumerate(rest):
        if ch == '"':
            q = not q
        if q:
            continue
        if ch == '(':
            d += 1
        elif ch == ')':
            d -= 1
            if d == 0:
                break
    args = rest[:e]
    f.attrs = rest[e + 1:]
    md = DBG.search(f.attrs)
    f.dbg = int(md.group(1)) if md else None
    toks = tokenize(args)
    p = P(toks, m)
    idx = 0
    f.vararg = False
    while p.peek() is not None:
        if p.acc('...'):
            f.vararg = True
            break
        ty = p.type()
        s = p.i
        p.skip_attrs()
        at = ' '.join(toks[s:p.i])
        nm = None
        if p.peek() and p.peek()[0] == '%':
            nm = unq(p.next()[1:])
        else:
            nm = str(idx)
        f.params.append((nm, ty, at))
        idx += 1
        if not p.acc(','):
            break
    return f


def parse_body(m, f):
    if f.parsed:
        return
    f.parsed = True
    cur = Block('entry')
    # the entry block may have an explicit label
    first = True
    k = 0
    lines = f.body
    while k < len(lines):
        l = lines[k]
        k += 1
        if not l.strip():
            continue
        mm = re.match(r'("[^"]*"|[-\w.$]+):(\s*;.*)?$', l)
        if mm:
            nm = unq(mm.group(1))
            if not (first and not cur.ins):
                pass
            cur = Block(nm)
            f.blocks[nm] = cur
            f.order.append(nm)
            first = False
            continue
        if first:
            # implicit entry label: number after params
            f.blocks[cur.name] = cur
            f.order.append(cur.name)
            first = False
        s = l.strip()
        if s.startswith('#dbg_') or 'call void @llvm.dbg.' in s:
            continue
        # multi-line: switch, landingpad, invoke
        if re.match(r'(%\S+ = )?(tail |musttail |notail )?invoke ', s):
            while ' unwind label ' not in s:
                s += ' ' + lines[k].strip()
                k += 1
        elif s.startswith('switch '):
            while not re.search(r'\](, ![a-zA-Z_.][\w.]* !\d+)*$', s):
                s += ' ' + lines[k].strip()
                k += 1
        elif re.match(r'%\S+ = landingpad', s):
            while k < len(lines) and re.match(r'\s+(catch|filter|cleanup)', lines[k]):
                s = MDTAIL.sub('', s) + ' ' + lines[k].strip()
                k += 1
        d = DBG.search(s)
        s0 = s
        s = MDTAIL.sub('', s)
        try:
            ins = parse_instr(m, s)
        except IRError as e:
            ins = Instr('unsupported', None, None, [], str(e))
        except (IndexError, KeyError, ValueError) as e:
            ins = Instr('unsupported', None, None, [], 'parse %r: %s' % (e, s))
        ins.line = int(d.group(1)) if d else None
        ins.text = s
        lm = re.search(r'!llvm\.loop !(\d+)', s0)
        ins.loopmd = int(lm.group(1)) if lm else None
        cur.ins.append(ins)
    for b in f.blocks.values():
        t = b.ins[-1]
        if t.op == 'br':
            b.succ = list(t.x)
        elif t.op == 'switch':
            b.succ = [t.x[0]] + [c[1] for c in t.x[1]]
        elif t.op == 'invoke':
            b.succ = [t.x['normal'], t.x['unwind']]


BIN = {'add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor',
       'fadd', 'fsub', 'fmul', 'fdiv', 'frem'}
CAST = {'trunc', 'zext', 'sext', 'ptrtoint', 'inttoptr', 'bitcast', 'sitofp', 'uitofp', 'fptoui', 'fptosi', 'fpext',
        'fptrunc', 'addrspacecast'}
FLAGS = {'nuw', 'nsw', 'exact', 'fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc', 'disjoint', 'nneg',
         'inbounds', 'volatile', 'tail', 'musttail', 'notail', 'weak', 'samesign'}


def parse_instr(m, s):
    toks = tokenize(s)
    p = P(toks, m)
    res = None
    if len(toks) > 1 and toks[0][0] == '%' and toks[1] == '=':
        res = unq(p.next()[1:])
        p.next()
    op = p.next()
    flags = set()
    while op in ('tail', 'musttail', 'notail'):
        op = p.next()
    while p.peek() in FLAGS:
        flags.add(p.next())
    if op in BIN:
        a = p.tv()
        p.exp(',')
        b = p.value(a[2])
        return Instr(op, res, a[2], [a, b], flags)
    if op == 'fneg':
        a = p.tv()
        return Instr(op, res, a[2], [a])
    if op in ('icmp', 'fcmp'):
        while p.peek() in FLAGS:
            p.next()
        pred = p.next()
        a = p.tv()
        p.exp(',')
        b = p.value(a[2])
        return Instr(op, res, ('i', 1), [a, b], pred)
    if op in CAST:
        a = p.tv()
        p.exp('to')
        return Instr(op, res, p.type(), [a])
    if op == 'freeze':
        a = p.tv()
        return Instr(op, res, a[2], [a])
    if op == 'alloca':
        ty = p.type()
        cnt = None
        if p.acc(','):
            if p.peek() != 'align':
                cnt = p.tv()
        return Instr(op, res, ('ptr',), [], (ty, cnt))
    if op == 'load':
        if p.acc('atomic'):
            pass
        p.acc('volatile')
        ty = p.type()
        p.exp(',')
        a = p.tv()
        return Instr(op, res, ty, [a])
    if op == 'store':
        p.acc('atomic')
        p.acc('volatile')
        v = p.tv()
        p.exp(',')
        a = p.tv()
        return Instr(op, None, ('void',), [v, a])
    if op == 'getelementptr':
        while p.peek() in FLAGS:
            p.next()
        bt = p.type()
        p.exp(',')
        ops = [p.tv()]
        while p.acc(','):
            ops.append(p.tv())
        return Instr(op, res, ('ptr',), ops, bt)
    if op == 'phi':
        ty = p.type()
        inc = []
        while True:
            p.exp('[')
            v = p.value(ty)
            p.exp(',')
            b = unq(p.next()[1:])
            p.exp(']')
            inc.append((v, b))
            if not p.acc(','):
                break
        return Instr(op, res, ty, [], inc)
    if op == 'br':
        if p.acc('label'):
            return Instr(op, None, None, [], [unq(p.next()[1:])])
        c = p.tv()
        p.exp(',')
        p.exp('label')
        a = unq(p.next()[1:])
        p.exp(',')
        p.exp('label')
        b = unq(p.next()[1:])
        return Instr(op, None, None, [c], [a, b])
    if op == 'switch':
        v = p.tv()
        p.exp(',')
        p.exp('label')
        d = unq(p.next()[1:])
        p.exp('[')
        cs = []
        while not p.acc(']'):
            c = p.tv()
            p.exp(',')
            p.exp('label')
            cs.append((c, unq(p.next()[1:])))
        return Instr(op, None, None, [v], (d, cs))
    if op == 'ret':
        if p.acc('void'):
            return Instr(op, None, None, [])
        return Instr(op, None, None, [p.tv()])
    if op == 'unreachable':
        return Instr(op, None, None, [])
    if op == 'resume':
        return Instr(op, None, None, [p.tv()])
    if op == 'select':
        c = p.tv()
        p.exp(',')
        a = p.tv()
        p.exp(',')
        b = p.tv()
        return Instr(op, res, a[2], [c, a, b])
    if op == 'extractvalue':
        a = p.tv()
        idx = []
        while p.acc(','):
            idx.append(int(p.next()))
        return Instr(op, res, None, [a], idx)
    if op == 'insertvalue':
        a = p.tv()
        p.exp(',')
        b = p.tv()
        idx = []
        while p.acc(','):
            idx.append(int(p.next()))
        return Instr(op, res, a[2], [a, b], idx)
    if op == 'landingpad':
        ty = p.type()
        cl = []
        cleanup = False
        while p.peek():
            t = p.next()
            if t == 'cleanup':
                cleanup = True
            elif t == 'catch':
                cl.append(('catch', p.tv()))
            elif t == 'filter':
                cl.append(('filter', p.tv()))
        return Instr(op, res, ty, [], (cl, cleanup))
    if op == 'atomicrmw':
        p.acc('volatile')
        o = p.next()
        a = p.tv()
        p.exp(',')
        v = p.tv()
        return Instr(op, res, v[2], [a, v], o)
    if op == 'cmpxchg':
        p.acc('weak')
        p.acc('volatile')
        a = p.tv()
        p.exp(',')
        c = p.tv()
        p.exp(',')
        v = p.tv()
        return Instr(op, res, ('st', [v[2], ('i', 1)], False), [a, c, v])
    if op == 'fence':
        return Instr(op, None, None, [])
    if op in ('call', 'invoke'):
        # cc / ret attrs
        while True:
            s0 = p.i
            p.skip_attrs()
            if p.peek() in ('fastcc', 'coldcc', 'nnan', 'ninf', 'nsz', 'fast', 'contract', 'afn', 'arcp', 'reassoc'):
                p.next()
            if p.i == s0:
                break
        rt = p.type()
        if rt[0] == 'fn':
            rt = rt[1]
        callee = p.value(('ptr',))
        p.exp('(')
        args = []
        if not p.acc(')'):
            while True:
                if p.peek() == 'metadata':
                    # skip metadata arg
                    p.next()
                    d = 0
                    while not (d == 0 and p.peek() in (',', ')')):
                        x = p.next()
                        if x in '([{':
                            d += 1
                        elif x in ')]}':
                            d -= 1
                    args.append(('md', None, ('metadata',)))
                else:
                    ty = p.type()
                    st = p.i
                    p.skip_attrs()
                    at = ' '.join(p.t[st:p.i])
                    v = p.value(ty)
                    args.append(v + (at,) if at else v)
                if p.acc(')'):
                    break
                p.exp(',')
        x = {'callee': callee}
        x['attrs'] = re.findall(r'#(\d+)', s.split(')')[-1])
        if op == 'invoke':
            while p.peek() != 'to':
                p.next()
            p.exp('to')
            p.exp('label')
            x['normal'] = unq(p.next()[1:])
            p.exp('unwind')
            p.exp('label')
            x['unwind'] = unq(p.next()[1:])
        return Instr(op, res, rt, args, x)
    raise IRError('instr? ' + s)


# ---- CFG: natural loops
def loops(f):
    """returns dict header -> (set of body blocks, set of latch names)"""
    blocks = f.order
    entry = blocks[0]
    preds = {b: [] for b in blocks}
    for b in blocks:
        for s in f.blocks[b].succ:
            preds[s].append(b)
    # reverse postorder
    seen = set()
    post = []
    stack = [(entry, iter(f.blocks[entry].succ))]
    seen.add(entry)
    while stack:
        b, it = stack[-1]
        for s in it:
            if s not in seen:
                seen.add(s)
                stack.append((s, iter(f.blocks[s].succ)))
                break
        else:
            post.append(b)
            stack.pop()
    rpo = post[::-1]
    num = {b: i for i, b in enumerate(rpo)}
    idom = {entry: entry}
    ch = True
    while ch:
        ch = False
        for b in rpo[1:]:
            ps = [p for p in preds[b] if p in idom]
            if not ps:
                continue
            x = ps[0]
            for y in ps[1:]:
                while x != y:
                    while num[x] > num[y]:
                        x = idom[x]
                    while num[y] > num[x]:
                        y = idom[y]
            if idom.get(b) != x:
                idom[b] = x
                ch = True

    def dom(a, b):
        while True:
            if a == b:
                return True
            if b == entry:
                return False
            b = idom[b]
    res = {}
    for b in rpo:
        for s in f.blocks[b].succ:
            if s in num and dom(s, b):
                body, latches = res.setdefault(s, (set([s]), set()))
                latches.add(b)
                st = [b]
                while st:
                    x = st.pop()
                    if x not in body:
                        body.add(x)
                        st.extend(p for p in preds[x] if p in num)
            elif s in num and num[s] <= num[b]:
                raise IRError('irreducible loop')
    return res, rpo, idom


# ---- debug info: members of a class -> byte offsets
def md_fields(m, tid):
    pass


def parse_md(s):
    """'distinct !DIFoo(a: 1, b: !2, c: "x")' -> (kind, dict)"""
    mm = re.match(r'(?:distinct )?!(\w+)\((.*)\)$', s)
    if not mm:
        mm = re.match(r'(?:distinct )?!\{(.*)\}$', s)
        if mm:
            return 'tuple', [int(x.strip()[1:]) if re.match(r'!\d+$', x.strip()) else None for x in mm.group(1).split(',')]
        return None, None
    d = {}
    for a in re.finditer(r'(\w+): (?:"((?:[^"\\]|\\.)*)"|(!\d+)|([^,]+))', mm.group(2)):
        if a.group(2) is not None:
            d[a.group(1)] = a.group(2)
        elif a.group(3) is not None:
            d[a.group(1)] = int(a.group(3)[1:])
        else:
            d[a.group(1)] = a.group(4)
    return mm.group(1), d


class DebugTypes:
    """name -> members, from DICompositeType records (identifier = mangled name _ZTS..)"""
    def __init__(self, m):
        self.m = m
        self.byname = {}
        self.byid = {}
        for k, s in m.md.items():
            if 'DICompositeType(' in s and ('DW_TAG_structure_type' in s or 'DW_TAG_class_type' in s or 'DW_TAG_union_type' in s):
                kind, d = parse_md(s)
                if d and 'identifier' in d and 'elements' in d and 'DIFlagFwdDecl' not in s:
                    self.byid[k] = d
                    self.byname.setdefault(d['identifier'], k)
                elif d and 'elements' in d and 'name' in d and 'DIFlagFwdDecl' not in s:
                    # classes with a vtable carry no identifier: rebuild it from the enclosing namespaces
                    self.byid[k] = d
                    parts, sc = [d['name']], d.get('scope')
                    while sc in m.md:
                        kk, sd = parse_md(m.md[sc])
                        if kk not in ('DINamespace', 'DICompositeType') or 'name' not in (sd or {}):
                            break
                        parts.insert(0, sd['name'])
                        sc = sd.get('scope')
                    q = ''.join('%d%s' % (len(x), x) for x in parts)
                    self.byname.setdefault('_ZTSN%sE' % q if len(parts) > 1 else '_ZTS' + q, k)

    def strip(self, t):
        """through typedefs / cv"""
        while t is not None:
            kind, d = parse_md(self.m.md[t])
            if kind == 'DIDerivedType' and d['tag'] in ('DW_TAG_typedef', 'DW_TAG_const_type', 'DW_TAG_volatile_type',
                                                          'DW_TAG_member', 'DW_TAG_atomic_type', 'DW_TAG_restrict_type'):
                t = d.get('baseType')
                continue
            return t, kind, d
        return None, None, None

    def members(self, tid):
        """[(name, byteoff, type id, is_base)]"""
        _, kind, d = self.strip(tid)
        out = []
        if kind != 'DICompositeType' or 'elements' not in d:
            return out
        k2, el = parse_md(self.m.md[d['elements']])
        for e in el:
            if e is None:
                continue
            kk, dd = parse_md(self.m.md[e])
            if kk != 'DIDerivedType':
                continue
            if 'DIFlagStaticMember' in self.m.md[e]:
                continue
            off = int(dd.get('offset', '0')) // 8
            if dd['tag'] == 'DW_TAG_member':
                out.append((dd.get('name', ''), off, dd['baseType'], False))
            elif dd['tag'] == 'DW_TAG_inheritance':
                out.append(('', off, dd['baseType'], True))
        return out

    def field(self, tid, path):
        """byte offset and type id of a dotted member path, searching bases"""
        off = 0
        for part in path.split('.'):
            r = self._find(tid, part)
            if r is None:
                return None
            o, tid = r
            off += o
        return off, tid

    def _find(self, tid, name):
        for (n, o, t, b) in self.members(tid):
            if not b and n == name:
                return o, t
        for (n, o, t, b) in self.members(tid):
            if b or n == '':
                r = self._find(t, name)
                if r:
                    return o + r[0], r[1]
        return None

    def size(self, tid):
        _, kind, d = self.strip(tid)
        if kind is None:
            return 0
        if kind == 'DIDerivedType':
            return int(d.get('size', '64')) // 8 if d['tag'] != 'DW_TAG_inheritance' else 0
        return int(d.get('size', '0')) // 8
