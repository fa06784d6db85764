"""Contracts of a compressed stream seen as a sequence (n items, an offset, the items):
what stack and queue rely on.  One ghost sequence per stream object."""
from lib import *
from lib import _fresh

EOS = '_ZTIN4tpie23end_of_stream_exceptionE'
BIG = 2 ** 50


def key(p):
    if not isinstance(p, VPtr) or not is_c(p.off):
        raise Unsupported('which stream is meant')
    return (p.obj.id, p.off)


class Seq:
    """ghost view of the stream at pointer p"""
    def __init__(self, ex, st, p):
        self.ex, self.st, self.k = ex, st, key(p)
        if self.k not in ex.seqs:
            raise Unsupported('call on an unknown stream')
        self.arr, self.out = ex.seqs[self.k]

    def g(self, n):
        return self.st.ghost[(n,) + self.k]

    def s(self, n, v):
        gset(self.ex, self.st, (n,) + self.k, norm(v))

    n = property(lambda self: self.g('n'), lambda self, v: self.s('n', v))
    o = property(lambda self: self.g('o'), lambda self, v: self.s('o', v))
    open = property(lambda self: self.g('open'), lambda self, v: self.s('open', v))

    def items(self):
        return self.ex.leaf(self.st, self.arr, 0, 8)

    def stale(self):
        """references handed out earlier say nothing any more"""
        v = z3.Int('stale!%d' % next(_fresh))
        self.ex.assume(self.st, And(0 <= v, v < 2 ** 64))
        self.ex.store(self.st, VPtr(self.out, 0), VInt(v, 64), ('i', 64))

    def give(self, i):
        self.ex.store(self.st, VPtr(self.out, 0), self.ex.load(self.st, VPtr(self.arr, norm(Z(i) * 8)), ('i', 64)), ('i', 64))
        return VPtr(self.out, 0)


def mk_seq(S, p, name, n, o, opened=True):
    ex = S.ex
    arr = Obj(name + ' items', 'global', Arr(8, 2 ** 59, Cell(8, 'i')), 2 ** 62)
    arr.gname = name + ' items'
    out = Obj(name + ' reference', 'global', Struct([(0, Cell(8, 'i'))], 8), 8)
    out.gname = name + ' reference'
    for x in (arr, out):
        S.st.objs[x.id] = x
    ex.__dict__.setdefault('seqs', {})
    ex.seqs[key(p)] = (arr, out)
    q = Seq(ex, S.st, p)
    S.st.ghost.update({('n',) + q.k: n, ('o',) + q.k: o, ('open',) + q.k: opened})
    S.ex.store(S.st, VPtr(out, 0), VInt(S.int(name + ' last', 64), 64), ('i', 64))
    return q


def seq(S, p):
    return Seq(S.ex, S.st, p)


def h(f, stale=True):
    def hook(ex, st, ins, args, dn):
        q = Seq(ex, st, args[0])
        ex.oblige(st, 'the stream is open', 'pre', q.open)
        if stale:
            q.stale()
        return f(ex, st, q, args)
    return hook


def fails(ex, st, q, what):
    """the operating system fails: nothing is promised about the stream"""
    if not ex.opts.get('os_fails'):
        return []
    s = st.fork()
    gset(ex, s, 'os_failed', True)
    s.path = s.path + (what + ' fails',)
    return [('throw', s, '_ZTIN4tpie16stream_exceptionE')]


def ends(ex, st, cond, ok):
    """throw end_of_stream iff cond, otherwise ok(st)"""
    a, b = st.fork(), st
    ex.assume(a, cond)
    a.path = a.path + ('end of stream',)
    ex.assume(b, Not(cond))
    return [('throw', a, EOS), ('ret', b, ok(b))]


def w1(ex, st, q, args):
    ex.oblige(st, 'a compressed stream is written at its end', 'pre', Eq(q.o, q.n))
    v = ex.as_u(st, ex.load(st, args[1], ('i', 64)))
    bad = fails(ex, st, q, 'write')
    ex.store(st, VPtr(q.arr, norm(Z(q.n) * 8)), VInt(v, 64), ('i', 64))
    q.n = q.n + 1
    q.o = q.n
    return bad + [('ret', st, None)]


def wr(ex, st, q, args):
    ex.oblige(st, 'a compressed stream is written at its end', 'pre', Eq(q.o, q.n))
    a, b = args[1], args[2]
    if not (isinstance(a, VPtr) and isinstance(b, VPtr) and a.obj is b.obj):
        raise Unsupported('a range over two objects')
    k = exact_div(norm(Z(b.off) - Z(a.off)), 8)
    ex.oblige(st, 'a valid range is written', 'pre', Z(k) >= 0)
    bad = fails(ex, st, q, 'write')
    ex.memcpy_range(st, VPtr(q.arr, norm(Z(q.n) * 8)), a, norm(Z(k) * 8), True)
    q.n = q.n + k
    q.o = q.n
    return bad + [('ret', st, None)]


def rd(ex, st, q, args):
    def ok(s):
        p = Seq(ex, s, args[0])
        r = p.give(p.o)
        p.o = p.o + 1
        return r
    return fails(ex, st, q, 'read') + ends(ex, st, q.o >= q.n, ok)


def pk(ex, st, q, args):
    def ok(s):
        p = Seq(ex, s, args[0])
        return p.give(p.o)
    return fails(ex, st, q, 'peek') + ends(ex, st, q.o >= q.n, ok)


def rb(ex, st, q, args):
    def ok(s):
        p = Seq(ex, s, args[0])
        r = p.give(p.o - 1)
        p.o = p.o - 1
        return r
    return fails(ex, st, q, 'read_back') + ends(ex, st, Z(q.o) <= 0, ok)


def size(ex, st, q, args):
    return VInt(q.n, 64)


def off(ex, st, q, args):
    return VInt(q.o, 64)


def canr(ex, st, q, args):
    return VBool(Z(q.o) < Z(q.n))


def canb(ex, st, q, args):
    return VBool(Z(q.o) > 0)


def getp(ex, st, q, args):
    v = z3.Int('place!%d' % next(_fresh))
    ex.assume(st, And(0 <= v, v < 2 ** 64))
    gset(ex, st, ('pos',) + q.k, st.ghost.get(('pos',) + q.k, ()) + ((v, q.o),))
    return VAgg([VInt(v, 64), VInt(q.o, 64)])


def shrink(q, p):
    q.o = If(Z(q.o) > p, p, q.o)
    q.n = p


def trp(ex, st, q, args):
    a = ex.as_u(st, ex.load(st, args[1], ('i', 64)))
    b = ex.as_u(st, ex.load(st, VPtr(args[1].obj, args[1].off + 8), ('i', 64)))
    ex.oblige(st, 'a position of this very stream', 'pre', Or([And(Eq(a, x), Eq(b, y)) for x, y in st.ghost.get(('pos',) + q.k, ())]))
    ex.oblige(st, 'a position inside the stream', 'pre', Z(b) <= q.n)
    bad = fails(ex, st, q, 'truncate')
    shrink(q, b)
    return bad + [('ret', st, None)]


def trn(ex, st, q, args):
    b = ex.as_u(st, args[1])
    ex.oblige(st, 'a compressed stream is truncated to nothing or left as it is', 'pre', Or(Eq(b, 0), Eq(b, q.n)))
    bad = fails(ex, st, q, 'truncate')
    shrink(q, b)
    return bad + [('ret', st, None)]


def sk(ex, st, q, args):
    d, w = ex.as_s(st, args[1]), ex.as_u(st, args[2])
    ex.oblige(st, 'a compressed stream seeks to one of its ends', 'pre', And(Eq(d, 0), Or(Eq(w, 0), Eq(w, 1), Eq(w, 2))))
    bad = fails(ex, st, q, 'seek')
    q.o = If(Eq(w, 0), 0, If(Eq(w, 1), q.n, q.o))
    return bad + [('ret', st, None)]


def dtor(ex, st, ins, args, dn):
    q = Seq(ex, st, args[0])
    q.open = False
    return None


def ctor(ex, st, ins, args, dn):
    """a stream object starts closed"""
    q = Seq(ex, st, args[0])
    q.n, q.o, q.open = 0, 0, False
    return None


def opened(which):
    def hook(ex, st, ins, args, dn):
        q = Seq(ex, st, args[0])
        ex.oblige(st, 'the stream is not open yet', 'pre', Not(q.open))
        s = st.fork()
        gset(ex, s, 'os_failed', True)
        q.open = True
        q.n, q.o = (ex.spec_env.fileitems if which else 0), 0
        return [('throw', s, '_ZTIN4tpie16stream_exceptionE'), ('ret', st, None)]
    return hook


def bsize(ex, st, ins, args, dn):
    """the block size is a fixed number of bytes that holds an item"""
    return VInt(ex.spec_env.bsize, 64)


C, F = r'compressed_stream_base::', r'tpie::file_stream<elem>::'
KEEP = [F, r'file_stream_base::', C]
HOOKS = [(F + r'write\(elem const&\)', h(w1)), (F + r'write<', h(wr)), (F + r'read\(\)', h(rd)), (F + r'peek\(\)', h(pk)), (F + r'read_back\(\)', h(rb)),
         (C + r'size\(\) const', h(size, False)), (C + r'offset\(\) const', h(off, False)), (C + r'can_read\(\)', h(canr, False)), (C + r'can_read_back\(\)', h(canb, False)),
         (C + r'get_position\(\)', h(getp)), (C + r'truncate\(tpie::stream_position', h(trp)), (C + r'truncate\(unsigned long\)', h(trn)), (C + r'seek\(', h(sk)),
         (F + r'file_stream\(double\)', ctor), (C + r'open\(tpie::temp_file', opened(True)), (C + r'open\(std::', opened(True)), (C + r'open\(unsigned long', opened(False)),
         (C + r'block_size\(double\)', bsize), (r'^tpie::get_block_size\(\)', bsize),
         (r'~compressed_stream_base\(', dtor), (r'~file_stream\(', dtor)]
