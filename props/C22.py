"""Serialization streams as sequences of bytes over the file accessor.

Position p of a forward stream is byte p after the header; position p of a reverse stream of `size` bytes is byte size-1-p.
J is an arbitrary position, so what is proved for it holds for all of them."""
from lib import *
import oslib
from oslib import *

ID = 'C22'
TU = 'serstream'
HARNESS = 'serstream'
SCENARIOS = ['fwd', 'rev', 'header', 'raw']
STANDIN_SECS = 20
KEEP = [r'^(.* )?std::(__cxx11::)?basic_string|^std::vector|^std::allocator|^std::__cxx11', r'exception', r'update_recorded_size', r'temp_file::path', r'serialization_header::(read|write|verify|header_size)\(',
        r'write_block\(', r'next_block', r'read_block', r'_base::(open|close|open_inner)\(', r'writer::(open|close)\(', r'set_cache_hint', r'std::reverse', r'array<char.*::(resize|array)\(', r'std::__fill|std::fill'] + FAKEEP
LEMMAS = []
W = '_ZTSN4tpie20serialization_writerE'
RW = '_ZTSN4tpie28serialization_reverse_writerE'
R = '_ZTSN4tpie20serialization_readerE'
RR = '_ZTSN4tpie28serialization_reverse_readerE'
HDR = '_ZTSN4tpie4bits20serialization_header15stream_header_tE'
BS = 2 * 1024 * 1024
HS = 4096
BIG = 2 ** 50
MAGIC = 0xfa340f49edbada67
EOS = '_ZTIN4tpie23end_of_stream_exceptionE'
NOCASE = ''


def isset(ex, st, v):
    return v.e if isinstance(v, VBool) else Ne(ex.as_u(st, v), 0)


def fa_fail(ex, st, nm):
    if ex.opts.get('no_io_error'):
        return None
    return oslib.fa_fail(ex, st, nm)


def outs(*l):
    return [x for x in l if x is not None]


def h_recorded(ex, st, ins, args, dn):
    gset(ex, st, 'recorded', ex.as_u(st, args[1]))


def h_hint(ex, st, ins, args, dn):
    return None


def h_headersize(ex, st, ins, args, dn):
    """header_size(): proved below to be 4096"""
    return VInt(HS, 64)


def h_reverse(ex, st, ins, args, dn):
    """std::reverse of a range of characters"""
    p, q = ex.deref(st, args[0], 'reverse'), ex.deref(st, args[1], 'reverse')
    if p.obj is not q.obj:
        raise Unsupported('reverse of two objects')
    ex.oblige(st, 'reverse: a valid range inside the block', 'pre', And(le(0, p.off), le(p.off, q.off), le(q.off, p.obj.layout.count)))
    k = leafkey(ex, st, p.obj)
    st.cells[k] = ex.leaf(st, p.obj, 0, 1).reverse(p.off, q.off)
    ex.note_write(st, k)


def h_new(ex, st, ins, args, dn):
    """the header record on the heap, seen as its members"""
    n = ex.as_u(st, args[0])
    r = ex.alloc(st, n)
    hl = ex.di_layout(ex.type_id(HDR))
    if is_c(n) and n == hl.size:
        r.obj.layout = hl
    return r


HK = [(r'^operator new\(unsigned long\)', h_new), (r'header_size\(', h_headersize), (r'update_recorded_size', h_recorded), (r'set_cache_hint', h_hint), (r'reverse<', h_reverse)] + FA + MM + STR


def setup(S, env, cls):
    env.cls = cls
    fa_setup(S, env, header=HDR, exists=z3.Bool('exists'))
    env.w = S.obj('w', cls=cls)
    env.J = z3.Int('J')
    env.rev = cls in (RW, RR)
    return env.w


def m(S, e, n, w=64):
    return S.get(e.w, n, w)


def put(S, e, n, v, w=64):
    S.ex.store(S.st, S.f(e.w, n), VInt(v, w) if not isinstance(v, VPtr) else v, ('i', w) if not isinstance(v, VPtr) else ('ptr',))


def fb(S, e, p):
    """byte p of the stream in the file"""
    return fbytes(S, e)(norm(Z(p) + HS - e.hsize))


def blk(S, e):
    return S.arr(S.ptr(e.w, 'm_block.m_elements'), 0, 1)


# ---------------------------------------------------------------- writers
def writer(S, e, cls, opened=True, tmp=False):
    setup(S, e, cls)
    e.bw = S.int('blocks', 64, 0, 2 ** 28)
    e.sz = S.int('size0', 64, 0, BIG)
    e.ix = S.int('index', 64, 0, BS + 1)
    S.set(e.w, 'm_blocksWritten', e.bw)
    S.set(e.w, 'm_size', e.sz)
    S.set(e.w, 'm_index', e.ix)
    S.set(e.w, 'm_open', 1 if opened else 0, 8)
    S.st.ghost['fopen'] = bool(opened)
    S.st.ghost['recorded'] = 0
    e.tmp = tmp
    if tmp:
        S.set(e.w, 'm_tempFile', S.obj('tempfile', 'param', None, None))
    else:
        S.set(e.w, 'm_tempFile', VPtr(None, 0))
    mk_array(S, e.w, 'm_block', 'block', Cell(1, 'i'))
    e.bn = m(S, e, 'm_block.m_size')
    if opened:
        S.assume(Eq(e.bn, BS), Eq(e.sz, e.bw * BS), e.fsize >= HS, Or(Eq(e.bw, 0), e.fsize >= HS + e.bw * BS))
    else:
        S.assume(Eq(e.ix, 0), Eq(e.bn, 0))
    return e.w


def total(S, e):
    """bytes accepted so far"""
    return m(S, e, 'm_blocksWritten') * BS + m(S, e, 'm_index')


def content(S, e, p):
    """position p of what was accepted so far, in the order of the file"""
    at = norm(Z(p) - Z(m(S, e, 'm_blocksWritten')) * BS)
    b = blk(S, e)
    return If(p < m(S, e, 'm_blocksWritten') * BS, fb(S, e, p), b(norm(BS - 1 - at)) if e.rev else b(at))


def open_inv(S, e):
    return [('the block buffer holds a whole block', And(Eq(m(S, e, 'm_block.m_size'), BS), m(S, e, 'm_index') <= BS)),
            ('the size counts the blocks in the file', Eq(m(S, e, 'm_size'), m(S, e, 'm_blocksWritten') * BS)),
            ('the file is open', And(Eq(m(S, e, 'm_open', 8), 1), S.st.ghost['fopen'])),
            ('the blocks are in the file', S.st.ghost['fsize'] >= If(Eq(m(S, e, 'm_blocksWritten'), 0), HS, HS + m(S, e, 'm_blocksWritten') * BS))]


def keeps_header(S, old, e):
    return ('the header of the file is untouched', And([Eq(hdr(S, e, n), hdr(old, e, n)) for n in ('magic', 'version', 'size')] + [Eq(S.get(e.file, n, 8, cls=HDR), old.get(e.file, n, 8, cls=HDR)) for n in ('cleanClose', 'reverse')]))


def x_os(S, old, r, args, e):
    return [('only after an error of the operating system', bool(S.st.ghost.get('os_failed')))]


def s_bwb(S, e):
    writer(S, e, e.case[0], tmp=e.case[2])
    e.n = S.int('n', 64, 0, BS + 1)
    e.src = S.heap('data', Cell(1, 'i'), e.n, False, kind='param')
    return [e.w, e.src, VInt(e.n, 64)]


def p_bwb(S, old, r, args, e):
    d = old.arr(e.src, 0, 1)
    at = e.bw * BS
    return [('the bytes become the next block and no other byte changes', Implies(0 <= e.J, Eq(fb(S, e, e.J), If(And(at <= e.J, e.J < at + e.n), d(norm(e.J - at)), fb(old, e, e.J))))),
            ('one more block', Eq(m(S, e, 'm_blocksWritten'), e.bw + 1)), ('the size ends after it', Eq(m(S, e, 'm_size'), at + e.n)), keeps_header(S, old, e),
            ('the buffer is kept', And(Eq(m(S, e, 'm_index'), e.ix), Eq(m(S, e, 'm_block.m_size'), BS), Eq(blk(S, e)(e.J), blk(old, e)(e.J)))),
            ('the file holds it', Implies(e.n > 0, S.st.ghost['fsize'] >= HS + at + e.n)), ('the file does not shrink', S.st.ghost['fsize'] >= old.st.ghost['fsize']),
            ('a temporary file is told its size', Implies(e.tmp, Eq(S.st.ghost['recorded'], at + e.n)))]


def h_bwb(ex, st, ins, args, dn):
    """contract of serialization_writer_base::write_block"""
    e = ex.spec_env
    S = Ctx(ex, st)
    n = ex.as_u(st, args[2])
    ex.oblige(st, 'write_block: at most a block', 'pre', n <= BS)
    ex.oblige(st, 'write_block: the stream is open', 'pre', st.ghost['fopen'])
    at = norm(Z(m(S, e, 'm_blocksWritten')) * BS)
    bad = fa_fail(ex, st, 'write_block')
    ex.memcpy_range(st, VPtr(e.file.obj, norm(HS + at)), args[1], n, True)
    put(S, e, 'm_blocksWritten', norm(Z(m(S, e, 'm_blocksWritten')) + 1))
    put(S, e, 'm_size', norm(at + n))
    gset(ex, st, 'fpos', norm(HS + at + n))
    gset(ex, st, 'fsize', If(And(n > 0, HS + at + n > st.ghost['fsize']), HS + at + n, st.ghost['fsize']))
    return outs(bad, ('ret', st, None))


def s_wb(S, e):
    writer(S, e, e.case[0])
    S.assume(e.ix >= 1)
    S.ex.spec_env = e
    return [e.w]


def p_wb(S, old, r, args, e):
    return [('the bytes of the buffer become the next block', Implies(And(0 <= e.J, e.J < e.bw * BS + e.ix), Eq(fb(S, e, e.J), content(old, e, e.J)))),
            ('the buffer is empty', Eq(m(S, e, 'm_index'), 0)), ('one more block', Eq(m(S, e, 'm_blocksWritten'), e.bw + 1)), ('the size', Eq(m(S, e, 'm_size'), e.bw * BS + e.ix)),
            ('still open', And(Eq(m(S, e, 'm_block.m_size'), BS), S.st.ghost['fopen'], Eq(m(S, e, 'm_open', 8), 1))),
            ('the file holds it', S.st.ghost['fsize'] >= HS + e.bw * BS + e.ix), keeps_header(S, old, e)]


def h_wb(ex, st, ins, args, dn):
    """contract of serialization_writer::write_block and serialization_reverse_writer::write_block"""
    e = ex.spec_env
    S = Ctx(ex, st)
    n = m(S, e, 'm_index')
    ex.oblige(st, 'write_block: the stream is open', 'pre', And(st.ghost['fopen'], n <= BS))
    if e.rev:
        b = S.ptr(e.w, 'm_block.m_elements')
        h_reverse(ex, st, ins, [b, VPtr(b.obj, norm(b.off + BS))], dn)
    st.path = st.path + ('block written',)
    r = h_bwb(ex, st, ins, [args[0], S.ptr(e.w, 'm_block.m_elements'), VInt(n, 64)], dn)
    put(S, e, 'm_index', 0)
    return r


def s_write(S, e):
    writer(S, e, e.case[0])
    S.ex.spec_env = e
    e.n = S.int('n', 64, 0, BIG)
    e.src = S.heap('data', Cell(1, 'i'), e.n, False, kind='param')
    return [e.w, e.src, VInt(e.n, 64)]


def grown(S, old, e, k, rev=False):
    """k more bytes were accepted"""
    d = old.arr(e.src, 0, 1)
    t0 = e.bw * BS + e.ix
    return [('that many bytes were accepted', Eq(total(S, e), t0 + k)),
            ('what was accepted before is kept', Implies(And(0 <= e.J, e.J < t0), Eq(content(S, e, e.J), content(old, e, e.J)))),
            ('the bytes follow in order', Implies(And(t0 <= e.J, e.J < t0 + k), Eq(content(S, e, e.J), d(norm(e.n - 1 - (e.J - t0) if rev else e.J - t0)))))]


def p_write(S, old, r, args, e):
    return grown(S, old, e, e.n, e.rev) + open_inv(S, e) + [keeps_header(S, old, e)]


def inv_write(L):
    e, S = L.e, L.S
    w = L.w
    S0 = Ctx(S.ex, S.ex.entry)
    out = [('bytes so far', And(0 <= w, w <= e.n)), ('the source pointer follows', Eq(L.i, e.n - w if e.rev else w))]
    return out + grown(S, S0, e, w, e.rev) + open_inv(S, e) + [keeps_header(S, S0, e)]


LW = LoopSpec(r'.', inv_write, roles={'w': r'written', 'i': r'^i\b|^i\.'}, ptr_roles=('i',))


# ---- headers
def h_hwrite(ex, st, ins, args, dn):
    """contract of serialization_header::write"""
    e = ex.spec_env
    S = Ctx(ex, st)
    fa_open_pre(ex, st, 'header write')
    bad = fa_fail(ex, st, 'header write')
    for f in ('magic', 'version', 'size', 'cleanClose', 'reverse'):
        ex.havoc_cell(bad[1], Ctx(ex, bad[1]).f(e.file, f, HDR), 64 if f in ('magic', 'version', 'size') else 8)
    hp = ex.load(st, VPtr(args[0].obj, norm(args[0].off + 8)), ('ptr',))
    for f, o, w in (('magic', 0, 64), ('version', 8, 64), ('size', 16, 64), ('reverse', 25, 8)):
        v = ex.load(st, VPtr(hp.obj, norm(hp.off + o)), ('i', w))
        ex.store(st, S.f(e.file, f, HDR), v, ('i', w))
    c = args[1]
    ex.store(st, S.f(e.file, 'cleanClose', HDR), VInt(If(isset(ex, st, c), 1, 0), 8), ('i', 8))
    ex.store(st, VPtr(hp.obj, norm(hp.off + 24)), VInt(If(isset(ex, st, c), 1, 0), 8), ('i', 8))
    gset(ex, st, 'fpos', HS)
    gset(ex, st, 'fsize', If(st.ghost['fsize'] < HS, HS, st.ghost['fsize']))
    return outs(bad, ('ret', st, None))


def header_is(S, e, clean, rev, size):
    return ('the header describes the stream', And(Eq(hdr(S, e, 'magic'), MAGIC), Eq(hdr(S, e, 'version'), 1), Eq(hdr(S, e, 'size'), size),
            Eq(S.get(e.file, 'cleanClose', 8, cls=HDR), 1 if clean else 0), Eq(S.get(e.file, 'reverse', 8, cls=HDR), If(rev, 1, 0))))


def bytes_kept(S, old, e):
    return ('the bytes of the stream are untouched', Implies(0 <= e.J, Eq(fb(S, e, e.J), fb(old, e, e.J))))


def s_bclose(S, e):
    writer(S, e, e.case[0], opened=e.case[2])
    S.ex.spec_env = e
    if e.case[2]:
        # the size may end inside the last block
        e.sz = S.int('final size', 64, 0, BIG)
        S.set(e.w, 'm_size', e.sz)
    e.r = z3.Bool('reverse')
    return [e.w, VBool(e.r)]


def p_bclose(S, old, r, args, e):
    out = [('closed', And(Eq(m(S, e, 'm_open', 8), 0), Not(S.st.ghost['fopen']))), bytes_kept(S, old, e)]
    if e.case[2]:
        return out + [header_is(S, e, True, e.r, e.sz), ('no temporary file any more', S.ptr(e.w, 'm_tempFile').nul is True or S.ptr(e.w, 'm_tempFile').obj is None)]
    return out + [keeps_header(S, old, e)]


def h_bclose(ex, st, ins, args, dn):
    """contract of serialization_writer_base::close"""
    e = ex.spec_env
    S = Ctx(ex, st)
    op = m(S, e, 'm_open', 8)
    o = []
    if ex.light.feasible(st.pc, Z(op) == 0):
        s = st.fork()
        ex.assume(s, Eq(op, 0))
        s.path = s.path + ('not open',)
        o.append(('ret', s, None))
    if ex.light.feasible(st.pc, Z(op) != 0):
        ex.assume(st, Ne(op, 0))
        o.append(fa_fail(ex, st, 'close'))
        rv = isset(ex, st, args[1])
        for f, v, w in (('magic', MAGIC, 64), ('version', 1, 64), ('size', m(S, e, 'm_size'), 64), ('cleanClose', 1, 8), ('reverse', If(rv, 1, 0), 8)):
            ex.store(st, S.f(e.file, f, HDR), VInt(v, w), ('i', w))
        gset(ex, st, 'fopen', False)
        put(S, e, 'm_open', 0, 8)
        put(S, e, 'm_tempFile', VPtr(None, 0))
        gset(ex, st, 'fsize', If(st.ghost['fsize'] < HS, HS, st.ghost['fsize']))
        o.append(('ret', st, None))
    return o


def s_inner(S, e):
    writer(S, e, e.case[0], opened=e.case[2])
    S.ex.spec_env = e
    e.r = z3.Bool('reverse')
    return [e.w, S.obj('path', 'param', None, None), VBool(e.r)]


def p_inner(S, old, r, args, e):
    return [('open', And(Eq(m(S, e, 'm_open', 8), 1), S.st.ghost['fopen'])), ('nothing is written yet', And(Eq(m(S, e, 'm_blocksWritten'), 0), Eq(m(S, e, 'm_size'), 0))),
            header_is(S, e, False, e.r, 0), ('the header is in the file', S.st.ghost['fsize'] >= HS)]


def x_inner(S, old, r, args, e):
    return x_os(S, old, r, args, e) + [('marked open exactly while the file is open', Or(Iff(Eq(m(S, e, 'm_open', 8), 1), S.st.ghost['fopen']), 'close fails' in ' '.join(S.st.path)))]


# ---- the array of the block buffer (tpie::array::resize is proved in C01)
def h_resize(ex, st, ins, args, dn):
    e = ex.spec_env
    S = Ctx(ex, st)
    n = ex.as_u(st, args[1])
    bad = st.fork()
    bad.path = bad.path + ('out of memory',)
    bad.ghost['os_failed'] = True
    o = Obj('new block', 'heap', Arr(1, n, Cell(1, 'i')), n)
    st.objs[o.id] = o
    put(S, e, 'm_block.m_elements', VPtr(None, 0) if is_c(n) and n == 0 else VPtr(o, 0))
    put(S, e, 'm_block.m_size', n)
    put(Ctx(ex, bad), e, 'm_block.m_elements', VPtr(None, 0))
    put(Ctx(ex, bad), e, 'm_block.m_size', 0)
    return [('ret', st, None)] if is_c(n) and n == 0 else [('throw', bad, '_ZTIN4tpie19out_of_memory_errorE'), ('ret', st, None)]


def s_close(S, e):
    writer(S, e, e.case[0], opened=e.case[2])
    S.ex.spec_env = e
    return [e.w]


def p_close(S, old, r, args, e):
    t = e.bw * BS + e.ix
    out = [('closed', And(Eq(m(S, e, 'm_open', 8), 0), Not(S.st.ghost['fopen']))), ('nothing is left in the buffer', And(Eq(m(S, e, 'm_index'), 0), Eq(m(S, e, 'm_block.m_size'), 0)))]
    if not e.case[2]:
        return out + [keeps_header(S, old, e), bytes_kept(S, old, e)]
    return out + [('everything accepted is in the file', Implies(And(0 <= e.J, e.J < t), Eq(fb(S, e, e.J), content(old, e, e.J)))), header_is(S, e, True, e.rev, t),
                  ('the file is long enough', S.st.ghost['fsize'] >= HS), ('the size of the stream is what was accepted', Eq(m(S, e, 'm_size'), t))]


def h_close(ex, st, ins, args, dn):
    """contract of the close of a writer: flushes and closes"""
    e = ex.spec_env
    S = Ctx(ex, st)
    bad = fa_fail(ex, st, 'close')
    gset(ex, st, 'flushed', True)
    put(S, e, 'm_open', 0, 8)
    put(S, e, 'm_index', 0)
    put(S, e, 'm_block.m_size', 0)
    put(S, e, 'm_block.m_elements', VPtr(None, 0))
    put(S, e, 'm_tempFile', VPtr(None, 0))
    gset(ex, st, 'fopen', False)
    return outs(bad, ('ret', st, None))


def h_bopen(ex, st, ins, args, dn):
    """contract of serialization_writer_base::open and open_inner"""
    e = ex.spec_env
    S = Ctx(ex, st)
    ex.oblige(st, 'open: nothing accepted before is lost', 'pre', And(Eq(m(S, e, 'm_open', 8), 0), Eq(m(S, e, 'm_index'), 0), Not(st.ghost['fopen'])))
    bad = fa_fail(ex, st, 'open')
    gset(ex, st, 'dir', isset(ex, st, args[2]))
    put(S, e, 'm_open', 1, 8)
    put(S, e, 'm_blocksWritten', 0)
    put(S, e, 'm_size', 0)
    gset(ex, st, 'fopen', True)
    gset(ex, st, 'fsize', HS)
    if 'temp_file' in dn:
        put(S, e, 'm_tempFile', args[1])
    return outs(bad, ('ret', st, None))


def s_open(S, e):
    writer(S, e, e.case[0], opened=e.case[2], tmp=e.case[2])
    S.ex.spec_env = e
    e.arg = S.obj('path', 'param', None, None)
    return [e.w, e.arg]


def p_open(tmp):
    def p(S, old, r, args, e):
        t = S.ptr(e.w, 'm_tempFile')
        return [('an empty stream', And(Eq(m(S, e, 'm_blocksWritten'), 0), Eq(m(S, e, 'm_index'), 0))), ('in the direction of the writer', Iff(S.st.ghost.get('dir', False), e.rev)),
                ('the temporary file is the one given', t.obj is e.arg.obj if tmp else t.obj is None)] + open_inv(S, e)
    return p


def x_open(S, old, r, args, e):
    return x_os(S, old, r, args, e) + [('nothing is left in the buffer', Or(Eq(m(S, e, 'm_index'), 0), 'close fails' in ' '.join(S.st.path)))]


def h_inner(ex, st, ins, args, dn):
    e = ex.spec_env
    S = Ctx(ex, st)
    ex.oblige(st, 'open: nothing accepted before is lost', 'pre', And(Eq(m(S, e, 'm_open', 8), 0), Not(st.ghost['fopen'])))
    gset(ex, st, 'dir', isset(ex, st, args[2]))
    gset(ex, st, 'inner', True)
    return outs(fa_fail(ex, st, 'open'), ('ret', st, None))


def s_bopen(S, e):
    writer(S, e, e.case[0], opened=False)
    S.ex.spec_env = e
    e.arg = S.obj('path', 'param', None, None)
    e.r = z3.Bool('reverse')
    return [e.w, e.arg, VBool(e.r)]


def p_bopen(tmp):
    def p(S, old, r, args, e):
        t = S.ptr(e.w, 'm_tempFile')
        return [('the file is opened in the direction given', And(S.st.ghost.get('inner', False), Iff(S.st.ghost.get('dir', False), e.r))), ('the temporary file is the one given', t.obj is e.arg.obj if tmp else t.obj is None)]
    return p


def s_del(S, e):
    writer(S, e, e.case[0], opened=True)
    S.ex.spec_env = e
    return [e.w]


def p_del(S, old, r, args, e):
    return [('the stream is flushed and closed first', S.st.ghost.get('flushed', False))]


def s_new(S, e):
    setup(S, e, e.case[0])
    return [e.w]


def p_new(S, old, r, args, e):
    return [('closed and empty', And(Eq(m(S, e, 'm_open', 8), 0), Eq(m(S, e, 'm_index'), 0), Eq(m(S, e, 'm_size'), 0), Eq(m(S, e, 'm_block.m_size'), 0)))]


def s_fs(S, e):
    return [writer(S, e, W)]


# ---- the reverse serializer: one value collected, then appended backwards
def vec(S, e):
    """std::vector<char> m_serializationBuffer of e.n bytes"""
    e.n = S.int('n', 64, 0, BIG)
    e.src = S.heap('collected', Cell(1, 'i'), e.n, Eq(e.n, 0))
    S.st.ghost['collected'] = e.n
    S.st.ghost['cptr'] = e.src


def h_vsize(ex, st, ins, args, dn):
    return VInt(st.ghost['collected'], 64)


def h_vdata(ex, st, ins, args, dn):
    return ex.spec_env.src


def h_vresize(ex, st, ins, args, dn):
    """vector::resize: keeps the elements (a larger size only appends)"""
    gset(ex, st, 'collected', ex.as_u(st, args[1]))


VEC = [(r'vector<char.*::size\(', h_vsize), (r'vector<char.*::data\(', h_vdata), (r'vector<char.*::resize\(', h_vresize), (r'vector<char.*::~?vector\(', h_nop)]


def s_flush(S, e):
    writer(S, e, RW)
    S.ex.spec_env = e
    vec(S, e)
    s = S.obj('serializer', 'param', Struct([(0, Cell(8, 'p'))], 8), 8)
    S.ex.poke(S.st, s, e.w)
    return [s]


def p_flush(S, old, r, args, e):
    return grown(S, old, e, e.n, True) + open_inv(S, e) + [keeps_header(S, old, e), ('nothing collected is left over for the next value', Eq(S.st.ghost['collected'], 0))]


def s_collect(S, e):
    writer(S, e, RW)
    S.ex.spec_env = e
    e.had = S.int('had', 64, 0, BIG)
    e.n = S.int('n', 64, 0, BIG)
    e.src = S.heap('collected', Cell(1, 'i'), norm(e.had + e.n), False)
    e.d = S.heap('data', Cell(1, 'i'), e.n, False, kind='param')
    S.st.ghost['collected'] = e.had
    s = S.obj('serializer', 'param', Struct([(0, Cell(8, 'p'))], 8), 8)
    S.ex.poke(S.st, s, e.w)
    return [s, e.d, VInt(e.n, 64)]


def p_collect(S, old, r, args, e):
    a = S.arr(e.src, 0, 1)
    return [('that much more is collected', Eq(S.st.ghost['collected'], e.had + e.n)),
            ('in order', Implies(And(0 <= e.J, e.J < e.had + e.n), Eq(a(e.J), If(e.J < e.had, old.arr(e.src, 0, 1)(e.J), old.arr(e.d, 0, 1)(norm(e.J - e.had))))))]


# ---------------------------------------------------------------- header
AC = '_ZTSN4tpie5arrayIcNS_9allocatorIcEEEE'
SH = '_ZTSN4tpie4bits20serialization_headerE'
HF = (('magic', 64), ('version', 64), ('size', 64), ('cleanClose', 8), ('reverse', 8))


def s_header(S, e):
    fa_setup(S, e, header=HDR, exists=True)
    S.ex.spec_env = e
    S.st.ghost['fopen'] = True
    e.h = S.obj('header', cls=SH)
    e.rec = S.obj('record', cls=HDR)
    S.set(e.h, 'm_header', e.rec)
    e.J = z3.Int('J')
    e.v = {}
    for f, w in HF:
        e.v[f] = S.int(f, w)
        S.set(e.rec, f, e.v[f], w)
    e.flag = z3.Bool('cleanClose flag')
    return [e.h] + ([VBool(e.flag)] if e.case == ('write',) else [])


def h_area(ex, st, ins, args, dn):
    """tpie::array<char>(n): n characters, seen like the start of the file: the header record, then bytes"""
    n = ex.as_u(st, args[1])
    hl = ex.di_layout(ex.type_id(HDR))
    ex.oblige(st, 'room for the header', 'pre', n >= hl.size)
    o = Obj('area', 'heap', Struct(list(hl.fields) + [(hl.size, Arr(1, norm(n - hl.size), Cell(1, 'i')))], n), n)
    st.objs[o.id] = o
    S = Ctx(ex, st)
    for f, v, t in (('m_elements', VPtr(o, 0), ('ptr',)), ('m_size', VInt(n, 64), ('i', 64)), ('m_tss_used', VInt(0, 8), ('i', 8)), ('m_allocator.bucket.bucket', VPtr(None, 0), ('ptr',))):
        ex.store(st, S.f(args[0], f, AC), v, t)
    return None


def h_arearesize(ex, st, ins, args, dn):
    """the destructor of the local array releases it"""
    ex.oblige(st, 'only released', 'pre', Eq(ex.as_u(st, args[1]), 0))
    ex.store(st, Ctx(ex, st).f(args[0], 'm_elements', AC), VPtr(None, 0), ('ptr',))


def h_write2(ex, st, ins, args, dn):
    """write_i of the header record and the bytes after it (the contract of write_i, in two parts)"""
    e = ex.spec_env
    fa_open_pre(ex, st, 'write')
    n = ex.as_u(st, args[2])
    pos = norm(st.ghost['fpos'])
    ex.oblige(st, 'the header is written at the start of the file', 'pre', Eq(pos, 0))
    bad = fa_fail(ex, st, 'write')
    f, s = VPtr(e.file.obj, 0), args[1]
    ex.memcpy(st, f, s, e.hsize, True)
    ex.memcpy_range(st, VPtr(f.obj, e.hsize), VPtr(s.obj, norm(s.off + e.hsize)), norm(n - e.hsize), True)
    gset(ex, st, 'fpos', n)
    gset(ex, st, 'fsize', If(n > st.ghost['fsize'], n, st.ghost['fsize']))
    return outs(bad, ('ret', st, None))


def p_hwrite(S, old, r, args, e):
    g = lambda c, f, w: c.get(e.file, f, w, cls=HDR)
    return [('the header in the file is the record, with the flag', And([Eq(g(S, f, w), If(e.flag, 1, 0) if f == 'cleanClose' else e.v[f]) for f, w in HF])), ('the bytes of the stream are untouched', Implies(0 <= e.J, Eq(fb(S, e, e.J), fb(old, e, e.J)))),
            ('the file holds the header', S.st.ghost['fsize'] >= HS), ('the file does not shrink', S.st.ghost['fsize'] >= e.fsize), ('no byte beyond the header is written', S.st.ghost['fsize'] <= If(e.fsize > HS, e.fsize, HS))]


def p_hread(S, old, r, args, e):
    return [('the record is the header of the file', And([Eq(S.get(e.rec, f, w), old.get(e.file, f, w, cls=HDR)) for f, w in HF])), bytes_kept(S, old, e),
            ('the header of the file is untouched', And([Eq(S.get(e.file, f, w, cls=HDR), old.get(e.file, f, w, cls=HDR)) for f, w in HF]))]


def valid_rec(e):
    return And(Eq(e.v['magic'], MAGIC), Eq(e.v['version'], 1), Eq(e.v['cleanClose'], 1), Or(Eq(e.v['reverse'], 0), Eq(e.v['reverse'], 1)))


def p_verify(S, old, r, args, e):
    return [('only a valid header of a properly closed stream is accepted', valid_rec(e))]


def x_verify(S, old, r, args, e):
    return [('a valid header is not refused', Not(valid_rec(e)))]


# ---------------------------------------------------------------- readers
def reader(S, e, cls, opened=True, fresh=None):
    setup(S, e, cls)
    S.ex.spec_env = e
    e.sz = S.int('size', 64, 0, BIG)
    e.ix, e.bz, e.bk = S.int('index', 64, 0, BS + 1), S.int('blockSize', 64, 0, BS + 1), S.int('block', 64, 0, 2 ** 30)
    for f, v in (('m_size', e.sz), ('m_index', e.ix), ('m_blockSize', e.bz), ('m_blockNumber', e.bk)):
        S.set(e.w, f, v)
    S.set(e.w, 'm_open', 1 if opened else 0, 8)
    S.st.ghost['fopen'] = bool(opened)
    mk_array(S, e.w, 'm_block', 'block', Cell(1, 'i'))
    e.bn = m(S, e, 'm_block.m_size')
    S.assume(Eq(e.bn, BS if opened else 0))
    if opened:
        S.assume(And([f for n, f in reader_inv(S, e)]))
    return e.w


def nblocks(sz):
    return (sz + BS - 1) / BS


def in_block(S, e, bk, bz, p):
    """the buffer holds the bytes of the block (in reading order); p is an index into the buffer"""
    b = blk(S, e)
    return Implies(And(0 <= p, p < bz), Eq(b(p), fb(S, e, norm(bk * BS + (bz - 1 - p if e.rev else p)))))


def at_pos(S, e, p):
    """the buffer index of position p of the stream"""
    return norm(p - offset(S, e) + m(S, e, 'm_index'))


def offset(S, e):
    bz, bk, ix = m(S, e, 'm_blockSize'), m(S, e, 'm_blockNumber'), m(S, e, 'm_index')
    return If(Eq(bz, 0), 0, m(S, e, 'm_size') - bk * BS - bz + ix if e.rev else bk * BS + ix)


def reader_inv(S, e):
    bz, bk, ix, sz = (m(S, e, n) for n in ('m_blockSize', 'm_blockNumber', 'm_index', 'm_size'))
    return [('the block buffer holds a whole block', Eq(m(S, e, 'm_block.m_size'), BS)), ('the file is open', And(Eq(m(S, e, 'm_open', 8), 1), S.st.ghost['fopen'])),
            ('before the first block', Implies(Eq(bz, 0), And(Eq(ix, 0), Eq(bk, nblocks(sz)) if e.rev else Eq(bk, 0)))),
            ('the block ends with the stream or is whole', Implies(bz > 0, And(bk * BS < sz, Eq(bz, If(bk * BS + BS < sz, BS, sz - bk * BS)), ix <= bz))),
            ('the buffer holds the block', in_block(S, e, bk, bz, at_pos(S, e, e.J)))]


def stream_at(S, e, p):
    """position p of the stream in the file"""
    return fb(S, e, norm(e.sz - 1 - p) if e.rev else p)


def r_same(S, old, e):
    return [('the file is untouched', And(Implies(0 <= e.J, Eq(fb(S, e, e.J), fb(old, e, e.J))), Implies(e.J < e.sz, Eq(stream_at(S, e, e.J), stream_at(old, e, e.J))))), keeps_header(S, old, e), ('the size', Eq(m(S, e, 'm_size'), e.sz))]


def s_rblock(S, e):
    reader(S, e, e.case[0])
    e.b = S.int('wanted', 64, 0, 2 ** 30)
    return [e.w, VInt(e.b, 64)]


def p_rblock(S, old, r, args, e):
    bz = m(S, e, 'm_blockSize')
    b = blk(S, e)
    return [('the block is inside the stream', e.b * BS < e.sz), ('as long as the stream goes', Eq(bz, If(e.b * BS + BS < e.sz, BS, e.sz - e.b * BS))), ('at its start', Eq(m(S, e, 'm_index'), 0)),
            ('its bytes', Implies(And(0 <= e.J, e.J < bz), Eq(b(e.J), fb(old, e, norm(e.b * BS + e.J))))), ('the block number is kept', Eq(m(S, e, 'm_blockNumber'), e.bk))] + r_same(S, old, e)


def x_rblock(S, old, r, args, e):
    osf = bool(S.st.ghost.get('os_failed'))
    return [('end of stream exactly when the block is beyond it', Or(osf, e.b * BS >= e.sz)), ('then nothing changes', Or(osf, And(Eq(m(S, e, 'm_index'), e.ix), Eq(m(S, e, 'm_blockSize'), e.bz))))]


def h_rblock(ex, st, ins, args, dn):
    """contract of serialization_reader_base::read_block"""
    e = ex.spec_env
    S = Ctx(ex, st)
    b, sz = ex.as_u(st, args[1]), m(S, e, 'm_size')
    o = [fa_fail(ex, st, 'read_block')]
    s = st.fork()
    ex.assume(s, b * BS >= sz)
    s.path = s.path + ('end of stream',)
    o.append(('throw', s, EOS))
    ex.assume(st, b * BS < sz)
    n = norm(If(b * BS + BS < sz, BS, sz - b * BS))
    ex.memcpy_range(st, S.ptr(e.w, 'm_block.m_elements'), VPtr(e.file.obj, norm(HS + b * BS)), n, True)
    put(S, e, 'm_index', 0)
    put(S, e, 'm_blockSize', n)
    o.append(('ret', st, None))
    return outs(*o)


def s_next(S, e):
    reader(S, e, e.case[0])
    S.assume(Eq(e.ix, e.bz))
    return [e.w]


def p_next(S, old, r, args, e):
    o0 = offset(old, e)
    return [('the next position of the stream', Eq(offset(S, e), o0)), ('there is a next byte', And(o0 < e.sz, m(S, e, 'm_index') < m(S, e, 'm_blockSize')))] + reader_inv(S, e) + r_same(S, old, e)


def x_next(S, old, r, args, e):
    osf = bool(S.st.ghost.get('os_failed'))
    return [('end of stream exactly when all was read', Or(osf, offset(old, e) >= e.sz))] + r_same(S, old, e)


def h_next(ex, st, ins, args, dn):
    """contract of next_block (both directions)"""
    e = ex.spec_env
    S = Ctx(ex, st)
    ex.oblige(st, 'next_block: the block was read to its end', 'pre', Eq(m(S, e, 'm_index'), m(S, e, 'm_blockSize')))
    o0 = offset(S, e)
    o = [fa_fail(ex, st, 'next_block')]
    s = st.fork()
    ex.assume(s, o0 >= e.sz)
    s.path = s.path + ('end of stream',)
    o.append(('throw', s, EOS))
    ex.assume(st, o0 < e.sz)
    st.path = st.path + ('next block',)
    b = S.ptr(e.w, 'm_block.m_elements')
    ex.havoc_leaf(st, b.obj, 0, 1)
    ex.note_write(st, leafkey(ex, st, b.obj))
    for f in ('m_index', 'm_blockSize', 'm_blockNumber'):
        v = ex.fresh(f)
        ex.assume(st, And(0 <= v, v < (2 ** 30 if f == 'm_blockNumber' else BS + 1)))
        put(S, e, f, v)
    for n, f in reader_inv(S, e):
        ex.assume(st, f)
    ex.assume(st, And(Eq(offset(S, e), o0), m(S, e, 'm_index') < m(S, e, 'm_blockSize')))
    o.append(('ret', st, None))
    return outs(*o)


def s_read(S, e):
    reader(S, e, e.case[0])
    e.n = S.int('n', 64, 0, BIG)
    e.dst = S.heap('destination', Cell(1, 'i'), e.n, False, kind='param')
    vt = S.obj('vtable', 'param', Struct([(8 * i, Cell(8, 'p')) for i in range(3)], 24), 24)
    S.ex.poke(S.st, e.w, vt)
    S.ex.poke(S.st, VPtr(vt.obj, 0), VFn('next_block()'))
    e.o0 = norm(offset(S, e))
    return [e.w, e.dst, VInt(e.n, 64)]


def delivered(S, old, e, k):
    d = S.arr(e.dst, 0, 1)
    p = norm(e.J - e.o0)
    return [('the position moves on', Eq(offset(S, e), e.o0 + k)), ('never beyond the end', e.o0 + k <= e.sz),
            ('the bytes of the stream in order', Implies(And(e.o0 <= e.J, e.J < e.o0 + k), Eq(d(p), stream_at(old, e, e.J))))]


def p_read(S, old, r, args, e):
    return delivered(S, old, e, e.n) + reader_inv(S, e) + r_same(S, old, e)


def x_read(S, old, r, args, e):
    return [('end of stream only when fewer bytes are left', Or(bool(S.st.ghost.get('os_failed')), e.o0 + e.n > e.sz))] + r_same(S, old, e)


def inv_read(L):
    e, S = L.e, L.S
    S0 = Ctx(S.ex, S.ex.entry)
    return [('bytes so far', And(0 <= L.w, L.w <= e.n)), ('the destination follows', Eq(L.i, L.w))] + delivered(S, S0, e, L.w) + reader_inv(S, e) + r_same(S, S0, e)


LR = LoopSpec(r'.', inv_read, roles={'w': r'written', 'i': r'^i\b|^i\.'}, ptr_roles=('i',))


def s_get(S, e):
    return [reader(S, e, e.case[0])]


def p_off(S, old, r, args, e):
    return [('the number of bytes read', Eq(S.ex.as_u(S.st, r), offset(old, e)))]


def p_can(S, old, r, args, e):
    return [('exactly while bytes are left', Iff(isset(S.ex, S.st, r), offset(old, e) < e.sz))]


def p_size(S, old, r, args, e):
    return [('the size of the stream', Eq(S.ex.as_u(S.st, r), e.sz))]


def p_fsize(S, old, r, args, e):
    return [('header and content', Eq(S.ex.as_u(S.st, r), HS + e.sz))]


def h_hread(ex, st, ins, args, dn):
    """contract of serialization_header::read"""
    e = ex.spec_env
    S = Ctx(ex, st)
    fa_open_pre(ex, st, 'header read')
    bad = fa_fail(ex, st, 'header read')
    hp = ex.load(st, VPtr(args[0].obj, norm(args[0].off + 8)), ('ptr',))
    for f, w in HF:
        ex.store(st, VPtr(hp.obj, norm(hp.off + {'magic': 0, 'version': 8, 'size': 16, 'cleanClose': 24, 'reverse': 25}[f])), VInt(S.get(e.file, f, w, cls=HDR), w), ('i', w))
    gset(ex, st, 'fpos', 26)
    return outs(bad, ('ret', st, None))


def h_verify(ex, st, ins, args, dn):
    """contract of serialization_header::verify"""
    hp = ex.load(st, VPtr(args[0].obj, norm(args[0].off + 8)), ('ptr',))
    v = {f: ex.as_u(st, ex.load(st, VPtr(hp.obj, norm(hp.off + o)), ('i', w))) for f, o, w in (('magic', 0, 64), ('version', 8, 64), ('cleanClose', 24, 8), ('reverse', 25, 8))}
    ok = And(Eq(v['magic'], MAGIC), Eq(v['version'], 1), Eq(v['cleanClose'], 1), Or(Eq(v['reverse'], 0), Eq(v['reverse'], 1)))
    s = st.fork()
    ex.assume(s, Not(ok))
    s.path = s.path + ('bad header',)
    ex.assume(st, ok)
    return [('throw', s, '_ZTIN4tpie16stream_exceptionE'), ('ret', st, None)]


def good_file(S, e, rev):
    g = lambda f, w: S.get(e.file, f, w, cls=HDR)
    return And(Eq(g('magic', 64), MAGIC), Eq(g('version', 64), 1), Eq(g('cleanClose', 8), 1), Eq(g('reverse', 8), If(rev, 1, 0)))


def s_ropen(S, e):
    reader(S, e, e.case[0], opened=e.case[2])
    g = S.int('stored size', 64, 0, BIG)
    S.set(e.file, 'size', g, cls=HDR)
    for f in ('cleanClose', 'reverse'):
        S.set(e.file, f, S.int('stored ' + f, 8), 8, cls=HDR)
    e.r = z3.Bool('reverse')
    return [e.w, S.obj('path', 'param', None, None), VBool(e.r)]


def p_ropen(S, old, r, args, e):
    return [('only a properly closed stream of that direction is opened', good_file(old, e, e.r)), ('its size', Eq(m(S, e, 'm_size'), hdr(old, e, 'size'))), ('open', And(Eq(m(S, e, 'm_open', 8), 1), S.st.ghost['fopen'])),
            ('before the first block', And(Eq(m(S, e, 'm_index'), 0), Eq(m(S, e, 'm_blockSize'), 0), Eq(m(S, e, 'm_block.m_size'), BS))), bytes_kept(S, old, e), keeps_header(S, old, e)]


def x_ropen(S, old, r, args, e):
    return [('a good stream is not refused', Or(bool(S.st.ghost.get('os_failed')), Not(good_file(old, e, e.r)))), ('a refused file is not left open', And(Not(S.st.ghost['fopen']), Eq(m(S, e, 'm_open', 8), 0)))]


def h_ropen(ex, st, ins, args, dn):
    """contract of serialization_reader_base::open"""
    e = ex.spec_env
    S = Ctx(ex, st)
    gset(ex, st, 'dir', isset(ex, st, args[2]))
    for f, v in (('m_size', S.get(e.file, 'size', cls=HDR)), ('m_index', 0), ('m_blockSize', 0), ('m_block.m_size', BS)):
        put(S, e, f, v)
    put(S, e, 'm_open', 1, 8)
    gset(ex, st, 'fopen', True)
    return outs(fa_fail(ex, st, 'open'), ('ret', st, None))


def s_dopen(S, e):
    return s_ropen(S, e)[:2]


def p_dopen(S, old, r, args, e):
    e.sz = hdr(old, e, 'size')
    return [('in the direction of the reader', Iff(S.st.ghost.get('dir', False), e.rev)), ('at the start of the stream', Eq(offset(S, e), 0))] + reader_inv(S, e)


def s_rclose(S, e):
    return [reader(S, e, e.case[0], opened=e.case[2])]


def p_rclose(S, old, r, args, e):
    return [('closed', And(Eq(m(S, e, 'm_open', 8), 0), Not(S.st.ghost['fopen']))), ('the buffer is released', Eq(m(S, e, 'm_block.m_size'), 0)), bytes_kept(S, old, e), keeps_header(S, old, e)]


def p_rnew(S, old, r, args, e):
    return [('closed and empty', And([Eq(m(S, e, f), 0) for f in ('m_index', 'm_size', 'm_blockSize', 'm_block.m_size')] + [Eq(m(S, e, 'm_open', 8), 0)]))]


WRITERS = [(W, 'forward'), (RW, 'reverse')]
HW = [(r'serialization_header::write\(', h_hwrite)] + HK
HA = [(r'array<char.*::resize\(', h_resize)]
HV = VEC + HK
HC = [(r'writer_base::close\(', h_bclose)] + HK

FNS = [
    FnSpec('header_size', r'serialization_header::header_size\(', lambda S, e: [], lambda S, o, r, a, e: [('one page', Eq(S.ex.as_u(S.st, r), HS))]),
    FnSpec('base write_block', r'writer_base::write_block\(', s_bwb, p_bwb, exc=x_os, hooks=HK, cases=[(W, 'plain', False), (W, 'temporary', True)]),
    FnSpec('writer write_block', r'serialization_writer::write_block\(', s_wb, p_wb, exc=x_os, hooks=[(r'writer_base::write_block\(', h_bwb)] + HK, cases=[(W,)]),
    FnSpec('reverse writer write_block', r'serialization_reverse_writer::write_block\(', s_wb, p_wb, exc=x_os, hooks=[(r'writer_base::write_block\(', h_bwb)] + HK, cases=[(RW,)]),
    FnSpec('serializer write', r'^vp_write\(', s_write, p_write, exc=x_os, hooks=[(r'serialization_writer::write_block\(', h_wb)] + HK, loops=[LW], cases=[(W,)]),
    FnSpec('base close', r'writer_base::close\(', s_bclose, p_bclose, exc=x_os, hooks=HW, cases=[(W, 'open', True), (W, 'closed', False)]),
    FnSpec('base open_inner', r'writer_base::open_inner\(', s_inner, p_inner, exc=x_inner, hooks=HC[:1] + HW, cases=[(W, 'open', True), (W, 'closed', False)], opts={'close_fails': False}),
    FnSpec('base open', r'writer_base::open\(.*string', s_bopen, p_bopen(False), exc=x_os, hooks=[(r'open_inner\(', h_inner)] + HK, cases=WRITERS[:1]),
    FnSpec('base open temporary', r'writer_base::open\(tpie::temp_file', s_bopen, p_bopen(True), exc=x_os, hooks=[(r'open_inner\(', h_inner), (r'temp_file::path', h_path)] + HK, cases=WRITERS[:1]),
    FnSpec('file_size', r'writer_base::file_size\(', s_fs, lambda S, o, r, a, e: [('header and content', Eq(S.ex.as_u(S.st, r), HS + e.sz))], hooks=HK),
]
for nm, c in (('serialization_writer', W), ('serialization_reverse_writer', RW)):
    P = r'^tpie::%s::' % nm
    v = 'vp_' if c is W else 'vp_r'
    FNS += [
        FnSpec(nm + ' close', P + r'close\(', s_close, p_close, exc=x_os, hooks=[(r'writer::write_block\(', h_wb)] + HA + HC, cases=[(c, 'open', True), (c, 'closed', False)]),
        FnSpec(nm + ' open', P + r'open\(.*string', s_open, p_open(False), exc=x_open, hooks=[(P + r'close\(', h_close), (r'writer_base::open\(', h_bopen)] + HA + HK, cases=[(c, 'open', True), (c, 'closed', False)]),
        FnSpec(nm + ' open temporary', P + r'open\(tpie::temp_file', s_open, p_open(True), exc=x_open, hooks=[(P + r'close\(', h_close), (r'writer_base::open\(', h_bopen)] + HA + HK, cases=[(c, 'open', True), (c, 'closed', False)]),
        FnSpec('~' + nm, P + '~' + nm, s_del, p_del, hooks=[(P + r'close\(', h_close)] + HA + HV, cases=[(c,)], opts={'no_io_error': True}),
        FnSpec(nm + ' constructor', P + nm + r'\(', s_new, p_new, hooks=HV, cases=[(c,)]),
    ]
FNS += [
    FnSpec('reverse serializer flush', r'^vp_flush\(', s_flush, p_flush, exc=x_os, hooks=[(r'writer::write_block\(', h_wb)] + HV, loops=[LW], opts={'no_io_error': True}),
    FnSpec('reverse serializer write', r'^vp_collect\(', s_collect, p_collect, hooks=HV),
]
READERS = [(R, 'forward'), (RR, 'reverse')]
OC = [(R, 'open', True), (R, 'closed', False)]
HRB = [(r'reader_base::read_block\(', h_rblock)] + HK
FNS += [
    FnSpec('header write', r'serialization_header::write\(', s_header, p_hwrite, exc=x_os, hooks=[(r'array<char.*::array\(unsigned long', h_area), (r'array<char.*::resize\(', h_arearesize), (r'std::fill<', h_nop), (r'posix::write_i\(', h_write2)] + HK, cases=[('write',)]),
    FnSpec('header read', r'serialization_header::read\(', s_header, p_hread, exc=x_os, hooks=HK, cases=[('read',)]),
    FnSpec('header verify', r'serialization_header::verify\(', s_header, p_verify, exc=x_verify, hooks=HK, cases=[('verify',)]),
    FnSpec('read_block', r'reader_base::read_block\(', s_rblock, p_rblock, exc=x_rblock, hooks=HK, cases=READERS[:1]),
    FnSpec('next_block', r'serialization_reader::next_block\(', s_next, p_next, exc=x_next, hooks=HRB, cases=READERS[:1]),
    FnSpec('reverse next_block', r'serialization_reverse_reader::next_block\(', s_next, p_next, exc=x_next, hooks=HRB, cases=READERS[1:]),
    FnSpec('read', r'^vp_read\(', s_read, p_read, exc=x_read, hooks=[(r'^next_block\(\)', h_next)] + HK, loops=[LR], cases=READERS),
    FnSpec('offset', r'serialization_reader::offset\(', s_get, p_off, hooks=HK, cases=READERS[:1]),
    FnSpec('reverse offset', r'serialization_reverse_reader::offset\(', s_get, p_off, hooks=HK, cases=READERS[1:]),
    FnSpec('can_read', r'^vp_can\(', s_get, p_can, hooks=HK, cases=READERS[:1]),
    FnSpec('reverse can_read', r'^vp_rcan\(', s_get, p_can, hooks=HK, cases=READERS[1:]),
    FnSpec('size', r'reader_base::size\(', s_get, p_size, hooks=HK, cases=READERS[:1]),
    FnSpec('reader file_size', r'reader_base::file_size\(', s_get, p_fsize, hooks=HK, cases=READERS[:1]),
    FnSpec('reader base open', r'reader_base::open\(', s_ropen, p_ropen, exc=x_ropen, hooks=[(r'header::read\(', h_hread), (r'header::verify\(', h_verify)] + HA + HK, cases=OC, opts={'close_fails': False}),
    FnSpec('reader open', r'serialization_reader::open\(.*string', s_dopen, p_dopen, exc=x_os, hooks=[(r'reader_base::open\(', h_ropen)] + HK, cases=OC),
    FnSpec('reverse reader open', r'serialization_reverse_reader::open\(.*string', s_dopen, p_dopen, exc=x_os, hooks=[(r'reader_base::open\(', h_ropen)] + HK, cases=[(RR, 'open', True), (RR, 'closed', False)]),
    FnSpec('reader close', r'reader_base::close\(', s_rclose, p_rclose, exc=x_os, hooks=HA + HK, cases=OC),
    FnSpec('reader constructor', r'^vp_rdnew\(', s_new, p_rnew, hooks=HK, cases=READERS[:1]),
    FnSpec('reverse reader constructor', r'^vp_rrdnew\(', s_new, p_rnew, hooks=HK, cases=READERS[1:]),
]
BOUNDED = [('whole histories of writers and readers of both directions in a scratch directory: reused writers and readers, values around block boundaries, corrupt headers, truncated files',
            'streams of up to about 6 MB')]
ASSUME = ['the file accessor by its contract (proved in C14)', 'std::reverse, std::fill and std::vector by contract', 'tpie::array::resize by its contract (proved in C01)',
          'streams below 2^50 bytes', 'an I/O error inside a destructor ends the program (std::terminate) and is not considered', 'the serialization of the single values is C21']
LEVEL = 'proof'
RULE = 'a reader delivers, position by position and for an arbitrary position, the bytes the writer accepted, and reports the end exactly when all are delivered'
