"""A compressed stream is an exact sequence of items with positions.

Abstract view: V(p) = the loaded buffer's item when position p lies in it, otherwise item p
of the blocks already handed to the compressor (ghost FILE); L = m_size, o = offset().
Ghost bb: the number of the block in the buffer.  The block layer (flush_block, get_buffer,
read_next_block, read_previous_block) is used by contract and verified further below."""
from lib import *
from lib import _fresh
from oslib import STR

ID = 'C25'
TU = 'cstream'
HARNESS = 'streams'
SCENARIOS = ['cstream']
PB = r'compressed_stream_base_p::'
KEEP = [r'compressed_stream_base::(close|set_position|seek)\(', PB + r'(flush_block|get_buffer|read_next_block|read_previous_block|finish_requests|last_block_read_offset|current_file_size|wait_for_requests|compressor\b|perform_seek)', r'compressor_thread_lock', r'stream_accessor_base<.*>::', r'byte_stream_accessor<.*>::', r'update_recorded_size', r'compressor_request::', r'compressor_thread::request', r'compressor_buffer::', r'log_error|log_debug|basic_ostream|std::ostream|^tpie::log', r'__shared_ptr<tpie::compressor_buffer.*::reset', r'compressor_response::', r'^std::basic_string|^std::__cxx11']
BASE, PRIV = '_ZTSN4tpie22compressed_stream_baseE', '_ZTSN4tpie24compressed_stream_base_pE'
MAX = 2 ** 64 - 1
BIG = 2 ** 50
NONE, BEG, END, POS = 0, 1, 2, 3
P = z3.Int('p')


def m(S, env, n, w=64):
    return S.get(env.t, n, w)


def q(S, env, n, w=64):
    return S.get(env.p, n, w)


def buf(S):
    return S.st.ghost['hasbuf']


def bb(S):
    return S.st.ghost['bb']


def start(S, env):
    return Z(MUL(S, bb(S), env.bi))


def blen(S, env):
    left = Z(m(S, env, 'm_size')) - start(S, env)
    return If(left > env.bi, env.bi, left)


def idx(S, env):
    from heap import norm_div
    p = S.ptr(env.t, 'm_nextItem')
    if p.obj is not env.buf.obj:
        raise Unsupported('m_nextItem outside the buffer')
    try:
        return norm_div(p.off, 8)
    except Unsupported:
        return z3.simplify(Z(p.off) / 8)


def bufa(S, env):
    return S.arr(env.buf, 0, 8)


def filea(S, env):
    return S.arr(env.file, 0, 8)


def view(S, env, p):
    if not buf(S):
        return filea(S, env)(p)
    s = start(S, env)
    return If(And(s <= p, p < s + blen(S, env)), bufa(S, env)(p - s), filea(S, env)(p))


def state(S, env):
    return m(S, env, 'm_seekState', 32)


def offset(S, env):
    s = state(S, env)
    return If(Eq(s, NONE), m(S, env, 'm_offset'), If(Eq(s, BEG), 0, If(Eq(s, END), m(S, env, 'm_size'), q(S, env, 'm_nextPosition.m_offset'))))


def dirty(S, env):
    return Ne(q(S, env, 'm_bufferDirty', 8), 0)


def inv(S, env, goal=False):
    L, bi = Z(m(S, env, 'm_size')), env.bi
    SB = Z(q(S, env, 'm_streamBlocks'))
    o = offset(S, env)
    s = state(S, env)
    d = dirty(S, env)
    cr, cw = Z(m(S, env, 'm_cachedReads')), Z(m(S, env, 'm_cachedWrites'))
    full = MUL(S, SB, bi)
    out = [('the offset is within the stream', And(0 <= o, o <= L)), ('sizes are sane', And(0 <= L, L <= BIG, SB <= 2 * BIG, SB >= 0))]
    if not buf(S):
        return out + [('without a buffer a seek is pending', Ne(s, NONE)), ('without a buffer nothing is unwritten', Not(d)),
                      ('the blocks of the file are those of the stream', And(Z(full) >= L, Implies(SB > 0, Z(MUL(S, SB - 1, bi)) < L))),
                      ('no unchecked reads or writes', And(Eq(cr, 0), Eq(cw, 0)))]
    b, i, n, st = Z(bb(S)), Z(idx(S, env)), blen(S, env), start(S, env)
    data, f = bufa(S, env), filea(S, env)
    k = z3.Int('k')
    clean = lambda x: Implies(And(Not(d), 0 <= x, x < n), Eq(data(x), f(st + x)))
    e = S.ptr(env.t, 'm_bufferEnd')
    return out + [('the place in the buffer', And(0 <= i, i <= n, Eq(m(S, env, 'm_offset'), st + i))),
                  ('the buffer is a block of the stream or the next one', And(0 <= b, b <= SB, st <= L)),
                  ('the end of the buffer', And(e.obj is env.buf.obj, Eq(e.off, bi * 8) if e.obj is env.buf.obj else False)),
                  ('the blocks of the file are those of the stream, but for a new one in the buffer', If(Eq(b, SB), And(Z(full) <= L, L <= Z(full) + bi, Implies(L > Z(full), d), Implies(d, L > Z(full))), And(Z(full) >= L, Z(MUL(S, SB - 1, bi)) < L))),
                  ('a compressed stream only changes its last block', Implies(And(d, env.comp), b >= SB - 1)),
                  ('unchecked reads stay in the block', Implies(cr > 0, And(Eq(s, NONE), i + cr <= n))),
                  ('unchecked writes append to a block marked to be written', Implies(cw > 0, And(Eq(s, NONE), d, Eq(m(S, env, 'm_offset'), L), i + cw <= bi, Eq(cr, 0)))),
                  ('a clean buffer equals the file', clean(k) if goal else And(forall(1, lambda x: clean(x), lambda x: data.fn(x)), forall(1, lambda x: Implies(And(Not(d), st <= x, x < st + n), Eq(data(x - st), f(x))), lambda x: f.fn(x))))]


# ---------------------------------------------------------------- a stream in an arbitrary valid state
LOOSE = ('the offset is within the stream', 'without a buffer a seek is pending')


def stream(S, env, loose=False):
    """case = (seek state, buffer held, compressed)"""
    ex = S.ex
    ex.spec_env = env
    ss, hb, env.comp = env.case[:3]
    t = env.t = S.obj('stream', cls=BASE)
    p = env.p = S.obj('private', cls=PRIV)
    S.set(t, 'm_p', p)
    S.set(p, 'm_o', t)
    env.bi = S.int('blockItems', 64, 1, 2 ** 40)
    S.set(p, 'm_blockItems', env.bi)
    env.bs = S.int('blockSize', 64, 8, 2 ** 44)
    S.assume(env.bi * 8 <= env.bs)
    S.set(p, 'm_blockSize', env.bs)
    S.set(p, 'm_itemSize', 8)
    for n in ('m_open', 'm_canRead'):
        S.set(p, n, 1, 8)
    env.w = z3.Bool('canWrite')
    S.set(p, 'm_canWrite', If(env.w, 1, 0), 8)
    env.L = S.int('size', 64, 0, BIG)
    S.set(t, 'm_size', env.L)
    S.set(p, 'm_streamBlocks', S.int('streamBlocks', 64, 0, 2 * BIG))
    S.set(p, 'm_bufferDirty', If(z3.Bool('dirty'), 1, 0) if hb else 0, 8)
    S.set(p, 'm_updateReadOffsetFromWrite', If(z3.Bool('upd'), 1, 0), 8)
    env.buf = S.heap('block', Cell(8, 'i'), env.bi, False)
    o = Obj('file items', 'global', Arr(8, 2 ** 59, Cell(8, 'i')), 2 ** 62)
    o.gname = 'the items of the blocks written'
    ex.fobj = o
    S.st.objs[o.id] = o
    env.file = VPtr(o, 0)
    b = S.int('bb', 64, 0, 2 * BIG)
    S.st.ghost.update(hasbuf=hb, bb=b)
    S.set(t, 'm_seekState', ss, 32)
    S.set(p, 'm_nextPosition.m_offset', S.int('pos', 64, 0, BIG) if ss == POS else S.int('pos', 64))
    if hb:
        env.ctl = S.obj('buffer', 'param', None, None)
        S.set(p, 'm_buffer._M_ptr', env.ctl)
        i = S.int('idx', 64, 0, 2 ** 41)
        S.set(t, 'm_bufferBegin', env.buf)
        S.set(t, 'm_bufferEnd', VPtr(env.buf.obj, norm(env.bi * 8)))
        S.set(t, 'm_nextItem', VPtr(env.buf.obj, norm(i * 8)))
        S.set(t, 'm_offset', norm(Z(MUL(S, b, env.bi)) + i))
    else:
        S.set(p, 'm_buffer._M_ptr', VPtr(None, 0))
        # the pointers of a buffer given up
        S.set(t, 'm_bufferBegin', env.buf)
        S.set(t, 'm_bufferEnd', VPtr(env.buf.obj, norm(env.bi * 8)))
        S.set(t, 'm_nextItem', VPtr(env.buf.obj, norm(S.int('idx', 64, 0, 2 ** 41) * 8)))
        S.set(t, 'm_offset', S.int('stale', 64))
    S.set(p, 'm_ownedTempFile', S.heap('owned temporary file', Cell(8, 'ptr'), 1, z3.Bool('owns')))
    tf = S.obj('tempfile', 'param', None, None)
    S.set(p, 'm_tempFile', VPtr(tf.obj, 0, z3.Bool('no_tempfile')))
    S.assume(And([f for n, f in inv(S, env) if not (loose and n in LOOSE)]))
    env.o = offset(S, env)
    return t


# ---------------------------------------------------------------- contracts
def nop(ex, st, ins, args, dn):
    return None


def anynum(ex, st, ins, args, dn):
    v = z3.Int('number!%d' % next(_fresh))
    ex.assume(st, And(0 <= v, v < 2 ** 64))
    return VInt(v, 64)


def c_comp(ex, st, ins, args, dn):
    return VBool(ex.spec_env.comp)


def c_close(ex, st, ins, args, dn):
    ex.oblige(st, 'the stream is not closed as long as no I/O fails', 'assert', False)
    ex.prune_false = True
    return None


def c_thread(ex, st, ins, args, dn):
    return VPtr(Obj('compressor', 'param', None, None), 0)


def uncache(S, env):
    S.set(env.t, 'm_cachedReads', 0)
    S.set(env.t, 'm_cachedWrites', 0)


def c_reset(ex, st, ins, args, dn):
    env = ex.spec_env
    S = Ctx(ex, st)
    S.set(env.p, 'm_buffer._M_ptr', VPtr(None, 0))
    gset(ex, st, 'hasbuf', False)
    return None


def c_flush(ex, st, ins, args, dn):
    env = ex.spec_env
    S = Ctx(ex, st)
    ex.oblige(st, 'flush_block: there is a block to write', 'pre', And(buf(S), dirty(S, env)))
    if not buf(S):
        return None
    b, SB = Z(bb(S)), Z(q(S, env, 'm_streamBlocks'))
    ex.oblige(st, 'flush_block: the place in the buffer is the offset', 'pre', And(Eq(m(S, env, 'm_offset'), start(S, env) + idx(S, env)), 0 <= idx(S, env), idx(S, env) <= env.bi))
    ex.oblige(st, 'flush_block: the block has items', 'pre', And(blen(S, env) > 0, Implies(Eq(idx(S, env), 0), Implies(env.comp, True))))
    ex.oblige(st, 'flush_block: no gap is left in the file', 'pre', b <= SB)
    ex.oblige(st, 'flush_block: a compressed stream only writes its last block', 'pre', Implies(env.comp, b >= SB - 1))
    f0, data, s, n = filea(S, env), bufa(S, env), start(S, env), blen(S, env)
    ex.havoc_leaf(st, ex.fobj, 0, 8)
    f1 = filea(S, env)
    ex.assume(st, forall(1, lambda x: Eq(f1.fn(x), If(And(s <= x, x < s + n), data.fn(x - s), f0.fn(x))), lambda x: f1.fn(x)))
    ex.assume(st, forall(1, lambda k: Implies(And(0 <= k, k < n), Eq(f1.fn(s + k), data.fn(k))), lambda k: data.fn(k)))
    uncache(S, env)
    S.set(env.p, 'm_bufferDirty', 0, 8)
    S.set(env.p, 'm_streamBlocks', norm(If(Eq(b, SB), SB + 1, SB)))
    return None


def take(ex, st, bn, exact=False):
    """a buffer for block bn"""
    env = ex.spec_env
    S = Ctx(ex, st)
    uncache(S, env)
    ex.havoc_leaf(st, env.buf.obj, 0, 8)
    S.set(env.p, 'm_buffer._M_ptr', S.obj('buffer%d' % next(_fresh), 'param', None, None))
    S.set(env.p, 'm_bufferDirty', 0, 8)
    S.set(env.t, 'm_bufferBegin', env.buf)
    S.set(env.t, 'm_bufferEnd', VPtr(env.buf.obj, norm(env.bi * 8)))
    gset(ex, st, 'hasbuf', True)
    gset(ex, st, 'bb', norm(bn))
    return S, env


def c_getbuf(ex, st, ins, args, dn):
    take(ex, st, Z(ex.as_u(st, args[2])))
    return None


def load(ex, st, bn):
    S, env = take(ex, st, bn)
    s, n, L = start(S, env), blen(S, env), Z(m(S, env, 'm_size'))
    ex.oblige(st, 'a block that is read is in the file', 'pre', And(0 <= bn, bn < Z(q(S, env, 'm_streamBlocks')), s < L))
    data, f = bufa(S, env), filea(S, env)
    ex.assume(st, forall(1, lambda k: Implies(And(0 <= k, k < n), Eq(data.fn(k), f.fn(s + k))), lambda k: data.fn(k)))
    ex.assume(st, forall(1, lambda x: Implies(And(s <= x, x < s + n), Eq(data.fn(x - s), f.fn(x))), lambda x: f.fn(x)))
    for n_ in ('m_readOffset', 'm_nextReadOffset'):
        v = z3.Int('%s!%d' % (n_, next(_fresh)))
        ex.assume(st, And(0 <= v, v < 2 ** 64))
        S.set(env.p, n_, v)
    S.set(env.p, 'm_updateReadOffsetFromWrite', 0, 8)
    return S, env


def c_next(ex, st, ins, args, dn):
    S, env = load(ex, st, Z(ex.as_u(st, args[2])))
    S.set(env.t, 'm_nextItem', env.buf)
    # the first block is at the beginning of the file
    ex.assume(st, Implies(Eq(bb(S), 0), Eq(q(S, env, 'm_readOffset'), 0)))
    return None


def c_prev(ex, st, ins, args, dn):
    ex.oblige(st, 'read_previous_block: the stream is compressed', 'pre', ex.spec_env.comp)
    S, env = load(ex, st, Z(ex.as_u(st, args[2])))
    ex.oblige(st, 'read_previous_block: the block is full', 'pre', Eq(blen(S, env), env.bi))
    S.set(env.t, 'm_nextItem', VPtr(env.buf.obj, norm(env.bi * 8)))
    return None


def c_finish(ex, st, ins, args, dn):
    ex.oblige(st, 'finish_requests: no buffer is held', 'pre', not Ctx(ex, st).st.ghost['hasbuf'])
    return None


def c_trunc(ex, st, ins, args, dn):
    env = ex.spec_env
    n = ex.as_u(st, args[1])
    S = Ctx(ex, st)
    f0 = filea(S, env)
    ex.havoc_leaf(st, ex.fobj, 0, 8)
    f1 = filea(S, env)
    ex.assume(st, forall(1, lambda x: Implies(x < n, Eq(f1.fn(x), f0.fn(x))), lambda x: f1.fn(x)))
    return None


def c_seek(ex, st, ins, args, dn):
    """perform_seek, verified below"""
    env = ex.spec_env
    S = Ctx(ex, st)
    back = st_int(ex, st, args[1]) == 1
    ex.oblige(st, 'perform_seek: a seek is pending', 'pre', Ne(state(S, env), NONE))
    for n, f in inv(S, env, True):
        ex.oblige(st, 'perform_seek: ' + n, 'pre', f)
    old = Ctx(ex, st.fork())
    o, L = offset(old, env), m(old, env, 'm_size')
    ex.oblige(st, 'perform_seek: reading backwards needs an item before', 'pre', Implies(back, Z(o) > 0))
    # the blocks: everything unwritten is written first
    ex.havoc_leaf(st, ex.fobj, 0, 8)
    b = z3.Int('bb!%d' % next(_fresh))
    ex.assume(st, And(0 <= b, b <= 2 * BIG))
    take(ex, st, b)
    i = z3.Int('idx!%d' % next(_fresh))
    ex.assume(st, And(0 <= i, i <= env.bi))
    for n_, c in (('m_readOffset', 1), ('m_nextReadOffset', 1), ('m_streamBlocks', 1)):
        v = z3.Int('%s!%d' % (n_, next(_fresh)))
        ex.assume(st, And(0 <= v, v < 2 ** 64))
        S.set(env.p, n_, v)
    S.set(env.p, 'm_updateReadOffsetFromWrite', 0, 8)
    S.set(env.t, 'm_nextItem', VPtr(env.buf.obj, norm(i * 8)))
    S.set(env.t, 'm_offset', o)
    S.set(env.t, 'm_seekState', NONE, 32)
    for n, f in seek_facts(S, old, env, o, L, back):
        ex.assume(st, f)
    return None


def st_int(ex, st, v):
    e = ex.as_u(st, v)
    if not is_c(e):
        raise Unsupported('symbolic direction')
    return e


def seek_facts(S, old, env, o, L, back, goal=False):
    f = filea(S, env)
    k = z3.Int('k')
    if not buf(S):
        return [('a buffer is held', False)]
    return inv(S, env, goal) + [('no seek is pending', Eq(state(S, env), NONE)), ('the offset is the one asked for', Eq(m(S, env, 'm_offset'), o)), ('nothing is unwritten', Not(dirty(S, env))),
                                ('the size is kept', Eq(m(S, env, 'm_size'), L)),
                                ('forwards: the next item is in the buffer', Implies(And(not back, Z(o) < L), idx(S, env) < blen(S, env))),
                                ('forwards: at the end there is room for an item', Implies(And(not back, Eq(o, L)), idx(S, env) < env.bi)),
                                ('backwards: the item before is in the buffer', Implies(back, idx(S, env) > 0)),
                                ('every item is in the file', Implies(And(0 <= P, P < L), Eq(f(P), view(old, env, P))) if goal else forall(1, lambda x: Implies(And(0 <= x, x < L), Eq(f.fn(x), view(old, env, x))), lambda x: f.fn(x)))]


LOW = [(r'update_recorded_size', nop), (r'compressor_thread_lock::', nop), (r'compressed_stream_base::close\(', c_close), (PB + r'compressor\(', c_thread), (r'shared_ptr<tpie::compressor_buffer.*::reset', c_reset),
       (PB + r'flush_block', c_flush), (PB + r'get_buffer', c_getbuf), (PB + r'read_next_block', c_next), (PB + r'read_previous_block', c_prev), (PB + r'finish_requests', c_finish),
       (PB + r'(last_block_read_offset|current_file_size)', anynum), (r'accessor_base<.*::get_compressed', c_comp), (r'accessor_base<.*::close\(', nop), (r'byte_stream_accessor<.*::truncate_bytes', nop), (r'accessor_base<.*::truncate\(', c_trunc),
       (r'compressor_response::', nop)] + MM + STR
HK = [(PB + r'perform_seek', c_seek)] + LOW
AX = dict(axioms=(products(z3.Int('blockItems')),), opts={'euclid': True, 'no_return_ok': True})
CASES = [(s, h, c) for s, h in ((NONE, True), (BEG, True), (BEG, False), (END, True), (END, False), (POS, True), (POS, False)) for c in (False, True)]


def same_view(S, old, env, lim=None, but=()):
    L = env.L if lim is None else lim
    return ('every item is kept', Implies(And(0 <= P, P < L, And([Ne(P, b) for b in but])), Eq(view(S, env, P), view(old, env, P))))


def ok(S, env):
    return inv(S, env, True)


def unchanged(S, old, env):
    return [('the number of items is the same', Eq(m(S, env, 'm_size'), env.L)), ('the offset is the same', Eq(offset(S, env), env.o)), same_view(S, old, env)] + ok(S, env)


def exc_end(cond, what):
    def exc(S, old, r, args, env):
        return [('refused only ' + what, cond(env))] + [('refused: ' + n, f) for n, f in unchanged(S, old, env)]
    return exc


def s_plain(S, env):
    return [stream(S, env)]


def s_out(S, env):
    t = stream(S, env)
    env.out = S.obj('item', 'param', Struct([(0, Cell(8, 'i'))], 8), 8)
    return [t, env.out]


def post_read(at, step, out=True):
    def post(S, old, r, args, env):
        o = [('the item last written at this position', Eq(S.ex.as_u(S.st, S.ex.load(S.st, env.out, ('i', 64))), view(old, env, env.o + at)))] if out else []
        return o + [('there is an item', And(env.o + at >= 0, env.o + at < env.L)), ('the offset moves past it', Eq(offset(S, env), env.o + step)),
                    ('the number of items is the same', Eq(m(S, env, 'm_size'), env.L)), same_view(S, old, env)] + ok(S, env)
    return post


def s_write(S, env):
    t = stream(S, env)
    S.assume(env.w, env.L < BIG - 1)
    env.x = S.int('x', 64)
    p = S.obj('item', 'param', Struct([(0, Cell(8, 'i'))], 8), 8)
    S.ex.store(S.st, p, VInt(env.x, 64), ('i', 64))
    return [t, p]


def post_write(S, old, r, args, env):
    return [('the item is at the offset', Eq(view(S, env, env.o), env.x)), ('the offset moves past it', Eq(offset(S, env), env.o + 1)),
            ('the stream grows exactly when written at its end', Eq(m(S, env, 'm_size'), If(env.o + 1 > env.L, env.o + 1, env.L))),
            ('a compressed stream is only appended to', Implies(env.comp, Eq(env.o, env.L))), same_view(S, old, env, but=(env.o,))] + ok(S, env)


def post_ret(f, nm):
    def post(S, old, r, args, env):
        v = r.e if isinstance(r, VBool) else S.ex.as_u(S.st, r)
        g = f(env)
        return [(nm, Iff(v, g) if isinstance(r, VBool) else Eq(v, g))] + unchanged(S, old, env)
    return post


def s_ps(S, env):
    t = stream(S, env)
    back = env.case[3]
    if back:
        S.assume(Z(env.o) > 0)
    return [env.p, VInt(1 if back else 0, 32)]


def post_ps(S, old, r, args, env):
    return seek_facts(S, old, env, env.o, env.L, env.case[3], True) + [('the block in the buffer fits', True), same_view(S, old, env)]


def s_seek(S, env):
    t = stream(S, env)
    env.off = z3.Int('off')
    S.assume(env.off > -2 ** 55, env.off < 2 ** 55)
    w = env.case[3]
    env.to = env.off + (0, env.L, env.o)[w]
    return [t, VInt(env.off, 64), VInt(w, 32)]


def post_seek(S, old, r, args, env):
    return [('only positions inside the file', And(env.to >= 0, env.to <= env.L)), ('the offset is the position asked for', Eq(offset(S, env), env.to)),
            ('a compressed stream seeks only to its ends', Implies(env.comp, Eq(env.off, 0))),
            ('the number of items is the same', Eq(m(S, env, 'm_size'), env.L)), same_view(S, old, env)] + ok(S, env)


FNS = [
    FnSpec('offset', r'^tpie::compressed_stream_base::offset\(', s_plain, post_ret(lambda e: e.o, 'the offset'), hooks=HK, **AX, cases=CASES),
    FnSpec('size', r'\bvp_csize\(', s_plain, post_ret(lambda e: e.L, 'the number of items'), hooks=HK, **AX, cases=CASES),
    FnSpec('can_read', r'\bvp_ccanread\(', s_plain, post_ret(lambda e: e.o < e.L, 'readable exactly before the end'), hooks=HK, **AX, cases=CASES),
    FnSpec('can_read_back', r'\bvp_ccanback\(', s_plain, post_ret(lambda e: e.o > 0, 'readable backwards exactly after the beginning'), hooks=HK, **AX, cases=CASES),
    FnSpec('read', r'\bvp_cread\(', s_out, post_read(0, 1), exc=exc_end(lambda e: e.o >= e.L, 'at the end'), hooks=HK, **AX, cases=CASES),
    FnSpec('peek', r'\bvp_cpeek\(', s_out, post_read(0, 0), exc=exc_end(lambda e: e.o >= e.L, 'at the end'), hooks=HK, **AX, cases=CASES),
    FnSpec('skip', r'\bvp_cskip\(', s_plain, post_read(0, 1, False), exc=exc_end(lambda e: e.o >= e.L, 'at the end'), hooks=HK, **AX, cases=CASES),
    FnSpec('read_back', r'\bvp_cback\(', s_out, post_read(-1, -1), exc=exc_end(lambda e: e.o <= 0, 'at the beginning'), hooks=HK, **AX, cases=CASES),
    FnSpec('skip_back', r'\bvp_cskipback\(', s_plain, post_read(-1, -1, False), exc=exc_end(lambda e: e.o <= 0, 'at the beginning'), hooks=HK, **AX, cases=CASES),
    FnSpec('write', r'\bvp_cwrite\(', s_write, post_write, exc=exc_end(lambda e: And(e.comp, Ne(e.o, e.L)), 'in the middle of a compressed stream'), hooks=HK, **AX, cases=CASES),
    FnSpec('seek', r'^tpie::compressed_stream_base::seek\(', s_seek, post_seek, exc=exc_end(lambda e: Or(e.to < 0, e.to > e.L, And(e.comp, Ne(e.off, 0))), 'outside the file'), hooks=HK, **AX, cases=[c + (w,) for c in CASES for w in (0, 1, 2)]),
]
for _c in CASES:
    if _c[0] != NONE:
        FNS.append(FnSpec('perform_seek %s%s%s' % ({1: 'to the beginning', 2: 'to the end', 3: 'to a position'}[_c[0]], '' if _c[1] else ', no buffer', ', compressed' if _c[2] else ''),
                          PB + r'perform_seek\(', s_ps, post_ps, hooks=LOW, **AX, cases=[_c + (b,) for b in (False, True) if not (b and _c[0] == BEG)]))


# ---------------------------------------------------------------- positions, truncation, closing
def s_setpos(S, env):
    t = stream(S, env)
    env.to, env.ro = S.int('to', 64), S.int('readOffset', 64)
    pos = S.obj('position', 'param', Struct([(0, Cell(8, 'i')), (8, Cell(8, 'i'))], 16), 16)
    S.ex.store(S.st, pos, VInt(env.ro, 64), ('i', 64))
    S.ex.store(S.st, VPtr(pos.obj, 8), VInt(env.to, 64), ('i', 64))
    env.isend = And(Eq(env.to, MAX - 1), Eq(env.ro, MAX - 1))
    return [t, pos]


def post_setpos(S, old, r, args, env):
    return [('only positions inside the file', Or(env.isend, env.to <= env.L)), ('the offset is the position asked for', Eq(offset(S, env), If(env.isend, env.L, env.to))),
            ('the number of items is the same', Eq(m(S, env, 'm_size'), env.L)), same_view(S, old, env)] + ok(S, env)


def post_getpos(S, old, r, args, env):
    ro, o = r.v
    return [('the position has the offset', Eq(S.ex.as_u(S.st, o), env.o)), ('uncompressed positions have no read offset', Implies(Not(env.comp), Eq(S.ex.as_u(S.st, ro), 0)))] + unchanged(S, old, env)


def s_trunc(S, env):
    t = stream(S, env)
    S.assume(env.w)
    env.n = S.int('newsize', 64, 0, BIG)
    return [t, VInt(env.n, 64)]


def s_truncp(S, env):
    """a position taken earlier, not past the end"""
    t = stream(S, env)
    S.assume(env.w)
    env.n, env.ro = S.int('newsize', 64, 0, BIG), S.int('readOffset', 64)
    S.assume(env.n <= env.L)
    pos = S.obj('position', 'param', Struct([(0, Cell(8, 'i')), (8, Cell(8, 'i'))], 16), 16)
    S.ex.store(S.st, pos, VInt(env.ro, 64), ('i', 64))
    S.ex.store(S.st, VPtr(pos.obj, 8), VInt(env.n, 64), ('i', 64))
    return [t, pos]


def post_trunc(S, old, r, args, env):
    return [('the number of items is the one given', Eq(m(S, env, 'm_size'), env.n)), ('the offset is kept inside the stream', Eq(offset(S, env), If(env.o > env.n, env.n, env.o))),
            same_view(S, old, env, If(env.n > env.L, env.L, env.n))] + ok(S, env)


def c_aclose(ex, st, ins, args, dn):
    gset(ex, st, 'fopen', False)
    return None


def post_close(S, old, r, args, env):
    a = lambda n: q(S, env, 'm_byteStreamAccessor.' + n)
    return [('the stream is closed', Eq(q(S, env, 'm_open', 8), 0)), ('the file is closed', Not(S.st.ghost.get('fopen', True))), ('the file has every item', Eq(a('m_size'), env.L)),
            ('no buffer is held', not buf(S)), ('a seek is pending', Eq(state(S, env), BEG)), ('nothing is left to write', Not(dirty(S, env))),
            ('nothing is unchecked', And(Eq(m(S, env, 'm_cachedReads'), 0), Eq(m(S, env, 'm_cachedWrites'), 0))),
            ('the file holds the items last written', Implies(And(0 <= P, P < env.L), Eq(filea(S, env)(P), view(old, env, P))))]



def moved(ex, st, to, what):
    """set_position and seek from the beginning, verified below: only the place changes"""
    env = ex.spec_env
    S = Ctx(ex, st)
    L = m(S, env, 'm_size')
    ex.oblige(st, what + ': the position is inside the stream', 'pre', And(0 <= Z(to), Z(to) <= Z(L)))
    for n, f in inv(S, env, True):
        if n not in LOOSE:
            ex.oblige(st, what + ': ' + n, 'pre', f)
    uncache(S, env)
    S.set(env.p, 'm_updateReadOffsetFromWrite', 0, 8)
    u = next(_fresh)
    if buf(S):
        i, s = z3.Int('idx!%d' % u), z3.Int('seek!%d' % u)
        ex.assume(st, And(0 <= i, i <= env.bi, Or(s == NONE, s == POS)))
        S.set(env.t, 'm_nextItem', VPtr(env.buf.obj, norm(i * 8)))
        S.set(env.t, 'm_offset', norm(start(S, env) + i))
        S.set(env.t, 'm_seekState', s, 32)
    else:
        S.set(env.t, 'm_seekState', POS, 32)
    for n_ in ('m_readOffset', 'm_nextPosition.m_readOffset'):
        v = z3.Int('%s!%d' % (n_, u))
        ex.assume(st, And(0 <= v, v < 2 ** 64))
        S.set(env.p, n_, v)
    v = z3.Int('pos!%d' % u)
    ex.assume(st, And(0 <= v, v < 2 ** 64))
    S.set(env.p, 'm_nextPosition.m_offset', v)
    ex.assume(st, Eq(offset(S, env), to))
    for n, f in inv(S, env):
        ex.assume(st, f)
    return None


def c_setpos(ex, st, ins, args, dn):
    p = ex.concretize(st, args[1])
    ro, to = ex.as_u(st, ex.load(st, p, ('i', 64))), ex.as_u(st, ex.load(st, VPtr(p.obj, norm(Z(p.off) + 8)), ('i', 64)))
    ex.oblige(st, 'set_position: an uncompressed position has no read offset', 'pre', Implies(Not(ex.spec_env.comp), Eq(ro, 0)))
    return moved(ex, st, to, 'set_position')


def c_seek0(ex, st, ins, args, dn):
    ex.oblige(st, 'seek: from the beginning of an uncompressed stream', 'pre', And(Not(ex.spec_env.comp), Eq(ex.as_u(st, args[2]), 0)))
    return moved(ex, st, ex.as_u(st, args[1]), 'seek')


HT = [(r'compressed_stream_base::set_position\(', c_setpos), (r'compressed_stream_base::seek\(', c_seek0)] + HK
CL = [(r'accessor_base<.*::close\(', c_aclose), (r'intrusive_ptr_release', nop)] + HK[1:]
FNS += [
    FnSpec('set_position', r'^tpie::compressed_stream_base::set_position\(', s_setpos, post_setpos, exc=exc_end(lambda e: And(Not(e.isend), Or(e.to > e.L, And(Not(e.comp), Ne(e.ro, 0)))), 'outside the file'), hooks=HK, **AX, cases=CASES),
    FnSpec('get_position', r'^tpie::compressed_stream_base::get_position\(', s_plain, post_getpos, hooks=HK, **AX, cases=CASES),
    FnSpec('truncate', r'^tpie::compressed_stream_base::truncate\(unsigned long\)', s_trunc, post_trunc, exc=exc_end(lambda e: And(e.comp, Ne(e.n, 0), Ne(e.n, e.L)), 'inside a compressed stream'), hooks=HT, **AX, cases=CASES),
    FnSpec('truncate to a position', r'^tpie::compressed_stream_base::truncate\(tpie::stream_position', s_truncp, post_trunc, hooks=HT, **AX, cases=CASES),
    FnSpec('close', r'^tpie::compressed_stream_base::close\(', s_plain, post_close, hooks=CL, **AX, cases=CASES),
]


# the place before does not matter
def s_setpos2(S, env):
    t = stream(S, env, True)
    env.to, env.ro = S.int('to', 64, 0, BIG), S.int('readOffset', 64)
    S.assume(env.to <= env.L, Implies(Not(env.comp), Eq(env.ro, 0)))
    pos = S.obj('position', 'param', Struct([(0, Cell(8, 'i')), (8, Cell(8, 'i'))], 16), 16)
    S.ex.store(S.st, pos, VInt(env.ro, 64), ('i', 64))
    S.ex.store(S.st, VPtr(pos.obj, 8), VInt(env.to, 64), ('i', 64))
    return [t, pos]


def s_seek2(S, env):
    t = stream(S, env, True)
    env.to = S.int('to', 64, 0, BIG)
    S.assume(env.to <= env.L)
    return [t, VInt(env.to, 64), VInt(0, 32)]


def post_any(S, old, r, args, env):
    return [('the offset is the position asked for', Eq(offset(S, env), env.to)), ('the number of items is the same', Eq(m(S, env, 'm_size'), env.L)), ('the buffer is kept', Eq(bb(S), bb(old))),
            ('nothing is written', And(Eq(dirty(S, env), dirty(old, env)), Eq(q(S, env, 'm_streamBlocks'), q(old, env, 'm_streamBlocks')))),
            ('the seek is decided', Or(Eq(state(S, env), POS), And(buf(S), Eq(state(S, env), NONE)))), same_view(S, old, env)] + ok(S, env)


FNS += [
    FnSpec('set_position wherever the stream was', r'^tpie::compressed_stream_base::set_position\(', s_setpos2, post_any, hooks=HK, **AX, cases=CASES + [(NONE, False, False), (NONE, False, True)]),
    FnSpec('seek wherever the stream was', r'^tpie::compressed_stream_base::seek\(', s_seek2, post_any, hooks=HK, **AX, cases=[c for c in CASES + [(NONE, False, False)] if not c[2]]),
]


# ---------------------------------------------------------------- the requests to the compressor thread
def c_setw(ex, st, ins, args, dn):
    env = ex.spec_env
    b = ex.concretize(st, args[1])
    off, items, num = (ex.as_u(st, a) for a in args[4:7])
    ex.oblige(st, 'the buffer written is the buffer held', 'pre', isinstance(b, VPtr) and b.obj is env.p.obj and Eq(b.off, env.p_buf))
    gset(ex, st, 'wreq', (off, items, num))
    return args[0]


def c_setr(ex, st, ins, args, dn):
    env = ex.spec_env
    b = ex.concretize(st, args[1])
    ex.oblige(st, 'the buffer read is the buffer held', 'pre', isinstance(b, VPtr) and b.obj is env.p.obj and Eq(b.off, env.p_buf))
    gset(ex, st, 'rreq', (ex.as_u(st, args[3]), ex.as_u(st, args[4])))
    return args[0]


def c_post(ex, st, ins, args, dn):
    """the request is done: a block written, or the buffer filled and the place of the following block reported"""
    env = ex.spec_env
    S = Ctx(ex, st)
    gset(ex, st, 'posted', S.st.ghost.get('posted', 0) + 1)
    g = S.st.ghost
    if 'rreq' in g:
        ro, d = g['rreq']
        u = next(_fresh)
        size, bs, pr = (z3.Int('%s!%d' % (n, u)) for n in ('filled', 'bytes', 'place'))
        for v in (size, bs, pr):
            ex.assume(st, And(0 <= v, v < 2 ** 62))
        S.set(env.ctl, 'm_state', 3, 32)
        gset(ex, st, 'askedsize', S.get(env.ctl, 'm_size', 64))
        S.set(env.ctl, 'm_size', size)
        S.set(env.ctl, 'm_blockSize', bs)
        S.set(env.ctl, 'm_readOffset', If(env.comp, If(Eq(d, 0), ro, pr), S.get(env.ctl, 'm_readOffset', 64)))
        S.set(env.p, 'm_response.m_nextReadOffset', If(Eq(d, 0), Z(ro) + bs, pr))
        ex.assume(st, Implies(And(env.comp, Eq(d, 1)), Eq(Z(pr) + bs, ro)))
    return None


def c_gb(ex, st, ins, args, dn):
    """get_buffer: a buffer for the block, clean when it still holds the block"""
    env = ex.spec_env
    S = Ctx(ex, st)
    gset(ex, st, 'bufblock', ex.as_u(st, args[2]))
    uncache(S, env)
    S.set(env.p, 'm_bufferDirty', 0, 8)
    S.set(env.p, 'm_buffer._M_ptr', env.ctl)
    S.set(env.ctl, 'm_state', 3 if env.case[1] else 0, 32)
    S.set(env.t, 'm_bufferBegin', env.buf)
    S.set(env.t, 'm_bufferEnd', VPtr(env.buf.obj, norm(env.bi * 8)))
    return None


def c_true(ex, st, ins, args, dn):
    ex.oblige(st, 'the write waited for is the last one', 'pre', Eq(ex.as_u(st, args[1]), Ctx(ex, st).get(ex.spec_env.p, 'm_lastWriteBlockNumber', 64)))
    return VBool(True)


def num(n, hi=2 ** 62):
    def h(ex, st, ins, args, dn):
        v = z3.Int(n)
        ex.assume(st, And(0 <= v, v < hi))
        return VInt(v, 64)
    return h


REQ = [(r'compressor_request::set_write_request', c_setw), (r'compressor_request::set_read_request', c_setr), (r'compressor_thread::request\(', c_post), (r'compressor_request::', nop), (r'compressor_thread_lock::', nop),
       (PB + r'compressor\(', c_thread), (PB + r'get_buffer', c_gb), (PB + r'last_block_read_offset', num('lastBlock')), (r'compressor_response::(wait|clear)', nop), (r'compressor_response::has_block_info', c_true),
       (r'compressor_response::get_read_offset', num('written at')), (r'compressor_response::get_block_size', num('written bytes')), (r'accessor_base<.*::get_compressed', c_comp), (r'log_error|log_debug|basic_ostream|std::ostream|^tpie::log|^std::endl', lambda ex, st, ins, args, dn: args[0] if args else VPtr(Obj('log', 'param', None, None), 0))] + MM + STR


def low(S, env, hb=True):
    comp = env.case[0]
    c, env.case = env.case, (NONE if hb else POS, hb, comp)
    t = stream(S, env)
    env.case = c
    env.ctl = S.obj('compressor buffer', cls='_ZTSN4tpie17compressor_bufferE')
    S.set(env.p, 'm_buffer._M_ptr', env.ctl)
    S.set(env.p, 'm_buffer._M_refcount._M_pi', VPtr(None, 0))
    env.p_buf = S.f(env.p, 'm_buffer').off
    return t


def s_flush(S, env):
    low(S, env)
    env.lock = S.obj('lock', 'param', None, None)
    S.assume(dirty(S, env), blen(S, env) > 0, MUL(S, bb(S), env.bs) <= 2 ** 62)
    return [env.p, env.lock]


def post_flush(S, old, r, args, env):
    off, items, n = S.st.ghost.get('wreq', (None,) * 3)
    b, SB = bb(old), q(old, env, 'm_streamBlocks')
    return [('exactly one block is written', Eq(S.st.ghost.get('posted', 0), 1)), ('it is the block of the buffer', Eq(n, b)), ('it has the items of its place', Eq(items, blen(old, env))),
            ('the buffer has their size', Eq(S.get(env.ctl, 'm_size', 64), blen(old, env) * 8)),
            ('uncompressed blocks are at their number times the block size', Implies(Not(env.comp), Eq(off, MUL(S, b, env.bs)))),
            ('a new compressed block is appended', Implies(And(env.comp, Eq(b, SB)), Eq(off, MAX))),
            ('a rewritten compressed block replaces the last one', Implies(And(env.comp, Ne(b, SB)), Eq(off, z3.Int('lastBlock')))),
            ('nothing is unwritten', Not(dirty(S, env))), ('the block counts', Eq(q(S, env, 'm_streamBlocks'), If(Eq(b, SB), Z(SB) + 1, SB))), ('nothing is unchecked', And(Eq(m(S, env, 'm_cachedReads'), 0), Eq(m(S, env, 'm_cachedWrites'), 0))),
            ('the last block is where the thread says', And(Eq(q(S, env, 'm_lastBlockReadOffset'), MAX), Eq(q(S, env, 'm_currentFileSize'), MAX))),
            ('the write asked after is this one', Implies(Ne(q(old, env, 'm_updateReadOffsetFromWrite', 8), 0), Eq(q(S, env, 'm_lastWriteBlockNumber'), b))),
            ('the offset is the same', Eq(m(S, env, 'm_offset'), env.o)), ('the number of items is the same', Eq(m(S, env, 'm_size'), env.L)), ('the buffer is kept', Eq(idx(S, env), idx(old, env)))]


def s_readb(S, env):
    low(S, env, False)
    env.lock = S.obj('lock', 'param', None, None)
    env.bn = S.int('block', 64, 0, BIG)
    S.assume(Z(env.bn) < Z(q(S, env, 'm_streamBlocks')), MUL(S, env.bn, env.bs) <= 2 ** 62)
    for n in ('m_nextReadOffset', 'm_readOffset'):
        S.set(env.p, n, S.int(n, 64, 0, 2 ** 62))
    S.set(env.ctl, 'm_readOffset', S.int('held at', 64, 0, 2 ** 62))
    S.set(env.ctl, 'm_blockSize', S.int('held bytes', 64, 0, 2 ** 62))
    S.set(env.p, 'm_updateReadOffsetFromWrite', 1 if env.case[2] else 0, 8)
    return [env.p, env.lock, VInt(env.bn, 64)]


def post_readb(back):
    def post(S, old, r, args, env):
        g = S.st.ghost
        clean, upd = env.case[1], env.case[2]
        wa, wb = z3.Int('written at'), z3.Int('written bytes')
        at = q(old, env, 'm_nextReadOffset') if not (upd and env.comp) else wa + wb
        cur = q(old, env, 'm_readOffset') if not (upd and env.comp) else wa
        st = MUL(S, env.bn, env.bi)
        ro, nro = q(S, env, 'm_readOffset'), q(S, env, 'm_nextReadOffset')
        out = [('the buffer is for this block', Eq(g.get('bufblock'), env.bn)), ('read once unless still held', Eq(g.get('posted', 0), 0 if clean else 1)),
               ('the place is the end of the block' if back else 'the place is the beginning of the block', And(S.ptr(env.t, 'm_nextItem').obj is env.buf.obj, Eq(S.ptr(env.t, 'm_nextItem').off, env.bi * 8 if back else 0))),
               ('nothing is unchecked', And(Eq(m(S, env, 'm_cachedReads'), 0), Eq(m(S, env, 'm_cachedWrites'), 0))), ('the number of items is the same', Eq(m(S, env, 'm_size'), env.L))]
        if env.comp:
            out += [('the following block is right after this one', Eq(nro, Z(ro) + S.get(env.ctl, 'm_blockSize', 64))), ('the place of the block is that of its buffer', Eq(ro, S.get(env.ctl, 'm_readOffset', 64)))]
        if not clean:
            a, d = g['rreq']
            out += [('the direction', Eq(d, 1 if back else 0)), ('the block asked for is the one before' if back else 'the block asked for is the next one', Eq(a, cur if back else at) if env.comp else Eq(a, MUL(S, env.bn, env.bs)))]
            if not env.comp:
                left = (Z(env.L) - st) * 8
                out += [('as much as the block holds', Eq(g['askedsize'], If(env.bs < left, env.bs, left)))]
            if not back:
                n = If(Z(env.L) - st > env.bi, env.bi, Z(env.L) - st)
                out += [('the block has the items of its place', Eq(S.get(env.ctl, 'm_size', 64) / 8, n))]
        return out
    return post


def exc_readb(S, old, r, args, env):
    """only a block of the wrong size or place in the file"""
    return [('only when the file is not what was written', Not(And(env.case[1])))]


AX2 = dict(AX, axioms=(products(z3.Int('blockItems')), products(z3.Int('blockSize'))))
FNS += [
    FnSpec('flush_block', PB + r'flush_block\(', s_flush, post_flush, hooks=REQ, **AX2, cases=[(False,), (True,)]),
    FnSpec('read_next_block', PB + r'read_next_block\(', s_readb, post_readb(False), exc=exc_readb, hooks=REQ, **AX2, cases=[(c, h, u) for c in (False, True) for h in (False, True) for u in (False, True)]),
    FnSpec('read_previous_block', PB + r'read_previous_block\(', s_readb, post_readb(True), exc=exc_readb, hooks=REQ, **AX2, cases=[(True, h, u) for h in (False, True) for u in (False, True)]),
]


# ---------------------------------------------------------------- opening
def c_aopen(ex, st, ins, args, dn):
    env = ex.spec_env
    S = Ctx(ex, st)
    gset(ex, st, 'opened', tuple(ex.as_u(st, a) if isinstance(a, VInt) else a for a in args[2:]))
    env.n = z3.Int('items in the file')
    ex.assume(st, And(0 <= env.n, env.n <= BIG))
    S.set(env.p, 'm_byteStreamAccessor.m_size', env.n)
    return None


def s_open(S, env):
    c, env.case = env.case, (BEG, False, env.case[0])
    t = stream(S, env)
    env.case = c
    for n in ('m_open', 'm_canRead', 'm_canWrite'):
        S.set(env.p, n, S.int('old ' + n, 8), 8)
    S.set(env.p, 'm_open', 0, 8)
    # as close() leaves it
    S.set(env.t, 'm_size', S.int('stale size', 64))
    S.set(env.p, 'm_streamBlocks', S.int('stale blocks', 64))
    S.set(env.p, 'm_buffer._M_ptr', VPtr(None, 0))
    env.flags = S.int('flags', 32, 0, 64)
    env.us = S.int('userData', 64)
    return [env.p, S.obj('path', 'param', None, None), VInt(env.flags, 32), VInt(env.us, 64)]


def post_open(S, old, r, args, env):
    return [('the stream has the items of the file', Eq(m(S, env, 'm_size'), env.n)), ('it starts at the first item', Eq(offset(S, env), 0)), ('it is open', Ne(q(S, env, 'm_open', 8), 0)),
            ('it reads what the file holds', Implies(And(0 <= P, P < env.n), Eq(view(S, env, P), filea(old, env)(P)))),
            ('the item and block sizes are the file\'s', And(Eq(S.st.ghost['opened'][2], 8), Eq(S.st.ghost['opened'][3], env.bs), Eq(S.st.ghost['opened'][4], env.us)))] + ok(S, env)


def exc_open(S, old, r, args, env):
    return [('only contradictory flags are refused', 'opened' not in S.st.ghost), ('the stream is not open', Eq(q(S, env, 'm_open', 8), 0))]


OH = [(r'accessor_base<.*::open\(', c_aopen), (r'accessor.*::(file_size|byte_size)', num('file size')), (r'compressor_response::clear', nop)] + HK
FNS.append(FnSpec('open_inner', PB + r'open_inner\(', s_open, post_open, exc=exc_open, hooks=OH, **AX, cases=[(False,), (True,)]))
LEMMAS = [L_PROD]
BOUNDED = [('read offsets of compressed blocks over a whole history, the compressor thread (snappy, block trailers, splitting, buffers shared through the pool) and the bulk operations', 'driver cstream: random histories of reads, writes, seeks, positions, truncations and reopening on compressed and uncompressed streams with small blocks, against a vector of items')]
ASSUME = ['compressor thread: a write request stores the items of the buffer as the block of that number, a read request fills the buffer with the items of the block at that read offset and reports the place of the following block; requests of one stream are done in order (driver cstream)',
          'a stream_position passed in was taken from this stream and its read offset is the place of the block of its offset (driver cstream)',
          'get_buffer returns a buffer of the block size that is not busy; last_block_read_offset and current_file_size return what the compressor thread reported (driver cstream)',
          'the operating system does not fail; close() on failure is outside the claim', 'streams of at most 2^50 items, blocks of at most 2^40 items']
