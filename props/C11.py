"""An uncompressed stream is an exact random-access sequence of items.

Abstract view of a stream: V(p) = the loaded block's item when position p lies in it,
otherwise item p of the file (contracts of the file accessor, proved in C13);
L = number of items, o = offset."""
from lib import *
from lib import _fresh
from oslib import STR, fa_fail

ID = 'C11'
TU = 'streams'
HARNESS = 'streams'
SCENARIOS = ['ustream']
US = '_ZTSN4tpie19uncompressed_streamI4elemEE'
MAX = 2 ** 64 - 1
BIG = 2 ** 50
SAB = r'stream_accessor_base<.*>::'
KEEP = [SAB + r'(open|close|truncate|byte_size|get_compressed|size)\(', r'update_recorded_size', r'temp_file', r'^std::basic_string|^std::__cxx11', r'::update_block\(']


# ---------------------------------------------------------------- file accessor contracts
def pre_open(ex, st, nm):
    ex.oblige(st, nm + ' needs an open file', 'pre', st.ghost['fopen'])


def rng(ex, st, base, k):
    """pointer to item `base` of the ghost file"""
    return VPtr(ex.fobj, norm(Z(base) * 8))


def c_rblock(ex, st, ins, args, dn):
    pre_open(ex, st, 'read_block')
    S = Ctx(ex, st)
    b, n = ex.as_u(st, args[2]), ex.as_u(st, args[3])
    b, n = norm(b), norm(n)
    first = MUL(S, b, ex.spec_env.bi)
    asz = st.ghost['asize']
    ex.oblige(st, 'a block to read starts inside the file', 'pre', first <= asz)
    ex.oblige(st, 'at most a block is read', 'pre', n <= ex.spec_env.bi)
    left = asz - first
    k = norm(If(n > left, left, n))
    bad = fa_fail(ex, st, 'read_block')
    ex.havoc_leaf(bad[1], args[1].obj, 0, 8)
    ex.memcpy_range(st, args[1], rng(ex, st, first, k), norm(Z(k) * 8), True)
    return [bad, ('ret', st, VInt(k, 64))]


def c_wblock(ex, st, ins, args, dn):
    pre_open(ex, st, 'write_block')
    S = Ctx(ex, st)
    b, n = norm(ex.as_u(st, args[2])), norm(ex.as_u(st, args[3]))
    first = MUL(S, b, ex.spec_env.bi)
    asz = st.ghost['asize']
    ex.oblige(st, 'no gap is left before a block written', 'pre', first <= asz)
    ex.oblige(st, 'at most a block is written', 'pre', n <= ex.spec_env.bi)
    bad = fa_fail(ex, st, 'write_block')
    ex.memcpy_range(st, rng(ex, st, first, n), args[1], norm(Z(n) * 8), True)
    gset(ex, st, 'asize', norm(If(first + n > asz, first + n, asz)))
    return [bad, ('ret', st, None)]


def c_trunc(ex, st, ins, args, dn):
    pre_open(ex, st, 'truncate')
    bad = fa_fail(ex, st, 'truncate')
    gset(ex, st, 'asize', ex.as_u(st, args[1]))
    return [bad, ('ret', st, None)]


def c_bsize(ex, st, ins, args, dn):
    v = z3.Int('bytes!%d' % next(_fresh))
    ex.assume(st, And(0 <= v, v < 2 ** 64))
    return VInt(v, 64)


def c_close(ex, st, ins, args, dn):
    bad = fa_fail(ex, st, 'close')
    gset(ex, st, 'fopen', False)
    gset(ex, bad[1], 'fopen', False)
    return [bad, ('ret', st, None)]


def c_open(ex, st, ins, args, dn):
    ex.oblige(st, 'the item size of the stream is asked for', 'pre', Eq(ex.as_u(st, args[4]), 8))
    ex.oblige(st, 'the block size of the stream is asked for', 'pre', Eq(ex.as_u(st, args[5]), ex.spec_env.bs))
    bad = fa_fail(ex, st, 'open')
    gset(ex, st, 'fopen', True)
    return [bad, ('ret', st, None)]


def c_comp(ex, st, ins, args, dn):
    return VBool(st.ghost['compressed'])


def c_size(ex, st, ins, args, dn):
    return VInt(st.ghost['asize'], 64)


def nop(ex, st, ins, args, dn):
    return None


HK = [(r'^vp_v_read_block', c_rblock), (r'^vp_v_write_block', c_wblock), (SAB + r'truncate\(', c_trunc), (SAB + r'byte_size\(', c_bsize),
      (SAB + r'close\(', c_close), (SAB + r'open\(', c_open), (SAB + r'get_compressed\(', c_comp), (SAB + r'size\(', c_size),
      (r'update_recorded_size', nop)] + MM + STR


# ---------------------------------------------------------------- stream states
def stream(S, env, name='s', opened=True):
    """an arbitrary valid state; case = (a block is loaded, another block is pending)"""
    S.ex.spec_env = env
    t = S.obj(name, cls=US)
    env.t = t
    env.bi = S.int('blockItems', 64, 1, 2 ** 40)
    env.bs = S.int('blockSize', 64, 8, 2 ** 44)
    loaded, pending = env.case[:2]
    S.set(t, 'm_blockItems', env.bi)
    S.set(t, 'm_blockSize', env.bs)
    S.set(t, 'm_itemSize', 8)
    S.set(t, 'm_open', 1, 8)
    env.dirty = z3.Bool('dirty') if loaded else False
    env.w = z3.Bool('canWrite')
    S.set(t, 'm_canWrite', If(env.w, 1, 0), 8)
    S.set(t, 'm_canRead', 1, 8)
    S.set(t, 'm_block.dirty', If(env.dirty, 1, 0) if loaded else 0, 8)
    env.buf = S.heap('block', Cell(8, 'i'), env.bi, False)
    S.set(t, 'm_block.data', env.buf)
    num = S.int('number', 64, 0, BIG) if loaded else MAX
    S.set(t, 'm_block.number', num)
    bsz = S.int('bsize', 64, 0, BIG)
    S.set(t, 'm_block.size', bsz)
    start = norm(MUL(S, num, env.bi)) if loaded else S.int('start', 64, 0, 2 ** 52)
    S.set(t, 'm_blockStartIndex', start)
    env.size0 = S.int('size', 64, 0, BIG)
    S.set(t, 'm_size', env.size0)
    nb = S.int('nextBlock', 64, 0, BIG) if pending else MAX
    S.set(t, 'm_nextBlock', nb)
    S.set(t, 'm_nextIndex', S.int('nextIndex', 64, 0, 2 ** 41) if pending else MAX)
    S.set(t, 'm_index', MAX if pending else S.int('index', 64, 0, 2 ** 41))
    # the file
    f = S.ex.__dict__.get('fobj')
    o = Obj('file items', 'global', Arr(8, 2 ** 59, Cell(8, 'i')), 2 ** 62)
    o.gname = 'the items of the file'
    S.ex.fobj = o
    S.st.objs[o.id] = o
    env.file = VPtr(o, 0)
    S.st.ghost.update(fopen=True, asize=S.int('asize', 64, 0, BIG), compressed=z3.Bool('compressed'))
    # accessor object with its virtual functions
    vt = S.obj('vtable', 'param', Struct([(8 * i, Cell(8, 'p')) for i in range(4)], 32), 32)
    for i, nm in enumerate(('vp_v_d1', 'vp_v_d0', 'vp_v_read_block', 'vp_v_write_block')):
        S.st.cells[(vt.obj.id, (8 * i,))] = VFn(nm)
    acc = S.obj('accessor', 'param', Struct([(0, Cell(8, 'p'))], 8), 8)
    S.st.cells[(acc.obj.id, (0,))] = vt
    S.set(t, 'm_fileAccessor', acc)
    tf = S.obj('tempfile', 'param', None, None)
    S.set(t, 'm_ownedTempFile', VPtr(None, 0))
    S.set(t, 'm_tempFile', VPtr(tf.obj, 0, z3.Bool('no_tempfile')))
    env.num, env.nb = num, nb
    S.assume(And([f for _, f in inv(S, env)]))
    env.L, env.o = length(S, env), offset(S, env)
    return t


def m(S, env, n, w=64):
    return S.get(env.t, n, w)


def dirty(S, env):
    return Ne(m(S, env, 'm_block.dirty', 8), 0)


def is_loaded(S, env):
    return Ne(m(S, env, 'm_block.number'), MAX)


def is_pending(S, env):
    return Ne(m(S, env, 'm_nextBlock'), MAX)


def lbs(S, env):
    """items in the loaded block, unflushed ones included"""
    b, i = m(S, env, 'm_block.size'), m(S, env, 'm_index')
    return If(And(dirty(S, env), Ne(i, MAX), i > b), i, b)


def length(S, env):
    n, i = m(S, env, 'm_size'), m(S, env, 'm_index')
    e = Z(m(S, env, 'm_blockStartIndex')) + i
    return If(And(dirty(S, env), Ne(i, MAX), e > n), e, n)


def offset(S, env):
    return If(is_pending(S, env), Z(MUL(S, m(S, env, 'm_nextBlock'), env.bi)) + m(S, env, 'm_nextIndex'),
              Z(m(S, env, 'm_index')) + m(S, env, 'm_blockStartIndex'))


def view(S, env, p):
    st, b = Z(m(S, env, 'm_blockStartIndex')), lbs(S, env)
    return If(And(is_loaded(S, env), st <= p, p < st + b), S.arr(env.buf, 0, 8)(p - st), S.arr(env.file, 0, 8)(p))


def inv(S, env, goal=False):
    L, o, b = length(S, env), offset(S, env), lbs(S, env)
    idx, num, st, bi = m(S, env, 'm_index'), m(S, env, 'm_block.number'), Z(m(S, env, 'm_blockStartIndex')), env.bi
    asz = S.st.ghost['asize']
    k = z3.Int('k')
    ld, pe, d = is_loaded(S, env), is_pending(S, env), dirty(S, env)
    f, data = S.arr(env.file, 0, 8), S.arr(env.buf, 0, 8)
    body = lambda x: Implies(And(ld, Not(d), 0 <= x, x < b), Eq(data(x), f(st + x)))
    return [('offset is within the stream', And(0 <= o, o <= L)),
            ('a pending position is a valid place in a block and no index is current', Implies(pe, And(Eq(idx, MAX), Z(m(S, env, 'm_nextIndex')) < bi, Z(m(S, env, 'm_nextIndex')) >= 0, Z(m(S, env, 'm_nextBlock')) < BIG))),
            ('without a pending block there is a current one', Implies(Not(pe), And(ld, Z(idx) <= b))),
            ('the loaded block is block number*blockItems and holds all its items', Implies(ld, And(Z(num) <= BIG, Eq(st, MUL(S, num, bi)), st <= L, Eq(b, If(L - st > bi, bi, L - st))))),
            ('only a loaded block is dirty', Implies(d, ld)),
            ('items not in the file are in the dirty block', If(d, And(st <= asz, asz <= L, Implies(asz < L, Eq(L, st + b))), Eq(asz, L))),
            ('a clean block equals the file', body(k) if goal else And(forall(1, lambda x: body(x), lambda x: data.fn(x)), forall(1, lambda x: Implies(And(ld, Not(d), st <= x, x < st + b), Eq(data(x - st), f(x))), lambda x: f.fn(x)))),
            ('sizes are sane', And(L < BIG, L >= 0, Z(m(S, env, 'm_block.size')) <= bi))]



# ---------------------------------------------------------------- operations
CASES = ((True, False), (True, True), (False, True))
P = z3.Int('p')


def same_view(S, old, env, lim=None, but=()):
    L = env.L if lim is None else lim
    return ('every item is kept', Implies(And(0 <= P, P < L, And([Ne(P, b) for b in but])), Eq(view(S, env, P), view(old, env, P))))


def ok(S, env):
    return inv(S, env, True) + [('the file stays open', S.st.ghost['fopen'])]


def failed(S):
    return bool(S.st.ghost.get('os_failed'))


def unchanged(S, old, env):
    return [('the number of items is the same', Eq(length(S, env), env.L)), ('the offset is the same', Eq(offset(S, env), env.o)), same_view(S, old, env)] + ok(S, env)


def exc_end(cond, what, back=0):
    def exc(S, old, r, args, env):
        if failed(S):
            return [('the offset survives a failing operating system', Or(Eq(offset(S, env), env.o), Eq(offset(S, env), env.o - back)))]
        return [('refused only ' + what, cond(env))] + [('refused: ' + n, f) for n, f in unchanged(S, old, env)]
    return exc


def s_plain(S, env):
    return [stream(S, env)]


def s_seek(S, env):
    t = stream(S, env)
    env.off = z3.Int('off')
    S.assume(env.off > -2 ** 55, env.off < 2 ** 55)
    w = env.case[2]
    env.to = env.off + (0, env.L, env.o)[w]
    return [t, VInt(env.off, 64), VInt(w, 32)]


def post_seek(S, old, r, args, env):
    return [('only positions inside the file', And(env.to >= 0, env.to <= env.L)), ('the offset is the position asked for', Eq(offset(S, env), env.to)),
            ('the number of items is the same', Eq(length(S, env), env.L)), same_view(S, old, env)] + ok(S, env)


def post_ret(f, nm):
    def post(S, old, r, args, env):
        v = r.e if isinstance(r, VBool) else S.ex.as_u(S.st, r)
        g = f(env)
        return [(nm, Iff(v, g) if isinstance(r, VBool) else Eq(v, g))] + unchanged(S, old, env)
    return post


def s_out(S, env):
    t = stream(S, env)
    env.out = S.obj('item', 'param', Struct([(0, Cell(8, 'i'))], 8), 8)
    return [t, env.out]


def outv(S, env):
    return S.ex.as_u(S.st, S.ex.load(S.st, env.out, ('i', 64)))


def post_read(at, step):
    def post(S, old, r, args, env):
        return [('there is an item', And(env.o + at >= 0, env.o + at < env.L)), ('the item last written at this position', Eq(outv(S, env), view(old, env, env.o + at))),
                ('the offset moves past it', Eq(offset(S, env), env.o + step)),
                ('the number of items is the same', Eq(length(S, env), env.L)), same_view(S, old, env)] + ok(S, env)
    return post


def s_write(S, env):
    t = stream(S, env)
    S.assume(env.w)
    env.x = S.int('x', 64)
    p = S.obj('item', 'param', Struct([(0, Cell(8, 'i'))], 8), 8)
    S.ex.store(S.st, p, VInt(env.x, 64), ('i', 64))
    S.assume(env.L < BIG - 1)
    return [t, p]


def post_write(S, old, r, args, env):
    return [('the item is at the offset', Eq(view(S, env, env.o), env.x)), ('the offset moves past it', Eq(offset(S, env), env.o + 1)),
            ('the stream grows exactly when written at its end', Eq(length(S, env), If(env.o + 1 > env.L, env.o + 1, env.L))), same_view(S, old, env, but=(env.o,))] + ok(S, env)


def exc_write(S, old, r, args, env):
    if failed(S):
        return [('the offset survives a failing operating system', Eq(offset(S, env), env.o))]
    return [('a write is refused only by the operating system', False)]


AX = dict(axioms=(products(z3.Int('blockItems')),), opts={'euclid': True})
LEMMAS = [L_PROD]
FNS = [
    FnSpec('seek', r'\bvp_useek\(', s_seek, post_seek, exc=exc_end(lambda e: Or(e.to < 0, e.to > e.L), 'outside the file'), hooks=HK, **AX, cases=[c + (w,) for c in CASES for w in (0, 1, 2)]),
    FnSpec('offset', r'\bvp_uoffset\(', s_plain, post_ret(lambda e: e.o, 'the offset'), hooks=HK, **AX, cases=CASES),
    FnSpec('size', r'\bvp_usize\(', s_plain, post_ret(lambda e: e.L, 'the number of items'), hooks=HK, **AX, cases=CASES),
    FnSpec('can_read', r'\bvp_ucanread\(', s_plain, post_ret(lambda e: e.o < e.L, 'readable exactly before the end'), hooks=HK, **AX, cases=CASES),
    FnSpec('can_read_back', r'\bvp_ucanback\(', s_plain, post_ret(lambda e: e.o > 0, 'readable backwards exactly after the beginning'), hooks=HK, **AX, cases=CASES),
    FnSpec('peek', r'\bvp_upeek\(', s_out, post_read(0, 0), exc=exc_end(lambda e: e.o >= e.L, 'at the end'), hooks=HK, **AX, cases=CASES),
    FnSpec('read', r'\bvp_uread\(', s_out, post_read(0, 1), exc=exc_end(lambda e: e.o >= e.L, 'at the end'), hooks=HK, **AX, cases=CASES),
    FnSpec('write', r'\bvp_uwrite\(', s_write, post_write, exc=exc_write, hooks=HK, **AX, cases=CASES),
]
for _c, _n in zip(CASES, ('', ', block pending', ', nothing loaded')):
    FNS.append(FnSpec('read_back' + _n, r'\bvp_uback\(', s_out, post_read(-1, -1), exc=exc_end(lambda e: e.o <= 0, 'at the beginning', 1), hooks=HK, **AX, cases=(_c,)))


def s_trunc(S, env):
    t = stream(S, env)
    S.assume(env.w)
    env.n = S.int('newsize', 64, 0, BIG)
    return [t, VInt(env.n, 64)]


def post_trunc(S, old, r, args, env):
    return [('the number of items is the one given', Eq(length(S, env), env.n)), ('the offset is kept inside the stream', Eq(offset(S, env), If(env.o > env.n, env.n, env.o))),
            same_view(S, old, env, If(env.n > env.L, env.L, env.n))] + ok(S, env)


def exc_os(S, old, r, args, env):
    return [('only the operating system can fail', failed(S))]


def post_close(S, old, r, args, env):
    return [('the file is closed', And(Not(S.st.ghost['fopen']), Eq(m(S, env, 'm_open', 8), 0))),
            ('the file has every item', Eq(S.st.ghost['asize'], env.L)), ('the file holds the items last written', Implies(And(0 <= P, P < env.L), Eq(S.arr(env.file, 0, 8)(P), view(old, env, P))))]


FNS += [
    FnSpec('skip', r'\bvp_uskip\(', s_plain, lambda S, o, r, a, e: [('the offset moves past one item', Eq(offset(S, e), e.o + 1)), ('inside the stream', e.o + 1 <= e.L), ('the number of items is the same', Eq(length(S, e), e.L)), same_view(S, o, e)] + ok(S, e),
           exc=exc_end(lambda e: e.o >= e.L, 'at the end'), hooks=HK, **AX, cases=CASES),
    FnSpec('skip_back', r'\bvp_uskipback\(', s_plain, lambda S, o, r, a, e: [('the offset moves before one item', Eq(offset(S, e), e.o - 1)), ('inside the stream', e.o >= 1), ('the number of items is the same', Eq(length(S, e), e.L)), same_view(S, o, e)] + ok(S, e),
           exc=exc_end(lambda e: e.o <= 0, 'at the beginning'), hooks=HK, **AX, cases=CASES),
    FnSpec('truncate', r'\bvp_utrunc\(', s_trunc, post_trunc, exc=exc_os, hooks=HK, **AX, cases=CASES),
    FnSpec('close', r'\bvp_uclose\(', s_plain, post_close, exc=exc_os, hooks=HK, **AX, cases=CASES),
]


# ---- bulk operations
def s_bulk(S, env):
    t = stream(S, env)
    env.n = S.int('count', 64, 0, BIG)
    if env.case[2]:
        S.assume(env.w, env.L + env.n < BIG, env.o + env.n < BIG)
    env.out = S.heap('items', Cell(8, 'i'), env.n, False, kind='param')
    return [t, env.out, VInt(env.n, 64)]


def outs(S, env):
    return S.arr(env.out, 0, 8)


def view_is(S, env, X, lo, hi):
    """the view is X on lo..hi, one fact per place an item can be"""
    f, data, b, st = S.arr(env.file, 0, 8), S.arr(env.buf, 0, 8), lbs(S, env), Z(m(S, env, 'm_blockStartIndex'))
    ld = is_loaded(S, env)
    return [('items outside the loaded block', forall(1, lambda p: Implies(And(lo <= p, p < hi, Not(And(ld, st <= p, p < st + b))), Eq(f(p), X(p))), lambda p: f.fn(p))),
            ('items of the loaded block', forall(1, lambda k: Implies(And(ld, 0 <= k, k < b, lo <= st + k, st + k < hi), Eq(data(k), X(st + k))), lambda k: data.fn(k)))]


def li_read(L):
    S, e = L.S, L.e
    old = Ctx(S.ex, S.ex.entry)
    i, o = L.i, outs(L.S, e)
    return [('count', And(0 <= i, i <= e.n)), ('offset', Eq(offset(S, e), e.o + i)), ('length', Eq(length(S, e), e.L)),
            ('enough items', e.o + e.n <= e.L),
            ('items read so far', forall(1, lambda q: Implies(And(0 <= q, q < i), Eq(o(q), view(old, e, e.o + q))), lambda q: o.fn(q)))] + inv(S, e) + view_is(S, e, lambda p: view(old, e, p), 0, e.L)


def wview(S, old, env, i):
    return lambda p: If(And(env.o <= p, p < env.o + i), outs(old, env)(p - env.o), view(old, env, p))


def li_write(L):
    S, e = L.S, L.e
    old = Ctx(S.ex, S.ex.entry)
    i = L.i
    top = If(e.o + i > e.L, e.o + i, e.L)
    return [('count', And(0 <= i, i <= e.n)), ('offset', Eq(offset(S, e), e.o + i)), ('length', Eq(length(S, e), top))] + inv(S, e) + view_is(S, e, wview(S, old, e, i), 0, top)


# ---- contract of update_block, proved below and used by the bulk operations
def ub_facts(S, old, env, goal=False):
    L, o = length(old, env), offset(old, env)
    pe = is_pending(old, env)
    num, st, bi = m(S, env, 'm_block.number'), Z(m(S, env, 'm_blockStartIndex')), env.bi
    f, data, b = S.arr(env.file, 0, 8), S.arr(env.buf, 0, 8), m(S, env, 'm_block.size')
    q = z3.Int('q')
    X = lambda p: view(old, env, p)
    return [('the block is the pending or else the next one', Eq(num, If(pe, m(old, env, 'm_nextBlock'), Z(m(old, env, 'm_block.number')) + 1))),
            ('it starts at number*blockItems', Eq(st, MUL(S, num, bi))), ('the place in it', Eq(m(S, env, 'm_index'), If(pe, m(old, env, 'm_nextIndex'), 0))),
            ('the offset is the same', Eq(st + m(S, env, 'm_index'), o)), ('in range', And(Z(num) <= BIG, Z(num) >= 0, st <= L)),
            ('nothing is pending', And(Eq(m(S, env, 'm_nextBlock'), MAX), Eq(m(S, env, 'm_nextIndex'), MAX))),
            ('the block is clean and the file complete', And(Eq(m(S, env, 'm_block.dirty', 8), 0), Eq(m(S, env, 'm_size'), L), Eq(S.st.ghost['asize'], L))),
            ('it holds the items of its place', Eq(b, If(L - st > bi, bi, L - st))),
            ('the file holds every item', Implies(And(0 <= q, q < L), Eq(f(q), X(q))) if goal else forall(1, lambda p: Implies(And(0 <= p, p < L), Eq(f(p), X(p))), lambda p: f.fn(p))),
            ('the block holds its items', Implies(And(0 <= q, q < b), Eq(data(q), X(st + q))) if goal else forall(1, lambda k: Implies(And(0 <= k, k < b), Eq(data(k), X(st + k))), lambda k: data.fn(k)))]


def s_ub(S, env):
    t = stream(S, env)
    if not env.case[1]:
        S.assume(Z(m(S, env, 'm_index')) >= env.bi)
    return [S.f(t, 'm_index')]


def exc_ub(S, old, r, args, env):
    return [('only the operating system can fail', failed(S))] + ([('the offset is the same', Eq(offset(S, env), env.o))] if failed(S) else [])


def c_ub(ex, st, ins, args, dn):
    env = ex.spec_env
    S = Ctx(ex, st)
    ex.oblige(st, 'update_block: a block is pending or the current one is used up', 'pre', Or(is_pending(S, env), And(Ne(m(S, env, 'm_index'), MAX), Z(m(S, env, 'm_index')) >= env.bi)))
    # the caller's state is valid
    for n, f in inv(S, env, True):
        ex.oblige(st, 'update_block: ' + n, 'pre', f)
    bad = fa_fail(ex, st, 'update_block')
    old = Ctx(ex, st.fork())
    for n in ('m_block.number', 'm_blockStartIndex', 'm_index', 'm_block.size'):
        v = z3.Int('%s!%d' % (n, next(_fresh)))
        ex.assume(st, And(0 <= v, v < (2 ** 52 if n == 'm_blockStartIndex' else BIG + 1)))
        S.set(env.t, n, v)
    S.set(env.t, 'm_nextBlock', MAX)
    S.set(env.t, 'm_nextIndex', MAX)
    S.set(env.t, 'm_block.dirty', 0, 8)
    S.set(env.t, 'm_size', length(old, env))
    ex.havoc_leaf(st, ex.fobj, 0, 8)
    ex.havoc_leaf(st, env.buf.obj, 0, 8)
    gset(ex, st, 'asize', length(old, env))
    for n, f in ub_facts(S, old, env):
        ex.assume(st, f)
    return [bad, ('ret', st, None)]


HUB = [(r'::update_block\(', c_ub)] + HK
LRA = LoopSpec(r'read_array', inv=li_read, roles={'i': r'.*i.*'}, ptr_roles=('i',), variant=lambda L: L.e.n - L.i, name='read_array')
LWA = LoopSpec(r'write_array', inv=li_write, roles={'i': r'.*i.*'}, ptr_roles=('i',), variant=lambda L: L.e.n - L.i, name='write_array')


def post_rbulk(S, old, r, args, env):
    q = z3.Int('q')
    return [('the items are there', env.o + env.n <= env.L), ('the items last written at these positions', Implies(And(0 <= q, q < env.n), Eq(outs(S, env)(q), view(old, env, env.o + q)))),
            ('the offset moves past them', Eq(offset(S, env), env.o + env.n)), ('the number of items is the same', Eq(length(S, env), env.L)), same_view(S, old, env)] + ok(S, env)


def post_wbulk(S, old, r, args, env):
    e = env.o + env.n
    return [('the items are stored from the offset on and all others kept', Implies(And(0 <= P, P < If(e > env.L, e, env.L)),
             Eq(view(S, env, P), If(And(env.o <= P, P < e), outs(old, env)(P - env.o), view(old, env, P))))),
            ('the offset moves past them', Eq(offset(S, env), e)), ('the stream grows exactly to hold them', Eq(length(S, env), If(e > env.L, e, env.L)))] + ok(S, env)


def exc_wbulk(S, old, r, args, env):
    return [] if failed(S) else exc_write(S, old, r, args, env)


def exc_rbulk(S, old, r, args, env):
    if failed(S):
        return []
    return [('refused only when there are fewer items', env.o + env.n > env.L)] + [('refused: ' + n, f) for n, f in unchanged(S, old, env)]


FNS += [
    FnSpec('update_block', r'^tpie::stream_crtp<tpie::file_stream_base>::update_block\(', s_ub, lambda S, o, r, a, e: ub_facts(S, o, e, True), exc=exc_ub, hooks=HK, **AX, cases=CASES),
    FnSpec('read_array', r'\bvp_ureada\(', s_bulk, post_rbulk, exc=exc_rbulk, loops=[LRA], hooks=HUB, **AX, cases=[c + (False,) for c in CASES]),
    FnSpec('write_array', r'\bvp_uwritea\(', s_bulk, post_wbulk, exc=exc_wbulk, loops=[LWA], hooks=HUB, **AX, cases=[c + (True,) for c in CASES]),
]


# ---- opening
READ, WRITE, RW = 0, 1, 2


def s_open(S, env):
    t = stream(S, env)
    for n, v, w in (('m_open', 0, 8), ('m_block.dirty', 0, 8)):
        S.set(t, n, v, w)
    S.set(t, 'm_block.data', VPtr(None, 0))
    S.st.ghost['fopen'] = False
    S.assume(env.bi <= UDIV(S, env.bs, 8))
    p = S.obj('path', 'param', None, None)
    return [t, p, VInt(env.case[2], 32), VInt(S.int('userData', 64, 0, 2 ** 40), 64)]


def post_open(S, old, r, args, env):
    a = env.case[2]
    return [('the file is open', And(S.st.ghost['fopen'], Ne(m(S, env, 'm_open', 8), 0))), ('a compressed stream is refused', Not(S.st.ghost['compressed'])),
            ('readable and writable as asked for', And(Iff(Ne(m(S, env, 'm_canRead', 8), 0), a in (READ, RW)), Iff(Ne(m(S, env, 'm_canWrite', 8), 0), a in (WRITE, RW)))),
            ('the stream has the items of the file', Eq(length(S, env), S.st.ghost['asize'])), ('reading starts at the first item', Eq(offset(S, env), 0)),
            ('nothing is loaded', Not(is_loaded(S, env)))] + [(n, f) for n, f in inv(S, env, True)]


def exc_open(S, old, r, args, env):
    return [('the stream is marked open exactly while its file is open', Or(failed(S), Iff(S.st.ghost['fopen'], Ne(m(S, env, 'm_open', 8), 0))))]


def post_swap(S, old, r, args, env):
    a, b = args
    o = []
    for n, w in (('m_block.number', 64), ('m_block.size', 64), ('m_block.dirty', 8), ('m_blockStartIndex', 64), ('m_index', 64), ('m_nextBlock', 64), ('m_nextIndex', 64), ('m_size', 64), ('m_blockItems', 64),
                 ('m_blockSize', 64), ('m_itemSize', 64), ('m_open', 8), ('m_canRead', 8), ('m_canWrite', 8)):
        o.append((n + ' is exchanged', And(Eq(S.get(a, n, w), old.get(b, n, w)), Eq(S.get(b, n, w), old.get(a, n, w)))))
    for n in ('m_block.data', 'm_fileAccessor', 'm_tempFile'):
        for x, y in ((a, b), (b, a)):
            p, q = S.ptr(x, n), old.ptr(y, n)
            o.append((n + ' is exchanged', And(p.obj is q.obj, Iff(p.nul, q.nul))))
    return o


def s_swap(S, env):
    a = stream(S, env)
    e2 = type(env)(case=env.case)
    b = S.obj('other', cls=US)
    for n in ('m_block.data', 'm_fileAccessor'):
        S.set(b, n, S.obj('other_' + n, 'param', Struct([(0, Cell(8, 'i'))], 8), 8))
    for n in ('m_block.dirty', 'm_open', 'm_canRead', 'm_canWrite'):
        S.set(b, n, If(z3.Bool('other_' + n), 1, 0), 8)
    S.set(b, 'm_tempFile', VPtr(None, 0))
    S.set(b, 'm_ownedTempFile', VPtr(None, 0))
    return [a, b]


FNS += [
    FnSpec('open', r'\bvp_uopen\(', s_open, post_open, exc=exc_open, hooks=HK, axioms=AX['axioms'], opts=dict(AX['opts'], mm_throws=True, alloc_may_fail=True), cases=[CASES[2] + (a,) for a in (0, 1, 2)]),
    FnSpec('swap', r'\bvp_uswap\(', s_swap, post_swap, hooks=HK, **AX, cases=CASES[:1]),
]

ASSUME = ['file accessor: read_block, write_block, truncate, open and close by the contracts proved in C13, restated over items: item i of block b is item b*blockItems+i of the file, at byte b*blockSize+i*itemSize (layout lemmas of C13)',
          'after an error of the operating system only the offset is claimed', 'temp_file::update_recorded_size only touches statistics']
BOUNDED = [('whole streams against a sequence, with real files', 'random histories of up to 400 operations, items of 1 to 40 bytes, block factors 0.1 to 4')]
