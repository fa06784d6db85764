"""Several streams on one file always see each other's data.

A stream sees the shared sequence as: the items of the block it has loaded, and REST(p) for every
other position, where REST(p) is what the block table of the file (get_block, free_block) answers
for position p: the block in use by some stream that holds p, otherwise item p of the file.
The loaded block is one object shared by all streams that are in it, so whatever the others did
before an operation starts is an arbitrary state satisfying the invariant.
L = number of items of the file, o = the offset of the stream."""
from lib import *
from lib import _fresh
import C11
from C11 import MAX, BIG, SAB, c_bsize, nop, c_trunc, STR

ID = 'C12'
TU = 'sharedf'
HARNESS = 'streams'
SCENARIOS = ['shared']
FB = '_ZTSN4tpie9file_baseE'
SS = '_ZTSN4tpie9file_base6streamE'
BT = '_ZTSN4tpie9file_base7block_tE'
FBR = r'tpie::file_base::'
KEEP = [SAB + r'(open|close|truncate|byte_size|get_compressed|size)\(', r'update_recorded_size', r'temp_file', r'^std::basic_string|^std::__cxx11', r'::update_block\(',
        FBR + r'(get_block|free_block|create_block|delete_block)\(', r'^(decltype.*|.* )?boost::intrusive::(list_impl<.*>::\w+\(|list_iterator<.*>::operator)', r'file_base_crtp<tpie::file_base>::(read_block|get_block_check)']
DATA = 41
P = z3.Int('p')


# ---------------------------------------------------------------- contracts of the block table
def blk(S, env, n, w=64):
    return S.get(env.blk, n, w)


def c_get(ex, st, ins, args, dn):
    env = ex.spec_env
    S = Ctx(ex, st)
    b = norm(ex.as_u(st, args[1]))
    ex.oblige(st, 'get_block: the block of the stream was given back before', 'pre', Not(st.ghost['held']))
    ex.oblige(st, 'get_block: a buffer was made for the stream', 'pre', st.ghost['buffers'] > 0 if isinstance(st.ghost['buffers'], int) else True)
    ex.oblige(st, 'get_block: of the file of the stream', 'pre', args[0].obj is env.fl.obj)
    L = fl(S, env, 'm_size')
    first = MUL(S, b, env.bi)
    bad = st.fork()
    ex.assume(bad, first > L)
    gset(ex, bad, 'end', True)
    ex.assume(st, first <= L)
    for n in ('size', 'usage', 'number'):
        v = z3.Int('%s!%d' % (n, next(_fresh)))
        ex.assume(st, And(0 <= v, v < 2 ** 63))
        S.set(env.blk, n, v)
    S.set(env.blk, 'dirty', If(z3.Bool('dirty!%d' % next(_fresh)), 1, 0), 8)
    ex.assume(st, And(Eq(blk(S, env, 'number'), b), Eq(blk(S, env, 'size'), If(L - first > env.bi, env.bi, L - first)), Z(blk(S, env, 'usage')) >= 1))
    ex.havoc_leaf(st, env.blk.obj, DATA, 8)
    d, f = S.arr(env.blk, DATA, 8), S.arr(env.rest, 0, 8)
    n = Z(blk(S, env, 'size'))
    ex.assume(st, forall(1, lambda k: Implies(And(0 <= k, k < n), Eq(d(k), f(first + k))), lambda k: d.fn(k)))
    ex.assume(st, forall(1, lambda p: Implies(And(first <= p, p < first + n), Eq(d(p - first), f(p))), lambda p: f.fn(p)))
    gset(ex, st, 'held', True)
    return [throws(ex, bad, '_ZTIN4tpie23end_of_stream_exceptionE'), ('ret', st, VPtr(env.blk.obj, 0))]


def c_free(ex, st, ins, args, dn):
    env = ex.spec_env
    S = Ctx(ex, st)
    ex.oblige(st, 'free_block: the block of the stream', 'pre', args[1].obj is env.blk.obj)
    ex.oblige(st, 'free_block: of the file of the stream', 'pre', args[0].obj is env.fl.obj)
    ex.oblige(st, 'free_block: not given back twice', 'pre', st.ghost['held'])
    L, num, n = fl(S, env, 'm_size'), blk(S, env, 'number'), Z(blk(S, env, 'size'))
    first = Z(MUL(S, num, env.bi))
    ex.oblige(st, 'free_block: the block has exactly the items of its place', 'pre', And(first <= L, Eq(n, If(L - first > env.bi, env.bi, L - first))))
    d, f = S.arr(env.blk, DATA, 8), S.arr(env.rest, 0, 8)
    k = z3.Int('kf')
    ex.oblige(st, 'free_block: a changed block is marked so', 'pre', Implies(And(Eq(blk(S, env, 'dirty', 8), 0), 0 <= k, k < n), Eq(d(k), f(first + k))))
    old = Ctx(ex, st.fork())
    ex.havoc_leaf(st, env.rest.obj, 0, 8)
    g = S.arr(env.rest, 0, 8)
    X = lambda p: If(And(first <= p, p < first + n), d(p - first), f(p))
    ex.assume(st, forall(1, lambda p: Eq(g(p), X(p)), lambda p: g.fn(p)))
    ex.assume(st, forall(1, lambda p: Eq(g(p), X(p)), lambda p: f.fn(p)))
    ex.assume(st, forall(1, lambda k: Implies(And(0 <= k, k < n), Eq(g(first + k), d(k))), lambda k: d.fn(k)))
    ex.havoc_leaf(st, env.blk.obj, DATA, 8)  # nobody may look at it any more
    for nm in ('size', 'usage', 'number'):
        v = z3.Int('%s!%d' % (nm, next(_fresh)))
        ex.assume(st, And(0 <= v, v < 2 ** 64))
        S.set(env.blk, nm, v)
    gset(ex, st, 'held', False)
    return None


def c_create(ex, st, ins, args, dn):
    gset(ex, st, 'buffers', st.ghost['buffers'] + 1)
    return None


def c_delete(ex, st, ins, args, dn):
    ex.oblige(st, 'delete_block: the block is given back before its buffer goes', 'pre', Not(st.ghost['held']))
    gset(ex, st, 'buffers', st.ghost['buffers'] - 1)
    return None


def throws(ex, st, ti):
    return ('throw', st, ti)


HK = [(FBR + r'get_block\(', c_get), (FBR + r'free_block\(', c_free), (FBR + r'create_block\(', c_create), (FBR + r'delete_block\(', c_delete),
      (SAB + r'byte_size\(', c_bsize), (SAB + r'truncate\(', c_trunc), (r'update_recorded_size', nop)] + MM + STR


def fl(S, env, n, w=64):
    return S.get(env.fl, n, w)


# ---------------------------------------------------------------- states
CASES = ((True, False), (True, True), (False, True))


def base(S, env, attached=True):
    S.ex.spec_env = env
    env.bi = S.int('blockItems', 64, 1, 2 ** 40)
    t = S.obj('s', cls=SS)
    env.t = t
    env.fl = S.obj('file', cls=FB)
    env.size0 = S.int('size', 64, 0, BIG)
    for n, v, w in (('m_blockItems', env.bi, 64), ('m_itemSize', 8, 64), ('m_open', 1, 8), ('m_canRead', 1, 8), ('m_size', env.size0, 64)):
        S.set(env.fl, n, v, w)
    env.w = z3.Bool('canWrite')
    S.set(env.fl, 'm_canWrite', If(env.w, 1, 0), 8)
    tf = S.obj('tempfile', 'param', None, None)
    S.set(env.fl, 'm_tempFile', VPtr(tf.obj, 0, z3.Bool('no_tempfile')))
    acc = S.obj('accessor', 'param', None, None)
    S.set(env.fl, 'm_fileAccessor', acc)
    o = Obj('rest', 'global', Arr(8, 2 ** 59, Cell(8, 'i')), 2 ** 62)
    o.gname = 'the items of the file outside the block of the stream'
    S.st.objs[o.id] = o
    env.rest = VPtr(o, 0)
    env.blk = S.obj('block', 'heap', Struct([(0, Cell(8, 'p')), (8, Cell(8, 'p')), (16, Cell(8, 'i')), (24, Cell(8, 'i')), (32, Cell(8, 'i')), (40, Cell(1, 'i')),
                                             (DATA, Arr(8, env.bi, Cell(8, 'i')))], None), None)
    env.blk.obj.dcls = BT
    env.empty = S.ex.glob(S.st, '_ZN4tpie9file_base12m_emptyBlockE')
    env.empty.obj.dcls = BT
    S.set(env.empty, 'size', 0)
    S.set(env.empty, 'number', MAX)
    S.set(env.empty, 'dirty', 0, 8)
    S.st.ghost.update(held=False, buffers=1, end=False, fopen=True, asize=S.int('asize', 64, 0, BIG))
    return t


def stream(S, env):
    t = base(S, env)
    loaded, pending = env.case[:2]
    S.set(t, 'm_file', env.fl)
    num = S.int('number', 64, 0, BIG) if loaded else MAX
    S.set(t, 'm_block', env.blk if loaded else env.empty)
    S.set(env.blk, 'size', S.int('bsize', 64, 0, BIG))
    S.set(env.blk, 'usage', S.int('usage', 64, 1, BIG))
    S.set(env.blk, 'number', num)
    env.dirty = z3.Bool('dirty')
    S.set(env.blk, 'dirty', If(env.dirty, 1, 0), 8)
    S.set(t, 'm_blockStartIndex', norm(MUL(S, num, env.bi)) if loaded else S.int('start', 64, 0, 2 ** 52))
    S.set(t, 'm_nextBlock', S.int('nextBlock', 64, 0, BIG) if pending else MAX)
    S.set(t, 'm_nextIndex', S.int('nextIndex', 64, 0, 2 ** 41) if pending else MAX)
    S.set(t, 'm_index', MAX if pending else S.int('index', 64, 0, 2 ** 41))
    S.st.ghost['held'] = loaded
    S.assume(And([f for _, f in inv(S, env)]))
    env.L, env.o = length(S, env), offset(S, env)
    return t


def m(S, env, n, w=64):
    return S.get(env.t, n, w)


def is_loaded(S, env):
    return S.ptr(env.t, 'm_block').obj is env.blk.obj


def is_pending(S, env):
    return Ne(m(S, env, 'm_nextBlock'), MAX)


def length(S, env):
    return fl(S, env, 'm_size')


def offset(S, env):
    return If(is_pending(S, env), Z(MUL(S, m(S, env, 'm_nextBlock'), env.bi)) + m(S, env, 'm_nextIndex'), Z(m(S, env, 'm_index')) + m(S, env, 'm_blockStartIndex'))


def data(S, env):
    return S.arr(env.blk, DATA, 8)


def view(S, env, p):
    f = S.arr(env.rest, 0, 8)(p)
    if not is_loaded(S, env):
        return f
    st = Z(MUL(S, blk(S, env, 'number'), env.bi))
    return If(And(st <= p, p < st + blk(S, env, 'size')), data(S, env)(p - st), f)


def inv(S, env, goal=False):
    L, o = length(S, env), offset(S, env)
    idx, bi, ld, pe = m(S, env, 'm_index'), env.bi, is_loaded(S, env), is_pending(S, env)
    e = env.empty
    r = [('offset is within the file', And(0 <= o, o <= L)),
         ('a pending position is a valid place in a block and no index is current', Implies(pe, And(Eq(idx, MAX), Z(m(S, env, 'm_nextIndex')) < bi, Z(m(S, env, 'm_nextIndex')) >= 0, Z(m(S, env, 'm_nextBlock')) < BIG))),
         ('the stream has a block or none', ld or S.ptr(env.t, 'm_block').obj is e.obj),
         ('a block is held exactly while it is the one of the stream', ld == S.st.ghost['held']),
         ('the empty block stays empty', And(Eq(S.get(e, 'size'), 0), Eq(S.get(e, 'number'), MAX))),
         ('sizes are sane', And(L < BIG, L >= 0))]
    if not ld:
        return r + [('without a block one is pending', pe)]
    num, b = blk(S, env, 'number'), blk(S, env, 'size')
    st = Z(MUL(S, num, bi))
    k = z3.Int('k')
    f, d = S.arr(env.rest, 0, 8), data(S, env)
    clean = Eq(blk(S, env, 'dirty', 8), 0)
    body = lambda x: Implies(And(clean, 0 <= x, x < b), Eq(d(x), f(st + x)))
    return r + [('the block starts at number*blockItems and holds all items of its place', And(Z(num) <= BIG, Z(num) >= 0, st <= L, Eq(b, If(L - st > bi, bi, L - st)))),
                ('the stream knows where its block starts', Implies(Not(pe), And(Eq(m(S, env, 'm_blockStartIndex'), st), Z(idx) <= b))),
                ('somebody uses the block', Z(blk(S, env, 'usage')) >= 1),
                ('a changed block is marked so', body(k) if goal else And(forall(1, lambda x: body(x), lambda x: d.fn(x)), forall(1, lambda x: Implies(And(clean, st <= x, x < st + b), Eq(d(x - st), f(x))), lambda x: f.fn(x))))]


def ok(S, env):
    return inv(S, env, True) + [('one buffer per stream', Eq(S.st.ghost['buffers'], 1))]


def same_view(S, old, env, but=()):
    return ('every stream sees every other item unchanged', Implies(And(0 <= P, P < env.L, And([Ne(P, b) for b in but])), Eq(view(S, env, P), view(old, env, P))))


def unchanged(S, old, env):
    return [('the size of the file is the same', Eq(length(S, env), env.L)), ('the offset is the same', Eq(offset(S, env), env.o)), same_view(S, old, env)] + ok(S, env)


def exc_end(cond, what):
    def exc(S, old, r, args, env):
        return [('refused only ' + what, cond(env))] + [('refused: ' + n, f) for n, f in unchanged(S, old, env)]
    return exc


# ---------------------------------------------------------------- operations
def s_plain(S, env):
    return [stream(S, env)]


def s_seek(S, env):
    t = stream(S, env)
    env.off = z3.Int('off')
    S.assume(env.off > -2 ** 55, env.off < 2 ** 55)
    w = env.case[2]
    env.to = env.off + (0, env.L, env.o)[w]
    return [t, VInt(env.off, 64), VInt(w, 32)]


def post_seek(S, old, r, args, env):
    return [('only positions inside the file', And(env.to >= 0, env.to <= env.L)), ('the offset is the position asked for', Eq(offset(S, env), env.to)),
            ('the size of the file is the same', Eq(length(S, env), env.L)), same_view(S, old, env)] + ok(S, env)


def post_ret(f, nm):
    def post(S, old, r, args, env):
        v = r.e if isinstance(r, VBool) else S.ex.as_u(S.st, r)
        g = f(env)
        return [(nm, Iff(v, g) if isinstance(r, VBool) else Eq(v, g))] + unchanged(S, old, env)
    return post


def s_out(S, env):
    t = stream(S, env)
    env.out = S.obj('item', 'param', Struct([(0, Cell(8, 'i'))], 8), 8)
    return [t, env.out]


def outv(S, env):
    return S.ex.as_u(S.st, S.ex.load(S.st, env.out, ('i', 64)))


def post_read(at, step):
    def post(S, old, r, args, env):
        return [('there is an item', And(env.o + at >= 0, env.o + at < env.L)), ('the item any stream last wrote at this position', Eq(outv(S, env), view(old, env, env.o + at))),
                ('the offset moves past it', Eq(offset(S, env), env.o + step)),
                ('the size of the file is the same', Eq(length(S, env), env.L)), same_view(S, old, env)] + ok(S, env)
    return post


def s_write(S, env):
    t = stream(S, env)
    S.assume(env.w)
    env.x = S.int('x', 64)
    p = S.obj('item', 'param', Struct([(0, Cell(8, 'i'))], 8), 8)
    S.ex.store(S.st, p, VInt(env.x, 64), ('i', 64))
    S.assume(env.L < BIG - 1)
    return [t, p]


def post_write(S, old, r, args, env):
    return [('every stream sees the item at the offset', Eq(view(S, env, env.o), env.x)), ('the offset moves past it', Eq(offset(S, env), env.o + 1)),
            ('the file grows exactly when written at its end', Eq(length(S, env), If(env.o + 1 > env.L, env.o + 1, env.L))), same_view(S, old, env, but=(env.o,))] + ok(S, env)


AX = dict(axioms=(products(z3.Int('blockItems')),), opts={'euclid': True})
LEMMAS = [L_PROD]
FNS = [
    FnSpec('seek', r'\bvp_fseek\(', s_seek, post_seek, exc=exc_end(lambda e: Or(e.to < 0, e.to > e.L), 'outside the file'), hooks=HK, **AX, cases=[c + (w,) for c in CASES for w in (0, 1, 2)]),
    FnSpec('offset', r'\bvp_foffset\(', s_plain, post_ret(lambda e: e.o, 'the offset'), hooks=HK, **AX, cases=CASES),
    FnSpec('size', r'\bvp_fsize\(', s_plain, post_ret(lambda e: e.L, 'the size of the file'), hooks=HK, **AX, cases=CASES),
    FnSpec('can_read', r'\bvp_fcanread\(', s_plain, post_ret(lambda e: e.o < e.L, 'readable exactly before the end'), hooks=HK, **AX, cases=CASES),
    FnSpec('can_read_back', r'\bvp_fcanback\(', s_plain, post_ret(lambda e: e.o > 0, 'readable backwards exactly after the beginning'), hooks=HK, **AX, cases=CASES),
    FnSpec('read', r'\bvp_fread\(', s_out, post_read(0, 1), exc=exc_end(lambda e: e.o >= e.L, 'at the end'), hooks=HK, **AX, cases=CASES),
    FnSpec('write', r'\bvp_fwrite\(', s_write, post_write, hooks=HK, **AX, cases=CASES),
]
for _c, _n in zip(CASES, ('', ', block pending', ', nothing loaded')):
    FNS.append(FnSpec('read_back' + _n, r'\bvp_fback\(', s_out, post_read(-1, -1), exc=exc_end(lambda e: e.o <= 0, 'at the beginning'), hooks=HK, **AX, cases=(_c,)))


# ---------------------------------------------------------------- bulk operations
def s_bulk(S, env):
    t = stream(S, env)
    env.n = S.int('count', 64, 0, BIG)
    if env.case[2]:
        S.assume(env.w, env.L + env.n < BIG, env.o + env.n < BIG)
    env.out = S.heap('items', Cell(8, 'i'), env.n, False, kind='param')
    return [t, env.out, VInt(env.n, 64)]


def outs(S, env):
    return S.arr(env.out, 0, 8)


def view_is(S, env, X, lo, hi):
    """the view is X on lo..hi, one fact per place an item can be"""
    f = S.arr(env.rest, 0, 8)
    if not is_loaded(S, env):
        return [('items', forall(1, lambda p: Implies(And(lo <= p, p < hi), Eq(f(p), X(p))), lambda p: f.fn(p)))]
    d, b, st = data(S, env), Z(blk(S, env, 'size')), Z(MUL(S, blk(S, env, 'number'), env.bi))
    return [('items outside the block', forall(1, lambda p: Implies(And(lo <= p, p < hi, Not(And(st <= p, p < st + b))), Eq(f(p), X(p))), lambda p: f.fn(p))),
            ('items of the block', forall(1, lambda k: Implies(And(0 <= k, k < b, lo <= st + k, st + k < hi), Eq(d(k), X(st + k))), lambda k: d.fn(k)))]


def li_read(L):
    S, e = L.S, L.e
    old = Ctx(S.ex, S.ex.entry)
    i, o = L.i, outs(L.S, e)
    return [('count', And(0 <= i, i <= e.n)), ('offset', Eq(offset(S, e), e.o + i)), ('length', Eq(length(S, e), e.L)),
            ('enough items', e.o + e.n <= e.L),
            ('items read so far', forall(1, lambda q: Implies(And(0 <= q, q < i), Eq(o(q), view(old, e, e.o + q))), lambda q: o.fn(q)))] + inv(S, e) + view_is(S, e, lambda p: view(old, e, p), 0, e.L)


def wview(S, old, env, i):
    return lambda p: If(And(env.o <= p, p < env.o + i), outs(old, env)(p - env.o), view(old, env, p))


def li_write(L):
    S, e = L.S, L.e
    old = Ctx(S.ex, S.ex.entry)
    i = L.i
    top = If(e.o + i > e.L, e.o + i, e.L)
    return [('count', And(0 <= i, i <= e.n)), ('offset', Eq(offset(S, e), e.o + i)), ('length', Eq(length(S, e), top))] + inv(S, e) + view_is(S, e, wview(S, old, e, i), 0, top)


# contract of update_block, proved below and used by the bulk operations
def ub_facts(S, old, env, goal=False):
    L, o = length(old, env), offset(old, env)
    pe = is_pending(old, env)
    num, st, bi = blk(S, env, 'number'), Z(m(S, env, 'm_blockStartIndex')), env.bi
    f, d, b = S.arr(env.rest, 0, 8), data(S, env), Z(blk(S, env, 'size'))
    q = z3.Int('q')
    X = lambda p: view(old, env, p)
    return [('the block is the pending or else the next one', Eq(num, If(pe, m(old, env, 'm_nextBlock'), Z(blk(old, env, 'number')) + 1))),
            ('it starts at number*blockItems', Eq(st, MUL(S, num, bi))), ('the place in it', Eq(m(S, env, 'm_index'), If(pe, m(old, env, 'm_nextIndex'), 0))),
            ('the offset is the same', Eq(st + m(S, env, 'm_index'), o)), ('in range', And(Z(num) <= BIG, Z(num) >= 0, st <= L)),
            ('nothing is pending', And(Eq(m(S, env, 'm_nextBlock'), MAX), Eq(m(S, env, 'm_nextIndex'), MAX))),
            ('the size of the file is the same', Eq(length(S, env), L)),
            ('it holds the items of its place', Eq(b, If(L - st > bi, bi, L - st))), ('it is in use', Z(blk(S, env, 'usage')) >= 1),
            ('the rest has every item', Implies(And(0 <= q, q < L), Eq(f(q), X(q))) if goal else forall(1, lambda p: Implies(And(0 <= p, p < L), Eq(f(p), X(p))), lambda p: f.fn(p))),
            ('the block holds its items', Implies(And(0 <= q, q < b), Eq(d(q), X(st + q))) if goal else forall(1, lambda k: Implies(And(0 <= k, k < b), Eq(d(k), X(st + k))), lambda k: d.fn(k)))]


def s_ub(S, env):
    t = stream(S, env)
    if not env.case[1]:
        S.assume(Z(m(S, env, 'm_index')) >= env.bi)
    return [S.f(t, 'm_index')]


def c_ub(ex, st, ins, args, dn):
    env = ex.spec_env
    S = Ctx(ex, st)
    ld = is_loaded(S, env)
    ex.oblige(st, 'update_block: a block is pending or the current one is used up', 'pre', Or(is_pending(S, env), And(ld, Ne(m(S, env, 'm_index'), MAX), Z(m(S, env, 'm_index')) >= env.bi)))
    for n, f in inv(S, env, True):
        ex.oblige(st, 'update_block: ' + n, 'pre', f)
    old = Ctx(ex, st.fork())
    for n in ('m_blockStartIndex', 'm_index'):
        v = z3.Int('%s!%d' % (n, next(_fresh)))
        ex.assume(st, And(0 <= v, v < 2 ** 52))
        S.set(env.t, n, v)
    for n in ('number', 'size', 'usage'):
        v = z3.Int('%s!%d' % (n, next(_fresh)))
        ex.assume(st, And(0 <= v, v <= BIG))
        S.set(env.blk, n, v)
    S.set(env.blk, 'dirty', If(z3.Bool('dirty!%d' % next(_fresh)), 1, 0), 8)
    S.set(env.t, 'm_nextBlock', MAX)
    S.set(env.t, 'm_nextIndex', MAX)
    S.set(env.t, 'm_block', env.blk)
    ex.havoc_leaf(st, env.rest.obj, 0, 8)
    ex.havoc_leaf(st, env.blk.obj, DATA, 8)
    if not st.ghost['held']:
        gset(ex, st, 'held', True)
    for n, f in ub_facts(S, old, env):
        ex.assume(st, f)
    return None


HUB = [(r'::update_block\(', c_ub)] + HK


def post_rbulk(S, old, r, args, env):
    q = z3.Int('q')
    return [('the items are there', env.o + env.n <= env.L), ('the items any stream last wrote at these positions', Implies(And(0 <= q, q < env.n), Eq(outs(S, env)(q), view(old, env, env.o + q)))),
            ('the offset moves past them', Eq(offset(S, env), env.o + env.n)), ('the size of the file is the same', Eq(length(S, env), env.L)), same_view(S, old, env)] + ok(S, env)


def post_wbulk(S, old, r, args, env):
    e = env.o + env.n
    return [('every stream sees the items from the offset on and all others unchanged', Implies(And(0 <= P, P < If(e > env.L, e, env.L)),
             Eq(view(S, env, P), If(And(env.o <= P, P < e), outs(old, env)(P - env.o), view(old, env, P))))),
            ('the offset moves past them', Eq(offset(S, env), e)), ('the file grows exactly to hold them', Eq(length(S, env), If(e > env.L, e, env.L)))] + ok(S, env)


def exc_rbulk(S, old, r, args, env):
    return [('refused only when there are fewer items', env.o + env.n > env.L)] + [('refused: ' + n, f) for n, f in unchanged(S, old, env)]


LRA = LoopSpec(r'read_array', inv=li_read, roles={'i': r'.*i.*'}, ptr_roles=('i',), variant=lambda L: L.e.n - L.i, name='read_array', peel=lambda e: not e.case[0], fixed_ptrs=True)
LWA = LoopSpec(r'write_array', inv=li_write, roles={'i': r'.*i.*'}, ptr_roles=('i',), variant=lambda L: L.e.n - L.i, name='write_array', peel=lambda e: not e.case[0], fixed_ptrs=True)
FNS += [
    FnSpec('update_block', r'^tpie::stream_crtp<tpie::file_base::stream>::update_block\(', s_ub, lambda S, o, r, a, e: ub_facts(S, o, e, True), hooks=HK, **AX, cases=CASES),
    FnSpec('read_array', r'\bvp_freada\(', s_bulk, post_rbulk, exc=exc_rbulk, loops=[LRA], hooks=HUB, **AX, cases=[c + (False,) for c in CASES]),
    FnSpec('write_array', r'\bvp_fwritea\(', s_bulk, post_wbulk, loops=[LWA], hooks=HUB, **AX, cases=[c + (True,) for c in CASES]),
]


# ---------------------------------------------------------------- attaching, detaching, destroying
def s_attach(S, env):
    """case: the stream is attached (with a block or not) to this file, or not attached"""
    if env.case[0] is None:
        t = base(S, env)
        S.set(t, 'm_file', VPtr(None, 0))
        S.set(t, 'm_block', VPtr(None, 0))
        S.st.ghost['buffers'] = 0
        env.L = env.size0
        return [t, env.fl]
    return [stream(S, env), env.fl]


def keep(S, old, env):
    v = view(old, env, P) if env.case[0] is not None else old.arr(env.rest, 0, 8)(P)
    return [('the size of the file is the same', Eq(length(S, env), env.L)), ('every stream sees every item unchanged', Implies(And(0 <= P, P < env.L), Eq(view(S, env, P), v)))]


def post_attach(S, old, r, args, env):
    return [('attached to the file', S.ptr(env.t, 'm_file').obj is env.fl.obj), ('reading starts at the first item', Eq(offset(S, env), 0))] + keep(S, old, env) + ok(S, env)


def post_gone(S, old, r, args, env):
    f = S.arr(env.rest, 0, 8)
    return [('nothing is held and no buffer is left', And(not S.st.ghost['held'], Eq(S.st.ghost['buffers'], 0))),
            ('the size of the file is the same', Eq(length(S, env), env.L)),
            ('every other stream still sees every item', Implies(And(0 <= P, P < env.L), Eq(f(P), view(old, env, P) if env.case[0] is not None else old.arr(env.rest, 0, 8)(P))))]


def s_free(S, env):
    return s_attach(S, env)[:1]


for _c, _n in zip(CASES[:1] + CASES[1:] + ((None, None),), ('', ', block pending', ', nothing loaded', ', not attached')):
    FNS += [
        FnSpec('attach' + _n, r'\bvp_fattach\(', s_attach, post_attach, hooks=HK, **AX, cases=(_c,)),
        FnSpec('detach' + _n, r'\bvp_fdetach\(', s_free, lambda S, o, r, a, e: [('not attached', Ne(1, 0) if S.ptr(e.t, 'm_file').obj is None else False)] + post_gone(S, o, r, a, e), hooks=HK, **AX, cases=(_c,)),
        FnSpec('destructor' + _n, r'\bvp_fdestroy\(', s_free, post_gone, hooks=HK, **AX, cases=(_c,)),
    ]


# ---------------------------------------------------------------- the block table: get_block, free_block
# contract of the boost list (a dependency): the list of blocks in use is the sequence `used` of n blocks in list
# order, an iterator is a pointer to an element and the end is one past the last; the list of free blocks has `fblk` in front
BL = r'boost::intrusive::list_impl<.*>::'
BI = r'boost::intrusive::list_iterator<.*>::'
HDR = [(0, Cell(8, 'p')), (8, Cell(8, 'p')), (16, Cell(8, 'i')), (24, Cell(8, 'i')), (32, Cell(8, 'i')), (40, Cell(1, 'i'))]


def which(ex, p):
    env = ex.spec_env
    S = Ctx(ex, ex.entry)
    for n in ('m_used', 'm_free'):
        if p.obj is env.fl.obj and Eq(p.off, S.f(env.fl, n).off) is True:
            return n
    raise Unsupported('a list that is neither m_used nor m_free')


def l_begin(ex, st, ins, args, dn):
    env = ex.spec_env
    if which(ex, args[1]) != 'm_used':
        raise Unsupported('iteration over the free list')
    env.it = args[0]
    gset(ex, st, 'pos', 0)
    ex.store(st, args[0], VPtr(env.used.obj, 0), ('ptr',))


def l_end(ex, st, ins, args, dn):
    env = ex.spec_env
    if which(ex, args[1]) != 'm_used':
        raise Unsupported('iteration over the free list')
    ex.store(st, args[0], VPtr(env.used.obj, norm(env.n * 48)), ('ptr',))


def i_inc(ex, st, ins, args, dn):
    env = ex.spec_env
    v = ex.load(st, args[0], ('ptr',))
    if v.obj is not env.used.obj:
        raise Unsupported('iterator of another list')
    ex.oblige(st, 'the end of the list is not passed', 'pre', v.off < Z(env.n) * 48)
    ex.store(st, args[0], VPtr(v.obj, norm(Z(v.off) + 48)), ('ptr',))
    gset(ex, st, 'pos', st.ghost['pos'] + 1)
    return args[0]


def i_deref(ex, st, ins, args, dn):
    env = ex.spec_env
    v = ex.load(st, args[0], ('ptr',))
    if v.obj is env.used.obj:
        ex.oblige(st, 'the end of the list is not an element', 'pre', v.off < Z(env.n) * 48)
    return v


def l_front(ex, st, ins, args, dn):
    env = ex.spec_env
    if which(ex, args[0]) != 'm_free':
        raise Unsupported('front of the used list')
    return env.fblk


def op(what, k):
    def h(ex, st, ins, args, dn):
        n = which(ex, args[k])
        b = None
        if what == 'push':
            b = args[k + 1]
        elif what == 'erase':
            b = ex.load(st, args[k + 1], ('ptr',))
        who = None if b is None else 'fblk' if b.obj is ex.spec_env.fblk.obj and Eq(b.off, 0) is True else 'other'
        gset(ex, st, 'ops', st.ghost['ops'] + ((what, n, who),))
    return h


def l_it(ex, st, ins, args, dn):
    ex.store(st, args[0], args[2], ('ptr',))


def l_empty(ex, st, ins, args, dn):
    ex.oblige(st, 'the list of blocks in use is asked', 'pre', which(ex, args[0]) == 'm_used')
    return VBool(ex.spec_env.n == 0)


LH = [(BL + r'begin\(', l_begin), (BL + r'end\(', l_end), (BI + r'operator\+\+', i_inc), (BI + r'operator(->|\*)', i_deref), (BL + r'front\(', l_front),
      (BL + r'pop_front\(', op('pop', 0)), (BL + r'push_front\(', op('push', 0)), (BL + r'erase\(', op('erase', 1)), (BL + r'iterator_to\(', l_it), (BL + r'empty\(', l_empty)]


def fitems(S, env):
    return S.arr(env.file, 0, 8)


def acc_pre(ex, st, nm):
    ex.oblige(st, nm + ' needs an open file', 'pre', st.ghost['fopen'])


def a_read(ex, st, ins, args, dn):
    """stream_accessor::read_block (C13)"""
    env = ex.spec_env
    acc_pre(ex, st, 'read_block')
    S = Ctx(ex, st)
    b, n = norm(ex.as_u(st, args[2])), norm(ex.as_u(st, args[3]))
    first = MUL(S, b, env.bi)
    asz = st.ghost['asize']
    ex.oblige(st, 'a block to read starts inside the file', 'pre', first <= asz)
    ex.oblige(st, 'at most a block is read', 'pre', n <= env.bi)
    ex.oblige(st, 'the items go into the block', 'pre', args[1].obj is env.fblk.obj and Eq(args[1].off, DATA) is True)
    bad = C11.fa_fail(ex, st, 'read_block')
    ex.havoc_leaf(bad[1], env.fblk.obj, DATA, 8)
    left = asz - first
    k = norm(If(n > left, left, n))
    ex.havoc_leaf(st, env.fblk.obj, DATA, 8)
    d, f = S.arr(env.fblk, DATA, 8), fitems(S, env)
    ex.assume(st, forall(1, lambda i: Implies(And(0 <= i, i < k), Eq(d(i), f(first + i))), lambda i: d.fn(i)))
    return [bad, ('ret', st, VInt(k, 64))]


def a_write(ex, st, ins, args, dn):
    env = ex.spec_env
    acc_pre(ex, st, 'write_block')
    S = Ctx(ex, st)
    b, n = norm(ex.as_u(st, args[2])), norm(ex.as_u(st, args[3]))
    first = MUL(S, b, env.bi)
    asz = st.ghost['asize']
    ex.oblige(st, 'at most a block is written', 'pre', n <= env.bi)
    ex.oblige(st, 'the items of the block are written', 'pre', args[1].obj is env.fblk.obj and Eq(args[1].off, DATA) is True)
    bad = C11.fa_fail(ex, st, 'write_block')
    d, f = S.arr(env.fblk, DATA, 8), fitems(S, env)
    ex.havoc_leaf(st, env.file.obj, 0, 8)
    g = fitems(S, env)
    ex.assume(st, forall(1, lambda p: Eq(g(p), If(And(first <= p, p < first + n), d(p - first), f(p))), lambda p: g.fn(p)))
    gset(ex, st, 'asize', norm(If(And(n > 0, first + n > asz), first + n, asz)))
    return [bad, ('ret', st, None)]


def table(S, env):
    base(S, env)
    o = Obj('file items', 'global', Arr(8, 2 ** 59, Cell(8, 'i')), 2 ** 62)
    o.gname = 'the items of the file'
    S.st.objs[o.id] = o
    env.file = VPtr(o, 0)
    env.n = S.int('blocks in use', 64, 0, 2 ** 40)
    env.used = S.heap('used', Struct(HDR, 48), env.n + 1, False)
    env.fblk = env.blk
    vt = S.obj('vtable', 'param', Struct([(8 * i, Cell(8, 'p')) for i in range(4)], 32), 32)
    for i, nm in enumerate(('vp_v_d1', 'vp_v_d0', 'vp_v_read_block', 'vp_v_write_block')):
        S.st.cells[(vt.obj.id, (8 * i,))] = VFn(nm)
    acc = S.obj('accessor vptr', 'param', Struct([(0, Cell(8, 'p'))], 8), 8)
    S.st.cells[(acc.obj.id, (0,))] = vt
    S.set(env.fl, 'm_fileAccessor', acc)
    S.st.ghost.update(ops=(), pos=0, fopen=True)
    env.L = env.size0


def NUM(S, env):
    return S.arr(env.used, 32, 8)


def infile(S, env, b, n, asz):
    """the n items of block b are in the file"""
    return Or(Eq(n, 0), Z(MUL(S, b, env.bi)) + n <= asz)


def place(S, env, b):
    """number of items of block b"""
    first = Z(MUL(S, b, env.bi))
    return If(env.L - first > env.bi, env.bi, env.L - first)


def s_rb(S, env):
    table(S, env)
    env.b = S.int('block', 64, 0, BIG)
    S.assume(Z(MUL(S, env.b, env.bi)) <= env.L, infile(S, env, env.b, place(S, env, env.b), S.st.ghost['asize']))
    return [env.fl, env.fblk, VInt(env.b, 64)]


def rb_facts(S, old, env, b, goal=False):
    n = place(S, env, b)
    first = Z(MUL(S, b, env.bi))
    d, f = S.arr(env.fblk, DATA, 8), fitems(S, env)
    k = z3.Int('k')
    g = lambda name, w=64: S.get(env.fblk, name, w)
    return [('the number of the block', Eq(g('number'), b)), ('the items of its place', Eq(g('size'), n)), ('clean', Eq(g('dirty', 8), 0)),
            ('the items of the file', Implies(And(0 <= k, k < n), Eq(d(k), f(first + k))) if goal else forall(1, lambda i: Implies(And(0 <= i, i < n), Eq(d(i), f(first + i))), lambda i: d.fn(i)))]


def exc_rb(S, old, r, args, env):
    return [('only the operating system can fail', bool(S.st.ghost.get('os_failed')))]


def c_rb(ex, st, ins, args, dn):
    env = ex.spec_env
    S = Ctx(ex, st)
    b = norm(ex.as_u(st, args[2]))
    ex.oblige(st, 'read_block: into a free block', 'pre', args[1].obj is env.fblk.obj)
    ex.oblige(st, 'read_block: inside the file', 'pre', Z(MUL(S, b, env.bi)) <= env.L)
    ex.oblige(st, 'read_block: every item is in the file', 'pre', infile(S, env, b, place(S, env, b), st.ghost['asize']))
    bad = C11.fa_fail(ex, st, 'read_block')
    for s in (bad[1], st):
        T = Ctx(ex, s)
        for n in ('number', 'size'):
            v = z3.Int('%s!%d' % (n, next(_fresh)))
            ex.assume(s, And(0 <= v, v < 2 ** 64))
            T.set(env.fblk, n, v)
        T.set(env.fblk, 'dirty', If(z3.Bool('dirty!%d' % next(_fresh)), 1, 0), 8)
        ex.havoc_leaf(s, env.fblk.obj, DATA, 8)
    for n, f in rb_facts(S, None, env, b):
        ex.assume(st, f)
    return [bad, ('ret', st, None)]


def s_gb(S, env):
    table(S, env)
    env.b = S.int('block', 64, 0, BIG)
    w = z3.Int('where')
    S.assume(Z(MUL(S, env.b, env.bi)) < 2 ** 62)  # the number comes from an offset, so its first item has a 64-bit position
    # the invariant of the table: the items of a block nobody has in use are in the file
    S.assume(Or(And(0 <= w, w < env.n, Eq(NUM(S, env)(w), env.b)), Z(MUL(S, env.b, env.bi)) > env.L, infile(S, env, env.b, place(S, env, env.b), S.st.ghost['asize'])))
    k = z3.Int('k')
    us = S.arr(env.used, 24, 8)
    S.assume(forall(1, lambda k: And(us(k) >= 0, us(k) < BIG), lambda k: us.fn(k)))
    return [env.fl, VInt(env.b, 64)]


def li_find(L):
    S, e = L.S, L.e
    pos = S.st.ghost['pos']
    q = S.ex.load(S.st, e.it, ('ptr',))
    num = NUM(S, e)
    return [('place', And(0 <= pos, pos <= e.n)), ('iterator', And(q.obj is e.used.obj, Eq(q.off, Z(pos) * 48))),
            ('no block passed has the number', forall(1, lambda k: Implies(And(0 <= k, k < pos), Ne(num(k), e.b)), lambda k: num.fn(k)))]


def table_same(S, old, env, but=None):
    k = z3.Int('k')
    r = []
    for o, n, w in ((16, 'size', 8), (24, 'usage', 8), (32, 'number', 8), (40, 'dirty', 1)):
        a, b = S.arr(env.used, o, w), old.arr(env.used, o, w)
        r.append(('the %s of every other block is kept' % n, Implies(And(0 <= k, k < env.n, Ne(k, but) if but is not None and o == 24 else True), Eq(a(k), b(k)))))
    return r + [('the file is unchanged', And(Eq(S.st.ghost['asize'], old.st.ghost['asize']), Implies(k >= 0, Eq(fitems(S, env)(k), fitems(old, env)(k))))), ('the size of the file is the same', Eq(fl(S, env, 'm_size'), env.L))]


def post_gb(S, old, r, args, env):
    num, k = NUM(old, env), z3.Int('k')
    o = [('only a block that starts inside the file', Z(MUL(S, env.b, env.bi)) <= env.L)]
    if r.obj is env.used.obj:
        j = S.st.ghost['pos']
        return o + [('the block in use with the number', And(Eq(r.off, Z(j) * 48), 0 <= j, j < env.n, Eq(num(j), env.b))), ('one more stream uses it', Eq(S.arr(env.used, 24, 8)(j), old.arr(env.used, 24, 8)(j) + 1)),
                    ('the lists are unchanged', S.st.ghost['ops'] == ())] + table_same(S, old, env, j)
    return o + [('the free block', r.obj is env.fblk.obj and Eq(r.off, 0) is True), ('no other block in use has the number', Implies(And(0 <= k, k < env.n), Ne(num(k), env.b))),
                ('it moves from the free blocks to those in use', S.st.ghost['ops'] == (('pop', 'm_free', None), ('push', 'm_used', 'fblk'))),
                ('one stream uses it', Eq(S.get(env.fblk, 'usage'), 1))] + rb_facts(S, old, env, env.b, True) + table_same(S, old, env)


def exc_gb(S, old, r, args, env):
    if S.st.ghost.get('os_failed'):
        return [('the lists are unchanged', S.st.ghost['ops'] == ())] + table_same(S, old, env)
    return [('refused only outside the file', Z(MUL(S, env.b, env.bi)) > env.L), ('the lists are unchanged', S.st.ghost['ops'] == ())] + table_same(S, old, env)


def s_fb(S, env):
    table(S, env)
    b = env.fblk
    env.b = S.int('number', 64, 0, BIG)
    env.bn = S.int('bsize', 64, 0, BIG)
    env.usage = S.int('usage', 64, 1, BIG)
    env.dirty = z3.Bool('dirty')
    for n, v, w in (('number', env.b, 64), ('size', env.bn, 64), ('usage', env.usage, 64), ('dirty', If(env.dirty, 1, 0), 8)):
        S.set(b, n, v, w)
    env.canRead = z3.Bool('canRead')
    S.set(env.fl, 'm_canRead', If(env.canRead, 1, 0), 8)
    first = Z(MUL(S, env.b, env.bi))
    d, f = S.arr(b, DATA, 8), fitems(S, env)
    S.assume(first <= env.L, Eq(env.bn, place(S, env, env.b)))
    # a clean block is what the file has
    S.assume(Implies(Not(env.dirty), infile(S, env, env.b, env.bn, S.st.ghost['asize'])), forall(1, lambda i: Implies(And(Not(env.dirty), 0 <= i, i < env.bn), Eq(d(i), f(first + i))), lambda i: d.fn(i)))
    return [env.fl, b]


def post_fb(S, old, r, args, env):
    first, k = Z(MUL(S, env.b, env.bi)), z3.Int('k')
    g, f, d = fitems(S, env), fitems(old, env), old.arr(env.fblk, DATA, 8)
    last = env.usage == 1
    gone = S.st.ghost['ops'] == (('erase', 'm_used', 'fblk'), ('push', 'm_free', 'fblk'))
    n = env.bn
    return [('one stream less uses it', Eq(S.get(env.fblk, 'usage'), env.usage - 1)), ('it stays in use while another stream uses it', Implies(Not(last), S.st.ghost['ops'] == ())),
            ('it moves from the blocks in use to the free ones with its last stream', Implies(last, gone)),
            ('its items are in the file when nobody uses it any more', Implies(last, And(infile(S, env, env.b, n, S.st.ghost['asize']), Implies(And(0 <= k, k < n), Eq(g(first + k), d(k)))))),
            ('every other item of the file is kept', Implies(Not(And(first <= k, k < first + n)), Eq(g(k), f(k)))), ('the file never shrinks', S.st.ghost['asize'] >= old.st.ghost['asize']),
            ('the block in use keeps its items', Implies(And(Not(last), 0 <= k, k < n), Eq(S.arr(env.fblk, DATA, 8)(k), d(k)))),
            ('the size of the file is the same', Eq(fl(S, env, 'm_size'), env.L)),
            ('written only when changed or unread', Implies(And(Not(env.dirty), env.canRead), Eq(g(k), f(k))))]


def s_trunc(S, env):
    table(S, env)
    S.assume(env.w, Eq(env.size0, S.st.ghost['asize']))
    env.to = S.int('newsize', 64, 0, BIG)
    return [env.fl, VInt(env.to, 64)]


def post_trunc(S, old, r, args, env):
    return [('only when no block is in use', env.n == 0), ('the size is the one given', And(Eq(fl(S, env, 'm_size'), env.to), Eq(S.st.ghost['asize'], env.to)))]


def exc_trunc(S, old, r, args, env):
    if S.st.ghost.get('os_failed'):
        return []
    return [('refused only while a block is in use', env.n > 0), ('refused: the size is the same', And(Eq(fl(S, env, 'm_size'), env.L), Eq(S.st.ghost['asize'], env.L)))]


TH = LH + [(r'^vp_v_read_block', a_read), (r'^vp_v_write_block', a_write), (SAB + r'byte_size\(', c_bsize), (SAB + r'truncate\(', c_trunc), (r'update_recorded_size', nop)] + MM + STR
RB = r'file_base_crtp<tpie::file_base>::read_block'
GBC = r'^tpie::file_base_crtp<tpie::file_base>::get_block_check\('
FNS += [
    FnSpec('get_block_check', GBC, lambda S, e: s_gb(S, e), lambda S, o, r, a, e: [('only a block that starts inside the file', Z(MUL(S, e.b, e.bi)) <= e.L)],
           exc=lambda S, o, r, a, e: [('refused only outside the file', Z(MUL(S, e.b, e.bi)) > e.L)], hooks=TH, **AX),
    FnSpec('read_block', RB, s_rb, lambda S, o, r, a, e: rb_facts(S, o, e, e.b, True), exc=exc_rb, hooks=TH, **AX),
    FnSpec('get_block', r'^tpie::file_base::get_block\(', s_gb, post_gb, exc=exc_gb, hooks=[(RB, c_rb)] + TH, loops=[LoopSpec(r'file_base::get_block', inv=li_find, variant=lambda L: L.e.n - L.S.st.ghost['pos'])], **AX),
    FnSpec('free_block', r'^tpie::file_base::free_block\(', s_fb, post_fb, exc=exc_rb, hooks=TH, **AX),
    FnSpec('truncate', r'\bvp_ftrunc\(', s_trunc, post_trunc, exc=exc_trunc, hooks=TH, **AX),
]

ASSUME = ['file accessor: read_block, write_block and truncate by the contracts proved in C13, restated over items (item i of block b is item b*blockItems+i of the file); write_block also past the end of the file, which POSIX files allow',
          'boost::intrusive::list behaves as a sequence (begin, end, ++, *, front, pop_front, push_front, erase, iterator_to, empty); block_t buffers made by create_block are distinct objects',
          'what other streams do between two operations is any state in which the invariant holds; the streams of one file are used by one thread',
          'the stream operations assume that writing a block back succeeds; get_block and free_block themselves are proved also for a failing operating system (free_block: nothing is claimed after a failed write)']
BOUNDED = [('several streams on one real file against one sequence', 'random histories of up to 300 operations on up to 4 streams, items of 4 to 40 bytes, small and large blocks'),
           ('create_block, delete_block', 'through the same histories only')]
