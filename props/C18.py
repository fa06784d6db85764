"""The block cache is transparent.

Ghost view: IN(p) - the block at position p is cached (node p of the map: handle, block, list
iterator, dirty flag), CONT(b) - contents of the block object b, DISK(p) - contents of the file at
p, ORD(l) - when list node l was last moved to the end.  view(p) = IN(p) ? CONT(block(p)) : DISK(p).
The std::map is a set of nodes found by position, the std::list a set of nodes ordered by ORD
(trusted); the collection below is the contract proved in C17."""
from lib import *
from lib import _fresh

ID = 'C18'
TU = 'blocks'
HARNESS = 'blocks'
SCENARIOS = ['cache']
KEEP = [r'block_collection::~?\w+\(', r'^(.* )?std::(__cxx11::)?(map|list|_List_base)<.*>::(~?\w+|operator\[\])(\[abi:cxx11\])?\(', r'^std::__cxx11::basic_string|^std::basic_string', r'tpie_new|tpie_delete', r'block_collection_cache::(prepare_cache|add_to_cache|used)']
CC = '_ZTSN4tpie6blocks22block_collection_cacheE'
LIM = 2 ** 50
END = 2 ** 51
SZ = 72
MP = r'std::map<tpie::blocks::block_handle.*>::'
LS = r'std::__cxx11::list<tpie::blocks::block_handle.*>::'
BCN = r'tpie::blocks::block_collection::'
X, Y, D = z3.Int('X'), z3.Int('Y'), z3.Int('D')
GH = ['IN', 'CONT', 'BSZ', 'ALIVE', 'OWN', 'DISK', 'LIN', 'LPOS', 'LSZ', 'ORD']
NOFF = {'key': 32, 'size': 40, 'block': 48, 'it': 56, 'dirty': 64}


def A(S, env, n):
    """a ghost array, or a field of the map nodes, as a function"""
    if n in NOFF:
        return S.ex.leaf(S.st, env.nodes.obj, NOFF[n], 1 if n == 'dirty' else 8)
    return S.ex.leaf(S.st, env.gh[n].obj, 0, 8)


def W(ex, st, n, i, v):
    env = ex.spec_env
    ex.store(st, VPtr(env.gh[n].obj, norm(Z(i) * 8)), VInt(norm(v), 64), ('i', 64))


def g(S, k):
    return S.st.ghost[k]


def num(ex, v):
    """identity of an opaque pointer"""
    if isinstance(v, VOpq):
        return norm(v.e)
    raise Unsupported('pointer %r where an element of the cache is expected' % (v,))


def fresh(ex, st, nm):
    v = z3.Int('%s!%d' % (nm, next(_fresh)))
    ex.assume(st, And(1 <= v, v < 2 ** 58))
    return v


def node(env, p):
    return VPtr(env.nodes.obj, norm(Z(p) * SZ))


def index(ex, st, p):
    env = ex.spec_env
    if not isinstance(p, VPtr) or p.obj is not env.nodes.obj:
        raise Unsupported('an iterator of the map')
    return ptr_idx(p, SZ)


def ptr_idx(p, n):
    from exe import exact_div
    r = exact_div(p.off, n)
    if r is None:
        raise Unsupported('an iterator inside a node')
    return r


def key(ex, st, p):
    return ex.as_u(st, ex.load(st, p, ('i', 64)))


def hd(ex, st, p, off):
    return ex.as_u(st, ex.load(st, VPtr(p.obj, norm(Z(p.off) + off)), ('i', 64)))


# ---- std::map
def m_find(ex, st, ins, args, dn):
    env = ex.spec_env
    S = Ctx(ex, st)
    p = key(ex, st, args[1])
    no = st.fork()
    ex.assume(no, Eq(A(S, env, 'IN')(p), 0))
    ex.assume(st, Eq(A(S, env, 'IN')(p), 1))
    ex.assume(st, And(0 <= Z(p), Z(p) < LIM))
    ex.assume(st, Z(g(S, 'MS')) >= 1)   # a set with an element is not empty
    return [('ret', st, node(env, p)), ('ret', no, node(env, END))]


def m_end(ex, st, ins, args, dn):
    return node(ex.spec_env, END)


def m_index(ex, st, ins, args, dn):
    """map[handle]: the node with this position, added if there is none"""
    env = ex.spec_env
    S = Ctx(ex, st)
    p = norm(key(ex, st, args[1]))
    size = hd(ex, st, args[1], 8)
    ex.oblige(st, 'map[handle]: position within bounds', 'pre', And(0 <= Z(p), Z(p) < LIM))
    old = st.fork()
    ex.assume(old, Eq(A(S, env, 'IN')(p), 1))
    ex.assume(st, Eq(A(S, env, 'IN')(p), 0))
    W(ex, st, 'IN', p, 1)
    gset(ex, st, 'MS', norm(Z(g(S, 'MS')) + 1))
    n = node(env, p)
    for o, v in ((32, p), (40, size)):
        ex.store(st, VPtr(n.obj, norm(Z(n.off) + o)), VInt(v, 64), ('i', 64))
    r = VPtr(n.obj, norm(Z(n.off) + 48))
    return [('ret', st, r), ('ret', old, r)]


def m_erase(ex, st, ins, args, dn):
    env = ex.spec_env
    S = Ctx(ex, st)
    p = norm(index(ex, st, args[1]))
    ex.oblige(st, 'map.erase: an element of the map', 'pre', Eq(A(S, env, 'IN')(p), 1))
    W(ex, st, 'IN', p, 0)
    gset(ex, st, 'MS', norm(Z(g(S, 'MS')) - 1))
    return node(env, END)


def seq_at(ex, st, k):
    """iterator of the k-th element in order"""
    env = ex.spec_env
    S = Ctx(ex, st)
    e = st.fork()
    ms = st.ghost['MS']
    ex.assume(e, Eq(k, ms))
    ex.assume(st, And(0 <= Z(k), Z(k) < ms))
    return [('ret', st, node(env, env.SEQ(Z(k)))), ('ret', e, node(env, END))]


def m_begin(ex, st, ins, args, dn):
    return seq_at(ex, st, 0)


def m_incr(ex, st, ins, args, dn):
    env = ex.spec_env
    p = norm(index(ex, st, args[0]))
    ex.oblige(st, 'iterator of an element', 'pre', Eq(A(Ctx(ex, st), env, 'IN')(p), 1))
    return seq_at(ex, st, norm(env.IDX(Z(p)) + 1))


# ---- std::list
def stamp(ex, st, l):
    gset(ex, st, 'clock', norm(Z(st.ghost['clock']) + 1))
    W(ex, st, 'ORD', l, st.ghost['clock'])


def l_push(ex, st, ins, args, dn):
    env = ex.spec_env
    S = Ctx(ex, st)
    l = fresh(ex, st, 'listnode')
    ex.assume(st, Eq(A(S, env, 'LIN')(l), 0))
    p, s = hd(ex, st, args[1], 0), hd(ex, st, args[1], 8)
    W(ex, st, 'LIN', l, 1)
    W(ex, st, 'LPOS', l, p)
    W(ex, st, 'LSZ', l, s)
    stamp(ex, st, l)
    gset(ex, st, 'LS', norm(Z(g(S, 'LS')) + 1))
    gset(ex, st, 'back', l)
    ex.store(st, VPtr(env.lend.obj, 8), VOpq(l), ('ptr',))
    return None


def l_end(ex, st, ins, args, dn):
    return ex.spec_env.lend


def l_front(ex, st, ins, args, dn):
    env = ex.spec_env
    S = Ctx(ex, st)
    ex.oblige(st, 'list.front: the list is not empty', 'pre', Z(g(S, 'LS')) > 0)
    l = fresh(ex, st, 'front')
    lin, od = A(S, env, 'LIN'), A(S, env, 'ORD')
    ex.assume(st, Eq(lin(l), 1))
    ex.assume(st, forall(1, lambda k: Implies(Eq(lin(k), 1), od(l) <= od(k)), lambda k: lin.fn(k)))
    gset(ex, st, 'front', l)
    o = Obj('front%d' % next(_fresh), 'global', Struct([(0, Cell(8, 'i')), (8, Cell(8, 'i'))], 16), 16)
    o.gname = o.name
    st.objs[o.id] = o
    ex.store(st, VPtr(o, 0), VInt(A(S, env, 'LPOS')(l), 64), ('i', 64))
    ex.store(st, VPtr(o, 8), VInt(A(S, env, 'LSZ')(l), 64), ('i', 64))
    return VPtr(o, 0)


def l_pop(ex, st, ins, args, dn):
    S = Ctx(ex, st)
    ex.oblige(st, 'list.pop_front: the list is not empty', 'pre', Z(g(S, 'LS')) > 0)
    if g(S, 'front') is None:
        raise Unsupported('pop_front of an element not looked at')
    W(ex, st, 'LIN', g(S, 'front'), 0)
    gset(ex, st, 'LS', norm(Z(g(S, 'LS')) - 1))
    gset(ex, st, 'front', None)
    return None


def l_erase(ex, st, ins, args, dn):
    env = ex.spec_env
    S = Ctx(ex, st)
    l = num(ex, args[1])
    ex.oblige(st, 'list.erase: an element of the list', 'pre', Eq(A(S, env, 'LIN')(l), 1))
    W(ex, st, 'LIN', l, 0)
    gset(ex, st, 'LS', norm(Z(g(S, 'LS')) - 1))
    gset(ex, st, 'front', None)
    return env.lend


def l_splice(ex, st, ins, args, dn):
    env = ex.spec_env
    S = Ctx(ex, st)
    if not (isinstance(args[1], VPtr) and args[1].obj is env.lend.obj):
        raise Unsupported('splice elsewhere than to the end')
    l = num(ex, args[3])
    ex.oblige(st, 'list.splice: an element of the list', 'pre', Eq(A(S, env, 'LIN')(l), 1))
    stamp(ex, st, l)
    gset(ex, st, 'front', None)
    return None


# ---- blocks and the collection
def b_new(ex, st, ins, args, dn):
    env = ex.spec_env
    S = Ctx(ex, st)
    b = fresh(ex, st, 'block')
    ex.assume(st, Eq(A(S, env, 'ALIVE')(b), 0))
    W(ex, st, 'ALIVE', b, 1)
    W(ex, st, 'CONT', b, fresh(ex, st, 'contents'))
    W(ex, st, 'BSZ', b, ex.as_u(st, ex.load(st, args[0], ('i', 64))) if args else 0)
    gset(ex, st, 'blocks', norm(Z(g(S, 'blocks')) + 1))
    return VOpq(b)


def b_delete(ex, st, ins, args, dn):
    S = Ctx(ex, st)
    b = num(ex, args[0])
    ex.oblige(st, 'tpie_delete: a live block', 'pre', Eq(A(S, ex.spec_env, 'ALIVE')(b), 1))
    W(ex, st, 'ALIVE', b, 0)
    gset(ex, st, 'blocks', norm(Z(g(S, 'blocks')) - 1))
    return None


def c_write(ex, st, ins, args, dn):
    env = ex.spec_env
    S = Ctx(ex, st)
    p, s, b = norm(ex.as_u(st, args[1])), ex.as_u(st, args[2]), num(ex, args[3])
    ex.oblige(st, 'write_block: a live block', 'pre', Eq(A(S, env, 'ALIVE')(b), 1))
    ex.oblige(st, 'write_block: the block fits its place', 'pre', A(S, env, 'BSZ')(b) <= Z(s))
    ex.oblige(st, 'write_block: only a changed block is written back', 'pre', And(Eq(A(S, env, 'IN')(p), 1), Ne(A(S, env, 'dirty')(p), 0)))
    W(ex, st, 'DISK', p, A(S, env, 'CONT')(b))
    gset(ex, st, 'writes', norm(Z(g(S, 'writes')) + 1))
    return None


def c_read(ex, st, ins, args, dn):
    env = ex.spec_env
    S = Ctx(ex, st)
    p, s, b = norm(ex.as_u(st, args[1])), ex.as_u(st, args[2]), num(ex, args[3])
    ex.oblige(st, 'read_block: into a live block', 'pre', Eq(A(S, env, 'ALIVE')(b), 1))
    W(ex, st, 'CONT', b, A(S, env, 'DISK')(p))
    W(ex, st, 'BSZ', b, s)
    gset(ex, st, 'reads', norm(Z(g(S, 'reads')) + 1))
    return None


def c_alloc(ex, st, ins, args, dn):
    """a block in no use (C17), so not cached"""
    env = ex.spec_env
    S = Ctx(ex, st)
    env.new = env.newpos
    return VAgg([VInt(env.newpos, 64), VInt(env.bs, 64)])


def c_free(ex, st, ins, args, dn):
    env = ex.spec_env
    S = Ctx(ex, st)
    p = norm(ex.as_u(st, args[1]))
    ex.oblige(st, 'free_block: no longer cached', 'pre', Eq(A(S, env, 'IN')(p), 0))
    gset(ex, st, 'freed', p)
    return None


def nop(ex, st, ins, args, dn):
    return None


HK = [(MP + r'find\(', m_find), (MP + r'end\(', m_end), (MP + r'begin\(', m_begin), (MP + r'operator\[\]\(', m_index), (MP + r'erase(\[abi:cxx11\])?\(', m_erase), (MP + r'~map\(', nop),
      (r'_Rb_tree_increment', m_incr), (LS + r'push_back\(', l_push), (LS + r'end\(', l_end), (LS + r'front\(', l_front), (LS + r'pop_front\(', l_pop), (LS + r'erase\(', l_erase), (LS + r'splice\(', l_splice),
      (LS + r'~list\(|_List_base<.*>::(_M_clear|~_List_base)\(', nop), (r'tpie_new<tpie::array<char', b_new), (r'tpie_delete<tpie::array<char', b_delete),
      (BCN + r'write_block\(', c_write), (BCN + r'read_block\(', c_read), (BCN + r'get_free_block\(', c_alloc), (BCN + r'free_block\(', c_free), (BCN + r'~block_collection\(', nop)] + MM


# ---------------------------------------------------------------- states
def cache(S, env, skip=None):
    S.ex.spec_env = env
    env.gh = {}
    for n in GH:
        o = Obj(n, 'global', Arr(8, 2 ** 59, Cell(8, 'i')), 2 ** 62)
        o.gname = n
        S.st.objs[o.id] = o
        env.gh[n] = VPtr(o, 0)
    o = Obj('map nodes', 'global', Arr(SZ, 2 ** 52, Struct([(32, Cell(8, 'i')), (40, Cell(8, 'i')), (48, Cell(8, 'p')), (56, Cell(8, 'p')), (64, Cell(1, 'i'))], SZ)), SZ * 2 ** 52)
    o.gname = 'map nodes'
    S.st.objs[o.id] = o
    env.nodes = VPtr(o, 0)
    o = Obj('list end', 'global', Struct([(0, Cell(8, 'p')), (8, Cell(8, 'p'))], 24), 24)
    o.gname = 'list end'
    S.st.objs[o.id] = o
    env.lend = VPtr(o, 0)
    t = S.obj('c', cls=CC)
    env.t = t
    env.bs, env.max, env.cur = S.int('blockSize', 64, 1, 2 ** 32), S.int('maxSize', 64, 1, 2 ** 40), S.int('curSize', 64, 0, 2 ** 40)
    for n, v in (('m_blockSize', env.bs), ('m_maxSize', env.max), ('m_curSize', env.cur)):
        S.set(t, n, v)
    S.st.ghost.update(MS=env.cur, LS=env.cur, clock=S.int('clock', 64, 0, 2 ** 60), blocks=env.cur, writes=0, reads=0, front=None, back=None, freed=None)
    env.SEQ, env.IDX = z3.Function('SEQ', z3.IntSort(), z3.IntSort()), z3.Function('IDX', z3.IntSort(), z3.IntSort())
    for n in ('CONT', 'DISK', 'BSZ', 'LPOS', 'LSZ'):  # ghost values are 64-bit
        a = A(S, env, n)
        S.assume(forall(1, lambda k: And(0 <= a(k), a(k) < 2 ** 63), lambda k: a.fn(k)))
    S.assume(And([f for _, f in inv(S, env, skip)]))
    return t


def cur(S, env):
    return S.get(env.t, 'm_curSize')


def view(S, env, p):
    return If(Eq(A(S, env, 'IN')(p), 1), A(S, env, 'CONT')(A(S, env, 'block')(p)), A(S, env, 'DISK')(p))


def inv(S, env, skip=None, extra=0):
    a = {n: A(S, env, n) for n in GH + list(NOFF)}
    IN = a['IN']

    def all_in(f):
        return forall(1, lambda p: Implies(Eq(IN(p), 1), f(p)), lambda p: IN.fn(p))
    clean = lambda p: Implies(Eq(a['dirty'](p), 0), Eq(a['CONT'](a['block'](p)), a['DISK'](p)))
    if skip is not None:
        c0 = clean
        clean = lambda p: Or(Eq(p, skip), c0(p))
    n = cur(S, env)
    return [('the cache is within its limit', And(0 <= Z(n), n <= env.max)), ('limit and block size stay', And(Eq(S.get(env.t, 'm_maxSize'), env.max), Eq(S.get(env.t, 'm_blockSize'), env.bs))),
            ('as many map nodes as counted', Eq(g(S, 'MS'), n)), ('as many list nodes as counted', Eq(g(S, 'LS'), n)), ('as many live blocks as counted', Eq(g(S, 'blocks'), norm(Z(n) + extra))),
            ('membership is a flag', forall(1, lambda p: And(0 <= IN(p), IN(p) <= 1), lambda p: IN.fn(p))),
            ('cached positions are valid, node has its position and the block size', all_in(lambda p: And(0 <= p, p < LIM, Eq(a['key'](p), p), Eq(a['size'](p), env.bs)))),
            ('block objects and list nodes have addresses', all_in(lambda p: And(0 <= a['block'](p), a['block'](p) < 2 ** 58, 0 <= a['it'](p), a['it'](p) < 2 ** 58))),
            ('the changed mark is a flag', all_in(lambda p: And(0 <= a['dirty'](p), a['dirty'](p) <= 1))),
            ('a cached block is live', all_in(lambda p: Eq(a['ALIVE'](a['block'](p)), 1))),
            ('and of the block size', all_in(lambda p: Eq(a['BSZ'](a['block'](p)), env.bs))),
            ('and belongs to one position', all_in(lambda p: Eq(a['OWN'](a['block'](p)), p))),
            ('a cached block is in the list', all_in(lambda p: And(Eq(a['LIN'](a['it'](p)), 1), Eq(a['LPOS'](a['it'](p)), p)))),
            ('a block in the list is cached', forall(1, lambda l: Implies(Eq(a['LIN'](l), 1), And(Eq(IN(a['LPOS'](l)), 1), Eq(a['it'](a['LPOS'](l)), l))), lambda l: a['LIN'].fn(l))),
            ('stamps are in the past', forall(1, lambda l: Implies(Eq(a['LIN'](l), 1), a['ORD'](l) <= g(S, 'clock')), lambda l: a['LIN'].fn(l))),
            ('an unchanged block is what is in the file', all_in(clean))]


def own_update(S, env, pos):
    """ghost: the block now cached at pos belongs to it"""
    W(S.ex, S.st, 'OWN', A(S, env, 'block')(pos), pos)


def transparent(S, old, env, but=None):
    e = Eq(view(S, env, X), view(old, env, X))
    return [('every other block reads as before' if but is not None else 'every block reads as before', Implies(And(0 <= X, X < LIM, True if but is None else Ne(X, but)), e))]


def evicts(S, old, env, keep=None):
    gone = And(Eq(A(old, env, 'IN')(X), 1), Eq(A(S, env, 'IN')(X), 0), 0 <= X, X < LIM)
    oi, od = A(old, env, 'it'), A(old, env, 'ORD')
    oth = And(Eq(A(old, env, 'IN')(Y), 1), 0 <= Y, Y < LIM)
    return [('a block leaves the cache only if it is full', Implies(gone, Eq(env.cur, env.max))), ('the least recently used one', Implies(And(gone, oth), od(oi(X)) <= od(oi(Y)))),
            ('and only one', Implies(And(gone, oth, Ne(X, Y)), Eq(A(S, env, 'IN')(Y), 1))),
            ('written exactly if it was changed', Implies(gone, Eq(g(S, 'writes'), If(Ne(A(old, env, 'dirty')(X), 0), 1, 0)))),
            ('the file is only written when a block leaves', Or(Eq(g(S, 'writes'), 0), Eq(env.cur, env.max)))]


def order(S, old, env, last=None):
    """recently used: last is newest, the others keep their order"""
    it, od = A(S, env, 'it'), A(S, env, 'ORD')
    oi, oo = A(old, env, 'it'), A(old, env, 'ORD')
    c = And(Eq(A(S, env, 'IN')(X), 1), Eq(A(old, env, 'IN')(X), 1), 0 <= X, X < LIM)
    out = [('the others keep their place in the order', Implies(And(c, True if last is None else Ne(X, last)), And(Eq(it(X), oi(X)), Eq(od(it(X)), oo(oi(X))))))]
    if last is not None:
        out.append(('it is the most recently used', Implies(And(Eq(A(S, env, 'IN')(X), 1), Ne(X, last), 0 <= X, X < LIM), od(it(X)) < od(it(last)))))
    return out


def handle(S, p, s, nm='handle'):
    h = S.obj(nm, 'param', Struct([(0, Cell(8, 'i')), (8, Cell(8, 'i'))], 16), 16)
    S.ex.store(S.st, h, VInt(p, 64), ('i', 64))
    S.ex.store(S.st, VPtr(h.obj, 8), VInt(s, 64), ('i', 64))
    return h


def s_prepare(S, env):
    return [cache(S, env)]


def post_prepare(S, old, r, args, env):
    return [('there is room', cur(S, env) < env.max)] + transparent(S, old, env) + evicts(S, old, env) + order(S, old, env) + inv(S, env)


def s_read(S, env):
    t = cache(S, env)
    env.H = S.int('H', 64, 0, LIM - 1)
    return [t, handle(S, env.H, env.bs)]


def post_read(S, old, r, args, env):
    H = env.H
    own_update(S, env, H)
    b = num(S.ex, r)
    return [('it is cached now', Eq(A(S, env, 'IN')(H), 1)), ('the block returned is the cached one', Eq(b, A(S, env, 'block')(H))), ('and reads as last written', Eq(A(S, env, 'CONT')(b), view(old, env, H))),
            ('a cached block is not read again', Implies(Eq(A(old, env, 'IN')(H), 1), And(Eq(g(S, 'reads'), 0), Eq(g(S, 'writes'), 0), Eq(b, A(old, env, 'block')(H)), Iff(Ne(A(S, env, 'dirty')(H), 0), Ne(A(old, env, 'dirty')(H), 0))))),
            ('of the size of a block', Eq(A(S, env, 'BSZ')(b), env.bs))] + transparent(S, old, env) + evicts(S, old, env) + order(S, old, env, H) + inv(S, env)


def s_write(S, env):
    env.H = S.int('H', 64, 0, LIM - 1)
    t = cache(S, env, skip=env.H)
    S.assume(Eq(A(S, env, 'IN')(env.H), 1))
    return [t, handle(S, env.H, env.bs)]


def post_write(S, old, r, args, env):
    H = env.H
    return [('still cached', Eq(A(S, env, 'IN')(H), 1)), ('marked as changed', Ne(A(S, env, 'dirty')(H), 0)), ('the file is not touched', And(Eq(g(S, 'writes'), 0), Eq(g(S, 'reads'), 0)))] + transparent(S, old, env) + order(S, old, env, H) + inv(S, env)


def s_alloc(S, env):
    t = cache(S, env)
    env.newpos = S.int('newpos', 64, 0, LIM - 1)
    S.assume(Eq(A(S, env, 'IN')(env.newpos), 0))
    env.out = handle(S, 0, 0, 'out')
    return [t, env.out]


def post_alloc(S, old, r, args, env):
    p = S.ex.as_u(S.st, S.ex.load(S.st, env.out, ('i', 64)))
    s = S.ex.as_u(S.st, S.ex.load(S.st, VPtr(env.out.obj, 8), ('i', 64)))
    own_update(S, env, env.newpos)
    return [('the block given by the collection', And(Eq(p, env.newpos), Eq(s, env.bs))), ('it is cached', Eq(A(S, env, 'IN')(p), 1)), ('and counts as changed', Ne(A(S, env, 'dirty')(p), 0))] + \
        transparent(S, old, env, env.newpos) + evicts(S, old, env) + order(S, old, env, env.newpos) + inv(S, env)


def post_free(S, old, r, args, env):
    H = env.H
    return [('no longer cached', Eq(A(S, env, 'IN')(H), 0)), ('given back to the collection', Eq(g(S, 'freed'), H)), ('no other block leaves the cache', Implies(Ne(X, H), Eq(A(S, env, 'IN')(X), A(old, env, 'IN')(X)))),
            ('the file is not touched', And(Eq(g(S, 'writes'), 0), Eq(g(S, 'reads'), 0)))] + transparent(S, old, env, H) + order(S, old, env) + inv(S, env)


# ---- closing
def s_close(S, env):
    t = cache(S, env)
    IN = A(S, env, 'IN')
    n = env.cur
    # the map enumerates its elements (std::map)
    S.assume(forall(1, lambda p: Implies(Eq(IN(p), 1), And(0 <= env.IDX(p), env.IDX(p) < n, Eq(env.SEQ(env.IDX(p)), p))), lambda p: IN.fn(p)),
             forall(1, lambda k: Implies(And(0 <= k, k < n), And(Eq(IN(env.SEQ(k)), 1), Eq(env.IDX(env.SEQ(k)), k), 0 <= env.SEQ(k), env.SEQ(k) < LIM)), lambda k: env.SEQ(k)))
    return [t]


def done(S, old, env, k):
    """elements before the k-th are written and deleted, the others untouched"""
    IN, ox = A(old, env, 'IN'), A(old, env, 'block')
    ds, od, al, co, bz = A(S, env, 'DISK'), A(old, env, 'DISK'), A(S, env, 'ALIVE'), A(old, env, 'CONT'), A(old, env, 'BSZ')
    return [('elements passed are in the file', forall(1, lambda p: Implies(And(Eq(IN(p), 1), env.IDX(p) < k), Eq(ds(p), co(ox(p)))), lambda p: IN.fn(p))),
            ('elements passed are deleted', forall(1, lambda p: Implies(And(Eq(IN(p), 1), env.IDX(p) < k), Eq(al(ox(p)), 0)), lambda p: IN.fn(p))),
            ('elements to come are live', forall(1, lambda p: Implies(And(Eq(IN(p), 1), env.IDX(p) >= k), Eq(al(ox(p)), 1)), lambda p: IN.fn(p))),
            ('elements to come are untouched', forall(1, lambda p: Implies(And(Eq(IN(p), 1), env.IDX(p) >= k), Eq(ds(p), od(p))), lambda p: IN.fn(p))),
            ('everything else is untouched in the file', forall(1, lambda p: Implies(Ne(IN(p), 1), Eq(ds(p), od(p))), lambda p: IN.fn(p))),
            ('live blocks', Eq(g(S, 'blocks'), norm(Z(env.cur) - k)))]


def inv_close(L):
    env, S, old = L.e, L.S, L.S0
    return [('at an element or the end', Or(Eq(L.i, END), And(0 <= L.i, L.i < LIM, Eq(A(old, env, 'IN')(L.i), 1))))] + done(S, old, env, iter_k(L))


def iter_k(L):
    return If(Eq(L.i, END), Z(L.e.cur), L.e.IDX(Z(L.i)))


def post_close(S, old, r, args, env):
    return [('the file has every block as last written', Implies(And(0 <= X, X < LIM), Eq(A(S, env, 'DISK')(X), view(old, env, X)))), ('every cached block is deleted', Eq(g(S, 'blocks'), 0))]


FNS = [
    FnSpec('prepare_cache', r'block_collection_cache::prepare_cache\(', s_prepare, post_prepare, hooks=HK),
    FnSpec('read_block', r'\bvp_cc_read\(', s_read, post_read, hooks=HK),
    FnSpec('write_block', r'\bvp_cc_write\(', s_write, post_write, hooks=HK),
    FnSpec('get_free_block', r'\bvp_cc_alloc\(', s_alloc, post_alloc, hooks=HK),
    FnSpec('~block_collection_cache', r'\bvp_cc_dtor\(', s_close, post_close, hooks=HK, loops=[LoopSpec(r'block_collection_cache::~', inv=inv_close, roles={'i': r'i\.sroa.*|.*i'}, ptr_roles=('i',), name='closing loop', variant=lambda L: Z(L.e.cur) - iter_k(L))]),
    FnSpec('free_block', r'\bvp_cc_free\(', s_read, post_free, hooks=HK),
]
BOUNDED = [('block_collection_cache on real files against a model: contents, which blocks are read and written, memory, least-recently-used order, reopening read-only and writeable',
            'cache sizes 1 to 12, block sizes 1 to 5000, up to 250 operations per history, seeded')]
ASSUME = ['std::map finds nodes by position, std::list keeps its order (trusted library)', 'the block collection reads what was written and hands out blocks in no use (C17)', 'no I/O errors (an error while writing back an evicted block leaves it out of the list)',
          'a block is changed through the pointer only before write_block is called for it (documented)', 'cache of at least one block', 'positions below 2^50']
