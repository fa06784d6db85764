"""Block storage never hands out overlapping or live blocks.

The free list is an external stack of handles (contract of C15): FP[k], FS[k], k < n.  Q is the
position of an arbitrary block in use; what holds for it holds for each of them.  Invariant:
every free block and the block in use lie below the end of the collection, free blocks are pairwise
disjoint and disjoint from the block in use, and all have the block size."""
from lib import *
from lib import _fresh
from oslib import *

ID = 'C17'
TU = 'blocks'
HARNESS = 'blocks'
SCENARIOS = ['freespace', 'collection']
FC = '_ZTSN4tpie6blocks4bits20freespace_collectionE'
BC = '_ZTSN4tpie6blocks16block_collectionE'
SK = r'tpie::stack<tpie::blocks::block_handle>::'
KEEP = [r'tpie::stack<.*>::', r'^std::__cxx11::basic_string|^std::basic_string|^std::operator\+', r'file_accessor::posix::', r'tpie::array<char.*>::resize', r'freespace_collection::\w+\(', r'block_collection::\w+\(']
LIM = 2 ** 50
I, J, B = z3.Int('i'), z3.Int('j'), z3.Int('byte')


# ---------------------------------------------------------------- contract of the stack (C15)
def fp(S, env):
    return S.arr(env.FP, 0, 8)


def fs(S, env):
    return S.arr(env.FS, 0, 8)


def count(S):
    return S.st.ghost['n']


def st_open(ex, st, what):
    ex.oblige(st, what + ': the stack is open', 'pre', st.ghost['stack_open'])


def c_size(ex, st, ins, args, dn):
    st_open(ex, st, 'size')
    return VInt(st.ghost['n'], 64)


def c_empty(ex, st, ins, args, dn):
    st_open(ex, st, 'empty')
    return VBool(Eq(st.ghost['n'], 0))


def c_push(ex, st, ins, args, dn):
    st_open(ex, st, 'push')
    env, n = ex.spec_env, st.ghost['n']
    p = args[1]
    for o, off in ((env.FP, 0), (env.FS, 8)):
        ex.store(st, VPtr(o.obj, norm(Z(n) * 8)), ex.load(st, VPtr(p.obj, norm(Z(p.off) + off)), ('i', 64)), ('i', 64))
    gset(ex, st, 'n', norm(Z(n) + 1))
    return None


def c_pop(ex, st, ins, args, dn):
    st_open(ex, st, 'pop')
    env, n = ex.spec_env, st.ghost['n']
    bad = st.fork()
    ex.assume(bad, Eq(n, 0))
    ex.assume(st, Z(n) >= 1)
    gset(ex, st, 'n', norm(Z(n) - 1))
    S = Ctx(ex, st)
    o = Obj('popped%d' % next(_fresh), 'global', Struct([(0, Cell(8, 'i')), (8, Cell(8, 'i'))], 16), 16)
    o.gname = o.name
    st.objs[o.id] = o
    o = VPtr(o, 0)
    for a, off in ((env.FP, 0), (env.FS, 8)):
        ex.store(st, VPtr(o.obj, off), ex.load(st, VPtr(a.obj, norm(Z(st.ghost['n']) * 8)), ('i', 64)), ('i', 64))
    return [('throw', bad, '_ZTIN4tpie23end_of_stream_exceptionE'), ('ret', st, o)]


def c_stack(ex, st, ins, args, dn):
    """opening: the handles pushed before the stack was closed"""
    ex.oblige(st, 'the stack is not open yet', 'pre', Not(st.ghost['stack_open']))
    gset(ex, st, 'stack_open', True)
    return None


def c_unstack(ex, st, ins, args, dn):
    st_open(ex, st, 'destructor')
    gset(ex, st, 'stack_open', False)
    return None


def c_resize(ex, st, ins, args, dn):
    """array<char>::resize (C01): n fresh bytes"""
    S = Ctx(ex, st)
    n = norm(ex.as_u(st, args[1]))
    S.set(args[0], 'm_size', n)
    d = S.obj('bytes', 'heap', Arr(1, n, Cell(1, 'i')), n)
    S.set(args[0], 'm_elements', d)
    ex.spec_env.buf = d
    bad = st.fork()
    gset(ex, bad, 'os_failed', True)
    return [('throw', bad, '_ZTIN4tpie22out_of_resource_errorE'), ('ret', st, None)]


def nop(ex, st, ins, args, dn):
    return None


STK = [(SK + r'size\(', c_size), (SK + r'empty\(', c_empty), (SK + r'push\(', c_push), (SK + r'pop\(', c_pop), (SK + r'~stack\(', c_unstack), (SK + r'stack\(', c_stack)]
HK = STK + [(r'posix::~?posix\(', nop), (r'array<char.*>::resize\(', c_resize)] + FA + STR + MM


# ---------------------------------------------------------------- states
def farr(S, name):
    o = Obj(name, 'global', Arr(8, 2 ** 59, Cell(8, 'i')), 2 ** 62)
    o.gname = name
    S.st.objs[o.id] = o
    return VPtr(o, 0)


def base(S, env, cls, opened=True):
    S.ex.spec_env = env
    env.FP, env.FS = farr(S, 'positions of the free blocks'), farr(S, 'sizes of the free blocks')
    t = S.obj('c', cls=cls)
    env.t = t
    env.pre = 'm_collection.' if cls == BC else ''
    env.bs = S.int('blockSize', 64, 1, 2 ** 32)
    n = S.int('free', 64, 0, 2 ** 48)
    S.st.ghost.update(n=n, stack_open=opened)
    env.n = n
    env.Q = S.int('Q', 64, 0, LIM)
    if opened:
        env.E = S.int('end', 64, 0, LIM)
        S.set(t, env.pre + 'm_end', env.E)
        S.set(t, env.pre + 'm_blockSize', env.bs)
        S.assume(And([f for _, f in inv(S, env)]))
    if cls == BC:
        o = Obj('file', 'global', Arr(1, 2 ** 62, Cell(1, 'i')), 2 ** 62)
        o.gname = 'the file'
        S.st.objs[o.id] = o
        env.file = VPtr(o, 0)
        env.hsize = 0
        env.fsize = S.int('fsize', 64, 0, LIM)
        S.st.ghost.update(fpos=S.int('fpos', 64, 0, LIM), fsize=env.fsize, fopen=opened, exists=z3.Bool('exists'))
        S.ex.osenv = env
    return t


def end(S, env):
    return S.get(env.t, env.pre + 'm_end')


def apart(a, b, bs):
    return Or(Z(a) + bs <= b, Z(b) + bs <= a)


def listed(S, env, e, also=()):
    """the free list is in order: below e, of the block size, pairwise disjoint, disjoint from the blocks in use"""
    p, s, n, bs = fp(S, env), fs(S, env), count(S), env.bs
    out = [('free blocks lie below the end', forall(1, lambda k: Implies(And(0 <= k, k < n), And(0 <= p(k), Z(p(k)) + bs <= e)), lambda k: p.fn(k))),
           ('free blocks have the block size', forall(1, lambda k: Implies(And(0 <= k, k < n), Eq(s(k), bs)), lambda k: s.fn(k))),
           ('free blocks do not overlap each other', forall(2, lambda j, k: Implies(And(0 <= j, j < k, k < n), apart(p(j), p(k), bs)), lambda j, k: z3.MultiPattern(p.fn(j), p.fn(k)))), ]
    for nm, q in (('the block in use', env.Q),) + tuple(also):
        out += [('no free block overlaps ' + nm, forall(1, lambda k: Implies(And(0 <= k, k < n), apart(p(k), q, bs)), lambda k: p.fn(k))),
                (nm + ' lies below the end', And(0 <= Z(q), Z(q) + bs <= e))]
    return out


def inv(S, env, also=()):
    return [('the block size stays', Eq(S.get(env.t, env.pre + 'm_blockSize'), env.bs))] + listed(S, env, end(S, env), also)


def failed(S):
    return bool(S.st.ghost.get('os_failed'))


def exc_os(S, old, r, args, env):
    return [('only the operating system or the memory limit can fail', failed(S))]


def handle(S, p, s, nm='handle'):
    h = S.obj(nm, 'param', Struct([(0, Cell(8, 'i')), (8, Cell(8, 'i'))], 16), 16)
    S.ex.store(S.st, h, VInt(p, 64), ('i', 64))
    S.ex.store(S.st, VPtr(h.obj, 8), VInt(s, 64), ('i', 64))
    return h


def hval(S, h):
    return [S.ex.as_u(S.st, S.ex.load(S.st, VPtr(h.obj, o), ('i', 64))) for o in (0, 8)]


def s_alloc(cls):
    def s(S, env):
        t = base(S, env, cls)
        env.out = handle(S, 0, 0, 'out')
        return [t, env.out]
    return s


def post_alloc(S, old, r, args, env):
    p, s = hval(S, env.out)
    return [('the block has the block size', Eq(s, env.bs)), ('it does not overlap the block in use', apart(p, env.Q, env.bs))] + \
        inv(S, env, (('the new block', p),)) + [('the collection does not shrink', end(S, env) >= env.E),
                                                ('it only grows when nothing is free', Implies(env.n > 0, Eq(end(S, env), env.E)))] + same_file(S, old, env)


def s_free(cls):
    def s(S, env):
        t = base(S, env, cls)
        env.H = S.int('H', 64, 0, LIM)
        # the freed block is in use as well, and is not Q
        S.assume(apart(env.H, env.Q, env.bs), Z(env.H) + env.bs <= env.E)
        p = fp(S, env)
        S.assume(forall(1, lambda k: Implies(And(0 <= k, k < env.n), apart(p(k), env.H, env.bs)), lambda k: p.fn(k)))
        return [t, handle(S, env.H, env.bs)]
    return s


def post_free(S, old, r, args, env):
    return inv(S, env) + [('the block is free afterwards', And(Eq(count(S), Z(env.n) + 1), Eq(fp(S, env)(env.n), env.H))),
                          ('the other free blocks are kept', Implies(And(0 <= I, I < env.n), Eq(fp(S, env)(I), fp(old, env)(I)))), ('the end stays', Eq(end(S, env), env.E))] + same_file(S, old, env)


def s_size(S, env):
    return [base(S, env, FC)]


def post_size(S, old, r, args, env):
    return [('the end of the collection', Eq(S.ex.as_u(S.st, r), env.E))] + inv(S, env)


# closing and opening: one step of history; the stack keeps (E, max) on top of the free blocks
INF = 2 ** 64 - 1


def s_close(S, env):
    return [base(S, env, FC)]


def post_close(S, old, r, args, env):
    top = env.n
    return [('the stack is closed', Not(S.st.ghost['stack_open'])), ('one element more', Eq(count(S), Z(env.n) + 1)), ('the end is on top', Eq(fp(S, env)(top), env.E)),
            ('marked as infinitely large', Eq(fs(S, env)(top), INF)),
            ('the free blocks are below it, unchanged', Implies(And(0 <= I, I < env.n), And(Eq(fp(S, env)(I), fp(old, env)(I)), Eq(fs(S, env)(I), fs(old, env)(I)))))]


def closed_state(S, env):
    """a stack left by the destructor (or a new, empty one)"""
    env.E0 = S.int('end0', 64, 0, LIM)
    n = env.n
    if env.case[0]:
        S.assume(Eq(n, 0))
        return
    S.assume(n >= 1)
    S.st.ghost['n'] = norm(Z(n) - 1)
    S.assume(And([f for _, f in listed(S, env, env.E0)]))
    S.st.ghost['n'] = n
    S.assume(Eq(fp(S, env)(Z(n) - 1), env.E0), Eq(fs(S, env)(Z(n) - 1), INF))


def s_open(S, env):
    t = base(S, env, FC, opened=False)
    closed_state(S, env)
    return [t, S.obj('path', 'param', None, None), VInt(env.bs, 64)]


def post_open(S, old, r, args, env):
    if env.case[0]:
        return [('a new collection is empty', And(Eq(end(S, env), 0), Eq(count(S), 0))), ('block size', Eq(S.get(env.t, env.pre + 'm_blockSize'), env.bs)), ('the stack is open', S.st.ghost['stack_open'])] + same_file(S, old, env)
    return inv(S, env) + [('the end is the one at closing', Eq(end(S, env), env.E0)), ('the free blocks are those at closing', And(Eq(count(S), Z(env.n) - 1), Implies(And(0 <= I, I < Z(env.n) - 1), Eq(fp(S, env)(I), fp(old, env)(I))))),
                          ('the stack is open', S.st.ghost['stack_open'])] + same_file(S, old, env)


# ---------------------------------------------------------------- block_collection
def F(S, env):
    return S.arr(env.file, 0, 1)


def same_file(S, old, env):
    """the bytes of the block in use are untouched and still in the file"""
    if not env.pre or not hasattr(env, 'file'):
        return []
    q = env.Q
    return [('the contents of the block in use are untouched', Implies(And(q <= B, B < Z(q) + env.bs), Eq(F(S, env)(B), F(old, env)(B)))),
            ('and not cut off', Or(Not(S.st.ghost['exists']), S.st.ghost['fsize'] >= Z(q) + env.bs, S.st.ghost['fsize'] >= old.st.ghost['fsize']))]


def s_bopen(S, env):
    t = base(S, env, BC, opened=False)
    closed_state(S, env)
    return [t, S.obj('path', 'param', None, None), VInt(env.bs, 64), VBool(bool(env.case[1]))]


def post_bopen(S, old, r, args, env):
    return post_open(S, old, r, args, env) + [('the file is open', S.st.ghost['fopen']), ('nothing is cut off', Or(Eq(S.st.ghost['fsize'], env.fsize), Not(S.st.ghost['exists']))), ('every byte is kept', Implies(0 <= B, Eq(F(S, env)(B), F(old, env)(B))))]


def s_read(S, env):
    t = base(S, env, BC)
    env.H = S.int('H', 64, 0, LIM)
    env.hs = S.int('size', 64, 0, 2 ** 32)
    b = S.obj('block', cls='_ZTSN4tpie5arrayIcNS_9allocatorIcEEEE')
    env.b = b
    bs0 = S.int('bytes0', 64, 1, 2 ** 32)
    S.set(b, 'm_size', bs0)
    S.set(b, 'm_elements', S.obj('old_bytes', 'heap', Arr(1, bs0, Cell(1, 'i')), bs0))
    return [t, handle(S, env.H, env.hs), b]


def post_read(S, old, r, args, env):
    d = S.ptr(env.b, 'm_elements')
    k = S.arr(d, 0, 1)
    return [('the block has the size of the handle', Eq(S.get(env.b, 'm_size'), env.hs)), ('and exactly the bytes of the file there', Implies(And(0 <= I, I < env.hs), Eq(k(I), F(S, env)(Z(env.H) + I)))),
            ('the file is unchanged', And(Implies(0 <= B, Eq(F(S, env)(B), F(old, env)(B))), Eq(S.st.ghost['fsize'], env.fsize)))] + inv(S, env)


def s_write(S, env):
    t = base(S, env, BC)
    env.H = S.int('H', 64, 0, LIM)
    env.sz = S.int('bytes', 64, 1, 2 ** 32)
    S.assume(env.sz <= env.bs, apart(env.H, env.Q, env.bs))
    b = S.obj('block', cls='_ZTSN4tpie5arrayIcNS_9allocatorIcEEEE')
    env.b = b
    S.set(b, 'm_size', env.sz)
    env.d = S.obj('bytes', 'heap', Arr(1, env.sz, Cell(1, 'i')), env.sz)
    S.set(b, 'm_elements', env.d)
    return [t, handle(S, env.H, env.bs), b]


def post_write(S, old, r, args, env):
    k = S.arr(env.d, 0, 1)
    return [('the bytes of the block are in the file at its place', Implies(And(0 <= I, I < env.sz), Eq(F(S, env)(Z(env.H) + I), k(I)))),
            ('nothing else in the file changes', Implies(And(0 <= B, Or(B < env.H, B >= Z(env.H) + env.sz)), Eq(F(S, env)(B), F(old, env)(B)))),
            ('the file reaches the end of the block', S.st.ghost['fsize'] >= Z(env.H) + env.sz), ('the block is unchanged', Implies(And(0 <= I, I < env.sz), Eq(k(I), old.arr(env.d, 0, 1)(I)))),
            ('no shorter', S.st.ghost['fsize'] >= env.fsize)] + same_file(S, old, env) + inv(S, env)


OS_OK = {}
ST = [(True, True), (False, True)]
FNS = [
    FnSpec('freespace_collection::alloc', r'\bvp_fs_alloc\(', s_alloc(FC), post_alloc, hooks=HK),
    FnSpec('freespace_collection::free', r'\bvp_fs_free\(', s_free(FC), post_free, hooks=HK),
    FnSpec('freespace_collection::size', r'\bvp_fs_size\(', s_size, post_size, hooks=HK),
    FnSpec('freespace_collection::~freespace_collection', r'\bvp_fs_dtor\(', s_close, post_close, hooks=HK),
    FnSpec('freespace_collection::freespace_collection', r'\bvp_fs_ctor\(', s_open, post_open, hooks=HK, cases=[(True,), (False,)]),
    FnSpec('block_collection::block_collection', r'block_collection::block_collection\(', s_bopen, post_bopen, hooks=HK, exc=exc_os, cases=[(a, b) for a in (True, False) for b in (True, False)]),
    FnSpec('block_collection::get_free_block', r'\bvp_bc_alloc\(', s_alloc(BC), post_alloc, hooks=HK),
    FnSpec('block_collection::free_block', r'\bvp_bc_free\(', s_free(BC), post_free, hooks=HK, exc=exc_os),
    FnSpec('block_collection::read_block', r'\bvp_bc_read\(', s_read, post_read, hooks=HK, exc=exc_os),
    FnSpec('block_collection::write_block', r'\bvp_bc_write\(', s_write, post_write, hooks=HK, exc=exc_os),
]
BOUNDED = [('freespace_collection and block_collection on real files against a model of the blocks in use and their contents, reopened read-only and writeable',
            'block sizes 1 to 5000, up to 400 operations per history, seeded')]
ASSUME = ['the external stack keeps its elements, also when closed and reopened (C15)', 'the file accessor transfers exactly the bytes asked for (C14)', 'a block is freed once, and only after having been allocated (precondition)',
          'positions stay below 2^50']
