"""merge_sorted_runs: every item of every run exactly once, in sorted order.

Run k is a function ITEM(k, 0..len(k)-1), sorted; the merge heap is an external one with the contract of C06."""
from lib import *
from lib import _fresh

ID = 'C27'
TU = 'merge'
HARNESS = 'merge'
SCENARIOS = ['runs', 'merger']
KEEP = [r'internal_priority_queue<', r'file_stream<elem>::', r'compressed_stream_base::', r'indicator_base::step']
IDX = z3.Function('stream_number', I, I)
ITEM = z3.Function('item', I, I, I)
LEN = z3.Function('length', I, I)
BIG = 2 ** 40
EOS = '_ZTIN4tpie23end_of_stream_exceptionE'
GA = ('pos', 'out', 'inheap', 'inval', 'cur')   # per run: items read, items output, is an item in the heap, which, the item last read


def ga(S, e, n):
    return S.arr(e.g[n])


def gl(ex, st, e, n, k):
    return ex.as_u(st, ex.load(st, VPtr(e.g[n].obj, norm(Z(k) * 8)), ('i', 64)))


def gs(ex, st, e, n, k, v):
    ex.store(st, VPtr(e.g[n].obj, norm(Z(k) * 8)), VInt(norm(v), 64), ('i', 64))


def lim(e, k):
    """how many items of run k are to be merged"""
    return If(Eq(e.cut, -1), LEN(k), If(Eq(LEN(k), 0), 0, If(e.cut < 1, 1, If(LEN(k) < e.cut, LEN(k), e.cut))))


def setup(S, env):
    ex = S.ex
    ex.spec_env = env
    n = env.n = S.int('arity', 64, 0, BIG)
    env.cut = S.int('cutoff', 64, -1, 2 ** 62)
    arr = env.streams = S.heap('streams', Cell(8, 'p'), n, kind='param')
    A = ex.leaf(S.st, arr.obj, 0, 8)
    S.assume(forall(1, lambda k: Implies(And(0 <= k, k < n), And(A.fn(k) > 0, Eq(IDX(A.fn(k)), k))), lambda k: [A.fn(k)]),
             forall(1, lambda k: And(0 <= LEN(k), LEN(k) < BIG), lambda k: [LEN(k)]),
             forall(2, lambda k, j: And(0 <= ITEM(k, j), ITEM(k, j) < 2 ** 64), lambda k, j: [ITEM(k, j)]),
             forall(2, lambda k, j: Implies(And(0 <= j, j + 1 < LEN(k)), KEY(ITEM(k, j)) <= KEY(ITEM(k, j + 1))), lambda k, j: [ITEM(k, j + 1)]))
    env.g = {}
    for nm in GA:
        o = Obj(nm, 'global', Arr(8, 2 ** 59, Cell(8, 'i')), 2 ** 62)
        o.gname = nm
        S.st.objs[o.id] = o
        env.g[nm] = VPtr(o, 0)
    for nm in ('pos', 'out', 'inheap'):
        a = ga(S, env, nm)
        S.assume(forall(1, lambda k: Eq(a.fn(k), 0), lambda k: [a.fn(k)]))
    env.o = S.obj('out stream', 'param', Struct([(i, Cell(8, 'i')) for i in range(0, 72, 8)], 72), 72)
    env.h = S.obj('merge heap', 'param', Struct([(0, Cell(1, 'i'))], 1), 1)
    env.p = S.obj('progress', 'param', Struct([(i, Cell(8, 'i')) for i in range(0, 48, 8)], 48), 48) if env.case else VPtr(None, 0)
    S.st.ghost.update(written=0, last=S.int('last', 64), top=-1, built=False)
    end = VPtr(arr.obj, norm(Z(n) * 8))
    return [arr, end, env.o, env.h, VInt(env.cut, 64), env.p]


# ---- the input and output streams
def which(ex, st, p):
    e = ex.spec_env
    if not isinstance(p, VOpq):
        raise Unsupported('which stream is read')
    k = norm(IDX(Z(p.e)))
    A = ex.leaf(st, e.streams.obj, 0, 8)
    ex.oblige(st, 'one of the input streams', 'pre', And(0 <= k, k < e.n, Eq(A(k), p.e)))
    return k


def h_canread(ex, st, ins, args, dn):
    k = which(ex, st, args[0])
    return VBool(Z(gl(ex, st, ex.spec_env, 'pos', k)) < LEN(k))


def h_read(ex, st, ins, args, dn):
    e = ex.spec_env
    k = which(ex, st, args[0])
    j = gl(ex, st, e, 'pos', k)
    ex.oblige(st, 'never reads past the end of a run', 'pre', Z(j) < LEN(k))
    gs(ex, st, e, 'cur', k, ITEM(k, Z(j)))
    gs(ex, st, e, 'pos', k, Z(j) + 1)
    return VPtr(e.g['cur'].obj, norm(Z(k) * 8))


def h_write(ex, st, ins, args, dn):
    """what is written is the next item of the run at the top of the heap, and not before anything written so far"""
    e = ex.spec_env
    ex.oblige(st, 'written to the output', 'pre', args[0].obj is e.o.obj)
    v = ex.as_u(st, ex.load(st, args[1], ('i', 64)))
    k = st.ghost['top']
    ex.oblige(st, 'the minimum is known', 'pre', Z(k) >= 0)
    c = gl(ex, st, e, 'out', k)
    ex.oblige(st, 'the next item of its run is written', 'pre', And(Z(c) < LEN(Z(k)), Eq(v, ITEM(Z(k), Z(c)))))
    ex.oblige(st, 'the output stays sorted', 'pre', Implies(Z(st.ghost['written']) > 0, KEY(Z(st.ghost['last'])) <= KEY(Z(v))))
    gs(ex, st, e, 'out', k, Z(c) + 1)
    gset(ex, st, 'last', v)
    gset(ex, st, 'written', norm(Z(st.ghost['written']) + 1))


# ---- the merge heap (C06)
def h_insert(ex, st, ins, args, dn):
    e = ex.spec_env
    k = ex.as_u(st, args[2])
    ex.oblige(st, 'inserted before the heap is built', 'pre', Not(st.ghost['built']))
    ex.oblige(st, 'at most one item per run, and not more than allocated for', 'pre', And(0 <= Z(k), Z(k) < e.n, Eq(gl(ex, st, e, 'inheap', k), 0)))
    gs(ex, st, e, 'inheap', k, 1)
    gs(ex, st, e, 'inval', k, ex.as_u(st, ex.load(st, args[1], ('i', 64))))


def h_init(ex, st, ins, args, dn):
    gset(ex, st, 'built', True)


def h_size(ex, st, ins, args, dn):
    e = ex.spec_env
    S = Ctx(ex, st)
    a = ga(S, e, 'inheap')
    s, x = S.fresh('heap size'), z3.Int('some run!%d' % next(_fresh))
    S.assume(Implies(s > 0, And(0 <= x, x < e.n, Ne(a(x), 0))), Implies(Eq(s, 0), forall(1, lambda k: Implies(And(0 <= k, k < e.n), Eq(a(k), 0)), lambda k: [a.fn(k)])))
    return VInt(s, 64)


def mintop(ex, st):
    """some run with a minimal item"""
    e = ex.spec_env
    S = Ctx(ex, st)
    a, v = ga(S, e, 'inheap'), ga(S, e, 'inval')
    ex.oblige(st, 'the heap is built', 'pre', st.ghost['built'])
    ex.oblige(st, 'the heap is not empty', 'pre', exists(1, lambda k: And(0 <= k, k < e.n, Ne(a(k), 0))))
    t = z3.Int('top run!%d' % next(_fresh))
    S.assume(0 <= t, t < e.n, Ne(a(t), 0), forall(1, lambda k: Implies(And(0 <= k, k < e.n, Ne(a(k), 0)), KEY(Z(v(t))) <= KEY(Z(v(k)))), lambda k: [a.fn(k)]))
    gset(ex, st, 'top', t)
    return t


def unknown(ex, st, t):
    return t == -1 if is_c(t) else ex.light.prove(st.pc, Eq(t, -1))


def h_top(ex, st, ins, args, dn):
    t = st.ghost['top']
    return VInt(mintop(ex, st) if unknown(ex, st, t) else t, 64)


def h_dmi(ex, st, ins, args, dn):
    e = ex.spec_env
    t = st.ghost['top']
    if unknown(ex, st, t):
        t = mintop(ex, st)
    p = ex.concretize(st, args[1])
    if isinstance(p, VPtr) and p.obj is None:
        gs(ex, st, e, 'inheap', t, 0)
    else:
        gs(ex, st, e, 'inval', t, ex.as_u(st, ex.load(st, p, ('i', 64))))
    gset(ex, st, 'top', -1)


def resolve_ptr(ex, st, v):
    """a pointer kept in in_objects: the item last read of that run"""
    o = ex.spec_env.g['cur'].obj
    e = v.e
    if o.base is not None and z3.is_app(e) and e.num_args() == 1 and e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
        k = e.arg(0)
        ex.oblige(st, 'the pointer refers to the item last read of that run', 'safety', Eq(e, o.base + 8 * k))
        return VPtr(o, norm(8 * k))
    return None


HOOKS = [(r'compressed_stream_base::can_read\(', h_canread), (r'file_stream<elem>::read\(\)', h_read), (r'file_stream<elem>::write\(elem const&\)', h_write),
         (r'^hp::insert\(', h_insert), (r'^hp::initialize\(', h_init), (r'^hp::sizeofheap\(', h_size), (r'^hp::get_min_run_id\(', h_top), (r'^hp::delete_min_and_insert\(', h_dmi),
         (r'indicator_base::step\(', h_nop)] + MM


def work(L):
    """the two work arrays, in the order they are declared: the current item of every run, the number of items read"""
    hs = sorted((o for o in L.S.st.objs.values() if o.kind == 'heap' and o.id not in L.S.st.dead), key=lambda o: o.id)
    if len(hs) < 2:
        return None, None
    return [L.S.ex.leaf(L.S.st, o, 0, 8) for o in hs[:2]]


def post(S, old, r, args, env):
    k = z3.Int('k')
    o = ga(S, env, 'out')
    return [('every item of every run is written exactly once', Implies(And(0 <= k, k < env.n), Eq(o(k), lim(env, k))))]


def state(L, started):
    """started: condition on k under which run k has been opened"""
    e, S = L.e, L.S
    P, O, H, V, C = (ga(S, e, n) for n in GA)
    objs, nread = work(L)
    last, w = Z(S.st.ghost['last']), Z(S.st.ghost['written'])
    base = e.g['cur'].obj.addr()
    out = [('runs not opened yet are untouched', forall(1, lambda k: Implies(And(0 <= k, k < e.n, Not(started(k))), And(Eq(P(k), 0), Eq(O(k), 0), Eq(H(k), 0))), lambda k: [H.fn(k)])),
           ('a run in the heap has exactly one item read and not written, which is in the heap', forall(1, lambda k: Implies(And(0 <= k, k < e.n, Ne(H(k), 0)), And(Eq(P(k), O(k) + 1), P(k) <= LEN(k), Eq(V(k), ITEM(k, O(k))), Eq(C(k), ITEM(k, O(k))))), lambda k: [H.fn(k)])),
           ('no more items than allowed', forall(1, lambda k: Implies(And(0 <= k, k < e.n, Ne(H(k), 0)), And(O(k) >= 0, O(k) < lim(e, k))), lambda k: [H.fn(k)])),
           ('a run no longer in the heap is finished', forall(1, lambda k: Implies(And(0 <= k, k < e.n, started(k), Eq(H(k), 0)), Eq(O(k), lim(e, k))), lambda k: [H.fn(k)])),
           ('nothing smaller than what was written is left', forall(1, lambda k: Implies(And(0 <= k, k < e.n, Ne(H(k), 0), w > 0), KEY(last) <= KEY(Z(V(k)))), lambda k: [H.fn(k)])),
           ('the top is not remembered', Eq(S.st.ghost['top'], -1))]
    if objs is not None:
        out += [('the current items are remembered', forall(1, lambda k: Implies(And(0 <= k, k < e.n, Ne(H(k), 0)), Eq(objs(k), base + 8 * k)), lambda k: [H.fn(k)])),
                ('the items read are counted', forall(1, lambda k: Implies(And(0 <= k, k < e.n, Ne(H(k), 0)), Eq(nread(k), P(k))), lambda k: [H.fn(k)]))]
    return out


def li_first(L):
    i = L.i
    return [('position in range', And(0 <= i, i <= L.e.n)), ('nothing is written yet', Eq(L.S.st.ghost['written'], 0))] + state(L, lambda k: k < i)


def li_merge(L):
    return [('the number written', Z(L.S.st.ghost['written']) >= 0)] + state(L, lambda k: True)


FNS = [FnSpec('merge_sorted_runs', r'\bvp_merge\(', setup, post, hooks=HOOKS, cases=(False, True), opts={'resolve_ptr': resolve_ptr, 'mm_throws': False},
              loops=[LoopSpec(r'merge_sorted_runs', li_first, roles={'i': r'i.*'}, nth=0), LoopSpec(r'merge_sorted_runs', li_merge, nth=1)])]

BOUNDED = [('the merger class used by the sorter, and whole merges through real files', 'random runs for a fixed number of seconds')]
ASSUME = ['the merge heap is used through the contract proved in C06, the streams through the sequence contract of C11/C25 (can_read, read, write)',
          'every run is sorted when the merge begins; the cutoff is -1 (none) or at least 1']
