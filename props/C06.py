"""Merge heaps: a minimal element on top, every element together with its run."""
from lib import *
from heap import *

ID = 'C06'
TU = 'merge'
HARNESS = 'merge'
SCENARIOS = ['pqmerge', 'mergeheap']
KEEP = [r'internal_priority_queue<', r'merge_heap_(ptr_)?op<.*>::comp::operator', r'file_stream<elem>::', r'compressed_stream_base::', r'indicator_base::step', r'pq_merge_heap<.*>::fixDown']
LEMMAS = [L_SUM, L_HEAP]
CLS = '_ZTSN4tpie13pq_merge_heapI4elem3CmpEE'
P = r'^tpie::pq_merge_heap<elem, Cmp>::'
RUN = z3.Function('run_of', I, I)


# ---- pq_merge_heap: two arrays kept in step
def view(S, e):
    return S.get(e.t, 'm_size'), S.arr(S.ptr(e.t, 'heap')), S.arr(S.ptr(e.t, 'runs'))


def paired(a, r, n):
    return forall(1, lambda k: Implies(And(0 <= k, k < n), Eq(r(k), RUN(Z(a(k))))), lambda k: [r.fn(k)])


def mk(lo=0, room=False, skip=None):
    def f(S, env):
        t = env.t = S.obj('this', cls=CLS)
        env.cap = S.int('capacity', 64, 0, 2 ** 56)
        env.s = S.int('size', 64, lo, 2 ** 56)
        S.assume(env.s < env.cap if room else env.s <= env.cap)
        env.h, env.r = S.heap('heap', Cell(8, 'i'), env.cap, Eq(env.cap, 0)), S.heap('runs', Cell(8, 'i'), env.cap, Eq(env.cap, 0))
        S.set(t, 'm_size', env.s)
        S.set(t, 'maxsize', env.cap)
        S.set(t, 'heap', env.h)
        S.set(t, 'runs', env.r)
        _, a, r = view(S, env)
        S.assume(heap(a, env.s, skip=skip), paired(a, r, env.s))
        S.ex.spec_env = env
        return t
    return f


def arg(S, env):
    x = S.obj('x', 'param', Struct([(0, Cell(8, 'i'))], 8), 8)
    env.v = S.get(x, 0)
    env.run = S.int('run', 64)
    S.assume(Eq(env.run, RUN(Z(env.v))))
    return [x, VInt(env.run, 64)]


def same(S, old, env):
    return And(Eq(S.get(env.t, 'maxsize'), env.cap), S.ptr(env.t, 'heap').obj is env.h.obj, S.ptr(env.t, 'runs').obj is env.r.obj)


def after(ds, ms, nm):
    """size grows by ds, the multiset of elements becomes ms(a0)"""
    def post(S, old, r, args, env):
        s, a, rr = view(S, env)
        s0, a0, r0 = view(old, env)
        return [('size', Eq(s, s0 + ds)), ('same storage', same(S, old, env)), (nm, Eq(a.sum(0, s), ms(a0, s0, env))), ('every element is with its run', paired(a, rr, s)), ('the heap is ordered', heap(a, s))]
    return post


def h_fix(ex, st, ins, args, dn):
    """fixDown (proved below)"""
    S, e = Ctx(ex, st), ex.spec_env
    s, a, r = view(S, e)
    ex.oblige(st, 'fixDown: there is an element', 'pre', Z(s) >= 1)
    ex.oblige(st, 'fixDown: a heap except at its top', 'pre', heap(a, s, skip=0))
    ex.oblige(st, 'fixDown: every element is with its run', 'pre', paired(a, r, s))
    b, q = S.havoc_arr(S.ptr(e.t, 'heap')), S.havoc_arr(S.ptr(e.t, 'runs'))
    S.assume(heap(b, s), paired(b, q, s), Eq(b.sum(0, s), a.sum(0, s)))


def li_down(L):
    e, S = L.e, L.S
    s, a, r = view(S, e)
    a0 = view(Ctx(S.ex, S.ex.entry), e)[1]
    i, done = L.i, L.d
    done = done if isinstance(done, (bool, z3.BoolRef)) else Ne(done, 0)
    up = lambda q, c: Implies(And(q >= 0, c < s, child(q, i), child(i, c)), KEY(Z(a(q))) <= KEY(Z(a(c))))
    return [('position in range', And(0 <= i, i < s)), ('its children', And(Eq(L.a, 2 * i + 1), Eq(L.b, 2 * i + 2))),
            ('a heap except below the sifted element', heap(a, s, skip=i)), ('grandchildren fit under their grandparent', forall(2, up, lambda q, c: z3.MultiPattern(a.fn(q), a.fn(c)))),
            ('when done, a heap', Implies(done, heap(a, s))), ('same elements', Eq(a.sum(0, s), a0.sum(0, s))), ('every element is with its run', paired(a, r, s))]


DOWN = [LoopSpec(r'fixDown', li_down, roles={'i': r'.*parent.*', 'a': r'.*child1.*', 'b': r'.*child2.*', 'd': r'.*done.*'}), LoopSpec(r'fixDown', unroll=2)]


def li_up(L):
    e, S = L.e, L.S
    s, a, r = view(S, e)
    a0 = view(Ctx(S.ex, S.ex.entry), e)[1]
    c, p = L.c, L.q
    ok = lambda x, y: Implies(And(0 <= x, y < s, child(x, y), y != c), KEY(Z(a(x))) <= KEY(Z(a(y))))
    up = lambda q, g: Implies(And(q >= 0, g < s, child(q, c), child(c, g)), KEY(Z(a(q))) <= KEY(Z(a(g))))
    mp = lambda x, y: z3.MultiPattern(a.fn(x), a.fn(y))
    return [('position in range', And(0 <= c, c < s)), ('its parent', If(Eq(c, 0), Eq(p, 0), child(p, c))), ('parent in range', And(0 <= p, p <= c)), ('one element more', Eq(s, e.s + 1)), ('same storage', same(S, None, e)),
            ('a heap except above the sifted element', forall(2, ok, mp)), ('its children fit under its parent', forall(2, up, mp)),
            ('same elements and the new one', Eq(a.sum(0, s), a0.sum(0, e.s) + W(Z(e.v)))), ('every element is with its run', paired(a, r, s))]


UP = [LoopSpec(r'push', li_up, roles={'c': r'.*child.*', 'q': r'.*parent.*'})]


def is_(name, f):
    return lambda S, old, r, args, env: [(name, f(S, r, env))]


def post_top(S, old, r, args, env):
    s, a, rr = view(old, env)
    S.assume(heap_top(a, s))
    x = z3.Int('x')
    return [('top() refers to the first element', And(r.obj is env.h.obj, Eq(r.off, 0))), ('no element is smaller than top()', Implies(And(0 <= x, x < s), KEY(Z(a(0))) <= KEY(Z(a(x)))))]


def s_new(S, env):
    env.t = S.obj('this', cls=CLS)
    env.cap = S.int('capacity', 64, 0, 2 ** 56)
    return [env.t, VInt(env.cap, 64)]


def post_new(S, old, r, args, env):
    h, q = S.ptr(env.t, 'heap'), S.ptr(env.t, 'runs')
    return [('no element', Eq(S.get(env.t, 'm_size'), 0)), ('the capacity asked for', Eq(S.get(env.t, 'maxsize'), env.cap)), ('room for that many elements and runs', And([Or(Eq(env.cap, 0), And(p.obj is not None, le(Z(env.cap) * 8, p.obj.size) if p.obj is not None else True)) for p in (h, q)])), ('two different arrays', Or(Eq(env.cap, 0), h.obj is not q.obj))]


# ---- merge_heap_op / merge_heap_ptr_op over the internal priority queue (C05), as a ghost record of what is asked of it
MC = {'m': '_ZTSN4tpie3ami13merge_heap_opI4elem3CmpEE', 'mp': '_ZTSN4tpie3ami17merge_heap_ptr_opI4elem3CmpEE'}


def mm(kind):
    def f(S, env):
        env.kind = kind
        S.ex.spec_env = env
        env.t = S.obj('heap', cls=MC[kind])
        env.top = S.obj('top', 'param', Struct([(0, Cell(8, 'i' if kind == 'm' else 'p')), (8, Cell(8, 'i'))], 16), 16)
        env.trun = S.int('top run', 64)
        env.tval = S.int('top value', 64)
        env.n = S.int('size', 64, 1)
        S.ex.store(S.st, VPtr(env.top.obj, 8), VInt(env.trun, 64), ('i', 64))
        if kind == 'm':
            S.ex.store(S.st, env.top, VInt(env.tval, 64), ('i', 64))
        S.st.ghost.update(did='', val=0, run=0)
        env.cap = S.int('capacity', 64, 0, 2 ** 56)
        return env.t
    return f


def did(ex, st, what, val=0, run=0):
    ex.oblige(st, 'one change at most', 'pre', st.ghost['did'] == '')
    gset(ex, st, 'did', what)
    gset(ex, st, 'val', val)
    gset(ex, st, 'run', run)


def taken(ex, st, p):
    e = ex.spec_env
    v = ex.load(st, p, ('i', 64) if e.kind == 'm' else ('ptr',))
    return (ex.as_u(st, v) if e.kind == 'm' else v), ex.as_u(st, ex.load(st, VPtr(p.obj, norm(Z(p.off) + 8)), ('i', 64)))


def h_push(ex, st, ins, args, dn):
    did(ex, st, 'push', *taken(ex, st, args[1]))


def h_pp(ex, st, ins, args, dn):
    did(ex, st, 'replace', *taken(ex, st, args[1]))


def h_pop(ex, st, ins, args, dn):
    did(ex, st, 'pop')


def h_safe(ex, st, ins, args, dn):
    did(ex, st, 'order')


def h_resize(ex, st, ins, args, dn):
    did(ex, st, 'resize', ex.as_u(st, args[1]))


def h_top(ex, st, ins, args, dn):
    ex.oblige(st, 'top() before the element is removed', 'pre', st.ghost['did'] == '')
    return ex.spec_env.top


def h_size(ex, st, ins, args, dn):
    return VInt(ex.spec_env.n, 64)


Q = r'internal_priority_queue<.*>::'
MH = LESS + [(Q + r'(unsafe_push)\(', h_push), (Q + r'pop_and_push\(', h_pp), (Q + r'pop\(', h_pop), (Q + r'make_safe\(', h_safe), (Q + r'resize\(', h_resize), (Q + r'top\(', h_top), (Q + r'size\(', h_size)]


def eqv(a, b):
    if isinstance(a, VPtr) or isinstance(b, VPtr):
        return And(isinstance(a, VPtr) and isinstance(b, VPtr) and a.obj is b.obj, Eq(a.off, b.off)) if isinstance(a, VPtr) and isinstance(b, VPtr) else False
    return Eq(a, b)


def done(what, val=None, run=None):
    def post(S, old, r, args, env):
        g = S.st.ghost
        out = [('exactly the change asked for', g['did'] == what)]
        if val is not None:
            out.append(('the element given', eqv(g['val'], val(env))))
        if run is not None:
            out.append(('its run', Eq(g['run'], run(env))))
        return out
    return post


def s_ins(kind, nul=False):
    def f(S, env):
        t = mm(kind)(S, env)
        env.p = S.obj('next', 'param', Struct([(0, Cell(8, 'i'))], 8), 8)
        env.pv = S.get(env.p, 0)
        env.run = S.int('run', 64)
        return [t, env.p, VInt(env.run, 64)]
    return f


def s_dmi(kind):
    return lambda S, env: s_ins(kind)(S, env)[:2] if env.case else [mm(kind)(S, env), VPtr(None, 0)]


def post_dmi(kind):
    val = (lambda e: e.pv) if kind == 'm' else (lambda e: e.p)
    return lambda S, old, r, args, env: (done('replace', val, lambda e: e.trun) if env.case else done('pop'))(S, old, r, args, env)


def s_extract(S, env):
    t = mm('m')(S, env)
    env.e, env.r = S.obj('el', 'param', Struct([(0, Cell(8, 'i'))], 8), 8), S.obj('run', 'param', Struct([(0, Cell(8, 'i'))], 8), 8)
    return [t, env.e, env.r]


def post_extract(S, old, r, args, env):
    return done('pop')(S, old, r, args, env) + [('the top element is handed out', Eq(S.get(env.e, 0), env.tval)), ('with its run', Eq(S.get(env.r, 0), env.trun))]


def s_comp(kind):
    def f(S, env):
        out = [S.obj('cmp', 'param', Struct([(0, Cell(1, 'i'))], 1), 1)]
        env.vs = []
        for n in 'ab':
            x = S.obj(n, 'param', Struct([(0, Cell(8, 'i' if kind == 'm' else 'p')), (8, Cell(8, 'i'))], 16), 16)
            if kind == 'm':
                env.vs.append(S.get(x, 0))
            else:
                y = S.obj(n + ' record', 'param', Struct([(0, Cell(8, 'i'))], 8), 8)
                env.vs.append(S.get(y, 0))
                S.ex.store(S.st, x, y, ('ptr',))
            out.append(x)
        return out
    return f


FNS = [
    FnSpec('pq_merge_heap', P + r'pq_merge_heap\(unsigned long\)', s_new, post_new, hooks=MM),
    FnSpec('push', P + r'push\(', lambda S, e: [mk(0, True)(S, e)] + arg(S, e), after(1, lambda a, s, e: a.sum(0, s) + W(Z(e.v)), 'exactly the element is added'), hooks=LESS, loops=UP),
    FnSpec('pop', P + r'pop\(', lambda S, e: [mk(1)(S, e)], after(-1, lambda a, s, e: a.sum(0, s) - W(Z(a(0))), 'exactly the top element is removed'), hooks=LESS + [(r'fixDown', h_fix)]),
    FnSpec('pop_and_push', P + r'pop_and_push\(', lambda S, e: [mk(1)(S, e)] + arg(S, e), after(0, lambda a, s, e: a.sum(0, s) - W(Z(a(0))) + W(Z(e.v)), 'exactly the top element is replaced'), hooks=LESS + [(r'fixDown', h_fix)]),
    FnSpec('fixDown', P + r'fixDown\(', lambda S, e: [mk(1, skip=0)(S, e)], after(0, lambda a, s, e: a.sum(0, s), 'the same elements'), hooks=LESS, loops=DOWN),
    FnSpec('top', P + r'top\(\)', lambda S, e: [mk(1)(S, e)], post_top, hooks=LESS),
    FnSpec('top_run', P + r'top_run\(\)', lambda S, e: [mk(1)(S, e)], is_('the run of the top element', lambda S, r, e: Eq(S.ex.as_u(S.st, r), RUN(Z(view(S, e)[1](0))))), hooks=LESS),
    FnSpec('size', P + r'size\(\)', lambda S, e: [mk()(S, e)], is_('the number of elements', lambda S, r, e: Eq(S.ex.as_u(S.st, r), e.s)), hooks=LESS),
    FnSpec('empty', P + r'empty\(\)', lambda S, e: [mk()(S, e)], is_('true iff there is no element', lambda S, r, e: Iff(r.e, Eq(e.s, 0))), hooks=LESS),
]
for k, nm in (('m', 'merge_heap_op::'), ('mp', 'merge_heap_ptr_op::')):
    F = r'\bvp_%s_' % k
    FNS += [
        FnSpec(nm + 'sizeofheap', F + r'size\(', lambda S, e, k=k: [mm(k)(S, e)], lambda S, o, r, a, e: done('')(S, o, r, a, e) + [('the number of elements', Eq(S.ex.as_u(S.st, r), e.n))], hooks=MH),
        FnSpec(nm + 'get_min_run_id', F + r'run\(', lambda S, e, k=k: [mm(k)(S, e)], lambda S, o, r, a, e: done('')(S, o, r, a, e) + [('the run of the top element', Eq(S.ex.as_u(S.st, r), e.trun))], hooks=MH),
        FnSpec(nm + 'allocate', F + r'alloc\(', lambda S, e, k=k: [mm(k)(S, e), VInt(e.cap, 64)], done('resize', lambda e: e.cap), hooks=MH),
        FnSpec(nm + 'deallocate', F + r'dealloc\(', lambda S, e, k=k: [mm(k)(S, e)], done('resize', lambda e: 0), hooks=MH),
        FnSpec(nm + 'initialize', F + r'init\(', lambda S, e, k=k: [mm(k)(S, e)], done('order'), hooks=MH),
        FnSpec(nm + 'insert', F + r'insert\(', s_ins(k), done('push', (lambda e: e.pv) if k == 'm' else (lambda e: e.p), lambda e: e.run), hooks=MH),
        FnSpec(nm + 'delete_min_and_insert', F + r'dmi\(', s_dmi(k), post_dmi(k), hooks=MH, cases=(True, False)),
        FnSpec(nm + 'comp', r'merge_heap_%s<.*::comp::operator' % ('op' if k == 'm' else 'ptr_op'), s_comp(k), is_('compares the records', lambda S, r, e: Iff(r.e, LT(*e.vs))), hooks=MH),
    ]
FNS.append(FnSpec('merge_heap_op::extract_min', r'\bvp_m_extract\(', s_extract, post_extract, hooks=MH))
BOUNDED = [('histories of all three heaps as a whole', 'random histories for a fixed number of seconds')]
ASSUME = ['elements of pq_merge_heap with different runs have different values (the code never looks at a value except through the comparator, so this loses nothing)', 'merge_heap_op and merge_heap_ptr_op rely on internal_priority_queue as proved in C05 for an element type of 8 bytes']
