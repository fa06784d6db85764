"""External priority queue: a minimum first, the multiset of elements conserved, size() exact.

The elements are split over the insertion buffer (contract of pq_overflow_heap), the deletion buffer, group buffer 0
and the rest (all that is on disk); multisets are compared as sums of an arbitrary weight, the order by an arbitrary rank."""
import re
from lib import *
from heap import *
import C05

ID = 'C24'
TU = 'pq'
HARNESS = 'pq'
SCENARIOS = ['pq', 'equals', 'overflow']
STANDIN_SECS = 40
LEMMAS = [L_SUM, L_HEAP, L_UMOD]
KEEP = [r'^(.* )?std::(sort|__adjust|__intro|operator|ostream|basic|char_traits|__cxx11)', r'std::(push|pop|make)_heap<',
        r'priority_queue<.*>::(fill_buffer|free_slot|write_slot|fill_group_buffer|empty_group|remove_group_buffer|dump|validate)\(',
        r'file_stream', r'stream_crtp|file_stream_base', r'pq_merge_heap', r'log', r'OQ::']
CLS = '_ZTSN4tpie14priority_queueI4elem3Cmp2OQEE'
OHC = '_ZTSN4tpie16pq_overflow_heapI4elem3CmpEE'
PQ = r'tpie::priority_queue<elem, Cmp, OQ>::'
NEG, POS = -2 ** 70, 2 ** 70
BUF, GB, MB = 'buffer', 'gbuffer0', 'mergebuffer'


def av(S, e, p):
    return ArrayView(S, e.t, p)


def gh(S, k):
    return S.st.ghost[k]


def bz(S, e):
    return S.get(e.t, 'buffer_size'), S.get(e.t, 'buffer_start')


def grp(S, e):
    """start and size of group buffer 0"""
    a = av(S, e, 'group_state').arr()
    return a(0), a(1)


def cyc(x, gs, gn, m):
    return Or(And(gs <= x, x < gs + gn, x < m), And(0 <= x, x < gs + gn - m))


def cycsum(a, gs, n, m):
    """sum over the first n elements of a cyclic buffer of size m starting at gs"""
    return a.sum(gs, If(gs + n < m, gs + n, m)) + a.sum(0, If(gs + n < m, 0, gs + n - m))


def total(S, e):
    n, s = bz(S, e)
    r = gh(S, 'ow')
    if e.case == 'internal':
        return r
    r = r + gh(S, 'rw') + av(S, e, BUF).arr().sum(s, s + n)
    if gh(S, 'gin'):
        gs, gn = grp(S, e)
        r = r + cycsum(av(S, e, GB).arr(), gs, gn, e.m)
    return r


def count(S, e):
    r = gh(S, 'on') + bz(S, e)[0]
    if e.case == 'internal':
        return r
    return r + gh(S, 'rn') + grp(S, e)[1]


def inv_gb(S, e):
    gs, gn = grp(S, e)
    g = av(S, e, GB).arr()
    n, s = bz(S, e)
    b = av(S, e, BUF).arr()
    return [('group buffer 0 within bounds', And(0 <= gs, gs < e.m, 0 <= gn, gn <= e.m)),
            ('no element of group buffer 0 is smaller than the deletion buffer', Implies(n > 0, forall(1, lambda x: Implies(cyc(x, gs, gn, e.m), KEY(Z(b(s + n - 1))) <= KEY(Z(g(x)))), lambda x: g.fn(x)))),
            ('no element of group buffer 0 is larger than the slots of its group', forall(1, lambda x: Implies(cyc(x, gs, gn, e.m), KEY(Z(g(x))) <= gh(S, 'gmax')), lambda x: g.fn(x))),
            ('slots of group 0 after its buffer', Implies(gn > 0, gh(S, 'gmax') <= gh(S, 'sl')))]


def inv(S, e):
    """the representation invariant"""
    n, s = bz(S, e)
    r = [('size() counts every element', Eq(S.get(e.t, 'm_size'), count(S, e))), ('an empty deletion buffer starts at 0', Implies(Eq(n, 0), Eq(s, 0)))]
    if e.case == 'internal':
        return r + [('the deletion buffer is not used', Eq(n, 0))]
    b = av(S, e, BUF).arr()
    return r + [('deletion buffer within bounds', And(0 <= n, 0 <= s, s + n <= av(S, e, BUF).size)),
                ('the deletion buffer is sorted', forall(2, lambda x, y: Implies(And(s <= x, x <= y, y < s + n), KEY(Z(b(x))) <= KEY(Z(b(y)))), lambda x, y: z3.MultiPattern(b.fn(x), b.fn(y)))),
                ('nothing on disk is smaller than the deletion buffer', Implies(And(n > 0, gh(S, 'rn') > 0), KEY(Z(b(s + n - 1))) <= gh(S, 'rl')))] + inv_gb(S, e)


def mk(S, env, nonempty=False):
    ex = S.ex
    ex.spec_env = env
    t = env.t = S.obj('this', 'param', cls=CLS)
    env.q = S.obj('opq', 'heap', Struct([(0, Cell(8, 'i'))], 8), 8)
    from props_util import set_uptr
    set_uptr(S, t, 'opq', env.q)
    st = S.st
    env.oc = S.int('opq_capacity', 64, 0, 2 ** 56)
    if env.case == 'internal':
        st.ghost.update(rw=0, rn=0, rl=0, gin=False)
        S.set(t, 'buffer_size', 0)
        S.set(t, 'buffer_start', 0)
    else:
        m = env.m = S.int('setting_m', 64, 4, 2 ** 50)
        S.set(t, 'setting_m', m)
        S.assume(Eq(env.oc, m))
        env.mm = S.int('mmark', 64, 2, 2 ** 50)
        S.assume(env.mm < m)
        S.set(t, 'setting_mmark', env.mm)
        env.k = S.int('setting_k', 64, 3, 250)
        S.set(t, 'setting_k', env.k)
        for p, n in ((BUF, env.mm), (GB, m), (MB, 2 * m), ('group_state', 2 * env.k), ('slot_state', None)):
            c, _ = mk_array(S, t, p, p, lo=1)
            if n is not None:
                S.assume(Eq(c, n))
        st.ghost.update(rw=S.int('rest_weight', 64), rn=S.int('rest_count', 64, 0, 2 ** 58), rl=S.int('rest_lowest_rank', 64), gin=True,
                        gmax=S.int('gb0_max', 64), sl=S.int('group0_slots_lowest', 64))
        for f in ('buffer_size', 'buffer_start'):
            S.set(t, f, S.int(f, 64, 0, 2 ** 51))
    on = S.int('opq_n', 64, 0, 2 ** 56)
    env.top = S.obj('opq top', 'global', Struct([(0, Cell(8, 'i'))], 8), 8)
    env.top.obj.gname = 'opq top'
    S.st.objs[env.top.obj.id] = env.top.obj
    st.ghost.update(on=on, ow=S.int('opq_weight', 64))
    S.assume(on <= env.oc)
    S.set(t, 'm_size', S.int('m_size', 64, 0, 2 ** 60))
    S.assume(*[f for _, f in inv(S, env)])
    if nonempty:
        S.assume(S.get(t, 'm_size') > 0)
    return t


def ot(S, e):
    return S.get(e.top, 0)


# ---- contract of the insertion buffer (proved of pq_overflow_heap below)
def newtop(ex, st, e, *facts):
    S = Ctx(ex, st)
    o = ot(S, e)
    ex.havoc_leaf(st, e.top.obj, 0, 8)
    S = Ctx(ex, st)
    S.assume(*[f(o, ot(S, e)) for f in facts])


def h_opush(ex, st, ins, args, dn):
    e = ex.spec_env
    S = Ctx(ex, st)
    x = Z(ex.as_u(st, ex.load(st, args[1], ('i', 64))))
    on = Z(gh(S, 'on'))
    ex.oblige(st, 'push into an insertion buffer that is not full', 'pre', on < e.oc)
    newtop(ex, st, e, lambda o, n: Or(And(Eq(n, x), Or(Eq(on, 0), KEY(x) <= KEY(Z(o)))), And(Eq(n, o), on > 0, KEY(Z(o)) <= KEY(x))))
    gset(ex, st, 'ow', gh(S, 'ow') + W(x))
    gset(ex, st, 'on', on + 1)


def h_opop(ex, st, ins, args, dn):
    e = ex.spec_env
    S = Ctx(ex, st)
    on = gh(S, 'on')
    ex.oblige(st, 'pop from an insertion buffer that is not empty', 'pre', on > 0)
    gset(ex, st, 'ow', gh(S, 'ow') - W(Z(ot(S, e))))
    gset(ex, st, 'on', on - 1)
    newtop(ex, st, e, lambda o, n: KEY(Z(o)) <= KEY(Z(n)))


def h_otop(ex, st, ins, args, dn):
    ex.oblige(st, 'top of an insertion buffer that is not empty', 'pre', st.ghost['on'] > 0)
    return ex.spec_env.top


def h_osize(ex, st, ins, args, dn):
    return VInt(st.ghost['on'], 64)


def h_oempty(ex, st, ins, args, dn):
    return VBool(Eq(st.ghost['on'], 0))


def h_ofull(ex, st, ins, args, dn):
    return VBool(Eq(st.ghost['on'], ex.spec_env.oc))


def h_ossize(ex, st, ins, args, dn):
    return VInt(ex.spec_env.oc, 64)


def h_osorted(ex, st, ins, args, dn):
    e = ex.spec_env
    S = Ctx(ex, st)
    n = gh(S, 'on')
    p = S.heap('sorted array', Cell(8, 'i'), e.oc, Z(e.oc) == 0)
    st = S.st
    a = S.arr(p)
    S.assume(Eq(a.sum(0, n), gh(S, 'ow')), forall(1, lambda x: Implies(And(0 <= x, x + 1 < n), KEY(Z(a(x))) <= KEY(Z(a(x + 1)))), lambda x: a.fn(x + 1)),
             forall(1, lambda x: Implies(And(0 <= x, x < n), And(KEY(Z(a(0))) <= KEY(Z(a(x))), KEY(Z(a(x))) <= KEY(Z(a(n - 1))))), lambda x: a.fn(x)))
    e.sorted = p
    return p


def h_ospop(ex, st, ins, args, dn):
    gset(ex, st, 'on', 0)
    gset(ex, st, 'ow', 0)


# ---- contracts of what moves elements to and from disk (bounded driver only)
def h_fill(ex, st, ins, args, dn):
    """fill_buffer: the smallest elements of the rest, sorted, move into the deletion buffer; at least one if there is any"""
    e = ex.spec_env
    S = Ctx(ex, st)
    n, s = bz(S, e)
    gs, gn = grp(S, e)
    ex.oblige(st, 'refill only an empty deletion buffer that starts at 0', 'pre', And(Eq(n, 0), Eq(s, 0)))
    t0 = total(S, e)
    c0 = count(S, e)
    on = gh(S, 'on')
    for p in (BUF, GB, 'group_state', MB):
        ex.havoc_leaf(st, av(S, e, p).data.obj, 0, 8)
    S = Ctx(ex, st)
    n2 = S.int('filled', 64, 0, 2 ** 51)
    S.set(e.t, 'buffer_size', n2)
    for k in ('rw', 'rl', 'gmax', 'sl'):
        gset(ex, st, k, S.int(k, 64))
    gset(ex, st, 'rn', S.int('rn', 64, 0, 2 ** 58))
    S.assume(*[f for l, f in inv(S, e) if not l.startswith('size()')])
    S.assume(Eq(total(S, e), t0), Eq(count(S, e), c0), Iff(n2 > 0, c0 > on))


def h_free_slot(ex, st, ins, args, dn):
    """free_slot(0): an empty slot of group 0; the elements of the group buffers and slots may move, the deletion buffer does not"""
    e = ex.spec_env
    S = Ctx(ex, st)
    ex.oblige(st, 'a slot of group 0', 'pre', Eq(ex.as_u(st, args[1]), 0))
    t0, c0 = total(S, e), count(S, e)
    for p in (GB, 'group_state', MB, 'slot_state'):
        ex.havoc_leaf(st, av(S, e, p).data.obj, 0, 8)
    S = Ctx(ex, st)
    for k in ('rw', 'rl', 'gmax', 'sl'):
        gset(ex, st, k, S.int(k, 64))
    gset(ex, st, 'rn', S.int('rn', 64, 0, 2 ** 58))
    S.assume(*[f for l, f in inv(S, e) if not l.startswith('size()')])
    S.assume(Eq(total(S, e), t0), Eq(count(S, e), c0))
    slot = e.slot = S.int('slot', 64, 0, 2 ** 16)
    return VInt(slot, 64)


def h_write_slot(ex, st, ins, args, dn):
    """write_slot: the given elements become the contents of a free slot of group 0"""
    e = ex.spec_env
    S = Ctx(ex, st)
    p = ex.concretize(st, args[2])
    n = ex.as_u(st, args[3])
    a = S.arr(p)
    gs, gn = grp(S, e)
    g = av(S, e, GB).arr()
    bn, bs = bz(S, e)
    b = av(S, e, BUF).arr()
    ex.oblige(st, 'the free slot is written', 'pre', Eq(ex.as_u(st, args[1]), e.slot))
    ex.oblige(st, 'all elements of the insertion buffer are written', 'pre', Eq(n, gh(S, 'on')))
    ex.oblige(st, 'the elements written are sorted', 'pre', forall(1, lambda x: Implies(And(0 <= x, x + 1 < n), KEY(Z(a(x))) <= KEY(Z(a(x + 1)))), lambda x: a.fn(x + 1)))
    ex.oblige(st, 'they are not smaller than the deletion buffer', 'pre', Implies(bn > 0, KEY(Z(b(bs + bn - 1))) <= KEY(Z(a(0)))))
    x = z3.Int('x')
    ex.oblige(st, 'they are not smaller than group buffer 0', 'pre', Implies(cyc(x, gs, gn, e.m), KEY(Z(g(x))) <= KEY(Z(a(0)))))
    lo = lambda u: If(Z(u) < KEY(Z(a(0))), u, KEY(Z(a(0))))
    gset(ex, st, 'rl', If(gh(S, 'rn') > 0, lo(gh(S, 'rl')), KEY(Z(a(0)))))
    gset(ex, st, 'rw', gh(S, 'rw') + a.sum(0, n))
    gset(ex, st, 'rn', gh(S, 'rn') + n)
    gset(ex, st, 'sl', lo(gh(S, 'sl')))
    # the largest element of group buffer 0 (a bound of it that the slots respect)
    gm = S.int('gmax', 64)
    gset(ex, st, 'gmax', gm)
    S.assume(forall(1, lambda x: Implies(cyc(x, gs, gn, e.m), KEY(Z(g(x))) <= gm), lambda x: g.fn(x)), gm <= KEY(Z(a(0))))


def h_sort(ex, st, ins, args, dn):
    """std::sort: the same elements in order; no element leaves the range of the ranks it was in"""
    e = ex.spec_env
    if not re.search(r', __gnu_cxx::__ops::_Iter_comp_iter<Cmp>|, Cmp>\(', dn):
        raise Unsupported('comparator of ' + dn)
    f = ex.concretize(st, args[0])
    f, o, lo, hi = rng(ex, st, args)
    S = Ctx(ex, st)
    bounds = e.bounds(S, lo) if e.bounds else []
    a0 = S.arr(f)
    ex.havoc_leaf(st, f.obj, 0, 8)
    S = Ctx(ex, st)
    a1 = S.arr(f)
    S.assume(forall(1, lambda x: Implies(Or(x < lo, x >= hi), Eq(a1.read(x), a0.read(x))), lambda x: a1.fn(x)), Eq(a1.sum(lo, hi), a0.sum(lo, hi)),
             forall(2, lambda x, y: Implies(And(lo <= x, x <= y, y < hi), KEY(Z(a1(x))) <= KEY(Z(a1(y)))), lambda x, y: z3.MultiPattern(a1.fn(x), a1.fn(y))))
    for kind, p, c, B in bounds:
        if kind == 'low':
            S.assume(Implies(forall(1, lambda x: Implies(And(lo <= x, x < hi), B <= KEY(Z(a0(x)))), lambda x: a0.fn(x)),
                             forall(1, lambda x: Implies(And(lo <= x, x < hi), B <= KEY(Z(a1(x)))), lambda x: a1.fn(x))))
        else:
            S.assume(Implies(And(0 <= p, p + c <= hi, c > 0, forall(1, lambda x: Implies(And(p <= x, x < p + c), KEY(Z(a0(x))) <= B), lambda x: a0.fn(x))), KEY(Z(a1(lo + c - 1))) <= B))


def rng(ex, st, args):
    f, l = ex.concretize(st, args[0]), ex.concretize(st, args[1])
    if f.obj is not l.obj:
        raise Unsupported('sort over two objects')
    lo, hi = norm_div(f.off, 8), norm_div(l.off, 8)
    ex.oblige(st, 'sorted range is ordered', 'pre', le(lo, hi))
    return f, f.obj, lo, hi


OQ = [(r'OQ::push\(', h_opush), (r'OQ::pop\(', h_opop), (r'OQ::top\(', h_otop), (r'OQ::size\(', h_osize), (r'OQ::empty\(', h_oempty), (r'OQ::full\(', h_ofull),
      (r'OQ::sorted_array\(', h_osorted), (r'OQ::sorted_size\(', h_ossize), (r'OQ::sorted_pop\(', h_ospop),
      (r'::fill_buffer\(', h_fill), (r'::free_slot\(', h_free_slot), (r'::write_slot\(', h_write_slot), (r'std::sort<', h_sort), (r'::validate\(', h_nop), (r'basic_string<|strlen|allocator<char>|priority_queue_error|tpie::exception', h_nop)]
H = LESS + OQ


def s_push(S, env):
    t = mk(S, env)
    x = S.obj('arg', 'param', Struct([(0, Cell(8, 'i'))], 8), 8)
    env.v = Z(S.get(x, 0))
    if env.case == 'internal':
        S.assume(gh(S, 'on') < env.oc)
    env.bounds = None
    if env.case == 'external':
        n, s = bz(S, env)
        last = KEY(Z(av(S, env, BUF).arr()(s + n - 1)))
        m = env.m

        def bounds(S2, lo):
            n2, s2 = bz(S2, env)
            gs, gn = grp(S2, env)
            cur = KEY(Z(av(S2, env, BUF).arr()(s2 + n2 - 1)))
            return [('high', m, n, last), ('high', 0, gn, gh(S2, 'gmax')), ('low', 0, 0, cur)]
        env.bounds = bounds
    return [t, x]


def post_push(S, old, r, args, e):
    return [('exactly the new element is added', Eq(total(S, e), total(old, e) + W(e.v))),
            ('size() grows by one', Eq(S.get(e.t, 'm_size'), old.get(e.t, 'm_size') + 1))] + inv(S, e)


def li_cyc(L):
    e = L.e
    S = L.S
    gs, gn = grp(S, e)
    g = av(S, e, GB).arr()
    b = av(S, e, MB).arr()
    n, s = bz(S, e)
    cur = KEY(Z(av(S, e, BUF).arr()(s + n - 1)))
    return [('position', And(Eq(L.i, gs + L.j), 0 <= L.j, L.j <= gn)),
            ('the elements copied', Eq(b.sum(0, L.j), cycsum(g, gs, L.j, e.m))),
            ('their ranks', forall(1, lambda x: Implies(And(0 <= x, x < L.j), And(KEY(Z(b(x))) <= gh(S, 'gmax'), Implies(n > 0, cur <= KEY(Z(b(x)))))), lambda x: b.fn(x)))]


CYC = LoopSpec(r'priority_queue<.*push\(', inv=li_cyc, roles={'i': r'^i\b|.*\bi\.', 'j': r'^j\b|.*\bj\.'}, variant=lambda L: grp(L.S, L.e)[1] - L.j, name='fetch group buffer 0', fixed_ptrs=True)


def s_pop(S, env):
    return [mk(S, env, nonempty=True)]


def lowest(S, e, v):
    """no element of the queue is smaller than v"""
    n, s = bz(S, e)
    x = z3.Int('x')
    f = Implies(gh(S, 'on') > 0, KEY(v) <= KEY(Z(ot(S, e))))
    if e.case == 'internal':
        return f
    b, g = av(S, e, BUF).arr(), av(S, e, GB).arr()
    gs, gn = grp(S, e)
    return And(f, Implies(And(s <= x, x < s + n), KEY(v) <= KEY(Z(b(x)))), Implies(cyc(x, gs, gn, e.m), KEY(v) <= KEY(Z(g(x)))), Implies(gh(S, 'rn') > 0, KEY(v) <= gh(S, 'rl')))


def post_top(S, old, r, args, e):
    v = Z(S.ex.as_u(S.st, S.ex.load(S.st, r, ('i', 64))))
    n, s = bz(S, e)
    mib = Not(Eq(S.get(e.t, 'min_in_buffer', 8), 0))
    b = None if e.case == 'internal' else av(S, e, BUF).arr()
    return [('no element of the queue is smaller than top()', lowest(S, e, v)),
            ('top() is an element of the queue', Or(And(gh(S, 'on') > 0, Eq(v, ot(S, e)), Not(mib)), False if b is None else And(n > 0, mib, Eq(v, b(s))))),
            ('no element is lost or added', And(Eq(total(S, e), total(old, e)), Eq(S.get(e.t, 'm_size'), old.get(e.t, 'm_size'))))] + inv(S, e)


def post_pop(S, old, r, args, e):
    v = Z(S.get(e.t, 'min'))
    return [('exactly one element is removed', Eq(total(S, e), total(old, e) - W(v))),
            ('size() shrinks by one', Eq(S.get(e.t, 'm_size'), old.get(e.t, 'm_size') - 1)),
            ('no remaining element is smaller than the one removed', lowest(S, e, v))] + inv(S, e)


def exc_empty(S, old, t, args, e):
    return [('only of an empty queue', Eq(old.get(e.t, 'm_size'), 0)), ('nothing changes', Eq(total(S, e), total(old, e)))]


def same(S, old, e):
    return [('nothing changes', And(Eq(total(S, e), total(old, e)), Eq(S.get(e.t, 'm_size'), old.get(e.t, 'm_size'))))]


# ---- the insertion buffer itself
def omk(S, env, nonempty=False, room=False, ordered=True):
    t = env.t = S.obj('this', 'param', cls=OHC)
    n, _ = mk_array(S, t, 'h.pq', lo=1 if nonempty or room else 0)
    s = env.s = S.int('size', 64)
    S.set(t, 'h.sz', s)
    S.set(t, 'maxsize', n)
    env.n = n
    S.assume(0 <= s, s <= n)
    if nonempty:
        S.assume(s >= 1)
    if room:
        S.assume(s < n)
    if ordered:
        S.assume(heap(oarr(S, env), s))
    return t


def oarr(S, e):
    return ArrayView(S, e.t, 'h.pq').arr()


def on(S, e):
    return S.get(e.t, 'h.sz')


def osame(S, old, e):
    return And(Eq(S.get(e.t, 'maxsize'), e.n), Eq(ArrayView(S, e.t, 'h.pq').size, e.n))


def s_opush(S, env):
    t = omk(S, env, room=True)
    x = S.obj('arg', 'param', Struct([(0, Cell(8, 'i'))], 8), 8)
    env.v = Z(S.get(x, 0))
    return [t, x]


def p_opush(S, old, r, a, e):
    return [('one more element', And(Eq(on(S, e), e.s + 1), osame(S, old, e))),
            ('exactly the new element is added', Eq(oarr(S, e).sum(0, e.s + 1), oarr(old, e).sum(0, e.s) + W(e.v))), ('a heap', heap(oarr(S, e), on(S, e)))]


def p_opop(S, old, r, a, e):
    return [('one element less', And(Eq(on(S, e), e.s - 1), osame(S, old, e))),
            ('exactly the top is removed', Eq(oarr(S, e).sum(0, e.s - 1), oarr(old, e).sum(0, e.s) - W(Z(oarr(old, e)(0))))), ('a heap', heap(oarr(S, e), on(S, e)))]


def p_otop(S, old, r, a, e):
    A = oarr(old, e)
    S.assume(heap_top(A, e.s))
    x = z3.Int('x')
    return [('the first element', And(r.obj is ArrayView(S, e.t, 'h.pq').data.obj, Eq(r.off, 0))), ('minimal', Implies(And(0 <= x, x < e.s), KEY(Z(A(0))) <= KEY(Z(A(x)))))]


def p_osorted(S, old, r, a, e):
    A = oarr(S, e)
    x = z3.Int('x')
    return [('the array', And(r.obj is ArrayView(S, e.t, 'h.pq').data.obj, Eq(r.off, 0))),
            ('sorted', Implies(And(0 <= x, x + 1 < e.s), KEY(Z(A(x))) <= KEY(Z(A(x + 1))))), ('the same elements', And(Eq(A.sum(0, e.s), oarr(old, e).sum(0, e.s)), Eq(on(S, e), e.s), osame(S, old, e)))]


def s_o(ordered=True, nonempty=False):
    def f(S, env):
        env.bounds = None
        S.ex.spec_env = env
        return [omk(S, env, ordered=ordered, nonempty=nonempty)]
    return f


def rv(f, what):
    return lambda S, old, r, a, e: [(what, f(S, r, e))]


u = lambda S, r: S.ex.as_u(S.st, r)
none = lambda S, a, e: []
HO = LESS + STDHEAP + [(r'std::sort<', h_sort)]
IE = ('external', 'internal')
FNS = [
    FnSpec('top', PQ + r'top\(\)', s_pop, post_top, hooks=H, cases=IE),
    FnSpec('pop', PQ + r'pop\(\)', s_pop, post_pop, hooks=H, cases=IE),
    FnSpec('push', PQ + r'push\(elem const&\)', s_push, post_push, hooks=H, cases=IE, loops=[CYC], opts={'wrap': True}),
    FnSpec('pop (empty queue)', PQ + r'pop\(\)', lambda S, e: [s_empty(S, e)], lambda *a: [('an empty queue is refused', False)], exc=exc_empty, hooks=H, cases=IE, opts={'no_return_ok': True}),
    FnSpec('top (empty queue)', PQ + r'top\(\)', lambda S, e: [s_empty(S, e)], lambda *a: [('an empty queue is refused', False)], exc=exc_empty, hooks=H, cases=IE, opts={'no_return_ok': True}),
    FnSpec('size', PQ + r'size\(\) const', lambda S, e: [mk(S, e)], lambda S, o, r, a, e: [('size() is the number of elements', Eq(u(S, r), count(o, e)))] + same(S, o, e), hooks=H, cases=IE, frame=none),
    FnSpec('empty', PQ + r'empty\(\) const', lambda S, e: [mk(S, e)], lambda S, o, r, a, e: [('empty() iff there is no element', Iff(r.e, Eq(count(o, e), 0)))] + same(S, o, e), hooks=H, cases=IE, frame=none),
    FnSpec('overflow heap push', r'\bvp_oh_push\(', s_opush, p_opush, hooks=HO),
    FnSpec('overflow heap pop', r'\bvp_oh_pop\(', s_o(nonempty=True), p_opop, hooks=HO),
    FnSpec('overflow heap top', r'\bvp_oh_top\(', s_o(nonempty=True), p_otop, hooks=HO),
    FnSpec('overflow heap size', r'\bvp_oh_size\(', s_o(), rv(lambda S, r, e: Eq(u(S, r), e.s), 'the number of elements'), hooks=HO, frame=none),
    FnSpec('overflow heap empty', r'\bvp_oh_empty\(', s_o(), rv(lambda S, r, e: Iff(r.e, Eq(e.s, 0)), 'iff there is no element'), hooks=HO, frame=none),
    FnSpec('overflow heap full', r'\bvp_oh_full\(', s_o(), rv(lambda S, r, e: Iff(r.e, Eq(e.s, e.n)), 'iff the capacity is used'), hooks=HO, frame=none),
    FnSpec('overflow heap sorted_array', r'\bvp_oh_sorted\(', s_o(), p_osorted, hooks=HO),
    FnSpec('overflow heap sorted_size', r'\bvp_oh_ssize\(', s_o(), rv(lambda S, r, e: Implies(Eq(e.s, e.n), Eq(u(S, r), e.s)), 'the number of elements of a full buffer'), hooks=HO, frame=none),
    FnSpec('overflow heap sorted_pop', r'\bvp_oh_spop\(', s_o(ordered=False), lambda S, o, r, a, e: [('empty afterwards', Eq(on(S, e), 0)), ('capacity kept', osame(S, o, e))], hooks=HO),
]


def s_empty(S, env):
    t = mk(S, env)
    S.assume(Eq(S.get(t, 'm_size'), 0))
    return t


BOUNDED = [('fill_buffer, fill_group_buffer, empty_group, remove_group_buffer, free_slot, write_slot, init, pop_equals and every combination of them: multiset and order of the queue against a reference',
            'generated histories of push/top/pop/pop_equals up to a few thousand elements, memory budgets that force several group levels, 30 s quick')]
ASSUME = ['std::sort, std::push_heap, std::pop_heap, std::copy by their standard contracts (sort: the same multiset in order, and no element leaves the bounds of the ranks it was in)',
          'free_slot, write_slot, fill_buffer by contract (elements conserved, deletion buffer <= group buffer 0 <= slots); their bodies are checked by the bounded driver only',
          'the comparator is a strict weak ordering (rank function)']
LEVEL = 'proof'
