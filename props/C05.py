"""internal_priority_queue always yields a minimal element and loses or duplicates nothing."""
import re
from lib import *
from heap import *

ID = 'C05'
TU = 'containers'
HARNESS = 'containers'
SCENARIOS = ['ipq']
KEEP = STDKEEP
LEMMAS = [L_SUM, L_HEAP]
CLS = '_ZTSN4tpie23internal_priority_queueI4elem3CmpEE'
P = r'^tpie::internal_priority_queue<elem, Cmp>::'


def view(S, t):
    a = ArrayView(S, t, 'pq')
    return S.get(t, 'sz'), a.size, a.arr()


def mk(S, env, nonempty=False, room=False, ordered=True):
    t = this_obj(S, None, CLS)
    n, buf = mk_array(S, t, 'pq', lo=1 if nonempty or room else 0)
    s = S.int('size')
    S.set(t, 'sz', s)
    S.assume(s <= n)
    if nonempty:
        S.assume(s >= 1)
    if room:
        S.assume(s < n)
    if ordered:
        S.assume(heap(view(S, t)[2], s))
    env.t, env.s, env.n = t, s, n
    return t


def ms(a, s):
    """the multiset of queued elements, as a sum of arbitrary weights"""
    return a.sum(0, s)


def arg(S, env):
    x = S.obj('arg', 'param', Struct([(0, Cell(8, 'i'))], 8), 8)
    env.v = S.get(x, 0)
    return x


def post_push(S, old, r, args, env, ordered=True):
    s, n, a = view(S, env.t)
    s0, n0, a0 = view(old, env.t)
    out = [('one more element, same capacity', And(Eq(s, s0 + 1), Eq(n, n0))),
           ('exactly the new element is added', Eq(ms(a, s), ms(a0, s0) + W(Z(env.v))))]
    return out + ([('the queue is a heap', heap(a, s))] if ordered else [])


def post_pop(S, old, r, args, env):
    s, n, a = view(S, env.t)
    s0, n0, a0 = view(old, env.t)
    return [('one element less, same capacity', And(Eq(s, s0 - 1), Eq(n, n0))),
            ('exactly the top element is removed', Eq(ms(a, s), ms(a0, s0) - W(Z(a0(0))))),
            ('the queue is a heap', heap(a, s))]


def post_pp(S, old, r, args, env):
    s, n, a = view(S, env.t)
    s0, n0, a0 = view(old, env.t)
    return [('same number of elements', And(Eq(s, s0), Eq(n, n0))),
            ('exactly the top element is replaced by the argument', Eq(ms(a, s), ms(a0, s0) - W(Z(a0(0))) + W(Z(env.v)))),
            ('the queue is a heap', heap(a, s))]


def li_pp(L):
    e = L.e
    s, n, a = view(L.S, e.t)
    _, _, a0 = view(L.S0, e.t)
    i = L.i
    def up(q, c):
        return Implies(And(q >= 0, c < s, child(q, i), child(i, c)), KEY(Z(a(q))) <= KEY(Z(a(c))))
    return [('position in range', And(0 <= i, i < s)),
            ('a heap except below the sifted element', heap(a, s, skip=i)),
            ('grandchildren fit under their grandparent', forall(2, up, lambda q, c: z3.MultiPattern(a.fn(q), a.fn(c)))),
            ('same elements', Eq(a.sum(0, s), a0.sum(0, s)))]


PP = LoopSpec(r'tpie::pop_and_push_heap<', inv=li_pp, roles={'i': r'i|.*\bi.*'}, variant=lambda L: view(L.S, L.e.t)[0] - L.i, name='sift down')


def post_top(S, old, r, args, env):
    s, n, a = view(old, env.t)
    S.assume(heap_top(a, s))
    d = ArrayView(S, env.t, 'pq').data
    x = z3.Int('x')
    return [('top() refers to the first element', And(r.obj is d.obj, Eq(r.off, 0))),
            ('no queued element is smaller than top()', Implies(And(0 <= x, x < s), KEY(Z(a(0))) <= KEY(Z(a(x)))))]


def s_insert(S, env):
    t = mk(S, env)
    k = S.int('count', 64, 0, 2 ** 56)
    src = S.heap('src', Cell(8, 'i'), k, False, kind='param')
    S.assume(env.s + k <= env.n, env.n >= 1)
    p = S.obj('startp', 'param', Struct([(0, Cell(8, 'p'))], 8), 8)
    q = S.obj('endp', 'param', Struct([(0, Cell(8, 'p'))], 8), 8)
    S.set(p, 0, src)
    S.set(q, 0, VPtr(src.obj, k * 8))
    env.k, env.src = k, src
    return [t, p, q]


def post_insert(S, old, r, args, env):
    s, n, a = view(S, env.t)
    s0, n0, a0 = view(old, env.t)
    sa = old.arr(env.src)
    return [('all elements of the range are counted', And(Eq(s, s0 + env.k), Eq(n, n0))),
            ('exactly the elements of the range are added', Eq(ms(a, s), ms(a0, s0) + sa.sum(0, env.k))),
            ('the queue is a heap', heap(a, s))]


def post_safe(S, old, r, args, env):
    s, n, a = view(S, env.t)
    s0, n0, a0 = view(old, env.t)
    return [('same number of elements', And(Eq(s, s0), Eq(n, n0))), ('same elements', Eq(ms(a, s), ms(a0, s0))), ('the queue is a heap', heap(a, s))]


def post_size(S, old, r, args, env):
    return [('size() is the number of elements', Eq(S.ex.as_u(S.st, r), env.s))]


def post_empty(S, old, r, args, env):
    return [('empty() iff size() is 0', Iff(r.e, Eq(env.s, 0)))]


def post_clear(S, old, r, args, env):
    s, n, a = view(S, env.t)
    return [('clear() leaves no element', Eq(s, 0)), ('capacity is kept', Eq(n, env.n))]


def s_resize(S, env):
    t = mk(S, env)
    env.c = S.int('newcap', 64, 0, 2 ** 56)
    return [t, VInt(env.c, 64)]


def s_ctor(S, env):
    t = this_obj(S, None, CLS)
    env.t = t
    env.c = S.int('newcap', 64, 0, 2 ** 56)
    return [t, VInt(env.c, 64), VPtr(None, 0)]


def post_resize(S, old, r, args, env):
    s, n, a = view(S, env.t)
    d = ArrayView(S, env.t, 'pq').data
    fs = [('no element', Eq(s, 0)), ('the capacity is as requested', Eq(n, env.c))]
    if d.obj is not None:
        fs.append(('the buffer holds the capacity', And(le(env.c * 8, d.obj.size), Eq(d.off, 0), d.obj.id not in S.st.dead)))
    else:
        fs.append(('a null buffer only for capacity 0', Eq(env.c, 0)))
    return fs


def none(S, a, e):
    return []


def fr(S, a, e):
    return [(S.f(e.t, 'sz'), 8), (VPtr(ArrayView(S, e.t, 'pq').data.obj, 0), 8)]


H = LESS + STDHEAP
FNS = [
    FnSpec('push(const T&)', P + r'push\(elem const&\)', lambda S, e: [mk(S, e, room=True), arg(S, e)], post_push, hooks=H, frame=fr),
    FnSpec('push(T&&)', P + r'push\(elem&&\)', lambda S, e: [mk(S, e, room=True), arg(S, e)], post_push, hooks=H),
    FnSpec('pop', P + r'pop\(\)', lambda S, e: [mk(S, e, nonempty=True)], post_pop, hooks=H, frame=fr),
    FnSpec('pop_and_push(const T&)', P + r'pop_and_push\(elem const&\)', lambda S, e: [mk(S, e, nonempty=True), arg(S, e)], post_pp, hooks=H, loops=[PP], frame=fr),
    FnSpec('pop_and_push(T&&)', P + r'pop_and_push\(elem&&\)', lambda S, e: [mk(S, e, nonempty=True), arg(S, e)], post_pp, hooks=H, loops=[PP]),
    FnSpec('top() const', P + r'top\(\) const', lambda S, e: [mk(S, e, nonempty=True)], post_top, hooks=H, frame=none),
    FnSpec('top()', P + r'top\(\)$', lambda S, e: [mk(S, e, nonempty=True)], post_top, hooks=H, frame=none),
    FnSpec('insert', r'tpie::internal_priority_queue<elem, Cmp>::insert<elem const\*>', s_insert, post_insert, hooks=H),
    FnSpec('unsafe_push(const T&)', P + r'unsafe_push\(elem const&\)', lambda S, e: [mk(S, e, room=True, ordered=False), arg(S, e)],
           lambda *a: post_push(*a, ordered=False), hooks=H, frame=fr),
    FnSpec('unsafe_push(T&&)', P + r'unsafe_push\(elem&&\)', lambda S, e: [mk(S, e, room=True, ordered=False), arg(S, e)],
           lambda *a: post_push(*a, ordered=False), hooks=H),
    FnSpec('make_safe', P + r'make_safe\(\)', lambda S, e: [mk(S, e, ordered=False)], post_safe, hooks=H),
    FnSpec('size', P + r'size\(\) const', lambda S, e: [mk(S, e)], post_size, frame=none),
    FnSpec('empty', P + r'empty\(\) const', lambda S, e: [mk(S, e)], post_empty, frame=none),
    FnSpec('clear', P + r'clear\(\)', lambda S, e: [mk(S, e)], post_clear, frame=lambda S, a, e: [(S.f(e.t, 'sz'), 8)]),
    FnSpec('resize', P + r'resize\(unsigned long\)', s_resize, post_resize, hooks=MM),
    FnSpec('internal_priority_queue', P + r'internal_priority_queue\(unsigned long, Cmp, tpie::memory_bucket_ref\)', s_ctor, post_resize, hooks=MM),
]
