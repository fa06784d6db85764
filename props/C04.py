"""internal_queue is a FIFO sequence for every interleaving of pushes and pops."""
from lib import *

ID = 'C04'
TU = 'containers'
LEMMAS = [L_UMOD]
HARNESS = 'containers'
SCENARIOS = ['queue']
CLS = '_ZTSN4tpie14internal_queueI4elemEE'
LLT = 'class.tpie::internal_queue'
P = r'^tpie::internal_queue<elem>::'


def umod(a, n):
    return z3.Function('umod', I, I, I)(Z(a), Z(n))


def mk(S, env, lo=0, nonempty=False, notfull=False):
    t = this_obj(S, LLT, CLS)
    n, buf = mk_array(S, t, 'm_elements', lo=lo)
    f = S.int('first', 64, 0, 2 ** 63)
    l = S.int('last', 64, 0, 2 ** 63)
    S.set(t, 'm_first', f)
    S.set(t, 'm_last', l)
    S.assume(f <= l, l - f <= n)
    if nonempty:
        S.assume(f < l)
    if notfull:
        S.assume(l - f < n)
    return t


def view(S, t):
    a = ArrayView(S, t, 'm_elements')
    first, last = S.get(t, 'm_first'), S.get(t, 'm_last')
    n = a.size
    return first, last, n, (lambda k: a.arr().read(umod(k, n)))


def inv(S, t):
    f, l, n, _ = view(S, t)
    return [('representation: 0 <= last-first <= capacity', And(f <= l, l - f <= n))]


def post_push(S, old, r, args, env):
    t = args[0]
    f, l, n, at = view(S, t)
    f0, l0, n0, at0 = view(old, t)
    k = z3.Int('k')
    return inv(S, t) + [
        ('push appends exactly one element', And(Eq(l - f, l0 - f0 + 1), Eq(n, n0))),
        ('push stores the new element at the back', Eq(at(l - 1), env.v)),
        ('push keeps every queued element in order', Implies(And(k >= 0, k < l0 - f0), Eq(at(f + k), at0(f0 + k)))),
    ]


def s_push(S, env):
    t = mk(S, env, lo=1, notfull=True)
    env.v = S.int('val')
    return [t, VInt(env.v, 64)]


def post_pop(S, old, r, args, env):
    t = args[0]
    f, l, n, at = view(S, t)
    f0, l0, n0, at0 = view(old, t)
    k = z3.Int('k')
    return inv(S, t) + [
        ('pop removes exactly one element', And(Eq(l - f, l0 - f0 - 1), Eq(n, n0))),
        ('pop keeps the remaining elements in order', Implies(And(k >= 0, k < l - f), Eq(at(f + k), at0(f0 + k + 1)))),
    ]


def ret_at(which):
    def post(S, old, r, args, env):
        t = args[0]
        f, l, n, at = view(old, t)
        k = f if which == 'front' else l - 1
        v = S.ex.peek(S.st, r, 64)
        return [('%s() refers to the %s element' % (which, 'oldest' if which == 'front' else 'newest'), Eq(v, at(k)))]
    return post


def post_size(S, old, r, args, env):
    f, l, n, at = view(old, args[0])
    return [('size() is the number of queued elements', Eq(S.ex.as_u(S.st, r), l - f))]


def post_empty(S, old, r, args, env):
    f, l, n, at = view(old, args[0])
    return [('empty() iff no element is queued', Iff(r.e, Eq(l - f, 0)))]


def post_full(S, old, r, args, env):
    f, l, n, at = view(old, args[0])
    return [('full() iff the capacity is used up', Iff(r.e, Eq(l - f, n)))]


def post_clear(S, old, r, args, env):
    f, l, n, at = view(S, args[0])
    f0, l0, n0, _ = view(old, args[0])
    return inv(S, args[0]) + [('clear() empties the queue', Eq(f, l)), ('clear() keeps the capacity', Eq(n, n0))]


def s_resize(S, env):
    t = mk(S, env)
    env.n = S.int('newsize', 64, 0, 2 ** 56)
    return [t, VInt(env.n, 64)]


def post_resize(S, old, r, args, env):
    t = args[0]
    a = ArrayView(S, t, 'm_elements')
    f, l = S.get(t, 'm_first'), S.get(t, 'm_last')
    d = a.data
    fs = [('resize empties the queue', Eq(f, l)), ('resize sets the capacity', Eq(a.size, env.n))]
    if d.obj is not None:
        fs.append(('the buffer holds the capacity', And(le(env.n * 8, d.obj.size), Eq(d.off, 0), d.obj.id not in S.st.dead)))
    else:
        fs.append(('a null buffer only for capacity 0', Eq(env.n, 0)))
    return fs


def s_ctor(S, env):
    t = this_obj(S, LLT, CLS)
    env.n = S.int('newsize', 64, 0, 2 ** 56)
    return [t, VInt(env.n, 64)]


def whole(S, args, env):
    return [args[0]]


def none(S, args, env):
    return []


def f_push(S, args, env):
    t = args[0]
    return [(S.f(t, 'm_last'), 8), (VPtr(ArrayView(S, t, 'm_elements').data.obj, 0), 8)]


FNS = [
    FnSpec('internal_queue::push', P + r'push\(elem\)', s_push, post_push, frame=f_push),
    FnSpec('internal_queue::pop', P + r'pop\(\)', lambda S, e: [mk(S, e, nonempty=True)], post_pop, frame=lambda S, a, e: [(S.f(a[0], 'm_first'), 8)]),
    FnSpec('internal_queue::front', P + r'front\(\) const', lambda S, e: [mk(S, e, lo=1, nonempty=True)], ret_at('front'), frame=none),
    FnSpec('internal_queue::back', P + r'back\(\) const', lambda S, e: [mk(S, e, lo=1, nonempty=True)], ret_at('back'), frame=none),
    FnSpec('internal_queue::size', P + r'size\(\) const', lambda S, e: [mk(S, e)], post_size, frame=none),
    FnSpec('internal_queue::empty', P + r'empty\(\) const', lambda S, e: [mk(S, e)], post_empty, frame=none),
    FnSpec('internal_queue::full', P + r'full\(\) const', lambda S, e: [mk(S, e)], post_full, frame=none),
    FnSpec('internal_queue::clear', P + r'clear\(\)', lambda S, e: [mk(S, e)], post_clear,
           frame=lambda S, a, e: [(S.f(a[0], 'm_first'), 8), (S.f(a[0], 'm_last'), 8)]),
    FnSpec('internal_queue::resize', P + r'resize\(unsigned long\)', s_resize, post_resize, hooks=MM),
    FnSpec('internal_queue::internal_queue', P + r'internal_queue\(unsigned long\)', s_ctor, post_resize, hooks=MM),
]
