"""disjoint_sets maintains an equivalence relation (union-find) for every history."""
from lib import *

ID = 'C07'
TU = 'containers'
HARNESS = 'containers'
SCENARIOS = ['dsets']
CLS = '_ZTSN4tpie13disjoint_setsImEE'
P = r'^tpie::disjoint_sets<unsigned long>::'
R = z3.Function('Root', I, I)     # ghost: representative of the class of an element
D = z3.Function('Depth', I, I)    # ghost: a rank that strictly grows along parent links


def view(S, t):
    a = ArrayView(S, t, 'm_elements')
    return a.size, S.get(t, 'm_unused'), S.get(t, 'm_size'), a.arr()


def inv(n, U, a, R=R, D=D):
    """the parent array represents the classes given by R"""
    def body(x):
        p = a(x)
        return Implies(And(0 <= x, x < n, p != U),
                       And(0 <= p, p < n, R(p) == R(x), Iff(R(x) == x, p == x), Implies(p != x, D(p) < D(x)), D(x) >= 0,
                           0 <= R(x), R(x) < n))
    def closed(x, y):
        return Implies(And(0 <= x, x < n, a(x) != U, y == a(x)), a(y) != U)
    def rootp(x):
        return Implies(And(0 <= x, x < n, a(x) != U), Eq(a(R(x)), R(x)))
    b = a.fn
    return [('parent links stay inside the classes and are acyclic', forall(1, body, lambda x: b(x))),
            ('every parent is itself a set element', forall(2, closed, lambda x, y: z3.MultiPattern(b(x), b(y)))),
            ('every class has its representative', forall(1, rootp, lambda x: b(x)))]


def mk(S, env, assume=True):
    t = this_obj(S, None, CLS)
    n, buf = mk_array(S, t, 'm_elements', lo=0)
    U = S.int('unused')
    S.set(t, 'm_unused', U)
    S.assume(U >= n)
    c = S.int('count')
    S.set(t, 'm_size', c)
    env.n, env.U, env.c = n, U, c
    if assume:
        n, U, c, a = view(S, t)
        S.assume(inv(n, U, a))
    env.t = t
    return t


def elem_arg(S, env, nm, isset=True):
    x = S.int(nm)
    n, U, c, a = view(S, env.t)
    S.assume(x < n)
    S.assume(a(x) != U if isset else Eq(a(x), U))
    env[nm] = x
    return VInt(x, 64)


def members_same(S, old, t):
    n, U, c, a = view(S, t)
    _, _, _, a0 = view(old, t)
    x = z3.Int('x')
    return ('membership is unchanged', Implies(And(0 <= x, x < n), Iff(Eq(a(x), U), Eq(a0(x), U))))


def post_find(S, old, r, args, env):
    t = args[0]
    n, U, c, a = view(S, t)
    return inv(n, U, a) + [
        ('find_set returns the representative of the class', Eq(S.ex.as_u(S.st, r), R(env.x))),
        ('the number of sets is unchanged', Eq(c, env.c)), members_same(S, old, t)]


def s_find(S, env):
    t = mk(S, env)
    return [t, elem_arg(S, env, 'x')]


def li_find(L):
    S, e = L.S, L.e
    out = []
    n, U, c, a = view(S, e.t)
    n0, U0, c0, a0 = view(L.S0, e.t)
    out += inv(n, U, a, getattr(e, 'R', R), D)
    out.append(('same class as the argument', And(0 <= L.t, L.t < n, a(L.t) != U, R(L.t) == R(L.i0['t']))))
    out.append(('membership kept', forall(1, lambda x: Implies(And(0 <= x, x < n), Iff(a(x) == U, a0(x) == U)), lambda x: a.fn(x))))
    out.append(('roots kept', forall(1, lambda x: Implies(And(0 <= x, x < n), Iff(a(x) == x, a0(x) == x)), lambda x: a.fn(x))))
    return out


FIND = LoopSpec(r'disjoint_sets<.*>::find_set', inv=li_find, roles={'t': 't|.*t.*'}, variant=lambda L: D(L.t), name='find_set')


def merged(env, a, b):
    Rm = lambda x: If(R(x) == b, a, R(x))
    Dm = lambda x: If(And(R(x) == b, a != b), D(x) + D(a) + 1, D(x))
    return Rm, Dm


def post_link(S, old, r, args, env):
    t = args[0]
    n, U, c, a = view(S, t)
    x, y = env.x, env.y
    Rm, Dm = merged(env, x, y)
    return inv(n, U, a, Rm, Dm) + [
        ('link returns the representative of the merged class', Eq(S.ex.as_u(S.st, r), x)),
        ('the number of sets drops by one iff two different sets are merged', Eq(c, (env.c - If(x == y, 0, 1)) % 2 ** 64)),
        members_same(S, old, t)]


def s_link(S, env):
    t = mk(S, env)
    p = elem_arg(S, env, 'x')
    q = elem_arg(S, env, 'y')
    n, U, c, a = view(S, t)
    S.assume(Eq(a(env.x), env.x), Eq(a(env.y), env.y))
    return [t, p, q]


def post_union(S, old, r, args, env):
    t = args[0]
    n, U, c, a = view(S, t)
    x, y = R(env.x), R(env.y)
    rr = S.ex.as_u(S.st, r)
    A = inv(n, U, a, *merged(env, x, y))
    return A + [
        ('union_set returns the representative of the merged class', Eq(rr, x)),
        ('the number of sets drops by one iff the classes differed', Eq(c, (env.c - If(x == y, 0, 1)) % 2 ** 64)),
        members_same(S, old, t)]


def s_union(S, env):
    t = mk(S, env)
    return [t, elem_arg(S, env, 'x'), elem_arg(S, env, 'y')]


def s_make(S, env):
    t = mk(S, env)
    return [t, elem_arg(S, env, 'x', False)]


def post_make(S, old, r, args, env):
    t = args[0]
    n, U, c, a = view(S, t)
    _, _, _, a0 = view(old, t)
    y = z3.Int('y')
    Rn = lambda z: If(z == env.x, env.x, R(z))
    Dn = lambda z: If(z == env.x, 0, D(z))
    return inv(n, U, a, Rn, Dn) + [('one more set', Eq(c, (env.c + 1) % 2 ** 64)),
                                   ('exactly the argument becomes a member', Implies(And(0 <= y, y < n), Iff(a(y) != U, Or(a0(y) != U, y == env.x))))]


def post_isset(S, old, r, args, env):
    n, U, c, a = view(old, args[0])
    return [('is_set answers membership', Iff(r.e, a(env.x) != U))]


def post_count(S, old, r, args, env):
    return [('count_sets returns the number of sets', Eq(S.ex.as_u(S.st, r), env.c))]


def post_empty(S, old, r, args, env):
    t = args[0]
    n, U, c, a = view(S, t)
    x = z3.Int('x')
    return [('no element is a member', Implies(And(0 <= x, x < n), Eq(a(x), U))), ('no sets are counted', Eq(c, 0)),
            ('the key space has the requested size', Eq(n, env.n)), ('the unused marker is kept', Eq(U, env.U))]


def s_resize(S, env):
    t = mk(S, env)
    env.n = S.int('newsize', 64, 0, 2 ** 56)
    return [t, VInt(env.n, 64)]


def s_ctor(S, env):
    t = this_obj(S, None, CLS)
    env.t = t
    env.n = S.int('newsize', 64, 0, 2 ** 56)
    env.U = S.int('unused')
    return [t, VInt(env.n, 64), VInt(env.U, 64), VPtr(None, 0)]


def f_arr(S, args, env):
    t = args[0]
    d = ArrayView(S, t, 'm_elements').data
    return ([(VPtr(d.obj, 0), 8)] if d.obj else []) + [(S.f(t, 'm_size'), 8)]


def none(S, a, e):
    return []


def li_fill(L):
    S = L.S
    # uninitialized_fill / fill: [first, last) receives the value
    p = L.p['first']
    if p.obj is None:
        return []
    a = S.arr(p)
    return [('filled so far', forall(1, lambda x: Implies(And(L.i0['first'] <= x, x < L.first), a.read(x) == L.e.U)))]


FILL = LoopSpec(r'std::(__fill_a1|__do_uninit_fill|__uninitialized_fill|fill|uninitialized_fill)', inv=li_fill, roles={'first': '.*first.*|.*cur.*'}, ptr_roles=('first',), name='fill')
FNS = [
    FnSpec('disjoint_sets::find_set', P + r'find_set\(', s_find, post_find, loops=[FIND], frame=f_arr),
    FnSpec('disjoint_sets::link', P + r'link\(', s_link, post_link, frame=f_arr),
    FnSpec('disjoint_sets::union_set', P + r'union_set\(', s_union, post_union, loops=[FIND], frame=f_arr),
    FnSpec('disjoint_sets::make_set', P + r'make_set\(', s_make, post_make, frame=f_arr),
    FnSpec('disjoint_sets::is_set', P + r'is_set\(', lambda S, e: [mk(S, e), elem_any(S, e)], post_isset, frame=none),
    FnSpec('disjoint_sets::count_sets', P + r'count_sets\(', lambda S, e: [mk(S, e)], post_count, frame=none),
    FnSpec('disjoint_sets::clear', P + r'clear\(', lambda S, e: [mk(S, e)], post_empty, loops=[FILL]),
    FnSpec('disjoint_sets::resize', P + r'resize\(', s_resize, post_empty, loops=[FILL], hooks=MM),
    FnSpec('disjoint_sets::disjoint_sets', P + r'disjoint_sets\(unsigned long, unsigned long, ', s_ctor, post_empty, loops=[FILL], hooks=MM),
]


def elem_any(S, env):
    x = S.int('x')
    S.assume(x < env.n)
    env.x = x
    return VInt(x, 64)
