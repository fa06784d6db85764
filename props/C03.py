"""internal_stack / internal_vector are a LIFO stack / growable sequence over a fixed capacity."""
from lib import *

ID = 'C03'
TU = 'containers'
HARNESS = 'containers'
SCENARIOS = ['stack', 'vector']


def mk(S, env, nonempty=False, notfull=False):
    t = this_obj(S, 'class.tpie::internal_%s' % env.case, '_ZTSN4tpie%d' % (14 if env.case == 'stack' else 15) + 'internal_%sI4elemEE' % env.case)
    n, buf = mk_array(S, t, 'm_elements', lo=1 if (nonempty or notfull) else 0)
    s = S.int('size0')
    S.set(t, 'm_size', s)
    S.assume(s <= n)
    if nonempty:
        S.assume(s > 0)
    if notfull:
        S.assume(s < n)
    return t


def view(S, t):
    a = ArrayView(S, t, 'm_elements')
    return S.get(t, 'm_size'), a.size, (lambda k: a.arr().read(k))


def kept(S, old, t, n):
    k = z3.Int('k')
    s, c, at = view(S, t)
    s0, c0, at0 = view(old, t)
    return [('elements below the top are unchanged', Implies(And(k >= 0, k < n), Eq(at(k), at0(k)))),
            ('capacity is unchanged', Eq(c, c0))]


def s_push(S, env):
    t = mk(S, env, notfull=True)
    x = S.obj('arg', 'param', Struct([(0, Cell(8, 'i'))], 8), 8)
    env.v = S.get(x, 0)
    return [t, x]


def post_push(S, old, r, args, env):
    t = args[0]
    s, c, at = view(S, t)
    s0, c0, at0 = view(old, t)
    return kept(S, old, t, s0) + [('push adds one element', Eq(s, s0 + 1)), ('the new element is on top', Eq(at(s0), env.v))]


def post_pushback(S, old, r, args, env):
    s0 = view(old, args[0])[0]
    d = ArrayView(S, args[0], 'm_elements').data
    return post_push(S, old, r, args, env) + [('push_back returns a reference to the new element', And(r.obj is d.obj, Eq(r.off, 8 * s0)))]


def post_pushback0(S, old, r, args, env):
    t = args[0]
    s0 = view(old, t)[0]
    d = ArrayView(S, t, 'm_elements').data
    return kept(S, old, t, s0) + [('push_back adds one element', Eq(view(S, t)[0], s0 + 1)),
                                  ('push_back returns a reference to the new element', And(r.obj is d.obj, Eq(r.off, 8 * s0)))]


def post_pop(S, old, r, args, env):
    t = args[0]
    s, c, at = view(S, t)
    s0 = view(old, t)[0]
    return kept(S, old, t, s) + [('pop removes exactly the top element', Eq(s, s0 - 1))]


def ref(what, idx):
    def post(S, old, r, args, env):
        t = args[0]
        s0 = view(old, t)[0]
        d = ArrayView(S, t, 'm_elements').data
        return [('%s refers to the right element' % what, And(r.obj is d.obj, Eq(r.off, 8 * idx(s0, env))))]
    return post


def post_size(S, old, r, args, env):
    return [('size() is the number of elements', Eq(S.ex.as_u(S.st, r), view(old, args[0])[0]))]


def post_empty(S, old, r, args, env):
    return [('empty() iff size() is 0', Iff(r.e, Eq(view(old, args[0])[0], 0)))]


def post_clear(S, old, r, args, env):
    return kept(S, old, args[0], 0) + [('clear() leaves no element', Eq(view(S, args[0])[0], 0))]


def s_resize(S, env):
    t = mk(S, env)
    env.n = S.int('newcap', 64, 0, 2 ** 56)
    return [t, VInt(env.n, 64)]


def post_resize(S, old, r, args, env):
    t = args[0]
    a = ArrayView(S, t, 'm_elements')
    d = a.data
    fs = [('resize leaves no element', Eq(S.get(t, 'm_size'), 0)), ('resize sets the capacity', Eq(a.size, env.n))]
    if d.obj is not None:
        fs.append(('the buffer holds the capacity', And(le(env.n * 8, d.obj.size), Eq(d.off, 0), d.obj.id not in S.st.dead)))
    else:
        fs.append(('a null buffer only for capacity 0', Eq(env.n, 0)))
    return fs


def s_idx(S, env):
    t = mk(S, env, nonempty=True)
    env.i = S.int('i')
    S.assume(env.i < view(S, t)[0])
    return [t, VInt(env.i, 64)]


def none(S, a, e):
    return []


def f_push(S, args, env):
    t = args[0]
    return [(S.f(t, 'm_size'), 8), (VPtr(ArrayView(S, t, 'm_elements').data.obj, 0), 8)]


def f_size(S, args, env):
    return [(S.f(args[0], 'm_size'), 8)]


ST = r'^tpie::internal_stack<elem>::'
VE = r'^tpie::internal_vector<elem>::'
BS = r'^tpie::internal_stack_vector_base<elem, tpie::internal_stack<elem> ?>::'
BV = r'^tpie::internal_stack_vector_base<elem, tpie::internal_vector<elem> ?>::'
FNS = [
    FnSpec('internal_stack::push', ST + r'push\(elem const&\)', s_push, post_push, frame=f_push, cases=['stack']),
    FnSpec('internal_stack::pop', ST + r'pop\(\)', lambda S, e: [mk(S, e, nonempty=True)], post_pop, frame=f_size, cases=['stack']),
    FnSpec('internal_stack::top', ST + r'top\(\)', lambda S, e: [mk(S, e, nonempty=True)], ref('top()', lambda s, e: s - 1), frame=none, cases=['stack']),
    FnSpec('internal_vector::push_back(x)', VE + r'push_back\(elem const&\)', s_push, post_pushback, frame=f_push, cases=['vector']),
    FnSpec('internal_vector::push_back()', VE + r'push_back\(\)', lambda S, e: [mk(S, e, notfull=True)], post_pushback0, frame=f_size, cases=['vector']),
    FnSpec('internal_vector::pop_back', VE + r'pop_back\(\)', lambda S, e: [mk(S, e, nonempty=True)], post_pop, frame=f_size, cases=['vector']),
    FnSpec('internal_vector::back', VE + r'back\(\)$', lambda S, e: [mk(S, e, nonempty=True)], ref('back()', lambda s, e: s - 1), frame=none, cases=['vector']),
    FnSpec('internal_vector::back const', VE + r'back\(\) const$', lambda S, e: [mk(S, e, nonempty=True)], ref('back()', lambda s, e: s - 1), frame=none, cases=['vector']),
    FnSpec('internal_vector::front', VE + r'front\(\)$', lambda S, e: [mk(S, e, nonempty=True)], ref('front()', lambda s, e: 0), frame=none, cases=['vector']),
    FnSpec('internal_vector::front const', VE + r'front\(\) const$', lambda S, e: [mk(S, e, nonempty=True)], ref('front()', lambda s, e: 0), frame=none, cases=['vector']),
    FnSpec('internal_vector::operator[]', VE + r'operator\[\]\(unsigned long\)$', s_idx, ref('operator[]', lambda s, e: e.i), frame=none, cases=['vector']),
    FnSpec('internal_vector::operator[] const', VE + r'operator\[\]\(unsigned long\) const$', s_idx, ref('operator[]', lambda s, e: e.i), frame=none, cases=['vector']),
    FnSpec('internal_vector::begin', VE + r'begin\(\)$', lambda S, e: [mk(S, e, nonempty=True)], ref('begin()', lambda s, e: 0), frame=none, cases=['vector']),
    FnSpec('internal_vector::end', VE + r'end\(\)$', lambda S, e: [mk(S, e, nonempty=True)], ref('end()', lambda s, e: s), frame=none, cases=['vector']),
    FnSpec('internal_vector::begin const', VE + r'begin\(\) const$', lambda S, e: [mk(S, e, nonempty=True)], ref('begin()', lambda s, e: 0), frame=none, cases=['vector']),
    FnSpec('internal_vector::end const', VE + r'end\(\) const$', lambda S, e: [mk(S, e, nonempty=True)], ref('end()', lambda s, e: s), frame=none, cases=['vector']),
]
for c, B in (('stack', BS), ('vector', BV)):
    FNS += [
        FnSpec('internal_%s::size' % c, B + r'size\(\) const', lambda S, e: [mk(S, e)], post_size, frame=none, cases=[c]),
        FnSpec('internal_%s::empty' % c, B + r'empty\(\) const', lambda S, e: [mk(S, e)], post_empty, frame=none, cases=[c]),
        FnSpec('internal_%s::clear' % c, B + r'clear\(\)', lambda S, e: [mk(S, e)], post_clear, frame=f_size, cases=[c]),
        FnSpec('internal_%s::resize' % c, B + r'resize\(unsigned long\)', s_resize, post_resize, cases=[c], hooks=MM),
    ]
