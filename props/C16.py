"""The external queue is one sequence: the rest of the pop stream, the in-memory queue, the push stream."""
from lib import *
from seqlib import *

ID = 'C16'
TU = 'seqs'
HARNESS = 'streams'
SCENARIOS = ['queue']
KEEP = KEEP
HK = HOOKS + MM
LEMMAS = [L_UMOD]
QU = '_ZTSN4tpie5queueI4elemEE'
X = z3.Int('pos')


def umod(a, n):
    return z3.Function('umod', I, I, I)(Z(a), Z(n))


def mk(S, env):
    t = env.t = S.obj('q', cls=QU)
    cur = env.case
    S.set(t, 'm_currentQueue', 1 if cur else 0, 8)
    env.q = {}
    for nm, push in (('m_queueA', cur), ('m_queueB', not cur)):
        p = S.f(t, nm, None)
        n, o = S.int(nm + '_n', 64, 0, BIG), S.int(nm + '_o', 64, 0, BIG)
        if push:
            o = n
        else:
            S.assume(Z(o) <= n)
        mk_seq(S, p, nm, n, o)
        env.q[nm] = p
    env.C, env.buf = mk_array(S, t, 'm_centerQueue.m_elements', lo=1)
    f, l = S.int('first', 64, 0, 2 ** 63), S.int('last', 64, 0, 2 ** 63)
    S.assume(Z(f) <= l, Z(l) - f <= env.C)
    S.set(t, 'm_centerQueue.m_first', f)
    S.set(t, 'm_centerQueue.m_last', l)
    S.set(t, 'm_size', norm(total(S, env)))
    env.N = norm(total(S, env))
    return t


def streams(S, env):
    c = S.get(env.t, 'm_currentQueue', 8)
    if not is_c(norm(c)):
        raise Unsupported('which stream is the push stream')
    a, b = seq(S, env.q['m_queueA']), seq(S, env.q['m_queueB'])
    return (a, b) if int(str(norm(c))) else (b, a)


def center(S, env):
    return S.get(env.t, 'm_centerQueue.m_first'), S.get(env.t, 'm_centerQueue.m_last')


def total(S, env):
    push, pop = streams(S, env)
    f, l = center(S, env)
    return (Z(pop.n) - pop.o) + (Z(l) - f) + Z(push.n)


def at(S, env, i):
    """the i-th oldest element"""
    push, pop = streams(S, env)
    f, l = center(S, env)
    a, b = Z(pop.n) - pop.o, Z(l) - f
    return If(i < a, pop.items()(Z(pop.o) + i), If(i < a + b, S.arr(env.buf, 0, 8)(umod(Z(f) + (i - a), env.C)), push.items()(i - a - b)))


def inv(S, env):
    push, pop = streams(S, env)
    f, l = center(S, env)
    return [('the push stream is at its end', Eq(push.o, push.n)), ('the pop stream is inside', And(0 <= Z(pop.o), Z(pop.o) <= pop.n)), ('both stay open', And(push.open, pop.open)),
            ('the in-memory queue is within its capacity', And(0 <= Z(f), Z(f) <= l, Z(l) - f <= env.C)),
            ('the in-memory buffer is the one allocated', And(Eq(S.get(env.t, 'm_centerQueue.m_elements.m_size'), env.C), env.buf.obj.id not in S.st.dead, S.ptr(env.t, 'm_centerQueue.m_elements.m_elements').obj is env.buf.obj)),
            ('the size is the number of elements', Eq(S.get(env.t, 'm_size'), total(S, env)))]


def failed(S):
    return bool(S.st.ghost.get('os_failed'))


def s_push(S, env):
    t = mk(S, env)
    env.x = S.int('x', 64)
    p = S.obj('item', 'param', Struct([(0, Cell(8, 'i'))], 8), 8)
    S.ex.store(S.st, p, VInt(env.x, 64), ('i', 64))
    return [t, p]


def s_out(S, env):
    t = mk(S, env)
    env.out = S.obj('item', 'param', Struct([(0, Cell(8, 'i'))], 8), 8)
    return [t, env.out]


def outv(S, env):
    return S.ex.as_u(S.st, S.ex.load(S.st, env.out, ('i', 64)))


def kept(S, old, env, n, shift=0):
    return [('every other element keeps its place in the order', Implies(And(0 <= X, X < n), Eq(at(S, env, X), at(old, env, X + shift))))]


def post_push(S, old, r, args, env):
    return [('one more element', Eq(total(S, env), env.N + 1)), ('the new element is last', Eq(at(S, env, Z(env.N)), env.x))] + kept(S, old, env, env.N) + inv(S, env)


def post_pop(S, old, r, args, env):
    return [('there was an element', env.N >= 1), ('the oldest element', Eq(outv(S, env), at(old, env, z3.IntVal(0)))), ('one element less', Eq(total(S, env), env.N - 1))] + kept(S, old, env, env.N - 1, 1) + inv(S, env)


def post_front(S, old, r, args, env):
    return [('there is an element', env.N >= 1), ('the oldest element', Eq(outv(S, env), at(old, env, z3.IntVal(0)))), ('as many elements', Eq(total(S, env), env.N))] + kept(S, old, env, env.N) + inv(S, env)


def exc_empty(S, old, r, args, env):
    if failed(S):
        return []
    return [('refused only when the queue is empty', Eq(env.N, 0)), ('refused: still empty', Eq(total(S, env), 0))] + inv(S, env)


def exc_os(S, old, r, args, env):
    return [('only the operating system can fail', failed(S))]


def post_val(nm, f):
    def post(S, old, r, args, env):
        v = r.e if isinstance(r, VBool) else S.ex.as_u(S.st, r)
        return [(nm, Iff(v, f(env)) if isinstance(r, VBool) else Eq(v, f(env))), ('as many elements', Eq(total(S, env), env.N))] + kept(S, old, env, env.N) + inv(S, env)
    return post


CUR = (True, False)
O = dict(hooks=HK, opts={'os_fails': True}, cases=CUR)
FNS = [
    FnSpec('push', r'\bvp_qpush\(', s_push, post_push, exc=exc_os, **O),
    FnSpec('pop', r'\bvp_qpop\(', s_out, post_pop, exc=exc_empty, **O),
    FnSpec('front', r'\bvp_qfront\(', s_out, post_front, exc=exc_empty, **O),
    FnSpec('size', r'\bvp_qsize\(', lambda S, e: [mk(S, e)], post_val('the number of elements', lambda e: e.N), **O),
    FnSpec('empty', r'\bvp_qempty\(', lambda S, e: [mk(S, e)], post_val('empty iff there is no element', lambda e: Eq(e.N, 0)), **O),
]


def s_new(S, env):
    S.ex.spec_env = env
    t = env.t = S.obj('q', cls=QU)
    env.bsize = S.int('blocksize', 64, 8, 2 ** 44)
    env.q = {}
    for nm in ('m_queueA', 'm_queueB'):
        env.q[nm] = S.f(t, nm, None)
        mk_seq(S, env.q[nm], nm, 0, 0, False)
    return [t]


def post_new(S, old, r, args, env):
    d = S.ptr(env.t, 'm_centerQueue.m_elements.m_elements')
    env.C = S.get(env.t, 'm_centerQueue.m_elements.m_size')
    env.buf = d
    return [('the new queue is empty', Eq(total(S, env), 0)), ('the buffer has the size recorded', And(d.obj is not None and d.obj.kind == 'heap', Eq(d.off, 0), Z(d.obj.size) >= Z(env.C) * 8, Z(env.C) >= 1))] + inv(S, env)


FNS.append(FnSpec('constructor', r'\bvp_qnew\(', s_new, post_new, exc=exc_os, hooks=HK))
BOUNDED = [('the queue over real compressed streams and files, other element types', 'random histories of up to a few hundred operations for a fixed number of seconds')]
ASSUME = ['the compressed streams under the queue obey the sequence contract stated in tpv/seqlib.py (C25; bounded there)', 'a block holds at least one element', 'fewer than 2^63 elements pass the in-memory queue']
