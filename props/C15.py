"""The external stack is one sequence: the items of its stream before the offset, then the buffer."""
from lib import *
from seqlib import *

ID = 'C15'
TU = 'seqs'
HARNESS = 'streams'
SCENARIOS = ['stack']
KEEP = KEEP
HK = HOOKS + MM
LEMMAS = []
ST = '_ZTSN4tpie5stackI4elemEE'
X = z3.Int('pos')


def mk(S, env, t, pre=''):
    env.t, env.pre = t, pre
    env.sp = S.f(t, pre + 'm_stream', None)
    n, o = S.int('stream_n', 64, 0, BIG), S.int('stream_o', 64, 0, BIG)
    S.assume(Z(o) <= n)
    mk_seq(S, env.sp, 'stream', n, o)
    env.B, env.buf = mk_array(S, t, pre + 'm_buffer', lo=1)
    b = S.int('buffered', 64, 0, BIG)
    S.assume(Z(b) <= env.B)
    S.set(t, pre + 'm_bufferItems', b)
    env.N = norm(Z(o) + b)
    return t


def s_stack(S, env):
    return [mk(S, env, S.obj('s', cls=ST))]


def parts(S, env):
    q = seq(S, env.sp)
    return q, S.get(env.t, env.pre + 'm_bufferItems')


def count(S, env):
    q, b = parts(S, env)
    return Z(q.o) + b


def at(S, env, i):
    q, b = parts(S, env)
    return If(i < q.o, q.items()(i), S.arr(env.buf, 0, 8)(i - Z(q.o)))


def inv(S, env):
    q, b = parts(S, env)
    return [('the offset is inside the stream', And(0 <= Z(q.o), Z(q.o) <= q.n)), ('the buffer holds what is in it', And(0 <= Z(b), Z(b) <= env.B)),
            ('the buffer is the one allocated', And(Eq(S.get(env.t, env.pre + 'm_buffer.m_size'), env.B), env.buf.obj.id not in S.st.dead, S.ptr(env.t, env.pre + 'm_buffer.m_elements').obj is env.buf.obj)), ('the stream stays open', q.open)]


def kept(S, old, env, n):
    return [('every other element is kept', Implies(And(0 <= X, X < n), Eq(at(S, env, X), at(old, env, X))))]


def failed(S):
    return bool(S.st.ghost.get('os_failed'))


def exc_empty(S, old, r, args, env):
    if failed(S):
        return []
    return [('refused only when the stack is empty', Eq(env.N, 0)), ('refused: still empty', Eq(count(S, env), 0))] + inv(S, env)


def exc_os(S, old, r, args, env):
    return [('only the operating system can fail', failed(S))]


def s_push(S, env):
    t = s_stack(S, env)[0]
    env.x = S.int('x', 64)
    p = S.obj('item', 'param', Struct([(0, Cell(8, 'i'))], 8), 8)
    S.ex.store(S.st, p, VInt(env.x, 64), ('i', 64))
    return [t, p]


def post_push(S, old, r, args, env):
    return [('one more element', Eq(count(S, env), env.N + 1)), ('the new element is on top', Eq(at(S, env, Z(env.N)), env.x))] + kept(S, old, env, env.N) + inv(S, env)


def s_out(S, env):
    t = s_stack(S, env)[0]
    env.out = S.obj('item', 'param', Struct([(0, Cell(8, 'i'))], 8), 8)
    return [t, env.out]


def outv(S, env):
    return S.ex.as_u(S.st, S.ex.load(S.st, env.out, ('i', 64)))


def post_pop(S, old, r, args, env):
    return [('there was an element', env.N >= 1), ('the newest element', Eq(outv(S, env), at(old, env, Z(env.N) - 1))), ('one element less', Eq(count(S, env), env.N - 1))] + kept(S, old, env, env.N - 1) + inv(S, env)


def post_top(S, old, r, args, env):
    return [('there is an element', env.N >= 1), ('the newest element', Eq(outv(S, env), at(old, env, Z(env.N) - 1))), ('as many elements', Eq(count(S, env), env.N))] + kept(S, old, env, env.N) + inv(S, env)


def post_val(nm, f):
    def post(S, old, r, args, env):
        v = r.e if isinstance(r, VBool) else S.ex.as_u(S.st, r)
        return [(nm, Iff(v, f(env)) if isinstance(r, VBool) else Eq(v, f(env))), ('as many elements', Eq(count(S, env), env.N))] + kept(S, old, env, env.N) + inv(S, env)
    return post


def post_drop(S, old, r, args, env):
    q = seq(S, env.sp)
    return [('the file is left with exactly the elements', Eq(q.n, env.N)), ('in their order', Implies(And(0 <= X, X < env.N), Eq(q.items()(X), at(old, env, X)))), ('the stream is closed', Not(q.open)),
            ('the buffer is freed', env.buf.obj.id in S.st.dead)]


# ---- the AMI interface
AMI = '_ZTSN4tpie3ami5stackI4elemEE'
NO_ERROR, IO_ERROR, EOSTREAM = 0, 1, 2


def s_apush(S, env):
    t = mk(S, env, S.obj('s', cls=AMI), 'm_ulate.')
    env.x = S.int('x', 64)
    p = S.obj('item', 'param', Struct([(0, Cell(8, 'i'))], 8), 8)
    S.ex.store(S.st, p, VInt(env.x, 64), ('i', 64))
    return [t, p]


def s_aout(S, env):
    t = mk(S, env, S.obj('s', cls=AMI), 'm_ulate.')
    env.out = S.obj('out', 'param', Struct([(0, Cell(8, 'p'))], 8), 8)
    S.ex.store(S.st, env.out, VPtr(None, 0), ('ptr',))
    return [t, env.out]


def post_apush(S, old, r, args, env):
    v = S.ex.as_u(S.st, r)
    if failed(S):
        return [('a failure is reported', Eq(v, env_err('IO_ERROR')))]
    return [('no error', Eq(v, 0))] + post_push(S, old, r, args, env)


def post_aout(f):
    def post(S, old, r, args, env):
        v = S.ex.as_u(S.st, r)
        if failed(S):
            return [('a failure is reported', Ne(v, 0))]
        p = S.ex.load(S.st, env.out, ('ptr',))
        if not (isinstance(p, VPtr) and p.obj is not None):
            return [('empty: reported as end of stream', And(Eq(env.N, 0), Eq(v, ERR['END_OF_STREAM']))), ('still empty', Eq(count(S, env), 0))] + inv(S, env)
        x = S.ex.as_u(S.st, S.ex.load(S.st, p, ('i', 64)))
        return [('no error', Eq(v, 0)), ('there was an element', env.N >= 1), ('the newest element', Eq(x, at(old, env, Z(env.N) - 1))), ('the number of elements', Eq(count(S, env), env.N + f))] + kept(S, old, env, env.N + f) + inv(S, env)
    return post


def env_err(n):
    return ERR[n]


ERR = {'IO_ERROR': 1, 'END_OF_STREAM': 2}
O = dict(hooks=HK, opts={'os_fails': True})
FNS = [
    FnSpec('push', r'\bvp_kpush\(', s_push, post_push, exc=exc_os, **O),
    FnSpec('pop', r'\bvp_kpop\(', s_out, post_pop, exc=exc_empty, **O),
    FnSpec('top', r'\bvp_ktop\(', s_out, post_top, exc=exc_empty, **O),
    FnSpec('size', r'\bvp_ksize\(', s_stack, post_val('the number of elements', lambda e: e.N), **O),
    FnSpec('empty', r'\bvp_kempty\(', s_stack, post_val('empty iff there is no element', lambda e: Eq(e.N, 0)), **O),
    FnSpec('destructor', r'\bvp_kdrop\(', s_stack, post_drop, hooks=HK),
    FnSpec('ami push', r'\bvp_kapush\(', s_apush, post_apush, **O),
    FnSpec('ami pop', r'\bvp_kapop\(', s_aout, post_aout(-1), **O),
    FnSpec('ami peek', r'\bvp_kapeek\(', s_aout, post_aout(0), **O),
]


def s_new(S, env):
    S.ex.spec_env = env
    t = env.t = S.obj('s', cls=ST)
    env.pre = ''
    env.sp = S.f(t, 'm_stream', None)
    env.bsize = S.int('blocksize', 64, 8, 2 ** 44)
    env.fileitems = S.int('fileitems', 64, 0, BIG)
    mk_seq(S, env.sp, 'stream', 0, 0, False)
    return [t] + [S.obj('arg', 'param', None, None)] * env.case + [VFp(z3.Real('blockFactor'))]


def post_new(S, old, r, args, env):
    q = seq(S, env.sp)
    n = env.fileitems if env.case else 0
    d = S.ptr(env.t, 'm_buffer.m_elements')
    return [('the stream is open', q.open), ('all elements of the file are on the stack', And(Eq(count(S, env), n), Eq(q.n, n), Eq(S.get(env.t, 'm_bufferItems'), 0))),
            ('the buffer has the size recorded', And(d.obj is not None and d.obj.kind == 'heap', Eq(d.off, 0), Z(d.obj.size) >= Z(S.get(env.t, 'm_buffer.m_size')) * 8)), ('the buffer has room for an element', Z(S.get(env.t, 'm_buffer.m_size')) >= 1),
            ('elements keep their order', Implies(And(0 <= X, X < n), Eq(q.items()(X), seq(old, env.sp).items()(X))))]


for _n, _f, _k in (('constructor', r'\bvp_knew0\(', 0), ('constructor on a temp_file', r'\bvp_knew\(', 1), ('constructor on a path', r'\bvp_knewp\(', 1)):
    FNS.append(FnSpec(_n, _f, s_new, post_new, exc=lambda S, o, r, a, e: [('only the operating system can fail', failed(S))], hooks=HK, cases=(_k,)))
BOUNDED = [('the stack over real compressed streams and files, other element types, reopening', 'random histories of up to a few hundred operations for a fixed number of seconds')]
ASSUME = ['the compressed stream under the stack obeys the sequence contract stated in tpv/seqlib.py (C25; bounded there)', 'a buffer holds at least one element (item size at most the block size)']
