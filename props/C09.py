"""An optional value: a flag that is set exactly while its storage holds a live object."""
from lib import *
from oslib import STR

ID = 'C09'
TU = 'maybe'
HARNESS = 'arrays'
SCENARIOS = ['maybe']
KEEP = [r'^mob::', r'^std::basic_string|^std::__cxx11']
CLS = '_ZTSN4tpie5maybeI3mobEE'
LEMMAS = []
V2 = z3.Function('valueOfTwo', I, I, I)


def where(p):
    if not isinstance(p, VPtr) or not is_c(p.off):
        raise Unsupported('which object is meant')
    return ('live', p.obj.id, p.off)


def c_ctor(ex, st, ins, args, dn):
    k = where(args[0])
    ex.oblige(st, 'an object is constructed only where none lives', 'pre', Not(st.ghost.get(k, False)))
    bad = st.fork()
    gset(ex, bad, 'threw', True)
    vs = [ex.as_u(st, a) for a in args[1:]]
    if len(vs) == 2:
        ex.assume(st, And(0 <= V2(Z(vs[0]), Z(vs[1])), V2(Z(vs[0]), Z(vs[1])) < 2 ** 64))
    ex.store(st, args[0], VInt(vs[0] if len(vs) == 1 else V2(Z(vs[0]), Z(vs[1])) , 64), ('i', 64))
    gset(ex, st, k, True)
    gset(ex, st, 'made', st.ghost['made'] + 1)
    return [('throw', bad, '_ZTISt13runtime_error'), ('ret', st, None)]


def c_dtor(ex, st, ins, args, dn):
    k = where(args[0])
    ex.oblige(st, 'only a live object is destroyed', 'pre', st.ghost.get(k, False))
    gset(ex, st, k, False)
    gset(ex, st, 'ended', st.ghost['ended'] + 1)


HK = [(r'^mob::mob\(', c_ctor), (r'^mob::~mob\(', c_dtor)] + STR


def mk(S, env, name='m'):
    t = S.obj(name, cls=CLS)
    on = z3.Bool(name + ' constructed')
    S.set(t, 'm_constructed', If(on, 1, 0), 8)
    v = S.int(name + ' value', 64)
    S.ex.store(S.st, t, VInt(v, 64), ('i', 64))
    S.st.ghost[('live', t.obj.id, 0)] = on
    S.st.ghost.setdefault('made', 0)
    S.st.ghost.setdefault('ended', 0)
    env.__dict__.setdefault('m', []).append((t, on, v))
    return t


def live(S, t):
    return S.st.ghost.get(('live', t.obj.id, 0), False)


def value(S, t):
    return S.ex.as_u(S.st, S.ex.load(S.st, t, ('i', 64)))


def flag(S, t):
    return Ne(S.get(t, 'm_constructed', 8), 0)


def state(S, i, env, on, v, made=0, ended=0):
    t = env.m[i][0]
    return [('it says exactly whether an object lives in it', Iff(flag(S, t), live(S, t))), ('whether it holds an object', Iff(live(S, t), on)), ('the object it holds', Implies(on, Eq(value(S, t), v))),
            ('objects constructed', Eq(S.st.ghost['made'], made)), ('objects destroyed', Eq(S.st.ghost['ended'], ended))]


def same(S, env, made=0, ended=0):
    out = []
    for i, (t, on, v) in enumerate(env.m):
        out += state(S, i, env, on, v, made, ended)
    return out


def s1(S, env):
    return [mk(S, env)]


def s_raw(S, env):
    t = S.obj('m', cls=CLS)
    S.st.ghost.update({('live', t.obj.id, 0): False, 'made': 0, 'ended': 0})
    env.raw = t
    return [t]


def s_raw2(S, env):
    t = s_raw(S, env)[0]
    return [t, mk(S, env, 'o')]


def post_new(S, old, r, args, env):
    return [('a new one is empty', And(Not(flag(S, env.raw)), Not(live(S, env.raw)))), ('nothing is constructed', Eq(S.st.ghost['made'], 0))]


def post_copy(S, old, r, args, env):
    return [('only an empty one can be copied', Not(env.m[0][1]))] + post_new(S, old, r, args, env) + same(S, env)


def refused(cond):
    def exc(S, old, r, args, env):
        return [('refused only if an object is held', cond(env))] + same(S, env)
    return exc


def s2(S, env):
    return [mk(S, env), mk(S, env, 'o')] if env.case else [mk(S, env)] * 2


def any_on(env):
    return Or([x[1] for x in env.m])


def s_con(n):
    def f(S, env):
        env.a = [S.int('arg%d' % i, 64) for i in range(n)]
        return [mk(S, env)] + [VInt(a, 64) for a in env.a]
    return f


def given(env):
    return env.a[0] if len(env.a) == 1 else V2(Z(env.a[0]), Z(env.a[1]))


def post_con(S, old, r, args, env):
    return [('only an empty one is filled', Not(env.m[0][1]))] + state(S, 0, env, True, given(env), 1, 0)


def exc_con(S, old, r, args, env):
    if S.st.ghost.get('threw'):
        return [('an object whose construction failed is not held', Not(env.m[0][1]))] + state(S, 0, env, False, 0)
    return refused(any_on)(S, old, r, args, env)


def post_end(S, old, r, args, env):
    t, on, v = env.m[0]
    return state(S, 0, env, False, 0, 0, If(on, 1, 0))


def post_drop(S, old, r, args, env):
    t, on, v = env.m[0]
    return [('no object is left behind', Not(live(S, t))), ('the object held is destroyed exactly once', Eq(S.st.ghost['ended'], If(on, 1, 0))), ('nothing is constructed', Eq(S.st.ghost['made'], 0))]


def post_ref(S, old, r, args, env):
    t = env.m[0][0]
    return [('the object held is meant', And(isinstance(r, VPtr) and r.obj is t.obj, Eq(r.off, 0) if isinstance(r, VPtr) else False))] + same(S, env)


FNS = [
    FnSpec('default constructor', r'\bvp_mnew\(', s_raw, post_new, hooks=HK),
    FnSpec('copy constructor', r'\bvp_mcopy\(', s_raw2, post_copy, exc=refused(any_on), hooks=HK),
    FnSpec('move constructor', r'\bvp_mmove\(', s_raw2, post_copy, exc=refused(any_on), hooks=HK),
    FnSpec('assignment', r'\bvp_massign\(', s2, lambda S, o, r, a, e: [('only empty ones can be assigned', Not(any_on(e)))] + same(S, e), exc=refused(any_on), hooks=HK, cases=(True, False)),
    FnSpec('is_constructed', r'\bvp_mis\(', s1, lambda S, o, r, a, e: [('true iff an object is held', Iff(r.e, e.m[0][1]))] + same(S, e), hooks=HK),
    FnSpec('construct, one argument', r'\bvp_mcon1\(', s_con(1), post_con, exc=exc_con, hooks=HK),
    FnSpec('construct, two arguments', r'\bvp_mcon2\(', s_con(2), post_con, exc=exc_con, hooks=HK),
    FnSpec('destruct', r'\bvp_mdestruct\(', s1, post_end, hooks=HK),
    FnSpec('destructor', r'\bvp_mdrop\(', s1, post_drop, hooks=HK),
    FnSpec('operator*', r'\bvp_mderef\(', s1, post_ref, hooks=HK),
    FnSpec('operator* const', r'\bvp_mcderef\(', s1, post_ref, hooks=HK),
    FnSpec('operator->', r'\bvp_marrow\(', s1, lambda S, o, r, a, e: [('the object held is meant', Eq(S.ex.as_u(S.st, r), e.m[0][2]))] + same(S, e), hooks=HK),
    FnSpec('operator-> const', r'\bvp_mcarrow\(', s1, lambda S, o, r, a, e: [('the object held is meant', Eq(S.ex.as_u(S.st, r), e.m[0][2]))] + same(S, e), hooks=HK),
]
BOUNDED = [('move-only arguments, real objects', 'random histories of up to a few hundred operations for a fixed number of seconds')]
ASSUME = ['a constructor of the contained type either makes one live object or throws without making one; its destructor ends it']
