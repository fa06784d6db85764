"""Progress: what a sub-indicator has reported to its parent is its share of the steps done."""
from lib import *
from lib import _fresh
from oslib import STR

ID = 'C29'
TU = 'progress'
HARNESS = 'progress'
SCENARIOS = ['progress']
KEEP = [r'raw_step', r'call_refresh', r'::refresh\(\)', r'^std::basic_string|^std::__cxx11', r'(begin|end)_log_group', r'::init\(', r'breadcrumb']
BASE = '_ZTSN4tpie23progress_indicator_baseE'
SUB = '_ZTSN4tpie31progress_indicator_subindicatorE'
M = 2 ** 64
VT = ('d1', 'd0', 'init', 'done', 'set_range', 'refresh', 'push_breadcrumb', 'pop_breadcrumb')


def _share_lemma():
    a, b, n, q, r, p, s = z3.Ints('a b n q r p s')
    yield 'division is monotone', [n > 0, a == q * n + r, 0 <= r, r < n, b == p * n + s, 0 <= s, s < n, a <= b, q == p + 1 + z3.Int('d'), z3.Int('d') >= 0, z3.Int('d') * n >= 0], z3.BoolVal(False)
    yield 'a product is monotone', [0 <= a, a <= b, n >= 0, q == b - a, q * n >= 0], a * n <= b * n
    yield 'the whole share', [n > 0, q * n + r == a * n, 0 <= r, r < n, p == q - a, z3.Implies(p >= 1, p * n >= n), z3.Implies(p <= -1, p * n <= -n), p * n == q * n - a * n], q == a


L_SHARE = Lemma('shares', lambda: list(_share_lemma()))


def shares():
    """facts used below, proved in lemma 'shares'"""
    mul, div = z3.Function('mul', I, I, I), z3.Function('udiv', I, I, I)
    a, b, n = z3.Ints('a b n')
    return [z3.ForAll([a, b, n], z3.Implies(z3.And(n > 0, 0 <= a, a <= b), div(a, n) <= div(b, n)), patterns=[z3.MultiPattern(div(a, n), div(b, n))]),
            z3.ForAll([a, b, n], z3.Implies(z3.And(n >= 0, 0 <= a, a <= b), mul(a, n) <= mul(b, n)), patterns=[z3.MultiPattern(mul(a, n), mul(b, n))]),
            z3.ForAll([a, b, n], z3.Implies(z3.And(n >= 0, 0 <= a, a <= b), mul(n, a) <= mul(n, b)), patterns=[z3.MultiPattern(mul(n, a), mul(n, b))]),
            z3.ForAll([a, b, n], z3.Implies(z3.And(n >= 0, 0 <= a, a <= b), mul(a, n) <= mul(n, b)), patterns=[z3.MultiPattern(mul(a, n), mul(n, b))]),
            z3.ForAll([a, b, n], z3.Implies(z3.And(n >= 0, 0 <= a, a <= b), mul(n, a) <= mul(b, n)), patterns=[z3.MultiPattern(mul(n, a), mul(b, n))]),
            z3.ForAll([a, n], z3.Implies(n > 0, div(mul(a, n), n) == a), patterns=[div(mul(a, n), n)]),
            z3.ForAll([a, n], z3.Implies(n > 0, div(mul(n, a), n) == a), patterns=[div(mul(n, a), n)])]


# ---- contracts
def g_add(ex, st, k, v=1):
    gset(ex, st, k, norm(Z(st.ghost[k]) + v))


def c_raw(ex, st, ins, args, dn):
    """raw_step on the parent: what is reported to it adds up"""
    k = ex.as_u(st, args[1])
    ex.oblige(st, 'the sub-indicator reports to its own parent', 'pre', And(isinstance(args[0], VPtr) and args[0].obj is ex.spec_env.parent.obj, True))
    g_add(ex, st, 'given', k)


def c_vrefresh(ex, st, ins, args, dn):
    g_add(ex, st, 'refreshes')
    gset(ex, st, 'seen', Ctx(ex, st).get(args[0], 'm_current', 64, BASE))


def c_srefresh(ex, st, ins, args, dn):
    """refresh of the sub-indicator (proved below)"""
    e = ex.spec_env
    S = Ctx(ex, st)
    ex.oblige(st, 'the steps done never go back between refreshes', 'pre', Implies(Ne(R(S, e), 0), share(S, e, R(S, e)) >= V(S, e)))
    for n, f in inv(S, e):
        ex.oblige(st, 'refresh: ' + n, 'pre', f)
    v = If(Or(Eq(R(S, e), 0), Not(e.has)), V(S, e), share(S, e, clamp(S, e)))
    g_add(ex, st, 'given', If(e.has, Z(v) - V(S, e), 0))
    g_add(ex, st, 'refreshes')
    S.set(e.t, 'm_oldValue', norm(v))


def c_call(ex, st, ins, args, dn):
    """call_refresh (proved below): exactly one refresh, nothing else changes"""
    S = Ctx(ex, st)
    v = z3.Int('remaining!%d' % next(_fresh))
    ex.assume(st, And(1 <= v, v < M))
    S.set(args[0], 'm_remainingSteps', v, 64, BASE)
    (c_srefresh if ex.spec_env.sub else c_vrefresh)(ex, st, ins, args, dn)


def c_binit(ex, st, ins, args, dn):
    S = Ctx(ex, st)
    e = ex.spec_env
    n = ex.as_u(st, args[1])
    S.set(args[0], 'm_range', norm(If(Eq(n, 0), S.get(args[0], 'm_range', 64, BASE), n)), 64, BASE)
    S.set(args[0], 'm_current', 0, 64, BASE)
    if not e.fits(S):
        pass
    c_call(ex, st, ins, [args[0]], dn)


def c_setrange(ex, st, ins, args, dn):
    Ctx(ex, st).set(args[0], 'm_range', ex.as_u(st, args[1]), 64, BASE)


def c_now(ex, st, ins, args, dn):
    v = z3.Int('now!%d' % next(_fresh))
    ex.assume(st, And(0 <= v, v < 2 ** 62))
    return VInt(v, 64)


def nop(ex, st, ins, args, dn):
    return None


HS = [(r'raw_step\(', c_raw), (r'breadcrumb', nop), (r'(begin|end)_log_group', nop), (r'^vp_v_(push|pop)_breadcrumb', nop)] + STR
HB = [(r'^vp_v_refresh', c_vrefresh), (r'call_refresh\(', c_call), (r'^vp_v_set_range', c_setrange), (r'steady_clock::now', c_now)] + HS
HI = [(r'^vp_v_refresh|subindicator::refresh\(', c_srefresh), (r'call_refresh\(', c_call), (r'indicator_base::init\(', c_binit), (r'^vp_v_set_range', c_setrange)] + HS


# ---- states
def vtable(S, t, nm):
    vt = S.obj(nm + ' vtable', 'param', Struct([(8 * i, Cell(8, 'p')) for i in range(len(VT))], 64), 64)
    for i, n in enumerate(VT):
        S.st.cells[(vt.obj.id, (8 * i,))] = VFn('vp_v_' + n)
    S.ex.store(S.st, t, vt, ('ptr',))


def base(S, env, remaining=True):
    S.ex.spec_env = env
    env.sub = False
    t = env.t = S.obj('p', cls=BASE)
    vtable(S, t, 'p')
    env.r, env.c = S.int('range', 64), S.int('current', 64, 0, 2 ** 63)
    S.set(t, 'm_range', env.r)
    S.set(t, 'm_current', env.c)
    S.set(t, 'm_remainingSteps', S.int('remaining', 64))
    impl = S.obj('impl', 'param', Struct([(0, Cell(8, 'i'))], 8), 8)
    S.ex.store(S.st, impl, VInt(S.int('first', 64, 0, 2 ** 62), 64), ('i', 64))
    S.set(t, 'm_refreshImpl', impl)
    S.st.ghost.update(refreshes=0, given=0, seen=-1)
    env.n = S.int('n', 64, 0, 2 ** 62)
    env.fits = lambda S: True
    return t


def cur(S, env):
    return S.get(env.t, 'm_current')


def rem(S, env):
    return S.get(env.t, 'm_remainingSteps')


def G(S, k):
    return S.st.ghost[k]


def post_step(S, old, r, args, env):
    c = env.c + env.n
    return [('the steps add up', Eq(cur(S, env), c)), ('the range is kept', Eq(S.get(env.t, 'm_range'), env.r)), ('at most one refresh', Or(Eq(G(S, 'refreshes'), 0), Eq(G(S, 'refreshes'), 1))),
            ('a refresh sees the new count', Implies(Eq(G(S, 'refreshes'), 1), Eq(G(S, 'seen'), c))),
            ('a refresh comes when the steps to the next one are used up', Iff(Eq(G(S, 'refreshes'), 1), Z(rem(old, env)) <= env.n)),
            ('otherwise they are counted down', Implies(Eq(G(S, 'refreshes'), 0), Eq(rem(S, env), Z(rem(old, env)) - env.n)))]


def post_raw(S, old, r, args, env):
    return [('the steps add up', Eq(cur(S, env), env.c + env.n)), ('the range is kept', Eq(S.get(env.t, 'm_range'), env.r)), ('one refresh', Eq(G(S, 'refreshes'), 1)), ('which sees the new count', Eq(G(S, 'seen'), env.c + env.n))]


def post_binit(S, old, r, args, env):
    return [('no step done', Eq(cur(S, env), 0)), ('the range given, if any', Eq(S.get(env.t, 'm_range'), If(Eq(env.n, 0), env.r, env.n))), ('one refresh', Eq(G(S, 'refreshes'), 1)), ('which sees no step done', Eq(G(S, 'seen'), 0))]


def post_call(S, old, r, args, env):
    return [('exactly one refresh', Eq(G(S, 'refreshes'), 1)), ('the steps done are kept', Eq(cur(S, env), env.c)), ('the range is kept', Eq(S.get(env.t, 'm_range'), env.r)), ('the next refresh is at least a step away', Z(rem(S, env)) >= 1)]


def s_n(S, env):
    return [base(S, env), VInt(env.n, 64)]


def s_0(S, env):
    return [base(S, env)]


def post_get(n):
    return lambda S, old, r, args, env: [('the number asked for', Eq(S.ex.as_u(S.st, r), S.get(env.t, n)))]


# ---- sub-indicator
def R(S, e):
    return S.get(e.t, 'm_range')


def V(S, e):
    return Z(S.get(e.t, 'm_oldValue'))


def share(S, e, c):
    return UDIV(S, MUL(S, c, e.O), R(S, e))


def clamp(S, e):
    c = S.get(e.t, 'm_current')
    return norm(If(Z(c) > R(S, e), R(S, e), c))


def inv(S, e):
    """at some earlier moment no more steps than now were done, and their share is what was reported"""
    return [('what was reported is the share of the steps done at the last refresh', Implies(Ne(R(S, e), 0), And(Z(e.past) <= clamp(S, e), Eq(V(S, e), share(S, e, e.past)))) if e.past is not None else Eq(V(S, e), 0)),
            ('range times outer range fits', Z(MUL(S, R(S, e), e.O)) < M)]


def sub(S, env, fresh=False):
    S.ex.spec_env = env
    env.sub = True
    t = env.t = S.obj('p', cls=SUB)
    vtable(S, t, 'p')
    env.parent = S.obj('parent', cls=BASE)
    vtable(S, env.parent, 'parent')
    env.has = env.case
    S.set(t, 'm_parent', env.parent if env.case else VPtr(None, 0))
    env.O = S.int('outer', 64)
    S.set(t, 'm_outerRange', env.O)
    env.R = S.int('range', 64)
    S.set(t, 'm_range', env.R)
    S.set(t, 'm_current', 0 if fresh else S.int('current', 64))
    env.past = None if fresh else S.int('past', 64)
    S.set(t, 'm_oldValue', 0 if fresh else S.int('old', 64))
    S.set(t, 'm_importance', S.int('importance', 32, 0, 3), 32)
    S.set(t, 'm_logGroupMode', S.int('mode', 32, 0, 1), 32)
    S.st.ghost.update(refreshes=0, given=0)
    env.n = S.int('n', 64, 0, 2 ** 62)
    env.fits = lambda S: True
    S.assume(And([f for _, f in inv(S, env)]))
    env.V = V(S, env)
    return t


def reported(S, env):
    return Eq(Z(G(S, 'given')), V(S, env) - env.V) if env.has else Eq(G(S, 'given'), 0)


def post_refresh(S, old, r, args, env):
    new = If(Or(Eq(R(S, env), 0), not env.has), env.V, share(S, env, clamp(S, env)))
    return [('what has been reported is the share of the steps done', Eq(V(S, env), new)), ('what is reported adds up to it', reported(S, env)), ('progress never goes back', Z(G(S, 'given')) >= 0),
            ('never more than the part of the parent', Implies(Ne(R(S, env), 0), V(S, env) <= env.O)), ('the steps and the range are kept', And(Eq(S.get(env.t, 'm_current'), old.get(env.t, 'm_current')), Eq(R(S, env), env.R)))]


def post_done(S, old, r, args, env):
    return [('all steps are done', Eq(S.get(env.t, 'm_current'), R(S, env))), ('the range is kept', Eq(R(S, env), env.R)), ('what is reported adds up', reported(S, env)), ('progress never goes back', Z(G(S, 'given')) >= 0),
            ('the whole part of the parent is reported', Implies(And(Ne(R(S, env), 0), env.has), Eq(V(S, env), env.O)))]


def s_init(S, env):
    t = sub(S, env, True)
    S.assume(Z(MUL(S, env.n, env.O)) < M)
    return [t, VInt(env.n, 64)]


def post_init(S, old, r, args, env):
    return [('no step done', Eq(S.get(env.t, 'm_current'), 0)), ('the range given, if any', Eq(R(S, env), If(Eq(env.n, 0), env.R, env.n))), ('nothing is reported', And(Eq(V(S, env), 0), Eq(G(S, 'given'), 0)))]


def s_setup(S, env):
    t = sub(S, env)
    env.p2 = S.obj('parent2', cls=BASE)
    env.o2 = S.int('outer2', 64)
    return [t, env.p2, VInt(env.o2, 64)]


def post_setup(S, old, r, args, env):
    p = S.ptr(env.t, 'm_parent')
    return [('the parent given', p.obj is env.p2.obj), ('the part given', Eq(S.get(env.t, 'm_outerRange'), env.o2)), ('nothing reported yet', Eq(V(S, env), 0))]


def s_new(S, env):
    S.ex.spec_env = env
    env.t = S.obj('p', cls=SUB)
    env.p2 = S.obj('parent2', cls=BASE)
    env.o2 = S.int('outer2', 64)
    return [env.t, env.p2, VInt(env.o2, 64)]


AX = dict(axioms=(shares,), opts={'euclid': True})
LEMMAS = [L_SHARE]
FNS = [
    FnSpec('step', r'\bvp_pstep\(', s_n, post_step, hooks=HB),
    FnSpec('raw_step', r'indicator_base::raw_step\(', s_n, post_raw, hooks=[(r'^vp_v_refresh', c_vrefresh)]),
    FnSpec('init of the base class', r'indicator_base::init\(', s_n, post_binit, hooks=HB),
    FnSpec('set_range', r'\bvp_prange\(', s_n, lambda S, o, r, a, e: [('the range given', Eq(S.get(e.t, 'm_range'), e.n)), ('the steps done are kept', Eq(cur(S, e), e.c))], hooks=HB),
    FnSpec('get_current', r'\bvp_pcur\(', s_0, post_get('m_current'), hooks=HB),
    FnSpec('get_range', r'\bvp_pgetrange\(', s_0, post_get('m_range'), hooks=HB),
    FnSpec('call_refresh', r'indicator_base::call_refresh\(', s_0, post_call, hooks=[h for h in HB if h[1] is not c_call]),
    FnSpec('refresh of a sub-indicator', r'subindicator::refresh\(', lambda S, e: [sub(S, e)], post_refresh, hooks=HS, cases=(True, False), **AX),
    FnSpec('done', r'\bvp_idone\(', lambda S, e: [sub(S, e)], post_done, hooks=HI, cases=(True, False), **AX),
    FnSpec('init of a sub-indicator', r'\bvp_iinit\(', s_init, post_init, hooks=HI, cases=(True, False), **AX),
    FnSpec('setup', r'\bvp_isetup\(', s_setup, post_setup, hooks=HS, cases=(True,), **AX),
    FnSpec('constructor', r'\bvp_inew\(', s_new, lambda S, o, r, a, e: post_setup(S, o, r, a, e) + [('no step done', Eq(S.get(e.t, 'm_current'), 0)), ('no range yet', Eq(R(S, e), 0))], hooks=HS, **AX),
]
BOUNDED = [('nested sub-indicators and fractional progress as a whole', 'random trees up to four levels deep for a fixed number of seconds')]
ASSUME = ['range times outer range fits in 64 bits', 'a sub-indicator is given its range before its first step and at most once', 'strings, log groups and the clock have no effect on the counters']
