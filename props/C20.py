"""The B-tree builder: how nodes are made from the items pushed, of which sizes, and which node becomes the root.

Every level is a queue: nodes are appended at one end and taken from the other, so the k-th node of a level covers
the items behind those of the nodes before it. F[q] and B[q] are the numbers of the first and one past the last
element of queue q (items, leaves, and the internal nodes of every level)."""
import re
from lib import *
from lib import _fresh
import C19
from C19 import garray, event, EV, G, word, wd, same, result, nothing, AUG, STO

ID = 'C20'
TU = 'btree'
HARNESS = 'btree'
SCENARIOS = ['build']
STANDIN_SECS = 30
SEARCH_SECS = 90
KEEP = C19.KEEP + [r'combined_augmenter']
DYN, STA = r'builder<unsigned long, tpie::bbits::Opt<1, .*>>::', r'builder<unsigned long, tpie::bbits::Opt<3, .*>>::'
REC = Struct([(0, Cell(8, 'i')), (8, Cell(8, 'i'))], 16)


def b_setup(S, e, level=None):
    S.ex.spec_env = e
    e.J, e.T = z3.Int('J'), z3.Int('T')
    e.b = S.obj('builder', 'param', Struct([(i, Cell(8, 'i')) for i in range(0, 280, 8)], 280), 280)
    e.minl, e.maxl, e.mini, e.maxi = [S.int(n, 64, 1, 2 ** 30) for n in ('min leaf', 'max leaf', 'min internal', 'max internal')]
    # the declared fan-out: a node of the maximum size plus one can be split in two
    S.assume(e.maxl + 1 >= 2 * e.minl, e.maxi + 1 >= 2 * e.mini, e.mini >= 2)
    e.ITEMS, e.LEAVES, e.INTS, e.UP, e.NEW, e.NAUG = garray(S, 'items'), garray(S, 'leaves', REC), garray(S, 'nodes', REC), garray(S, 'nodes above', REC), garray(S, 'new'), garray(S, 'new augment')
    e.fi, e.fl, e.ff, e.fu = [S.int('first ' + n, 64, 0, 2 ** 40) for n in ('item', 'leaf', 'node', 'node above')]
    e.ni, e.nl, e.nn, e.nu = [S.int('number of ' + n, 64, 0, 2 ** 40) for n in ('items', 'leaves', 'nodes', 'nodes above')]
    e.levels = S.int('levels', 64, 0, 2 ** 30)
    e.SZ = garray(S, 'sizes')
    for k, f, n in (('items', e.fi, e.ni), ('leaves', e.fl, e.nl), ('nodes', e.ff, e.nn), ('nodes above', e.fu, e.nu)):
        S.st.ghost['f:' + k] = f
        S.st.ghost['b:' + k] = norm(f + n)
    S.st.ghost.update(levels=e.levels, sets=0, made=0)
    e.level = level
    return e.b


def queue(ex, st, p):
    """which queue a deque is"""
    e = ex.spec_env
    if p.obj is e.b.obj and is_c(p.off):
        return {0: 'items', 80: 'leaves'}[p.off]
    q = getattr(p.obj, 'q', None)
    if q:
        return q
    raise Unsupported('a deque the contract does not know')


ARR = {'items': 'ITEMS', 'leaves': 'LEAVES', 'nodes': 'INTS', 'nodes above': 'UP'}
STRIDE = {'items': 8, 'leaves': 16, 'nodes': 16, 'nodes above': 16}


def q_size(ex, st, ins, args, dn):
    q = queue(ex, st, args[0])
    return VInt(norm(G(st, 'b:' + q) - G(st, 'f:' + q)), 64)


def q_empty(ex, st, ins, args, dn):
    q = queue(ex, st, args[0])
    return VBool(Eq(G(st, 'b:' + q), G(st, 'f:' + q)))


def q_front(ex, st, ins, args, dn):
    q = queue(ex, st, args[0])
    ex.oblige(st, 'front: the queue of %s is not empty' % q, 'pre', G(st, 'f:' + q) < G(st, 'b:' + q))
    return VPtr(getattr(ex.spec_env, ARR[q]).obj, norm(G(st, 'f:' + q) * STRIDE[q]))


def q_pop(ex, st, ins, args, dn):
    q = queue(ex, st, args[0])
    ex.oblige(st, 'pop_front: the queue of %s is not empty' % q, 'pre', G(st, 'f:' + q) < G(st, 'b:' + q))
    gset(ex, st, 'f:' + q, norm(G(st, 'f:' + q) + 1))


def q_push(ex, st, ins, args, dn):
    q = queue(ex, st, args[0])
    b = G(st, 'b:' + q)
    arr = getattr(ex.spec_env, ARR[q])
    if q == 'items':
        v = ex.load(st, args[1], ('i', 64)) if isinstance(args[1], VPtr) else args[1]
        ex.poke(st, VPtr(arr.obj, norm(b * 8)), v)
        event(ex, st, 'push', q, ex.as_u(st, v))
    else:
        n = ex.load(st, args[1], ('ptr',))
        a = ex.load(st, VPtr(args[1].obj, norm(args[1].off + 8)), ('i', 64))
        ex.poke(st, VPtr(arr.obj, norm(b * 16)), VInt(wd(ex, st, n), 64))
        ex.poke(st, VPtr(arr.obj, norm(b * 16 + 8)), a)
        event(ex, st, 'push', q, wd(ex, st, n), ex.as_u(st, a))
    gset(ex, st, 'b:' + q, norm(b + 1))


def v_levels(ex, st, ins, args, dn):
    return VInt(st.ghost['levels'], 64)


def lv_obj(ex, st, q):
    o = Obj('queue ' + q, 'local', Struct([(i, Cell(8, 'i')) for i in range(0, 80, 8)], 80), 80)
    o.q = q
    st.objs[o.id] = o
    return VPtr(o, 0)


def v_level(ex, st, ins, args, dn):
    """m_internal_nodes[i]: the level the nodes come from, or the one above"""
    e = ex.spec_env
    i = Z(ex.as_u(st, args[1]))
    ex.oblige(st, 'level: it exists', 'pre', And(0 <= i, i < G(st, 'levels')))
    for q, k in (('nodes', e.level), ('nodes above', None if e.level is None else e.level + 1)):
        if k is not None and not ex.light.feasible(st.pc, z3.Not(Eq(i, k)) if not isinstance(Eq(i, k), bool) else (not Eq(i, k))):
            return lv_obj(ex, st, q)
    raise Unsupported('another level')


def v_grow(ex, st, ins, args, dn):
    """a new level, empty"""
    e = ex.spec_env
    n = G(st, 'levels')
    up = 'nodes above'
    k = e.level + 1
    ex.oblige(st, 'a level is added only above the highest', 'pre', Eq(n, k))
    gset(ex, st, 'levels', norm(n + 1))
    gset(ex, st, 'f:' + up, 0)
    gset(ex, st, 'b:' + up, 0)
    event(ex, st, 'grow')
    return args[0] if ins.ty[0] != 'void' else None


# ------------------------------------------------------------------------------ the store, seen from here
def c_create(kind):
    def h(ex, st, ins, args, dn):
        event(ex, st, 'create', kind)
        return ex.spec_env.NEW
    return h


def isnew(ex, p):
    return isinstance(p, VPtr) and p.obj is ex.spec_env.NEW.obj


def c_count(ex, st, ins, args, dn):
    event(ex, st, 'count', isnew(ex, args[1]), Z(ex.as_u(st, args[2])))


def c_set(ex, st, ins, args, dn):
    ex.oblige(st, 'set: of the new node', 'pre', isnew(ex, args[1]))
    i = Z(ex.as_u(st, args[2]))
    ex.poke(st, VPtr(ex.spec_env.NEW.obj, norm(i * 8)), VInt(word(ex, st, args[3]), 64))
    gset(ex, st, 'last', i)


def c_setaug(ex, st, ins, args, dn):
    """set_augment: proved in C19; it needs the child to be in the node"""
    i = Z(st.ghost['last'])
    ex.oblige(st, 'set_augment: of the child just stored', 'pre', And(isnew(ex, args[2]), Eq(Ctx(ex, st).arr(ex.spec_env.NEW)(i), wd(ex, st, args[1]))))
    a = args[3]
    a = ex.as_u(st, a) if isinstance(a, VInt) else ex.as_u(st, a.v[0]) if isinstance(a, VAgg) else ex.as_u(st, ex.load(st, a, ('i', 64)))
    ex.poke(st, VPtr(ex.spec_env.NAUG.obj, norm(i * 8)), VInt(a, 64))


def c_node(ex, st, ins, args, dn):
    event(ex, st, 'node', isnew(ex, args[2]))


def c_augmenter(ex, st, ins, args, dn):
    """the augmentation of the new node, from its final entries"""
    event(ex, st, 'augment', st.ghost.get('f:items'), st.ghost.get('f:leaves'), st.ghost.get('f:nodes'))
    v = z3.Int('augment of new')
    ex.assume(st, And(0 <= v, v < 2 ** 64))
    return VInt(v, 64)


def c_lim(n):
    return lambda ex, st, ins, args, dn: VInt(getattr(ex.spec_env, n), 64)


def c_ret(f):
    return lambda ex, st, ins, args, dn: VInt(norm(f(ex.spec_env, st, ex)), 64)


LIM = [(r'::min_leaf_size\(', c_lim('minl')), (r'::max_leaf_size\(', c_lim('maxl')), (r'::min_internal_size\(', c_lim('mini')), (r'::max_internal_size\(', c_lim('maxi'))]
DQ = [(r'std::vector<std::deque<.*>::size\(', v_levels), (r'std::vector<std::deque<.*>::operator\[\]\(', v_level), (r'std::vector<std::deque<.*>::(push_back|emplace_back)', v_grow), (r'std::deque<.*>::size\(', q_size), (r'std::deque<.*>::empty\(', q_empty), (r'std::deque<.*>::front\(', q_front), (r'std::deque<.*>::pop_front\(', q_pop), (r'std::deque<.*>::push_back\(', q_push), (r'std::deque<.*>::(deque|~deque)\(', nothing)]
HC = [(r'::store\(\)', C19.h_same), (r'0ul, 0ul>::create_leaf\(', c_create('leaf')), (r'0ul, 0ul>::create_internal\(', c_create('internal')), (r'0ul, 0ul>::set_count\(', c_count), (r'0ul, 0ul>::set\(', c_set), (r'0ul, 0ul>::set_augment\(', c_setaug), (r'0ul, 0ul>::(flush|finalize_build)\(', nothing),
      (r'combined_augmenter::operator\(\)', c_augmenter), (r'btree_node<.*>::btree_node\(', c_node), (r'btree_node<.*>::~btree_node\(', nothing)] + DQ + LIM

Q0 = {'leaf': 'items', 'from_leaves': 'leaves', 'from_internal': 'nodes'}
QT = {'leaf': 'leaves', 'from_leaves': 'nodes above', 'from_internal': 'nodes above'}


def s_construct(kind):
    def f(S, e):
        lv = None
        b_setup(S, e)
        e.kind = kind
        n = {'leaf': e.ni, 'from_leaves': e.nl, 'from_internal': e.nn}[kind]
        e.f0 = {'leaf': e.fi, 'from_leaves': e.fl, 'from_internal': e.ff}[kind]
        e.size = S.int('size', 64, 1, 2 ** 40)
        S.assume(e.size <= n, e.size <= (e.maxl if kind == 'leaf' else e.maxi))
        args = [e.b, VInt(e.size, 64)]
        if kind == 'from_leaves':
            e.level = -1
        if kind == 'from_internal':
            e.level = S.int('level', 64, 0, 2 ** 30)
            S.assume(e.level < e.levels)
            args.append(VInt(e.level, 64))
        if kind == 'leaf':
            e.v0 = (S.arr(e.ITEMS),)
        else:
            src = e.LEAVES if kind == 'from_leaves' else e.INTS
            e.v0 = (S.arr(src), S.arr(src, 8))
        to = getattr(e, ARR[QT[kind]])
        e.b0, e.to0 = S.st.ghost['b:' + QT[kind]], (S.arr(to), S.arr(to, 8))
        return args
    return f


def inv_construct(L):
    e, S, st = L.e, L.S, L.st
    i = L.r['i']
    q = Q0[e.kind]
    new, naug = S.arr(e.NEW), S.arr(e.NAUG)
    out = [('entries so far', And(0 <= i, i <= e.size, Eq(G(st, 'f:' + q), e.f0 + i))), ('the next ones in order', Implies(And(0 <= e.J, e.J < i), Eq(new(e.J), e.v0[0](e.f0 + e.J))))]
    if e.kind != 'leaf':
        out.append(('with their augmentations', Implies(And(0 <= e.J, e.J < i), Eq(naug(e.J), e.v0[1](e.f0 + e.J)))))
    return out


def p_construct(S, old, r, args, e):
    st = S.st
    q, t = Q0[e.kind], QT[e.kind]
    new, naug = S.arr(e.NEW), S.arr(e.NAUG)
    cr, ct, nd, ag, pu = [EV(S, k) for k in ('create', 'count', 'node', 'augment', 'push')]
    nw = Z(S.ex.ptr_addr(st, e.NEW))
    to = getattr(e, ARR[t])
    new_level = bool(EV(S, 'grow'))
    out = [('one node of the right kind is made', [a[1] for a in cr] == ['leaf' if e.kind == 'leaf' else 'internal']), ('with this many entries', And(len(ct) == 1, *[And(a[1], Eq(a[2], e.size)) for a in ct])), ('they are the next of the queue, in order', Implies(And(0 <= e.J, e.J < e.size), Eq(new(e.J), e.v0[0](e.f0 + e.J)))),
           ('taken from the queue', Eq(G(st, 'f:' + q), e.f0 + e.size)), ('the augmentation is computed from the finished node', And(len(nd) == 1 and nd[0][1], len(ag) == 1, *[Eq(a[{'leaf': 1, 'from_leaves': 2, 'from_internal': 3}[e.kind]], e.f0 + e.size) for a in ag])),
           ('appended to the level above', And(len(pu) == 1, *[And(a[1] == t, Eq(a[2], nw), Eq(a[3], z3.Int('augment of new'))) for a in pu])), ('behind the nodes already there', Eq(G(st, 'b:' + t), 1 if new_level else Z(e.b0) + 1))]
    if e.kind != 'leaf':
        out += [('the augmentations of the children are stored', Implies(And(0 <= e.J, e.J < e.size), Eq(naug(e.J), e.v0[1](e.f0 + e.J)))), ('a level is added exactly if there was none above', Eq(new_level, Eq(e.levels, (0 if e.kind == 'from_leaves' else e.level + 1))))]
    return out


# ------------------------------------------------------------------------------ when nodes are made
def sizes(S, e):
    """between two pushes: fewer than would make a node, and enough for one where there are nodes above"""
    S.assume(*inv_queues(S, e, S.arr(e.SZ), e.ni, e.nl, e.levels))


def desired(S, e, w):
    mn, mx = (e.minl, e.maxl) if w == 'leaf' else (e.mini, e.maxi)
    return mx if e.static else UDIV(S, mn + mx, 2)


def tip(S, e, w):
    return desired(S, e, w) + (e.minl if w == 'leaf' else e.mini)


def level_ok(S, e, sz, levels, lo=0):
    """the levels from lo on: at least one node at the top, enough below it, fewer than would make a node"""
    d = tip(S, e, 'internal')
    return forall(1, lambda t: Implies(And(lo <= t, t < levels), And(1 <= sz(t), sz(t) < d, Implies(t < levels - 1, sz(t) >= e.mini))), lambda t: sz(t))


def inv_queues(S, e, sz, ni, nl, levels):
    return [0 <= ni, ni < tip(S, e, 'leaf'), 0 <= nl, nl < tip(S, e, 'internal'), Implies(nl > 0, ni >= e.minl), Implies(levels > 0, nl >= e.mini), level_ok(S, e, sz, levels)]


def s_flow(static):
    def f(S, e):
        b_setup(S, e)
        e.static = static
        e.sz0 = S.arr(e.SZ)
        S.st.ghost.update(ni=e.ni, nl=e.nl)
        return [e.b]
    return f


def f_size(ex, st, ins, args, dn):
    e = ex.spec_env
    p = args[0]
    if p.obj is e.b.obj:
        return VInt(st.ghost[{0: 'ni', 80: 'nl'}[p.off]], 64)
    if p.obj is e.SZ.obj:
        return VInt(ex.as_u(st, ex.load(st, p, ('i', 64))), 64)
    raise Unsupported('another deque')


def f_level(ex, st, ins, args, dn):
    i = Z(ex.as_u(st, args[1]))
    ex.oblige(st, 'level: it exists', 'pre', And(0 <= i, i < G(st, 'levels')))
    return VPtr(ex.spec_env.SZ.obj, norm(i * 8))


def f_back(ex, st, ins, args, dn):
    n = G(st, 'levels')
    ex.oblige(st, 'back: there is a level', 'pre', n >= 1)
    return VPtr(ex.spec_env.SZ.obj, norm((n - 1) * 8))


def final(ex, st, e, what, size, have, above, mn, mx):
    """a node made: its size is within the limits; only the root may be smaller, and it takes all there is"""
    ex.oblige(st, '%s: not more than there are, and within the maximum' % what, 'pre', And(1 <= size, size <= have, size <= mx))
    ex.oblige(st, '%s: at least the minimum, unless it becomes the root' % what, 'pre', Or(size >= mn, And(Eq(above, 0), Eq(size, have))))
    # what is left can still be made into nodes of at least the minimum
    gset(ex, st, 'made', norm(G(st, 'made') + 1))


def f_leaf(ex, st, ins, args, dn):
    """construct_leaf: proved above"""
    e, n = ex.spec_env, Z(ex.as_u(st, args[1]))
    final(ex, st, e, 'leaf', n, G(st, 'ni'), G(st, 'nl'), e.minl, e.maxl)
    gset(ex, st, 'ni', norm(G(st, 'ni') - n))
    gset(ex, st, 'nl', norm(G(st, 'nl') + 1))


def f_up(ex, st, e, i):
    """one more node at level i; the level is added if it is the next one"""
    n = G(st, 'levels')
    ex.oblige(st, 'the level above exists or is the next', 'pre', And(i >= 0, i <= n))
    sz = Ctx(ex, st).arr(e.SZ)
    ex.poke(st, VPtr(e.SZ.obj, norm(i * 8)), VInt(norm(If(i < n, sz(i) + 1, 1)), 64))
    gset(ex, st, 'levels', norm(If(i < n, n, n + 1)))


def f_fromleaves(ex, st, ins, args, dn):
    e, n = ex.spec_env, Z(ex.as_u(st, args[1]))
    final(ex, st, e, 'node from leaves', n, G(st, 'nl'), G(st, 'levels'), e.mini, e.maxi)
    ex.oblige(st, 'node from leaves: no node with a single child', 'pre', n >= 2)
    gset(ex, st, 'nl', norm(G(st, 'nl') - n))
    f_up(ex, st, e, z3.IntVal(0))


def f_fromnodes(ex, st, ins, args, dn):
    e, n, i = ex.spec_env, Z(ex.as_u(st, args[1])), Z(ex.as_u(st, args[2]))
    sz, lv = Ctx(ex, st).arr(e.SZ), G(st, 'levels')
    final(ex, st, e, 'node from nodes', n, sz(i), If(i + 1 < lv, 1, 0), e.mini, e.maxi)
    ex.oblige(st, 'node from nodes: no node with a single child', 'pre', And(n >= 2, 0 <= i, i < lv))
    ex.poke(st, VPtr(e.SZ.obj, norm(i * 8)), VInt(norm(sz(i) - n), 64))
    f_up(ex, st, e, norm(i + 1))


FL = [(r'std::vector<std::deque<.*>::size\(', v_levels), (r'std::vector<std::deque<.*>::operator\[\]\(', f_level), (r'std::vector<std::deque<.*>::back\(', f_back), (r'std::deque<.*>::size\(', f_size), (r'::construct_leaf\(', f_leaf), (r'::construct_internal_from_leaves\(', f_fromleaves), (r'::construct_internal_from_internal\(', f_fromnodes)] + LIM


def d_hook(w, t):
    def h(ex, st, ins, args, dn):
        S = Ctx(ex, st)
        return VInt(norm((tip if t else desired)(S, ex.spec_env, w)), 64)
    return h


DES = [(r'::desired_leaf_size\(', d_hook('leaf', 0)), (r'::leaf_tipping_point\(', d_hook('leaf', 1)), (r'::desired_internal_size\(', d_hook('internal', 0)), (r'::internal_tipping_point\(', d_hook('internal', 1))]


def s_const(static):
    def f(S, e):
        b_setup(S, e)
        e.static = static
        return []
    return f


def p_const(w, t):
    return lambda S, old, r, args, e: [('the value', Eq(r, (tip if t else desired)(S, e, w)))]


def s_extract(static):
    g = s_flow(static)

    def f(S, e):
        a = g(S, e)
        q = inv_queues(S, e, e.sz0, 0, e.nl, e.levels)
        S.assume(Eq(e.ni, tip(S, e, 'leaf')), *q[2:4], q[5], q[6])
        return a
    return f


def after_levels(S, e, i):
    """while the levels are gone through: level i may have one node more"""
    st = S.st
    sz, lv = S.arr(e.SZ), G(st, 'levels')
    d = tip(S, e, 'internal')
    return And(0 <= i, i <= lv, lv >= 1, lv <= e.levels + i + 1, lv <= 2 ** 40, Implies(i < lv, And(1 <= sz(i), sz(i) <= d, Implies(i < lv - 1, sz(i) >= e.mini + 1))), forall(1, lambda t: Implies(And(0 <= t, t < lv, Not(Eq(t, i))), And(1 <= sz(t), sz(t) < d, Implies(t < lv - 1, sz(t) >= e.mini))), lambda t: e.sz0(t)))


def inv_extract(L):
    e, S, st = L.e, L.S, L.st
    i = L.r['i']
    sz, lv = S.arr(e.SZ), G(st, 'levels')
    return [('a node is added at most at every level', And(Implies(Eq(lv, e.levels + 1), And(Eq(i, e.levels), Eq(sz(i), 1))), 0 <= i, i <= lv, 1 <= lv, lv <= e.levels + 1, i <= e.levels, Eq(G(st, 'ni'), e.minl), Eq(G(st, 'nl'), e.mini))), ('the level has at most one node more', And(1 <= sz(i), sz(i) <= tip(S, e, 'internal'), i < lv, Implies(i < lv - 1, sz(i) >= e.mini + 1))),
            ('the levels below are right', forall(1, lambda t: Implies(And(0 <= t, t < i), And(1 <= sz(t), sz(t) < tip(S, e, 'internal'), sz(t) >= e.mini)), lambda t: e.sz0(t))), ('the levels above are as before', And(forall(1, lambda t: Implies(And(i < t, t < lv), Eq(sz(t), e.sz0(t))), lambda t: e.sz0(t)), Implies(i + 1 < lv, Eq(lv, e.levels)), lv >= e.levels))]


def p_extract(S, old, r, args, e):
    st = S.st
    sz, ni, nl, lv = S.arr(e.SZ), G(st, 'ni'), G(st, 'nl'), G(st, 'levels')
    q = inv_queues(S, e, sz, ni, nl, lv)
    T = e.T
    S.assume(e.sz0(T) >= 0)
    return [('items left: not enough for another leaf, enough for the last', And(ni >= e.minl, ni < tip(S, e, 'leaf'))), ('leaves left: not enough for another node, enough for the last', And(nl >= 1, nl < tip(S, e, 'internal'), Implies(lv > 0, nl >= e.mini))),
            ('the same on every level', Implies(And(0 <= T, T < lv), And(1 <= sz(T), sz(T) < tip(S, e, 'internal'), Implies(T < lv - 1, sz(T) >= e.mini))))]


# ------------------------------------------------------------------------------ push
def s_push(static):
    g = s_flow(static)

    def f(S, e):
        a = g(S, e)
        S.assume(Implies(True, And(0 <= e.ni, e.ni < tip(S, e, 'leaf'))))
        e.v, e.size = S.int('v', 64), S.int('size', 64, 0, 2 ** 60)
        S.ex.poke(S.st, VPtr(e.b.obj, 272), VInt(e.size, 64))
        return a + [VInt(e.v, 64)]
    return f


def h_pushitem(ex, st, ins, args, dn):
    e = ex.spec_env
    ex.oblige(st, 'push_back: to the items', 'pre', args[0].obj is e.b.obj and Eq(args[0].off, 0))
    v = ex.load(st, args[1], ('i', 64)) if isinstance(args[1], VPtr) else args[1]
    event(ex, st, 'push', ex.as_u(st, v))
    gset(ex, st, 'ni', norm(G(st, 'ni') + 1))


def h_extract(ex, st, ins, args, dn):
    event(ex, st, 'extract', G(st, 'ni'))


def p_push(S, old, r, args, e):
    pu, x = EV(S, 'push'), EV(S, 'extract')
    return [('the item is appended', And(len(pu) == 1, *[Eq(a[1], e.v) for a in pu])), ('counted', Eq(S.get(VPtr(e.b.obj, 272)), e.size + 1)), ('nodes are made exactly when there are enough items', And(len(x) <= 1, Eq(len(x) == 1, Eq(e.ni + 1, tip(S, e, 'leaf'))))), ('after the item is there', [a[0] for a in EV(S)][:1] == ['push'])]


# ------------------------------------------------------------------------------ build
def s_build(static):
    g = s_flow(static)

    def f(S, e):
        a = g(S, e)
        sizes(S, e)
        e.total = S.int('size', 64, 0, 2 ** 60)
        S.ex.poke(S.st, VPtr(e.b.obj, 272), VInt(e.total, 64))
        e.ret = S.obj('tree', 'param', Struct([(i, Cell(8, 'i')) for i in range(0, 96, 8)], 96), 96)
        e.meta = S.obj('metadata', 'param', Struct([(i, Cell(8, 'i')) for i in range(0, 32, 8)], 32), 32)
        e.mlen = S.int('metadata length', 64, 0, 2 ** 40)
        S.assume(Implies(Eq(e.nl, 0), Or(e.levels >= 0)))
        return [e.ret, e.b, e.meta]
    return f


def inv_build(L):
    e, S, st = L.e, L.S, L.st
    i = L.r['i']
    sz, lv = S.arr(e.SZ), G(st, 'levels')
    d = tip(S, e, 'internal')
    return [('levels so far', And(0 <= i, Eq(G(st, 'ni'), 0), lv >= e.levels, i <= lv, lv <= e.levels + 2, Implies(And(lv > e.levels, i < lv), i >= e.levels), Implies(And(Eq(lv, e.levels + 1), Eq(i, e.levels)), sz(i) <= 3), Implies(And(Eq(lv, e.levels + 2), i < lv), And(Eq(i, e.levels + 1), Eq(sz(i), 1))), Implies(lv >= 1, Eq(G(st, 'nl'), 0)), Implies(Eq(lv, 0), And(G(st, 'nl') <= 1, Eq(i, 0), Eq(Eq(G(st, 'nl'), 0), And(Eq(e.ni, 0), Eq(e.nl, 0), Eq(e.levels, 0))))))),
            ('every level below is used up', forall(1, lambda t: Implies(And(0 <= t, t < i), If(Eq(t, lv - 1), Eq(sz(t), 1), Eq(sz(t), 0))), lambda t: e.sz0(t))),
            ('this level has at most three more', Implies(i < lv, And(1 <= sz(i), sz(i) <= d + 2, Implies(i < lv - 1, sz(i) >= e.mini)))), ('the levels above are as before', And(forall(1, lambda t: Implies(And(i < t, t < lv), Eq(sz(t), e.sz0(t))), lambda t: e.sz0(t)), Implies(i + 1 < lv, Eq(lv, e.levels)))),
            ('the tree is not done before the top level', Implies(And(Eq(i, lv), i >= 1), Eq(sz(i - 1), 1)))]


def h_meta(ex, st, ins, args, dn):
    return VInt(ex.spec_env.mlen, 64)


def b_ev(nm):
    def h(ex, st, ins, args, dn):
        event(ex, st, nm, *[a.e if isinstance(a, VInt) else wd(ex, st, a) if isinstance(a, (VPtr, VOpq)) else 0 for a in args[1:]])
        return None
    return h


def b_front(ex, st, ins, args, dn):
    """the first node left of a level (or leaf)"""
    e = ex.spec_env
    p = args[0]
    leaf = p.obj is e.b.obj and Eq(p.off, 80)
    n = G(st, 'nl') if leaf else ex.as_u(st, ex.load(st, p, ('i', 64)))
    ex.oblige(st, 'front: there is one', 'pre', Z(n) >= 1)
    o = Obj('summary', 'local', REC, 16)
    st.objs[o.id] = o
    v = z3.Int('the leaf') if leaf else z3.Function('node_of_level', I, I)(norm(Z(p.off) / 8 if not is_c(p.off) else p.off // 8))
    ex.assume(st, And(0 < v, v < 2 ** 62))
    gset(ex, st, 'root from', 'leaf' if leaf else 'node')
    ex.poke(st, VPtr(o, 0), VInt(v, 64))
    return VPtr(o, 0)


BH = [(r'::store\(\)', C19.h_same), (r'0ul, 0ul>::set_size\(', b_ev('size')), (r'0ul, 0ul>::set_height\(', b_ev('height')), (r'0ul, 0ul>::set_root\(', b_ev('root')), (r'0ul, 0ul>::flush\(', b_ev('flush')), (r'0ul, 0ul>::set_metadata\(', b_ev('metadata')), (r'0ul, 0ul>::finalize_build\(', b_ev('finalize')), (r'basic_string<.*>::size\(', h_meta),
      (r'std::deque<.*>::front\(', b_front), (r'bbits::tree<.*>::tree\(', b_ev('tree')), (r'tree_state<.*>::(tree_state|~tree_state)\(', nothing), (r'internal_store<.*>::(internal_store|~internal_store)\(', nothing)] + FL + DES


def p_build(S, old, r, args, e):
    st = S.st
    sz, lv = S.arr(e.SZ), G(st, 'levels')
    T = e.T
    S.assume(e.sz0(T) >= 0, e.sz0(lv - 1) >= 0)
    ev = {k: EV(S, k) for k in ('size', 'height', 'root', 'metadata', 'tree', 'finalize')}
    empty = And(Eq(lv, 0), Eq(G(st, 'nl'), 0))
    out = [('every item is in a leaf', Eq(G(st, 'ni'), 0)), ('the size is the number of items pushed', And(len(ev['size']) == 1, *[Eq(Z(a[1]), e.total) for a in ev['size']])), ('all leaves hang below internal nodes, or there is a single one', If(Eq(lv, 0), G(st, 'nl') <= 1, Eq(G(st, 'nl'), 0))),
           ('every level below the top is used up', Implies(And(0 <= T, T < lv - 1), Eq(sz(T), 0))), ('the top level has one node', Implies(lv >= 1, Eq(sz(norm(lv - 1)), 1))), ('the height is the number of levels', And(len(ev['height']) == 1, *[Eq(Z(a[1]), If(empty, 0, lv + 1)) for a in ev['height']])),
           ('the empty tree only if nothing was pushed', Eq(empty, And(Eq(e.ni, 0), Eq(e.nl, 0), Eq(e.levels, 0)))), ('metadata is stored exactly if given', Eq(len(ev['metadata']) == 1, e.mlen > 0)), ('the tree is made from the finished store', len(ev['tree']) == 1 and len(ev['finalize']) == 1)]
    if ev['root']:
        frm = st.ghost.get('root from')
        v = ev['root'][-1][1]
        top = z3.Function('node_of_level', I, I)(norm(lv - 1))
        out.append(('the root is the single leaf or the single top node', And(len(ev['root']) == 1, If(Eq(lv, 0), And(frm == 'leaf', Eq(v, z3.Int('the leaf'))), And(frm != 'leaf', Eq(v, top))))))
    else:
        out.append(('a root unless the tree is empty', empty))
    return out


FNS = []


def F(name, fn, setup, post=None, **k):
    FNS.append(FnSpec(name, fn, setup, post, **k))


for st_, pre in ((False, DYN), (True, STA)):
    k = ' static' if st_ else ''
    ini = lambda kind: (LoopSpec(r'construct_', inv_construct, roles={'i': r'.*'}),)
    F('construct_leaf' + k, pre + r'construct_leaf\(', s_construct('leaf'), p_construct, hooks=HC, loops=ini(0))
    F('construct_internal_from_leaves' + k, pre + r'construct_internal_from_leaves\(', s_construct('from_leaves'), p_construct, hooks=HC, loops=ini(0))
    F('construct_internal_from_internal' + k, pre + r'construct_internal_from_internal\(', s_construct('from_internal'), p_construct, hooks=HC, loops=ini(0))
    for nm, w, t in (('desired_leaf_size', 'leaf', 0), ('leaf_tipping_point', 'leaf', 1), ('desired_internal_size', 'internal', 0), ('internal_tipping_point', 'internal', 1)):
        F(nm + k, pre + nm + r'\(', s_const(st_), result(p_const(w, t)), hooks=LIM + ([DES[0], DES[2]] if t else []))
    F('extract_nodes' + k, pre + r'extract_nodes\(', s_extract(st_), p_extract, hooks=FL + DES, loops=(LoopSpec(r'extract_nodes', inv_extract, roles={'i': r'.*'}),))
    F('push' + k, pre + r'push\(', s_push(st_), p_push, hooks=[(r'::extract_nodes\(', h_extract), (r'std::deque<.*>::push_back\(', h_pushitem)] + FL + DES)
    F('build' + k, pre + r'build\(', s_build(st_), p_build, hooks=BH, loops=(LoopSpec(r'build', inv_build, roles={'i': r'.*'}),))
LEMMAS = []
BOUNDED = [('serialized trees (leaf boundaries by bytes, block compression), external stores and reopening them, lookups in the built tree: the driver', 'btree driver, scenario build: 0 to 9000 items around powers of the fan-out, fan-outs <2,4> to <16,64>, internal/external/static/serialized, stated seeds; the tree is iterated, checked for sizes and height, searched, and changed afterwards')]
ASSUME = ['std::deque, std::vector and the store of nodes by their contracts (the store in memory is proved in C19)', 'maximum + 1 >= 2 x minimum, and a minimum of at least 2 for internal nodes', 'fewer than 2^40 nodes per level; memory allocation succeeds', 'that queues of levels hand every node to exactly one parent in order gives the order of the items (composition of the queue contracts, not a machine-checked induction over levels)', 'items are pushed in order by the caller']
