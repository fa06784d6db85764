"""B-trees: the steps that change nodes, the descent and the in-leaf search, over an opaque store of nodes.

A node is a ghost sequence of words (elements of a leaf, children of an internal node) with a count; the limits
are arbitrary. J is an arbitrary index, T an arbitrary level of a path."""
import re
from lib import *
from lib import _fresh
import C10

ID = 'C19'
TU = 'btree'
HARNESS = 'btree'
SCENARIOS = ['internal', 'external', 'unordered']
STANDIN_SECS = 30
SEARCH_SECS = 90
KEEP = [r'internal_store<', r'^(.* )?tpie::bbits::tree<', r'tpie::bbits::builder<', r'^(.* )?std::vector<', r'^(.* )?std::deque<', r'tree_state<', r'btree_node', r'btree_iterator', r'^std::__cxx11']
BIG = 2 ** 40
AUG = r'empty_augmenter>>::'
STO = r'combined_augment, 0ul, 0ul>::'
NODE = r'.*combined_augment, 0ul, 0ul>::internal\*'
LEAF = r'.*combined_augment, 0ul, 0ul>::leaf\*'
LESS = z3.Function('less', I, I, z3.BoolSort())


def garray(S, name, el=None):
    el = el or Cell(8, 'i')
    o = Obj(name, 'global', Arr(el.size, 2 ** 55, el), 2 ** 62)
    o.gname = name
    S.st.objs[o.id] = o
    p = VPtr(o, 0)
    for off in range(0, el.size, 8):
        S.arr(p, off)
    return p


def event(ex, st, *a):
    gset(ex, st, 'log', st.ghost.get('log', ()) + (a,))


def EV(S, kind=None):
    return [a for a in S.st.ghost.get('log', ()) if kind is None or a[0] == kind]


def result(p):
    def q(S, old, r, args, e):
        return p(S, old, r.e if isinstance(r, VBool) else (S.ex.as_u(S.st, r) if isinstance(r, VInt) else r), args, e)
    return q


# ------------------------------------------------------------------------------ nodes by name
def name_of(ex, p):
    for n, q in ex.spec_env.nodes.items():
        if isinstance(p, VPtr) and p.obj is q.obj:
            return n
    raise Unsupported('a node the contract does not know')


def tree(S, e, counts):
    S.ex.spec_env = e
    e.J = z3.Int('J')
    e.t = S.obj('tree', 'param', Struct([(i, Cell(8, 'i')) for i in range(0, 96, 8)], 96), 96)
    e.min, e.max = S.int('min', 64, 1, 2 ** 30), S.int('max', 64, 2, 2 ** 31)
    e.pmin = S.int('parent min', 64, 2, 2 ** 30)
    S.assume(e.max + 1 >= 2 * e.min)
    e.nodes, e.c0, e.a0 = {}, {}, {}
    for n in counts:
        e.nodes[n] = garray(S, 'node_' + n)
        e.c0[n] = S.int('count_' + n, 64, 0, BIG)
        S.st.ghost['c:' + n] = e.c0[n]
        e.a0[n] = S.arr(e.nodes[n])
    e.pos = {}
    return e.t


def cnt(S, n):
    return S.st.ghost['c:' + n]


def word(ex, st, v):
    if isinstance(v, (VPtr, VOpq)):
        return Z(ex.ptr_addr(st, v))
    return Z(ex.as_u(st, v))


def kid(S, e, n):
    """the word stored for a child"""
    return word(S.ex, S.st, e.nodes[n])


def h_count(ex, st, ins, args, dn):
    return VInt(st.ghost['c:' + name_of(ex, args[1])], 64)


def h_set_count(ex, st, ins, args, dn):
    gset(ex, st, 'c:' + name_of(ex, args[1]), ex.as_u(st, args[2]))


def h_move(ex, st, ins, args, dn):
    e = ex.spec_env
    a, b = e.nodes[name_of(ex, args[1])], e.nodes[name_of(ex, args[3])]
    i, j = Z(ex.as_u(st, args[2])), Z(ex.as_u(st, args[4]))
    ex.oblige(st, 'move: within the node', 'pre', And(0 <= i, 0 <= j, j < node_max(e, name_of(ex, args[3]))))
    v = ex.load(st, VPtr(a.obj, norm(i * 8)), ('i', 64))
    ex.poke(st, VPtr(b.obj, norm(j * 8)), v)


def node_max(e, n):
    return e.max if n != 'p' else BIG


def h_set(ex, st, ins, args, dn):
    e = ex.spec_env
    n = name_of(ex, args[1])
    i = Z(ex.as_u(st, args[2]))
    ex.oblige(st, 'set: within the node', 'pre', And(0 <= i, i < node_max(e, n)))
    ex.poke(st, VPtr(e.nodes[n].obj, norm(i * 8)), VInt(word(ex, st, args[3]), 64))


def h_augment(ex, st, ins, args, dn):
    e = ex.spec_env
    if isinstance(args[1], VPtr):
        event(ex, st, 'augment', name_of(ex, args[1]), name_of(ex, args[2]), tuple(sorted((k, v) for k, v in st.ghost.items() if str(k).startswith('c:'))), args[1])


def h_create(ex, st, ins, args, dn):
    e = ex.spec_env
    event(ex, st, 'create')
    if len(EV(Ctx(ex, st), 'create')) > 1 or 'new' not in e.nodes:
        raise Unsupported('another node')
    return e.nodes['new']


def h_destroy(ex, st, ins, args, dn):
    event(ex, st, 'destroy', name_of(ex, args[1]))


def h_index(ex, st, ins, args, dn):
    """store::index: proved below"""
    e = ex.spec_env
    if name_of(ex, args[2]) != 'p':
        raise Unsupported('another parent')
    return VInt(norm(e.pos[name_of(ex, args[1])]), 64)


def h_child(ex, st, ins, args, dn):
    e = ex.spec_env
    if name_of(ex, args[1]) != 'p':
        raise Unsupported('another parent')
    i = Z(ex.as_u(st, args[2]))
    for n, p in e.pos.items():
        if not ex.light.feasible(st.pc, z3.Not(i == Z(p))):
            ex.oblige(st, 'child: it exists', 'pre', And(0 <= i, i < Z(e.c0['p'])))
            return e.nodes[n]
    raise Unsupported('a child the contract does not know')


def h_count_child(ex, st, ins, args, dn):
    return VInt(st.ghost['c:' + name_of(ex, h_child(ex, st, ins, args, dn))], 64)


def h_lim(w):
    def h(ex, st, ins, args, dn):
        e = ex.spec_env
        n = name_of(ex, args[-1]) if args and isinstance(args[-1], VPtr) else None
        return VInt(e.pmin if n == 'p' and w == 'min' else getattr(e, w), 64)
    return h


def h_same(ex, st, ins, args, dn):
    return args[0]


HN = [(STO + r'count\(', h_count), (STO + r'set_count\(', h_set_count), (STO + r'move\(', h_move), (STO + r'set\(', h_set), (AUG + r'augment\(', h_augment), (STO + r'create(_leaf|_internal)?\(', h_create), (STO + r'destroy\(', h_destroy),
      (STO + r'index\(', h_index), (STO + r'get_child_(leaf|internal)\(|' + AUG + r'get_child\(', h_child), (STO + r'count_child_(leaf|internal)\(|' + AUG + r'count_child\(', h_count_child), (AUG + r'max_size\(', h_lim('max')), (AUG + r'min_size\(', h_lim('min')), (AUG + r'store\(\)', h_same)]


def child_arg(S, e, kind):
    """the entry inserted: a value, or a node"""
    if kind == 'value':
        e.v = S.int('v', 64)
        return VInt(e.v, 64)
    e.nodes['x'] = garray(S, 'node_x')
    S.st.ghost['c:x'] = S.int('count_x', 64, 0, BIG)
    e.v = kid(S, e, 'x')
    return e.nodes['x']


def s_insert(kind):
    def f(S, e):
        tree(S, e, ['n'])
        S.assume(e.c0['n'] < e.max)
        e.index = S.int('index', 64, 0, BIG)
        S.assume(e.index <= e.c0['n'])
        x = child_arg(S, e, kind)
        e.kind = kind
        return [e.t, e.nodes['n'], x, VInt(e.index, 64)]
    return f


def inserted(a0, n, at, v, j):
    """entry j of the sequence a0 of length n with v inserted at position at"""
    return If(j < at, a0(j), If(Eq(j, at), v, a0(j - 1)))


def same(a, a0, lo, hi):
    """a(K) = a0(K) for K in [lo, hi)"""
    return forall(1, lambda k: Implies(And(lo <= k, k < hi), Eq(a(k), a0(k))), lambda k: a0(k))


def inv_insert(L):
    e, S = L.e, L.S
    a, i, z = S.arr(e.nodes['n']), L.r['i'], e.c0['n']
    return [('the gap', And(e.index <= i, i <= z)), ('before it nothing changed', same(a, e.a0['n'], 0, i)),
            ('after it moved by one', Implies(And(i < e.J, e.J <= z), Eq(a(e.J), e.a0['n'](e.J - 1))))]


def p_insert(S, old, r, args, e):
    z = e.c0['n']
    a = S.arr(e.nodes['n'])
    out = [('one more entry', Eq(cnt(S, 'n'), z + 1)), ('the entries with the new one at its place', Implies(And(0 <= e.J, e.J <= z), Eq(a(e.J), inserted(e.a0['n'], z, e.index, e.v, e.J))))]
    if e.kind == 'node':
        ag = EV(S, 'augment')
        out.append(('the augmentation of the new child is stored', len(ag) >= 1 and ag[-1][1:3] == ('x', 'n')))
        out.append(('... when the child is there', Eq(dict(ag[-1][3])['c:n'], z + 1) if ag else False))
    return out


def h_insert_part(ex, st, ins, args, dn):
    """insert_part: proved above"""
    e, S = ex.spec_env, Ctx(ex, st)
    n = name_of(ex, args[1])
    at, z = Z(ex.as_u(st, args[3])), Z(st.ghost['c:' + n])
    ex.oblige(st, 'insert_part: there is room, the place is in the node', 'pre', And(z < e.max, 0 <= at, at <= z))
    event(ex, st, 'part', n, at, word(ex, st, args[2]), z)
    gset(ex, st, 'c:' + n, norm(z + 1))


def s_split(kind):
    def f(S, e):
        tree(S, e, ['left', 'new'])
        S.assume(Eq(e.c0['left'], e.max))
        e.index = S.int('index', 64, 0, BIG)
        S.assume(e.index <= e.max)
        x = child_arg(S, e, kind)
        return [e.t, x, e.nodes['left'], VInt(e.index, 64)]
    return f


def inv_split(L):
    e, S = L.e, L.S
    i = L.r['i']
    half = UDIV(S, e.max, 2)
    ls = If(e.index <= half, half, e.max - half)
    new, a0 = S.arr(e.nodes['new']), e.a0['left']
    return [('moved so far', And(0 <= i, i <= e.max - ls, Eq(cnt(S, 'left'), e.max))), ('the left node keeps its entries', same(S.arr(e.nodes['left']), a0, 0, e.max)),
            ('the upper part in order', forall(1, lambda m: Implies(And(ls <= m, m < ls + i), Eq(new(norm(m - ls)), a0(m))), lambda m: a0(m)))]


def p_split(S, old, r, args, e):
    pt = EV(S, 'part')
    if len(pt) != 1 or len(EV(S, 'create')) != 1:
        return [('one node is made and the entry inserted once', False)]
    _, n, at, v, z = pt[0]
    lc, rc = cnt(S, 'left'), cnt(S, 'new')
    l0 = lc - 1 if n == 'left' else lc        # before the insertion
    L_, R_ = S.arr(e.nodes['left']), S.arr(e.nodes['new'])
    before = If(e.J < l0, L_(e.J), R_(e.J - l0))
    return [('the new node is given back', isinstance(r, VPtr) and r.obj is e.nodes['new'].obj), ('all entries, in order, before the insertion', Implies(And(0 <= e.J, e.J < e.max), Eq(before, e.a0['left'](e.J)))),
            ('one entry more in all', Eq(Z(lc) + Z(rc), e.max + 1)), ('the entry given', Eq(v, e.v)), ('at its place', Eq(at if n == 'left' else l0 + at, e.index)), ('both nodes have enough entries', And(lc >= e.min, rc >= e.min)), ('and not too many', And(lc <= e.max, rc <= e.max)),
            ]


# ------------------------------------------------------------------------------ too few entries
def s_fix(S, e):
    tree(S, e, ['c', 'left', 'right', 'p'])
    e.i = S.int('index', 64, 0, BIG)
    e.pos = {'c': e.i, 'left': e.i - 1, 'right': e.i + 1}
    S.assume(e.i < e.c0['p'], e.c0['p'] >= 2, Eq(e.c0['c'], e.min - 1))
    for n in ('left', 'right'):
        S.assume(e.min <= e.c0[n], e.c0[n] <= e.max)
    for n, d in (('c', 0), ('left', -1), ('right', 1)):
        S.assume(Implies(And(0 <= e.i + d, e.i + d < e.c0['p']), Eq(e.a0['p'](e.i + d), kid(S, e, n))))
    return [e.t, e.nodes['c'], e.nodes['p']]


def fix_kept(S, e, names):
    return [('%s as before' % n, Implies(And(0 <= e.J, e.J < e.c0[n]), Eq(S.arr(e.nodes[n])(e.J), e.a0[n](e.J)))) for n in names]


def p_fix(S, old, r, args, e):
    A = {n: S.arr(e.nodes[n]) for n in e.nodes}
    z, J = e.c0['c'], e.J
    hl, hr = e.i >= 1, e.i + 1 < e.c0['p']
    la, ra = And(hl, e.c0['left'] > e.min), And(hr, e.c0['right'] > e.min)
    dead, ag = EV(S, 'destroy'), [a[1:3] for a in EV(S, 'augment')]
    if not dead:
        b = 'left' if ('left', 'p') in ag else 'right'
        out = [('an entry is borrowed only from a neighbour that has more than enough', la if b == 'left' else ra), ('the parent is not short', r), ('both augmentations are renewed', {('c', 'p'), (b, 'p')} <= set(ag)), ('one entry moved', And(Eq(cnt(S, b), e.c0[b] - 1), Eq(cnt(S, 'c'), z + 1))), ('the parent keeps its count', Eq(cnt(S, 'p'), e.c0['p'])),
               ('the augmentations are computed from the final nodes', And(*[And(Eq(dict(a[3])['c:c'], z + 1), Eq(dict(a[3])['c:' + b], e.c0[b] - 1)) for a in EV(S, 'augment')]))]
        if b == 'left':
            out += [('the last of the left node comes first', Eq(A['c'](0), e.a0['left'](e.c0['left'] - 1))), ('then its own entries', Implies(And(0 <= J, J < z), Eq(A['c'](J + 1), e.a0['c'](J)))), ('the left node keeps the others', Implies(And(0 <= J, J < e.c0['left'] - 1), Eq(A['left'](J), e.a0['left'](J))))]
        else:
            out += [('the first of the right node comes last', Eq(A['c'](z), e.a0['right'](0))), ('after its own entries', Implies(And(0 <= J, J < z), Eq(A['c'](J), e.a0['c'](J)))), ('the right node keeps the others', Implies(And(0 <= J, J < e.c0['right'] - 1), Eq(A['right'](J), e.a0['right'](J + 1))))]
        return out + fix_kept(S, e, ['p'])
    if len(dead) != 1:
        return [('one node is given up', False)]
    c2 = dead[0][1]
    c1 = 'left' if c2 == 'c' else 'c'
    z1, z2 = e.c0[c1], e.c0[c2]
    at = e.pos[c2]
    return [('merged only if nothing can be borrowed', And(Not(la), Not(ra))), ('neighbours', (c1, c2) in (('left', 'c'), ('c', 'right'))), ('that exist', hl if c1 == 'left' else hr), ('all entries, in order', And(Eq(cnt(S, c1), z1 + z2), Implies(And(0 <= J, J < z1), Eq(A[c1](J), e.a0[c1](J))), Implies(And(0 <= J, J < z2), Eq(A[c1](z1 + J), e.a0[c2](J))))),
            ('within the limits', And(e.min <= cnt(S, c1), cnt(S, c1) <= e.max)), ('the parent loses exactly the node given up', And(Eq(cnt(S, 'p'), e.c0['p'] - 1), Implies(And(0 <= J, J < e.c0['p'] - 1), Eq(A['p'](J), e.a0['p'](If(J < at, J, J + 1)))))),
            ('the augmentation of the merged node is renewed', ag == [(c1, 'p')]), ('it is told whether the parent has enough', Iff(r, e.c0['p'] - 1 >= e.pmin))]


def inv_shift(L):      # the entries of c move up by one
    e, S = L.e, L.S
    j, z = L.r['j'], e.c0['c']
    a = S.arr(e.nodes['c'])
    return [('so far', And(0 <= j, j <= z)), ('below: not moved', same(a, e.a0['c'], 0, z - j)), ('above: moved by one', Implies(And(z - j <= e.J, e.J < z), Eq(a(e.J + 1), e.a0['c'](e.J))))]


def inv_down(L):       # the entries of the right node move down by one
    e, S = L.e, L.S
    i = L.r['j']
    a, n = S.arr(e.nodes['right']), e.c0['right']
    return [('so far', And(0 <= i, i <= n - 1)), ('moved', Implies(And(0 <= e.J, e.J < i), Eq(a(e.J), e.a0['right'](e.J + 1)))), ('not yet', same(a, e.a0['right'], i + 1, n))]


def inv_merge(L):      # the entries of the second node are appended to the first
    e, S = L.e, L.S
    j = L.r['j']
    out = []
    for c1, c2 in (('left', 'c'), ('c', 'right')):
        here = (e.i >= 1) if c1 == 'left' else Eq(e.i, 0)
        a, z1, z2 = S.arr(e.nodes[c1]), e.c0[c1], e.c0[c2]
        out += [('so far (%s)' % c1, Implies(here, And(0 <= j, j <= z2))), ('%s keeps its own' % c1, Implies(And(here, 0 <= e.J, e.J < z1), Eq(a(e.J), e.a0[c1](e.J)))), ('%s has the others' % c1, Implies(And(here, 0 <= e.J, e.J < j), Eq(a(z1 + e.J), e.a0[c2](e.J)))),
                ('%s is read' % c2, Or(Not(here), same(S.arr(e.nodes[c2]), e.a0[c2], 0, z2)))]
    return out


def inv_parent(L):     # the children behind the one given up move down by one
    e, S = L.e, L.S
    i = L.r['j']
    a, n = S.arr(e.nodes['p']), e.c0['p']
    at = If(Eq(e.i, 0), 1, e.i)
    return [('so far', And(at <= i, i <= n - 1)), ('before it', Implies(And(0 <= e.J, e.J < at), Eq(a(e.J), e.a0['p'](e.J)))), ('moved', Implies(And(at <= e.J, e.J < i), Eq(a(e.J), e.a0['p'](e.J + 1)))), ('not yet', same(a, e.a0['p'], i + 1, n))]


# ------------------------------------------------------------------------------ a new root
def s_root(S, e):
    tree(S, e, ['left', 'right', 'new'])
    e.h = S.int('height', 64, 1, 2 ** 30)
    S.st.ghost['height'] = e.h
    return [e.t, e.nodes['left'], e.nodes['right']]


def h_height(ex, st, ins, args, dn):
    return VInt(st.ghost['height'], 64)


def h_set_height(ex, st, ins, args, dn):
    gset(ex, st, 'height', ex.as_u(st, args[1]))


def h_set_root(ex, st, ins, args, dn):
    event(ex, st, 'root', name_of(ex, args[1]))


def p_root(S, old, r, args, e):
    A = S.arr(e.nodes['new'])
    return [('the two nodes are its children', And(Eq(cnt(S, 'new'), 2), Eq(A(0), kid(S, e, 'left')), Eq(A(1), kid(S, e, 'right')))), ('it is the root', [a[1] for a in EV(S, 'root')] == ['new']), ('one level more', Eq(S.st.ghost['height'], e.h + 1)),
            ('both augmentations are stored', {a[1:3] for a in EV(S, 'augment')} == {('left', 'new'), ('right', 'new')}), ('when both children are there', And(*[Eq(dict(a[3])['c:new'], 2) for a in EV(S, 'augment')]))]


# ------------------------------------------------------------------------------ search
CNT, CH, KEY = z3.Function('node_count', I, I), z3.Function('node_child', I, I, I), z3.Function('node_key', I, I, I)


def nid(p):
    return Z(p.off)


def stop(e, n, j):
    k = KEY(n, j)
    return LESS(Z(e.k), k) if e.upper else z3.Not(LESS(k, Z(e.k)))


def h_s_count(ex, st, ins, args, dn):
    v = CNT(nid(args[1]))
    ex.assume(st, And(1 <= v, v < BIG))
    return VInt(v, 64)


def h_s_key(ex, st, ins, args, dn):
    e = ex.spec_env
    n, j = nid(args[1]), Z(ex.as_u(st, args[2]))
    ex.oblige(st, 'min_key: of an entry of the node', 'pre', And(0 <= j, j < CNT(n)))
    v = KEY(n, j)
    ex.assume(st, And(0 <= v, v < 2 ** 64))
    return VInt(v, 64) if ins.ty[0] == 'i' else cell(ex, st, v)


def cell(ex, st, v):
    o = Obj('key', 'local', Struct([(0, Cell(8, 'i'))], 8), 8)
    st.objs[o.id] = o
    ex.poke(st, VPtr(o, 0), VInt(v, 64))
    return VPtr(o, 0)


def val(ex, st, a):
    return Z(ex.as_u(st, ex.load(st, VPtr(a.obj, a.off), ('i', 64)) if isinstance(a, VPtr) else a))


def h_s_less(ex, st, ins, args, dn):
    return VBool(LESS(val(ex, st, args[-2]), val(ex, st, args[-1])))


def h_s_child(ex, st, ins, args, dn):
    e = ex.spec_env
    n, j = nid(args[1]), Z(ex.as_u(st, args[2]))
    T = Z(st.ghost['len'])
    ex.oblige(st, 'descent: a child of the last node of the path', 'pre', And(T >= 1, Eq(S_path(ex, st)(norm(T - 1)), n), 0 <= j, j < CNT(n)))
    ex.oblige(st, 'descent: every child before can be skipped', 'pre', Implies(And(1 <= e.J, e.J <= j), z3.Not(stop(e, n, e.J))))
    ex.oblige(st, 'descent: the child must not be skipped', 'pre', Or(Eq(j + 1, CNT(n)), stop(e, n, j + 1)))
    ex.poke(st, VPtr(e.CHOICE.obj, norm((T - 1) * 8)), VInt(j, 64))
    v = CH(n, j)
    ex.assume(st, And(v >= 0, v < BIG, 1 <= CNT(8 * v), CNT(8 * v) < BIG))
    return VPtr(e.NODES.obj, norm(v * 8))


def S_path(ex, st):
    return Ctx(ex, st).arr(ex.spec_env.PATH)


def h_p_clear(ex, st, ins, args, dn):
    gset(ex, st, 'len', 0)


def h_p_push(ex, st, ins, args, dn):
    e = ex.spec_env
    p = args[1]
    if isinstance(p, VPtr) and p.obj is not e.NODES.obj:
        p = ex.load(st, VPtr(p.obj, p.off), ('ptr',))
    n = Z(st.ghost['len'])
    ex.poke(st, VPtr(e.PATH.obj, norm(n * 8)), VInt(nid(p), 64))
    gset(ex, st, 'len', norm(n + 1))


def h_r_leaf(ex, st, ins, args, dn):
    return VPtr(ex.spec_env.NODES.obj, norm(ex.spec_env.root * 8))


HS = [(STO + r'count\(', h_s_count), (r'min_key\(', h_s_key), (r'^vp_less|Cmp::operator', h_s_less), (STO + r'get_child_(leaf|internal)\(', h_s_child), (STO + r'get_root_(leaf|internal)\(', h_r_leaf), (STO + r'height\(', h_height), (AUG + r'store\(\)', h_same),
      (r'std::vector<.*>::clear\(', h_p_clear), (r'std::vector<.*>::(push_back|emplace_back)', h_p_push)]


def s_find(upper):
    def f(S, e):
        S.ex.spec_env = e
        e.upper = upper
        e.J, e.T = z3.Int('J'), z3.Int('T')
        e.t = S.obj('tree', 'param', Struct([(i, Cell(8, 'i')) for i in range(0, 96, 8)], 96), 96)
        e.NODES = garray(S, 'nodes')
        e.PATH, e.CHOICE = garray(S, 'path'), garray(S, 'choice')
        e.root, e.k, e.h = S.int('root', 64, 0, BIG), S.int('k', 64), S.int('height', 64, 1, 2 ** 30)
        S.assume(1 <= CNT(8 * e.root), CNT(8 * e.root) < BIG)
        S.st.ghost.update(height=e.h, len=S.int('len', 64, 0, BIG))
        e.vec = S.obj('path vector', 'param', Struct([(0, Cell(8, 'i'))], 8), 8)
        return [e.t, e.vec, VInt(e.k, 64)]
    return f


def right(S, e, T):
    """at level T the path goes on to the child chosen, and the choice is right"""
    p, c = S.arr(e.PATH), S.arr(e.CHOICE)
    n, j = p(norm(T)), c(norm(T))
    return And(0 <= j, j < CNT(n), Implies(And(1 <= e.J, e.J <= j), z3.Not(stop(e, n, e.J))), Or(Eq(j + 1, CNT(n)), stop(e, n, j + 1)))


def path_ok(S, e, upto, cur):
    p, c = S.arr(e.PATH), S.arr(e.CHOICE)
    return [('the path starts at the root', Implies(upto >= 1, Eq(p(0), 8 * e.root))), ('every choice is right', Implies(And(0 <= e.T, e.T < upto), right(S, e, e.T))), ('each node is the child chosen before', Implies(And(0 <= e.T, e.T < upto - 1), Eq(p(e.T + 1), 8 * CH(p(e.T), c(e.T))))),
            ('and so is the next', Eq(cur, If(upto >= 1, 8 * CH(p(norm(upto - 1)), c(norm(upto - 1))), 8 * e.root)))]


def current(L):
    """the node the descent has reached"""
    c = [L.st.cells.get((o.id, (0,))) for o in L.st.objs.values() if o.kind == 'alloca' and o.size == 8]
    c = [v for v in c if isinstance(v, VPtr) and v.obj is L.e.NODES.obj]
    if len(c) != 1:
        raise Unsupported('descent: which variable is the node')
    return c[0]


def inv_levels(L):
    e, S = L.e, L.S
    i = L.r['i']
    n = nid(current(L))
    return [('levels so far', And(2 <= i, i <= e.h, Eq(S.st.ghost['len'], i - 2), n >= 0, n < 8 * BIG, 1 <= CNT(n), CNT(n) < BIG))] + path_ok(S, e, Z(S.st.ghost['len']), n)


def inv_children(L):
    e, S = L.e, L.S
    j = L.r['j']
    n = S.arr(e.PATH)(norm(Z(S.st.ghost['len']) - 1))
    return [('children so far', And(0 <= j, j < CNT(n), CNT(n) < BIG)), ('they can be skipped', Implies(And(1 <= e.J, e.J <= j), z3.Not(stop(e, n, e.J))))]


def p_find(S, old, r, args, e):
    n = Z(S.st.ghost['len'])
    return [('one internal node on every level', Eq(n, e.h - 1))] + path_ok(S, e, n, nid(r))


# ------------------------------------------------------------------------------ search in the leaf
def h_find_leaf(ex, st, ins, args, dn):
    """find_leaf: proved above"""
    e = ex.spec_env
    event(ex, st, 'find', '<true' in dn, val(ex, st, args[-1]))
    return VPtr(e.NODES.obj, e.leaf)


def h_goto(ex, st, ins, args, dn):
    event(ex, st, 'item', nid(args[2]), Z(ex.as_u(st, args[3])))


def h_end(ex, st, ins, args, dn):
    event(ex, st, 'end')


def h_inc(ex, st, ins, args, dn):
    event(ex, st, 'next')
    return args[0] if ins.ty[0] != 'void' else None


def nothing(ex, st, ins, args, dn):
    return None if ins.ty[0] == 'void' else args[0]


HB = [(r'find_leaf<', h_find_leaf), (r'::goto_item\(', h_goto), (r'::goto_end\(', h_end), (r'(::increment\(|operator\+\+)', h_inc), (r'^(.* )?std::vector<.*(::vector\(|::~vector\()', nothing), (r'btree_iterator<.*>::(btree_iterator|~btree_iterator|operator=)\(', nothing)] + HS


def s_bound(upper):
    def f(S, e):
        a = s_find(upper)(S, e)
        e.h = S.int('height0', 64, 0, 2 ** 30)
        S.st.ghost['height'] = e.h
        e.leaf = S.int('leaf', 64, 0, BIG)
        e.ret = S.obj('iterator', 'param', Struct([(i, Cell(8, 'i')) for i in range(0, 48, 8)], 48), 48)
        return [e.ret, e.t, VInt(e.k, 64)]
    return f


def before(e, j):
    """the entry lies before the bound"""
    k = KEY(Z(e.leaf), j)
    return z3.Not(LESS(Z(e.k), k)) if e.upper else LESS(k, Z(e.k))


def inv_bound(L):
    e = L.e
    i = L.r['i']
    return [('entries before the bound', And(0 <= i, i <= CNT(Z(e.leaf)), 1 <= CNT(Z(e.leaf)), CNT(Z(e.leaf)) < BIG, Implies(And(0 <= e.J, e.J < i), before(e, e.J))))]


def p_bound(S, old, r, args, e):
    ev = EV(S)
    kinds = [a[0] for a in ev]
    if kinds == ['end']:
        return [('only in an empty tree', Eq(e.h, 0))]
    out = [('the tree is not empty', e.h >= 1), ('the leaf searched is found by the same bound', kinds[:1] == ['find'] and ev[0][1] == e.upper), ('for the key', Eq(ev[0][2], e.k) if kinds[:1] == ['find'] else False)]
    z = CNT(Z(e.leaf))
    if kinds == ['find', 'item']:
        return out + [('the first entry at or after the bound', And(Eq(ev[1][1], e.leaf), 0 <= ev[1][2], ev[1][2] < z, Not(before(e, ev[1][2])), Implies(And(0 <= e.J, e.J < ev[1][2]), before(e, e.J))))]
    if kinds == ['find', 'item', 'next']:
        return out + [('all entries lie before the bound: the one after the last', And(Eq(ev[1][1], e.leaf), Eq(ev[1][2], z - 1), Implies(And(0 <= e.J, e.J < z), before(e, e.J))))]
    return out + [('found', False)]


# ------------------------------------------------------------------------------ the levels: insert and erase
# nodes are words; P(t) is the node at level t of the path, P(L) the leaf; IDX(c, p) the place of c in p
IDX = z3.Function('node_index', I, I, I)


def wd(ex, st, v):
    return Z(ex.ptr_addr(st, v))


def s_path(S, e, h0=1):
    S.ex.spec_env = e
    e.T, e.J = z3.Int('T'), z3.Int('J')
    e.t = S.obj('tree', 'param', Struct([(i, Cell(8, 'i')) for i in range(0, 96, 8)], 96), 96)
    e.PATH, e.leaf = garray(S, 'path'), garray(S, 'leaf')
    e.L, e.maxl, e.maxi = S.int('path length', 64, 0, 2 ** 30), S.int('max leaf', 64, 2, 2 ** 30), S.int('max internal', 64, 3, 2 ** 30)
    e.minl, e.mini = S.int('min leaf', 64, 1, 2 ** 30), S.int('min internal', 64, 2, 2 ** 30)
    e.index, e.z, e.size, e.h = S.int('index', 64, 0, BIG), S.int('leaf count', 64, 0, BIG), S.int('size', 64, 0, 2 ** 60), S.int('height', 64, 0, BIG)
    e.p0, e.a0, e.lw = S.arr(e.PATH), S.arr(e.leaf), Z(S.ex.ptr_addr(S.st, e.leaf))
    S.st.ghost.update(size=e.size, height=e.h, len=e.L, at=e.L + 1, pend=0, aug=-1, fin=0, lz=e.z, rcnt=-1)
    e.nodes = {'l': e.leaf}
    e.itr = S.obj('iterator', 'param', Struct([(0, Cell(8, 'i')), (8, Cell(8, 'i')), (16, Cell(8, 'i')), (24, Cell(8, 'i')), (32, Cell(8, 'i')), (40, Cell(8, 'p'))], 48), 48)
    S.ex.store(S.st, VPtr(e.itr.obj, 32), VInt(e.index, 64), ('i', 64))
    S.ex.store(S.st, VPtr(e.itr.obj, 40), e.leaf, ('ptr',))
    S.assume(Eq(e.h, e.L + 1), e.z <= e.maxl, e.z >= 1, e.index <= e.z)


def Pn(e, t):
    return If(Eq(t, e.L), e.lw, e.p0(t))


def G(st, k):
    return Z(st.ghost[k])


def v_data(ex, st, ins, args, dn):
    return VPtr(ex.spec_env.PATH.obj, 0)


def v_size(ex, st, ins, args, dn):
    return VInt(st.ghost['len'], 64)


def v_empty(ex, st, ins, args, dn):
    return VBool(Eq(G(st, 'len'), 0))


def v_back(ex, st, ins, args, dn):
    n = G(st, 'len')
    ex.oblige(st, 'back: the path is not empty', 'pre', n >= 1)
    return VPtr(ex.spec_env.PATH.obj, norm((n - 1) * 8))


def v_pop(ex, st, ins, args, dn):
    n = G(st, 'len')
    ex.oblige(st, 'pop_back: the path is not empty', 'pre', n >= 1)
    gset(ex, st, 'len', norm(n - 1))


def v_clear(ex, st, ins, args, dn):
    gset(ex, st, 'len', 0)


def v_push(ex, st, ins, args, dn):
    p = args[1]
    v = ex.load(st, VPtr(p.obj, p.off), ('ptr',)) if isinstance(p, VPtr) else p
    n = G(st, 'len')
    ex.poke(st, VPtr(ex.spec_env.PATH.obj, norm(n * 8)), VInt(wd(ex, st, v), 64))
    gset(ex, st, 'len', norm(n + 1))


HV = [(r'std::vector<.*>::data\(', v_data), (r'std::vector<.*>::size\(', v_size), (r'std::vector<.*>::empty\(', v_empty), (r'std::vector<.*>::back\(', v_back), (r'std::vector<.*>::pop_back\(', v_pop), (r'std::vector<.*>::clear\(', v_clear),
      (r'std::vector<.*>::(push_back|emplace_back)', v_push), (r'std::vector<.*(::vector\(|::~vector\()', nothing)]


def g_get(k):
    return lambda ex, st, ins, args, dn: VInt(st.ghost[k], 64)


def g_put(k):
    return lambda ex, st, ins, args, dn: gset(ex, st, k, ex.as_u(st, args[1]))


def cst(w):
    return lambda ex, st, ins, args, dn: VInt(getattr(ex.spec_env, w), 64)


def i_count(ex, st, ins, args, dn):
    """count of a node not changed yet"""
    e = ex.spec_env
    n, at = wd(ex, st, args[1]), G(st, 'at')
    if isinstance(args[1], VPtr) and args[1].obj is e.leaf.obj:
        ex.oblige(st, 'count: the leaf is not changed yet', 'pre', Eq(at, e.L + 1))
        return VInt(st.ghost['lz'], 64)
    ex.oblige(st, 'count: of the parent of the node split last', 'pre', And(1 <= at, at <= e.L, Eq(n, e.p0(norm(at - 1)))))
    return VInt(CNT(n), 64)


def i_index(ex, st, ins, args, dn):
    """store::index: proved below"""
    e, at = ex.spec_env, G(st, 'at')
    c, p = wd(ex, st, args[1]), wd(ex, st, args[2])
    ex.oblige(st, 'index: of the node split last in its parent', 'pre', And(1 <= at, at <= e.L, Eq(c, Pn(e, at)), Eq(p, e.p0(norm(at - 1)))))
    v = IDX(c, p)
    ex.assume(st, And(0 <= v, v < CNT(p), CNT(p) <= e.maxi))
    return VInt(v, 64)


def i_augment(ex, st, ins, args, dn):
    e = ex.spec_env
    if len(args) < 3:
        return
    c, p, at = wd(ex, st, args[1]), wd(ex, st, args[2]), G(st, 'at')
    ex.oblige(st, 'augment: the changed node, in its parent', 'pre', And(1 <= at, at <= e.L, Eq(c, Pn(e, at)), Eq(p, e.p0(norm(at - 1)))))
    gset(ex, st, 'aug', norm(at - 1))


def i_entry(ex, st, e, c, n, index):
    """the entry c goes into node n at the right place: the value into the leaf, or the new node right behind the node it was split from"""
    at = G(st, 'at')
    if isinstance(n, VPtr) and n.obj is e.leaf.obj:
        ok = And(Eq(at, e.L + 1), Eq(word(ex, st, c), e.v), Eq(index, e.index))
    else:
        p = e.p0(norm(at - 1))
        ok = And(1 <= at, at <= e.L, Eq(wd(ex, st, n), p), Eq(wd(ex, st, c), G(st, 'pend')), Eq(index, IDX(Pn(e, at), p) + 1), Eq(G(st, 'aug'), at - 1))
    ex.oblige(st, 'insertion: the right entry into the right node at the right place', 'pre', And(Eq(G(st, 'fin'), 0), ok))
    return at


def i_part(ex, st, ins, args, dn):
    e = ex.spec_env
    at = i_entry(ex, st, e, args[2], args[1], Z(ex.as_u(st, args[3])))
    n = args[1]
    full = Z(st.ghost['lz']) < e.maxl if isinstance(n, VPtr) and n.obj is e.leaf.obj else CNT(wd(ex, st, n)) < e.maxi
    ex.oblige(st, 'insert_part: there is room', 'pre', full)
    gset(ex, st, 'at', norm(at - 1))
    gset(ex, st, 'fin', 1)


def i_split(ex, st, ins, args, dn):
    e = ex.spec_env
    n = args[2]
    at = i_entry(ex, st, e, args[1], n, Z(ex.as_u(st, args[3])))
    full = Eq(st.ghost['lz'], e.maxl) if isinstance(n, VPtr) and n.obj is e.leaf.obj else Eq(CNT(wd(ex, st, n)), e.maxi)
    ex.oblige(st, 'split_and_insert: the node is full', 'pre', full)
    v = z3.Int('new_node!%d' % next(_fresh))
    ex.assume(st, And(0 < v, v < 2 ** 62))
    gset(ex, st, 'at', norm(at - 1))
    gset(ex, st, 'pend', v)
    return VOpq(v)


def i_newroot(ex, st, ins, args, dn):
    e = ex.spec_env
    ex.oblige(st, 'createNewRoot: the old root was split, the two halves in order', 'pre', And(Eq(G(st, 'fin'), 0), Eq(G(st, 'at'), 0), Eq(wd(ex, st, args[1]), Pn(e, 0)), Eq(wd(ex, st, args[2]), G(st, 'pend'))))
    gset(ex, st, 'fin', 2)


def i_augpath(ex, st, ins, args, dn):
    """augment_path(path, level): proved below"""
    e, at = ex.spec_env, G(st, 'at')
    ex.oblige(st, 'augment_path: from the last node changed', 'pre', And(isinstance(args[1], VPtr) and args[1].obj is e.PATH.obj and Eq(args[1].off, 0), Eq(G(st, 'fin'), 1), Eq(Z(ex.as_u(st, args[2])), If(Eq(at, e.L), e.L - 1, at)), Or(at < e.L, Eq(G(st, 'aug'), at - 1))))
    gset(ex, st, 'fin', 3)


def i_first(ex, st, ins, args, dn):
    e = ex.spec_env
    nm = re.search(r'0ul, 0ul>::(\w+)\(', dn).group(1)
    v = [word(ex, st, a) for a in args[1:]]
    event(ex, st, nm, *v)
    if nm.startswith('create'):
        return VOpq(z3.Int('first'))


HI = [(STO + r'(size|height)\(\) const', lambda ex, st, ins, args, dn: VInt(st.ghost['size' if '::size(' in dn else 'height'], 64)), (STO + r'set_size\(', g_put('size')), (STO + r'max_leaf_size\(', cst('maxl')), (STO + r'max_internal_size\(', cst('maxi')), (STO + r'min_leaf_size\(', cst('minl')),
      (STO + r'min_internal_size\(', cst('mini')), (STO + r'count\(', i_count), (STO + r'index\(', i_index), (AUG + r'augment\(', i_augment), (AUG + r'insert_part<', i_part), (AUG + r'split_and_insert<', i_split), (AUG + r'createNewRoot<', i_newroot), (AUG + r'augment_path\(', i_augpath),
      (STO + r'(create_leaf|set_count|set|set_height|set_root)\(', i_first)]


def s_ins(S, e):
    s_path(S, e)
    e.v = S.int('v', 64)
    return [e.t, VInt(e.v, 64), e.itr]


def inv_up(L):
    e, st = L.e, L.st
    at = G(st, 'at')
    return [('split so far', And(0 <= at, at <= e.L - 1, Eq(G(st, 'fin'), 0), Eq(L.r['level'], at), Eq(G(st, 'size'), e.size + 1))), ('the new node is the one split off', Eq(rw(L, 'n2'), G(st, 'pend')))]


def rw(L, n):
    v = L.r[n]
    return Z(L.ex.ptr_addr(L.st, v)) if isinstance(v, (VPtr, VOpq)) else Z(v)


def p_ins(S, old, r, args, e):
    st = S.st
    fin, at = G(st, 'fin'), G(st, 'at')
    return [('one item more', Eq(st.ghost['size'], e.size + 1)), ('the value is in, every split passed on, the augmentations of the path renewed', Or(Eq(fin, 3), Eq(fin, 2), And(Eq(fin, 1), Eq(e.L, 0), Eq(at, 0))))]


def s_ins0(S, e):
    a = s_ins(S, e)
    e.h0 = 0
    S.st.ghost['height'] = 0
    return a


def p_ins0(S, old, r, args, e):
    ev = EV(S)
    f = z3.Int('first')
    want = {('create_leaf',): 1, ('set_count', f, 1): 1, ('set', f, 0, e.v): 1, ('set_height', 1): 1, ('set_root', f): 1}
    return [('one item more', Eq(S.st.ghost['size'], e.size + 1)), ('a leaf with the value becomes the root', And(*[Or(*[And(*[Eq(x, y) for x, y in zip(a[1:], w[1:])]) for a in ev if a[0] == w[0] and len(a) == len(w)]) for w in want]))]


# ------------------------------------------------------------------------------ the augmentations of a path
def a_step(ex, st, ins, args, dn):
    e = ex.spec_env
    c, p, t = wd(ex, st, args[1]), wd(ex, st, args[2]), G(st, 'cur')
    ex.oblige(st, 'augment: the next node up, in its parent', 'pre', And(t >= 1, Eq(c, e.p0(norm(t))), Eq(p, e.p0(norm(t - 1)))))
    gset(ex, st, 'cur', norm(t - 1))


def s_ap(vec):
    def f(S, e):
        s_path(S, e)
        S.st.ghost['cur'] = e.L - 1
        e.lv = S.int('level', 64, 0, 2 ** 30)
        if not vec:
            S.st.ghost['cur'] = e.lv
        return [e.t, VPtr(e.PATH.obj, 0), VInt(e.lv, 64)] if not vec else [e.t, e.itr]
    return f


def inv_ap(vec):
    def f(L):
        e, st = L.e, L.st
        if vec:
            return [('levels done', And(Eq(G(st, 'cur'), G(st, 'len') - 1), 0 <= G(st, 'len'), G(st, 'len') <= e.L, Implies(e.L >= 1, G(st, 'len') >= 1)))]
        return [('levels done', And(Eq(L.r['level'], G(st, 'cur')), 0 <= L.r['level'], L.r['level'] <= e.lv))]
    return f


def p_ap(S, old, r, args, e):
    c = G(S.st, 'cur')
    return [('up to the root', c <= 0)]


HA = HV + [(AUG + r'augment\(', a_step)]


# ------------------------------------------------------------------------------ erase
def x_count(ex, st, ins, args, dn):
    e = ex.spec_env
    if isinstance(args[1], VPtr) and args[1].obj is e.leaf.obj:
        return VInt(st.ghost['lz'], 64)
    n = wd(ex, st, args[1])
    ex.oblige(st, 'count: of the root that lost a child', 'pre', And(Eq(G(st, 'at'), 0), Eq(n, e.p0(0)), G(st, 'rcnt') >= 0))
    return VInt(st.ghost['rcnt'], 64)


def x_fixup(ex, st, ins, args, dn):
    """remove_fixup_round: proved above. 'at' is the level of the node that is too small"""
    e, at = ex.spec_env, G(st, 'at')
    c, p = wd(ex, st, args[1]), wd(ex, st, args[2])
    leaf = Eq(at, e.L)
    ex.oblige(st, 'remove_fixup_round: the node with one entry too few, in its parent', 'pre', And(Eq(G(st, 'fin'), 0), 1 <= at, at <= e.L, Eq(c, Pn(e, at)), Eq(p, e.p0(norm(at - 1))), Implies(leaf, Eq(G(st, 'lz'), e.minl - 1)), Implies(z3.Not(leaf), Eq(G(st, 'rcnt'), e.mini - 1)), CNT(p) >= 2))
    r = z3.Bool('enough!%d' % next(_fresh))
    n = z3.Int('parent_count!%d' % next(_fresh))
    ex.assume(st, Or(And(r, Eq(n, CNT(p))), And(Eq(n, CNT(p) - 1), Eq(r, n >= e.mini))))
    gset(ex, st, 'at', norm(at - 1))
    gset(ex, st, 'rcnt', n)
    gset(ex, st, 'fin', If(r, 1, 0))
    return VBool(r)


def x_augment(ex, st, ins, args, dn):
    e = ex.spec_env
    if len(args) < 3:
        return
    c, p = wd(ex, st, args[1]), wd(ex, st, args[2])
    ex.oblige(st, 'augment: the leaf, in its parent', 'pre', And(e.L >= 1, Eq(c, e.lw), Eq(p, e.p0(norm(e.L - 1))), Eq(G(st, 'lz'), e.z - 1), G(st, 'lz') >= e.minl, Eq(G(st, 'fin'), 0)))
    gset(ex, st, 'fin', 1)
    gset(ex, st, 'at', norm(e.L - 1))


def x_augpath(ex, st, ins, args, dn):
    e = ex.spec_env
    if isinstance(args[1], VPtr) and args[1].obj is e.leaf.obj:
        return
    if 'std::vector' not in dn:      # augment_path of a leaf does nothing
        return
    at, fin = G(st, 'at'), G(st, 'fin')
    root = And(Eq(fin, 0), Eq(at, 0), G(st, 'rcnt') >= 2)          # the root may be smaller
    ex.oblige(st, 'augment_path: from the last node changed', 'pre', Or(And(Eq(fin, 4), Eq(G(st, 'len'), 1)), And(Eq(G(st, 'len'), at + 1), Or(Eq(fin, 1), root))))
    gset(ex, st, 'fin', If(Eq(fin, 4), 4, 3))


def x_move(ex, st, ins, args, dn):
    e = ex.spec_env
    if any(not isinstance(args[k], VPtr) or args[k].obj is not e.leaf.obj for k in (1, 3)):
        raise Unsupported('move in another node')
    i, j = Z(ex.as_u(st, args[2])), Z(ex.as_u(st, args[4]))
    ex.oblige(st, 'move: within the leaf', 'pre', And(0 <= i, i < e.z, 0 <= j, j < e.z))
    ex.poke(st, VPtr(e.leaf.obj, norm(j * 8)), ex.load(st, VPtr(e.leaf.obj, norm(i * 8)), ('i', 64)))


def x_setcount(ex, st, ins, args, dn):
    e = ex.spec_env
    v = Z(ex.as_u(st, args[2]))
    if isinstance(args[1], VPtr) and args[1].obj is e.leaf.obj:
        gset(ex, st, 'lz', v)
    else:
        ex.oblige(st, 'set_count: only of the root given up', 'pre', And(Eq(wd(ex, st, args[1]), e.p0(0)), Eq(G(st, 'at'), 0), Eq(G(st, 'rcnt'), 1), Eq(G(st, 'fin'), 0)))


def x_child(ex, st, ins, args, dn):
    e = ex.spec_env
    ex.oblige(st, 'child: the only one of the root', 'pre', And(Eq(wd(ex, st, args[1]), e.p0(0)), Eq(Z(ex.as_u(st, args[2])), 0), Eq(G(st, 'at'), 0), Eq(G(st, 'rcnt'), 1)))
    gset(ex, st, 'only', 1)
    return VOpq(z3.Int('only_child'))


def x_destroy(ex, st, ins, args, dn):
    event(ex, st, 'destroy', wd(ex, st, args[1]))


def x_setroot(ex, st, ins, args, dn):
    e = ex.spec_env
    ex.oblige(st, 'set_root: the only child of the old root', 'pre', And(Eq(wd(ex, st, args[1]), z3.Int('only_child')), Eq(G(st, 'at'), 0), Eq(G(st, 'rcnt'), 1), Eq(G(st, 'fin'), 0)))
    event(ex, st, 'root')
    gset(ex, st, 'fin', 4)


HX = [(STO + r'(size|height)\(\) const', lambda ex, st, ins, args, dn: VInt(st.ghost['size' if '::size(' in dn else 'height'], 64)), (STO + r'set_size\(', g_put('size')), (STO + r'set_height\(', g_put('height')), (STO + r'min_leaf_size\(', cst('minl')), (STO + r'min_internal_size\(', cst('mini')), (STO + r'count\(', x_count),
      (STO + r'move\(', x_move), (STO + r'set_count\(', x_setcount), (STO + r'get_child_(leaf|internal)\(', x_child), (STO + r'destroy\(', x_destroy), (STO + r'set_root\(', x_setroot), (AUG + r'remove_fixup_round<', x_fixup), (AUG + r'augment\(', x_augment), (AUG + r'augment_path\(', x_augpath)] + HV


def s_erase(S, e):
    s_path(S, e)
    S.assume(e.index < e.z, e.size >= 1, Implies(e.L >= 1, And(e.z >= e.minl, CNT(e.p0(0)) >= 2)), forall(1, lambda t: Implies(And(1 <= t, t < e.L), CNT(e.p0(t)) >= e.mini), lambda t: e.p0(t)), forall(1, lambda t: Implies(And(0 <= t, t < e.L), Not(Eq(e.p0(t), e.lw))), lambda t: e.p0(t)))
    S.st.ghost['at'] = e.L
    return [e.t, e.itr]


def inv_gap(L):
    e, S = L.e, L.S
    i = L.r['i']
    a = S.arr(e.leaf)
    return [('so far', And(e.index <= i, i <= e.z - 1)), ('moved', Implies(And(e.index <= e.J, e.J < i), Eq(a(e.J), e.a0(e.J + 1)))), ('before', Implies(And(0 <= e.J, e.J < e.index), Eq(a(e.J), e.a0(e.J)))), ('not yet', same(a, e.a0, i + 1, e.z))]


def inv_rounds(L):
    e, S, st = L.e, L.S, L.st
    at, n = G(st, 'at'), G(st, 'len')
    p = S.arr(e.PATH)
    return [('rounds so far', And(1 <= at, at <= e.L - 1, Eq(n, at + 1), Eq(G(st, 'fin'), 0), Eq(G(st, 'rcnt'), e.mini - 1), Eq(G(st, 'lz'), e.z - 1), Eq(G(st, 'height'), e.h), Eq(G(st, 'size'), e.size - 1))), ('the path', same(p, e.p0, 0, e.L)), ('the leaf', And(Implies(And(e.index <= e.J, e.J < e.z - 1), Eq(S.arr(e.leaf)(e.J), e.a0(e.J + 1))), Implies(And(0 <= e.J, e.J < e.index), Eq(S.arr(e.leaf)(e.J), e.a0(e.J)))))]


def p_erase(S, old, r, args, e):
    st = S.st
    fin, at, lz, h = G(st, 'fin'), G(st, 'at'), G(st, 'lz'), G(st, 'height')
    a = S.arr(e.leaf)
    dead, root = EV(S, 'destroy'), EV(S, 'root')
    out = [('one item less', Eq(st.ghost['size'], e.size - 1)), ('the leaf without the item', And(Eq(lz, e.z - 1), Implies(And(0 <= e.J, e.J < e.z - 1), Eq(a(e.J), e.a0(If(e.J < e.index, e.J, e.J + 1))))))]
    if root:
        return out + [('the root with one child is replaced by it and given up', And(Eq(fin, 4), len(dead) == 1, Eq(dead[0][1], e.p0(0)) if dead else False, Eq(h, e.h - 1)))]
    if dead:
        return out + [('the last item is gone: the empty tree', And(Eq(e.L, 0), Eq(e.z, 1), Eq(h, 0), len(dead) == 1, Eq(dead[0][1], e.lw)))]
    return out + [('the height stays', Eq(h, e.h)), ('no node is left too small, the augmentations of the path are renewed', Or(Eq(fin, 3), And(Eq(e.L, 0), e.z >= 2)))]


# ------------------------------------------------------------------------------ the internal store itself
# real nodes: a count and four entries (a value in a leaf; a child and its augmentation in an internal node)
NODE_I = lambda: Struct([(0, Cell(8, 'i')), (8, Arr(16, 4, Struct([(0, Cell(8, 'i')), (8, Cell(8, 'i'))], 16)))], 72)
NODE_L = lambda: Struct([(0, Cell(8, 'i')), (8, Arr(8, 4, Cell(8, 'i')))], 40)


def mk_node(S, name, leaf):
    return S.obj(name, 'param', NODE_L() if leaf else NODE_I(), 40 if leaf else 72)


def ent(S, n, i, leaf):
    if leaf:
        return (S.get(VPtr(n.obj, norm(8 + 8 * i))),)
    return (S.get(VPtr(n.obj, norm(8 + 16 * i))), S.get(VPtr(n.obj, norm(16 + 16 * i))))


def ents(a, b):
    return And(*[Eq(x, y) for x, y in zip(a, b)])


def s_store(S, e, leaf=None, names=(), cnt=True):
    e.S0 = S.obj('store', 'param', Struct([(i, Cell(8, 'i')) for i in range(0, 64, 8)], 64), 64)
    e.J = S.int('J', 64, 0, 3)
    e.leaf, e.n = leaf, {}
    for k in names:
        e.n[k] = mk_node(S, k, leaf)
    e.was = {k: (S.get(v), ent(S, v, e.J, leaf)) for k, v in e.n.items()}


def kept(S, e, k, but=None):
    """node k keeps its count and its entries, except entry `but`"""
    same_ = ents(ent(S, e.n[k], e.J, e.leaf), e.was[k][1])
    return ('node %s: the rest as before' % k, And(Eq(S.get(e.n[k]), e.was[k][0]), same_ if but is None else Implies(Not(Eq(e.J, but)), same_)))


def st_move(leaf, one):
    def f(S, e):
        s_store(S, e, leaf, ('src',) if one else ('src', 'dst'))
        if one:
            e.n['dst'] = e.n['src']
            e.was['dst'] = e.was['src']
        e.i, e.j = S.int('i', 64, 0, 3), S.int('j', 64, 0, 3)
        e.v = ent(S, e.n['src'], e.i, leaf)
        return [e.S0, e.n['src'], VInt(e.i, 64), e.n['dst'], VInt(e.j, 64)]
    return f


def sp_move(S, old, r, args, e):
    return [('the entry is copied', ents(ent(S, e.n['dst'], e.j, e.leaf), e.v)), kept(S, e, 'dst', e.j)] + ([kept(S, e, 'src')] if e.n['src'].obj is not e.n['dst'].obj else [])


def st_set(leaf):
    def f(S, e):
        s_store(S, e, leaf, ('n',))
        e.i, e.v = S.int('i', 64, 0, 3), S.int('v', 64)
        if leaf:
            return [e.S0, e.n['n'], VInt(e.i, 64), VInt(e.v, 64)]
        e.c = garray(S, 'child')
        e.v = Z(S.ex.ptr_addr(S.st, e.c))
        return [e.S0, e.n['n'], VInt(e.i, 64), e.c]
    return f


def sp_set(S, old, r, args, e):
    x = ent(S, e.n['n'], e.i, e.leaf)
    return [('the entry is set', Eq(x[0], e.v)), kept(S, e, 'n', e.i)]


def st_one(leaf, *more):
    def f(S, e):
        s_store(S, e, leaf, ('n',))
        e.i = S.int('i', 64, 0, 3)
        return [e.S0, e.n['n']] + [VInt(e.i, 64) for _ in more]
    return f


def sp_count(S, old, r, args, e):
    return [('the count of the node', Eq(r, e.was['n'][0])), kept(S, e, 'n')]


def sp_set_count(S, old, r, args, e):
    return [('the count is set', Eq(S.get(e.n['n']), e.i)), ('the entries as before', ents(ent(S, e.n['n'], e.J, e.leaf), e.was['n'][1]))]


def sp_child(S, old, r, args, e):
    return [('the child stored there', Eq(Z(S.ex.ptr_addr(S.st, r)), ent(S, e.n['n'], e.i, False)[0])), kept(S, e, 'n')]


def sp_get(S, old, r, args, e):
    return [('the value stored there', isinstance(r, VPtr) and r.obj is e.n['n'].obj and Eq(r.off, 8 + 8 * e.i)), kept(S, e, 'n')]


def sp_aug(S, old, r, args, e):
    return [('the augmentation stored there', isinstance(r, VPtr) and r.obj is e.n['n'].obj and Eq(r.off, 16 + 16 * e.i)), kept(S, e, 'n')]


def st_index(S, e):
    s_store(S, e, False, ('n',))
    e.c = garray(S, 'child')
    e.cw = Z(S.ex.ptr_addr(S.st, e.c))
    e.i = S.int('i', 64, 0, 3)
    S.assume(e.i < S.get(e.n['n']), S.get(e.n['n']) <= 4, Eq(ent(S, e.n['n'], e.i, False)[0], e.cw))
    S.assume(*[Implies(And(k < S.get(e.n['n']), Not(Eq(e.i, k))), Not(Eq(ent(S, e.n['n'], k, False)[0], e.cw))) for k in range(4)])
    return [e.S0, e.c, e.n['n']]


def inv_index(L):
    e = L.e
    return [('not found before', And(0 <= L.r['i'], L.r['i'] <= e.i))]


def sp_index(S, old, r, args, e):
    return [('the place of the child', Eq(r, e.i)), kept(S, e, 'n')]


def st_saug(S, e):
    a = st_index(S, e)
    e.ag = S.int('augmentation', 64)
    return [e.S0, e.c, e.n['n'], VInt(e.ag, 64)]


def h_ix(ex, st, ins, args, dn):
    e = ex.spec_env
    ex.oblige(st, 'index: of the child in its parent', 'pre', isinstance(args[1], VPtr) and args[1].obj is e.c.obj and args[2].obj is e.n['n'].obj)
    return VInt(e.i, 64)


def sp_saug(S, old, r, args, e):
    x = ent(S, e.n['n'], e.i, False)
    return [('the augmentation of the child is stored', And(Eq(x[1], e.ag), Eq(x[0], e.cw))), kept(S, e, 'n', e.i)]


def withenv(f):
    def g(S, e):
        S.ex.spec_env = e
        return f(S, e)
    return g


def st_field(k, val):
    def f(S, e):
        s_store(S, e)
        e.v = S.int('v', 64)
        S.ex.poke(S.st, VPtr(e.S0.obj, k), VInt(e.v, 64)) if not val else None
        return [e.S0] + ([VInt(e.v, 64)] if val else [])
    return f


def sp_put(k):
    def f(S, old, r, args, e):
        return [('it is set', Eq(S.get(VPtr(e.S0.obj, k)), e.v)), ('the others as before', And(*[Eq(S.get(VPtr(e.S0.obj, j)), old.get(VPtr(e.S0.obj, j))) for j in (0, 8, 16) if j != k]))]
    return f


def sp_val(S, old, r, args, e):
    return [('the value set', Eq(r, e.v))]


def const_is(v):
    return lambda S, old, r, args, e: [('the limit', Eq(r, v))]


# ------------------------------------------------------------------------------ the iterator
def it_setup(mode):
    """a path of L internal nodes from the root to the leaf; at every level the place is within the node"""
    def f(S, e):
        s_path(S, e)
        S.st.ghost.update(mode=mode, stage=0, turn=0)
        S.assume(forall(1, lambda t: And(1 <= CNT(e.p0(t)), CNT(e.p0(t)) < BIG), lambda t: e.p0(t)))
        e.T0 = S.int('T0', 64, 0, 2 ** 30)
        if mode == 'prev':      # not the first item
            S.assume(Or(e.index > 0, And(e.T0 < e.L, CI(e, e.T0) > 0, e.p0(e.T0) >= 0)))
        return [e.itr]
    return f


def CI(e, t):      # the place of level t+1 in its parent at level t
    return IDX(Pn(e, t + 1), e.p0(t))


def t_index(ex, st, ins, args, dn):
    e = ex.spec_env
    n = G(st, 'len')
    c, p = wd(ex, st, args[1]), wd(ex, st, args[2])
    ex.oblige(st, 'index: of a node of the path in the node above', 'pre', And(1 <= n, n <= e.L, Eq(G(st, 'stage'), 0), Eq(p, e.p0(norm(n - 1))), Eq(c, Pn(e, n))))
    v = IDX(Pn(e, n), e.p0(norm(n - 1)))
    ex.assume(st, And(0 <= v, v < CNT(p), CNT(p) < BIG))
    return VInt(v, 64)


def t_count(ex, st, ins, args, dn):
    n = wd(ex, st, args[1])
    ex.assume(st, And(1 <= CNT(n), CNT(n) < BIG))
    return VInt(CNT(n), 64)


def t_child(ex, st, ins, args, dn):
    """going down: from the level where it turns to the next child, below to the first (or the last) one"""
    e = ex.spec_env
    n = G(st, 'len')
    p, j = wd(ex, st, args[1]), Z(ex.as_u(st, args[2]))
    fwd = st.ghost['mode'] == 'next'
    turn = If(Eq(G(st, 'stage'), 0), n - 1, G(st, 'turn'))
    at = And(1 <= n, Eq(p, S_path(ex, st)(norm(n - 1))), 0 <= j, j < CNT(p))
    top = And(Eq(n - 1, turn), Eq(j, CI(e, turn) + (1 if fwd else -1)))
    low = And(n - 1 > turn, Eq(j, 0 if fwd else CNT(p) - 1))
    ex.oblige(st, 'down: the next child where it turns, below always the outermost', 'pre', And(at, If(Eq(G(st, 'stage'), 0), top, low)))
    # every level below the turn was at its end
    edge = lambda t: Eq(CI(e, t) + 1, CNT(e.p0(t))) if fwd else Eq(CI(e, t), 0)
    ex.oblige(st, 'down: it turns at the lowest level that has a next child', 'pre', Implies(And(turn < e.T, e.T < e.L), edge(e.T)))
    gset(ex, st, 'turn', turn)
    gset(ex, st, 'stage', 1)
    v = CH(p, j)
    ex.assume(st, And(0 < v, v < 2 ** 62, 1 <= CNT(v), CNT(v) < BIG))
    return VOpq(v)


def t_end(ex, st, ins, args, dn):
    gset(ex, st, 'stage', 9)


HT = [(STO + r'index\(', t_index), (STO + r'count\(', t_count), (STO + r'get_child_(leaf|internal)\(', t_child), (STO + r'(size|height)\(\) const', g_get('height')), (r'::store\(\)', h_same), (r'::goto_end\(', t_end)] + HV


def inv_upit(fwd):
    def f(L):
        e, st = L.e, L.st
        n = G(st, 'len')
        i = L.r['i']
        edge = lambda t: Eq(CI(e, t) + 1, CNT(e.p0(t))) if fwd else Eq(CI(e, t), 0)
        return [('up so far', And(1 <= n, n <= e.L, Eq(G(st, 'stage'), 0), Eq(L.r['x'], e.L - n), Eq(i, CI(e, n - 1)), 0 <= i, i < CNT(e.p0(norm(n - 1))), CNT(e.p0(norm(n - 1))) < BIG)), ('the levels left were at their end', forall(1, lambda t: Implies(And(n <= t, t < e.L), edge(t)), lambda t: e.p0(t)))]
    return f


def inv_dnit(fwd):
    def f(L):
        e, S, st = L.e, L.S, L.st
        n, i = G(st, 'len'), L.r['i']
        p = S.arr(e.PATH)
        first, turn = Eq(G(st, 'stage'), 0), G(st, 'turn')
        cur = p(norm(n - 1))
        edge = lambda t: Eq(CI(e, t) + 1, CNT(e.p0(t))) if fwd else Eq(CI(e, t), 0)
        return [('down so far', And(1 <= n, n <= e.L, Or(first, Eq(G(st, 'stage'), 1)), Eq(L.r['x'], e.L - n), Implies(first, And(0 <= i, i < CNT(cur), Eq(i, CI(e, n - 1) + (1 if fwd else -1)))), Implies(Not(first), And(0 <= turn, turn < n - 1, turn <= e.L - 1, 1 <= CNT(cur), CNT(cur) < BIG, Eq(i, 0 if fwd else CNT(cur) - 1))))),
                ('the levels below the turn were at their end', Implies(And(If(first, n - 1, turn) < e.T, e.T < e.L), edge(e.T))), ('the path above the turn as before', same(p, e.p0, 0, If(first, n, turn + 1))),
                ('the path below the turn', Implies(And(Not(first), turn < e.T, e.T < n), Eq(p(e.T), CH(p(norm(e.T - 1)), If(Eq(e.T - 1, turn), CI(e, turn) + (1 if fwd else -1), 0 if fwd else CNT(p(norm(e.T - 1))) - 1)))))]
    return f


def p_it(fwd):
    def f(S, old, r, args, e):
        st = S.st
        ix = S.get(VPtr(e.itr.obj, 32))
        stage = st.ghost['stage']
        p, n = S.arr(e.PATH), G(st, 'len')
        edge = lambda t: Eq(CI(e, t) + 1, CNT(e.p0(t))) if fwd else Eq(CI(e, t), 0)
        if is_c(stage) and stage == 0:
            inside = Or(e.index + 1 < CNT(e.lw), Eq(e.L, 0)) if fwd else e.index > 0      # in a tree of one leaf the end is one past its last item
            return [('within the leaf', inside), ('the next item of the leaf', Eq(ix, e.index + (1 if fwd else -1))), ('the path as before', And(Eq(n, e.L), same(p, e.p0, 0, e.L)))]
        if is_c(stage) and stage == 9:
            return [('the end only when every level was at its end', And(e.index + 1 >= CNT(e.lw), Implies(And(0 <= e.T, e.T < e.L), edge(e.T))))]
        leaf = Z(S.ex.ptr_addr(st, S.ptr(VPtr(e.itr.obj, 40))))
        turn = G(st, 'turn')
        j = lambda t: If(Eq(t, turn), CI(e, turn) + (1 if fwd else -1), 0 if fwd else CNT(p(norm(t))) - 1)
        return [('the leaf had no further item', e.index + 1 >= CNT(e.lw) if fwd else Eq(e.index, 0)), ('as deep as before', And(Eq(n, e.L), 0 <= turn, turn < e.L)), ('above the turn the same path', same(p, e.p0, 0, turn + 1)), ('it turns at the lowest level possible', Implies(And(turn < e.T, e.T < e.L), edge(e.T))),
                ('below it the outermost children', Implies(And(turn < e.T, e.T < e.L), Eq(p(e.T), CH(p(norm(e.T - 1)), j(norm(e.T - 1)))))), ('down to the leaf', Eq(leaf, CH(p(norm(e.L - 1)), j(norm(e.L - 1))))), ('its outermost item', Eq(ix, 0 if fwd else CNT(leaf) - 1))]
    return f


FNS = []


def F(name, fn, setup, post=None, **k):
    FNS.append(FnSpec(name, fn, setup, post, **k))


INS = (LoopSpec(r'insert_part', inv_insert, roles={'i': r'.*'}),)
F('insert_part value', AUG + r'insert_part<.*leaf\*, unsigned long>\(', s_insert('value'), p_insert, hooks=HN, loops=INS)
F('insert_part node', AUG + r'insert_part<.*internal\*, .*internal\*>\(', s_insert('node'), p_insert, hooks=HN, loops=INS)
F('insert_part leaf', AUG + r'insert_part<.*internal\*, .*leaf\*>\(', s_insert('node'), p_insert, hooks=HN, loops=INS)
HSP = [(AUG + r'insert_part<', h_insert_part)] + HN
SPL = (LoopSpec(r'split_and_insert', inv_split, roles={'i': r'.*'}),)
F('split_and_insert value', AUG + r'split_and_insert<unsigned long, .*leaf\*>\(', s_split('value'), p_split, hooks=HSP, loops=SPL)
F('split_and_insert node', AUG + r'split_and_insert<.*internal\*, .*internal\*>\(', s_split('node'), p_split, hooks=HSP, loops=SPL)
F('split_and_insert leaf', AUG + r'split_and_insert<.*leaf\*, .*internal\*>\(', s_split('node'), p_split, hooks=HSP, loops=SPL)
FIX = tuple(LoopSpec(r'remove_fixup_round', f, roles={'j': r'.*'}, nth=k) for k, f in enumerate((inv_shift, inv_down, inv_merge, inv_parent)))
F('remove_fixup_round leaf', AUG + r'remove_fixup_round<.*leaf\*, .*internal\*>\(', s_fix, result(p_fix), hooks=HN, loops=FIX)
F('remove_fixup_round node', AUG + r'remove_fixup_round<.*internal\*, .*internal\*>\(', s_fix, result(p_fix), hooks=HN, loops=FIX)
HRT = [(STO + r'height\(', h_height), (STO + r'set_height\(', h_set_height), (STO + r'set_root\(', h_set_root)] + HN
F('createNewRoot leaf', AUG + r'createNewRoot<.*leaf\*>\(', s_root, p_root, hooks=HRT)
F('createNewRoot node', AUG + r'createNewRoot<.*internal\*>\(', s_root, p_root, hooks=HRT)
FL = (LoopSpec(r'find_leaf', inv_levels, roles={'i': r'^i\b.*'}, nth=0), LoopSpec(r'find_leaf', inv_children, roles={'j': r'^j\b.*'}, nth=1))
F('find_leaf', AUG + r'find_leaf<false, ', s_find(False), p_find, hooks=HS, loops=FL)
F('find_leaf upper', AUG + r'find_leaf<true, ', s_find(True), p_find, hooks=HS, loops=FL)
BL = (LoopSpec(r'.', inv_bound, roles={'i': r'.*'}),)
F('lower_bound', AUG + r'lower_bound<', s_bound(False), p_bound, hooks=HB, loops=BL)
F('upper_bound', AUG + r'upper_bound<', s_bound(True), p_bound, hooks=HB, loops=BL)
F('augment_path vector', AUG + r'augment_path\(std::vector', s_ap(True), p_ap, hooks=HA, loops=(LoopSpec(r'augment_path', inv_ap(True), roles={}),))
F('augment_path array', AUG + r'augment_path\(.*, unsigned long\)', s_ap(False), p_ap, hooks=HA, loops=(LoopSpec(r'augment_path', inv_ap(False), roles={'level': r'.*'}),))
F('insert_before', AUG + r'insert_before<', s_ins, p_ins, hooks=HI + HV, loops=(LoopSpec(r'insert_before', inv_up, roles={'level': r'.*level.*', 'n2': r'n2'}, ptr_roles=('n2',)),))
F('insert_before empty', AUG + r'insert_before<', s_ins0, p_ins0, hooks=HI + HV, loops=(LoopSpec(r'insert_before', inv_up, roles={'level': r'.*level.*', 'n2': r'n2'}, ptr_roles=('n2',)),))
F('erase', AUG + r'erase<.*btree_iterator', s_erase, p_erase, hooks=HX, loops=(LoopSpec(r'erase', inv_gap, roles={'i': r'.*'}, nth=0), LoopSpec(r'erase', inv_rounds, roles={}, nth=1)))
for lf in (True, False):
    k, ty = ('leaf', LEAF) if lf else ('node', NODE)
    F('store move ' + k, STO + r'move\(' + ty, st_move(lf, False), sp_move)
    F('store move within a ' + k, STO + r'move\(' + ty, st_move(lf, True), sp_move)
    F('store count ' + k, STO + r'count\(' + ty, st_one(lf), result(sp_count))
    F('store set_count ' + k, STO + r'set_count\(' + ty, st_one(lf, 1), sp_set_count)
    F('store set ' + k, STO + r'set\(%s, unsigned long, %s' % (ty, r'unsigned long\)' if lf else NODE + r'\)'), st_set(lf), sp_set)
F('store set leaf in a node', STO + r'set\(' + NODE + ', unsigned long, ' + LEAF + r'\)', st_set(False), sp_set)
F('store get', STO + r'get\(', st_one(True, 1), sp_get)
F('store child leaf', STO + r'get_child_leaf\(', st_one(False, 1), sp_child)
F('store child node', STO + r'get_child_internal\(', st_one(False, 1), sp_child)
F('store augment', STO + r'augment\(', st_one(False, 1), sp_aug)
F('store index', STO + r'index\(', withenv(st_index), result(sp_index), loops=(LoopSpec(r'index', inv_index, roles={'i': r'.*'}),))
F('store set_augment', STO + r'set_augment\(', withenv(st_saug), sp_saug, hooks=[(STO + r'index\(', h_ix)])
for nm, k in (('height', 8), ('size', 16)):
    F('store ' + nm, STO + nm + r'\(\) const', st_field(k, False), result(sp_val))
    F('store set_' + nm, STO + 'set_' + nm + r'\(', st_field(k, True), sp_put(k))
for nm, v in (('min_leaf_size', 2), ('max_leaf_size', 4), ('min_internal_size', 2), ('max_internal_size', 4)):
    F('store ' + nm, STO + nm + r'\(', lambda S, e: [], result(const_is(v)))
IT = r'btree_iterator<.*>::'
F('iterator increment', IT + r'increment\(', it_setup('next'), p_it(True), hooks=HT, loops=(LoopSpec(r'increment', inv_upit(True), roles={'x': 'x', 'i': 'i'}, nth=0), LoopSpec(r'increment', inv_dnit(True), roles={'x': 'x', 'i': 'i'}, nth=1)))
F('iterator decrement', IT + r'decrement\(', it_setup('prev'), p_it(False), hooks=HT, loops=(LoopSpec(r'decrement', inv_upit(False), roles={'x': 'x', 'i': 'i'}, nth=0), LoopSpec(r'decrement', inv_dnit(False), roles={'x': 'x', 'i': 'i'}, nth=1)))


def s_goto(which):
    def f(S, e):
        s_path(S, e)
        e.h = S.int('height0', 64, 0 if which == 'end' else 0, 2 ** 30)
        S.st.ghost.update(height=e.h, len=S.int('old length', 64, 0, BIG), stage=0)
        e.root = S.int('root', 64, 1, 2 ** 62)
        S.assume(1 <= CNT(e.root), CNT(e.root) < BIG)
        e.which = which
        return [e.itr]
    return f


def gj(e, n):
    return 0 if e.which == 'begin' else CNT(n) - 1


def g_child(ex, st, ins, args, dn):
    e = ex.spec_env
    n, p, j = G(st, 'len'), wd(ex, st, args[1]), Z(ex.as_u(st, args[2]))
    ex.oblige(st, 'down: the outermost child of the last node of the path', 'pre', And(n >= 1, Eq(p, S_path(ex, st)(norm(n - 1))), Eq(j, gj(e, p))))
    v = CH(p, j)
    ex.assume(st, And(0 < v, v < 2 ** 62, 1 <= CNT(v), CNT(v) < BIG))
    return VOpq(v)


def g_root(ex, st, ins, args, dn):
    return VOpq(ex.spec_env.root)


def inv_goto(L):
    e, S, st = L.e, L.S, L.st
    n, p = G(st, 'len'), S.arr(e.PATH)
    c = [v for v in (L.st.cells.get((o.id, (0,))) for o in L.st.objs.values() if o.kind == 'alloca' and o.size == 8) if isinstance(v, VOpq)]
    if len(c) != 1:
        raise Unsupported('descent: which variable is the node')
    cur = Z(c[0].e)
    step = lambda t: CH(p(norm(t)), gj(e, p(norm(t))))
    return [('levels so far', And(2 <= L.r['i'], L.r['i'] <= e.h, Eq(n, L.r['i'] - 2), cur > 0, cur < 2 ** 62, 1 <= CNT(cur), CNT(cur) < BIG)), ('from the root', Eq(If(Eq(n, 0), cur, p(0)), e.root)), ('always the outermost child', Implies(And(0 <= e.T, e.T < n - 1), Eq(p(e.T + 1), step(e.T)))), ('and so is the next', Implies(n >= 1, Eq(cur, step(n - 1))))]


def p_goto(S, old, r, args, e):
    n, p, st = G(S.st, 'len'), S.arr(e.PATH), S.st
    step = lambda t: CH(p(norm(t)), gj(e, p(norm(t))))
    leaf = Z(S.ex.ptr_addr(st, S.ptr(VPtr(e.itr.obj, 40))))
    ix = S.get(VPtr(e.itr.obj, 32))
    return [('one internal node on every level', Eq(n, If(e.h < 2, 0, e.h - 1))), ('from the root', Implies(n >= 1, Eq(p(0), e.root))), ('always the outermost child', Implies(And(0 <= e.T, e.T < n - 1), Eq(p(e.T + 1), step(e.T)))), ('down to the leaf', Eq(leaf, If(n >= 1, step(n - 1), e.root))),
            ('the first item' if e.which == 'begin' else 'one past the last item', Eq(ix, 0 if e.which == 'begin' else If(Eq(e.h, 0), 0, CNT(leaf))))]


HG = [(STO + r'count\(', t_count), (STO + r'get_child_(leaf|internal)\(', g_child), (STO + r'get_root_(leaf|internal)\(', g_root), (STO + r'height\(\) const', g_get('height')), (r'::store\(\)', h_same)] + HV
for w in ('begin', 'end'):
    F('iterator goto_' + w, IT + 'goto_%s\\(' % w, s_goto(w), p_goto, hooks=HG, loops=(LoopSpec(r'goto_', inv_goto, roles={'i': 'i'}),))


def s_findk(S, e):
    s_find(False)(S, e)
    e.ret = S.obj('iterator', 'param', Struct([(i, Cell(8, 'i')) for i in range(0, 48, 8)], 48), 48)
    e.at_end, e.item = z3.Bool('the bound is the end'), S.int('key of the item', 64)
    return [e.ret, e.t, VInt(e.k, 64)]


def f_lb(ex, st, ins, args, dn):
    event(ex, st, 'lb', args[0], val(ex, st, args[-1]))


def f_ne(ex, st, ins, args, dn):
    e = ex.spec_env
    return VBool(e.at_end if 'operator==' in dn else z3.Not(e.at_end))


def f_deref(ex, st, ins, args, dn):
    e = ex.spec_env
    ex.oblige(st, 'dereference: not the end', 'pre', z3.Not(e.at_end))
    return cell(ex, st, e.item)


def f_end(ex, st, ins, args, dn):
    event(ex, st, 'goto_end', args[0])


def p_findk(S, old, r, args, e):
    lb, ge = EV(S, 'lb'), EV(S, 'goto_end')
    out = [('the search starts from the first item not less than the key', And(len(lb) == 1, Eq(lb[0][2], e.k) if lb else False, bool(lb) and lb[0][1].obj is e.ret.obj))]
    return out + [('the end if that item has another key, else that item', Eq(len(ge) == 1, And(Not(e.at_end), LESS(Z(e.k), Z(e.item)))))]


HF = [(r'lower_bound<', f_lb), (r'::goto_end\(', f_end), (r'::end\(\) const', nothing), (r'boost::.*operator(!=|==)', f_ne), (r'operator\*\(', f_deref), (r'min_key\(', lambda ex, st, ins, args, dn: VInt(val(ex, st, args[-1]), 64) if ins.ty[0] == 'i' else args[-1])] + HB
F('find', AUG + r'find<', s_findk, p_findk, hooks=HF)
LEMMAS = []
BOUNDED = [('composition of the steps over a whole history (a B-tree is a tree), the external stores on disk, augmentation values and erase by key: the driver', 'btree driver: random and adversarial insertion/erase histories of up to a few thousand operations, fan-outs from <2,3> to <16,64>, internal and external stores, two orders, stated seeds; order, node sizes, height, keys and augmentations compared with a sorted vector after the operations')]
ASSUME = ['nodes of a path are distinct, each the child of the one before (the invariant of an iterator; find_leaf, goto_begin/goto_end, increment and decrement are proved to produce such paths)', 'std::vector by its contract; memory allocation succeeds',
          'maximum + 1 >= 2 x minimum for both node kinds (the declared fan-out must allow splitting), children of internal nodes and the keys stored for them agree (driver)', 'node counts below 2^40, height below 2^30', 'merging and sharing (remove_fixup_round), splitting and insertion are proved for arbitrary limits; the stores are proved for the internal store with its default limits']
