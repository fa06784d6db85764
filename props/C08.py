"""tiny sets: a vector kept in the order of the comparator; lookups and bounds by position."""
from lib import *
from lib import _fresh
from heap import norm_div, _range

ID = 'C08'
TU = 'tiny'
HARNESS = 'arrays'
SCENARIOS = ['tiny']
KEEP = [r'std::(_V2::)?(rotate|__rotate)<', r'std::(lower|upper)_bound<', r'std::equal_range<', r'std::vector<elem.*>::(emplace_back|push_back|resize|reserve|_M_)']
LEMMAS = [L_SUM]
V = 8          # the vector of elements inside the container: begin, end, end of storage
BIG = 2 ** 50


def key(st, ex, p):
    return KEY(Z(ex.as_u(st, ex.load(st, p, ('i', 64)))))


# ---- assumed contracts of the standard library, over any element order
def h_bound(strict, both=False):
    def h(ex, st, ins, args, dn):
        f, o, lo, hi = _range(ex, st, args)
        if o is None:
            return VAgg([f, f]) if both else f
        S = Ctx(ex, st)
        a, k = S.arr(VPtr(o, 0)), key(st, ex, args[2])
        q = z3.Int('q')
        ex.oblige(st, 'binary search needs a sorted range', 'pre', sorted_(a, lo, hi, goal=True))
        out = []
        for up in ((False, True) if both else (strict,)):
            r = z3.Int('bound!%d' % next(_fresh))
            lt_ = (lambda x: KEY(Z(x)) <= k) if up else (lambda x: KEY(Z(x)) < k)
            S.assume(lo <= r, r <= hi, forall(1, lambda j: Implies(And(lo <= j, j < hi), Iff(j < r, lt_(a.fn(j)))), lambda j: [a.fn(j)]),
                     Implies(r > lo, lt_(a.read(r - 1))), Implies(r < hi, Not(lt_(a.read(r)))))
            out.append(VPtr(o, norm(r * 8)))
        return VAgg(out) if both else out[0]
    return h


def h_rotate(ex, st, ins, args, dn):
    f, o, lo, hi = _range(ex, st, [args[0], args[2]])
    if o is None:
        return f
    _, o2, lo2, mid = _range(ex, st, [args[0], args[1]])
    _range(ex, st, [args[1], args[2]])
    S = Ctx(ex, st)
    a0 = S.arr(VPtr(o, 0))
    ex.havoc_leaf(st, o, 0, 8)
    a1 = S.arr(VPtr(o, 0))
    n = hi - mid
    S.assume(forall(1, lambda x: Eq(a1.fn(x), If(And(lo <= x, x < lo + n), a0.fn(x + (mid - lo)), If(And(lo + n <= x, x < hi), a0.fn(x - n), a0.fn(x)))), lambda x: a1.fn(x)),
             forall(1, lambda x: Implies(And(lo <= x, x < hi), Eq(a0.fn(x), If(x < mid, a1.fn(x + n), a1.fn(x - (mid - lo))))), lambda x: a0.fn(x)))
    c = getattr(o.layout, 'count', hi)
    S.assume(Eq(a1.sum(0, c), a0.sum(0, c)))
    return VPtr(o, norm((lo + n) * 8))


def items(ex, st, v):
    """begin and end (as positions) of the elements of a vector"""
    b = ex.load(st, v, ('ptr',))
    e = ex.load(st, VPtr(v.obj, norm(v.off + 8)), ('ptr',))
    return b, e


def renew(ex, st, v, extra, x=None):
    """the vector moves its elements to new storage with room for more"""
    b, e = items(ex, st, v)
    n = norm_div(e.off, 8) if e.obj is not None else 0
    S = Ctx(ex, st)
    nb = S.heap('storage%d' % next(_fresh), Cell(8, 'i'), norm(Z(n) + extra), False)
    a, a0 = S.arr(VPtr(nb.obj, 0)), S.arr(VPtr(b.obj, 0))
    S.assume(forall(1, lambda k: Implies(And(0 <= k, k < n), Eq(a.fn(k), a0.fn(k))), lambda k: a.fn(k)), forall(1, lambda k: Implies(And(0 <= k, k < n), Eq(a.fn(k), a0.fn(k))), lambda k: a0.fn(k)))
    if x is not None:
        S.assume(Eq(a.fn(Z(n)), ex.as_u(st, x)))
    return nb, n


def put(ex, st, v, nb, n):
    ex.store(st, v, nb, ('ptr',))
    ex.store(st, VPtr(v.obj, norm(v.off + 8)), VPtr(nb.obj, norm(Z(n) * 8)), ('ptr',))
    ex.store(st, VPtr(v.obj, norm(v.off + 16)), VPtr(nb.obj, norm(Z(n) * 8)), ('ptr',))


def h_push(ex, st, ins, args, dn):
    x = ex.load(st, args[1], ('i', 64))
    v = args[0]
    nb, n = renew(ex, st, v, 1, x)
    put(ex, st, v, nb, norm(Z(n) + 1))
    return VPtr(nb.obj, norm(Z(n) * 8)) if 'emplace_back' in dn else None


def h_resize(ex, st, ins, args, dn):
    v, z = args[0], ex.as_u(st, args[1])
    b, e = items(ex, st, v)
    n = norm_div(e.off, 8)
    ex.oblige(st, 'resize only shrinks', 'pre', And(0 <= z, le(z, n)))
    ex.store(st, VPtr(v.obj, norm(v.off + 8)), VPtr(b.obj, norm(Z(z) * 8)), ('ptr',))
    return None


def h_reserve(ex, st, ins, args, dn):
    nb, n = renew(ex, st, args[0], z3.Int('room!%d' % next(_fresh)))
    put(ex, st, args[0], nb, n)
    return None


HK = [(r'std::equal_range<', h_bound(0, True)), (r'std::lower_bound<', h_bound(False)), (r'std::upper_bound<', h_bound(True)), (r'rotate<', h_rotate),
      (r'std::vector<elem.*::(push_back|emplace_back)', h_push), (r'std::vector<elem.*::resize', h_resize), (r'std::vector<elem.*::reserve', h_reserve)] + LESS + MM


def sorted_(a, lo, hi, strict=False, goal=False):
    r = (lambda x, y: KEY(Z(x)) < KEY(Z(y))) if strict else (lambda x, y: KEY(Z(x)) <= KEY(Z(y)))
    b = lambda i, j: Implies(And(lo <= i, i < j, j < hi), r(a(i), a(j)))
    if goal:
        i, j = z3.Ints('gi gj')
        return b(i, j)
    return forall(2, lambda i, j: Implies(And(lo <= i, i < j, j < hi), r(a.fn(i), a.fn(j))), lambda i, j: z3.MultiPattern(a.fn(i), a.fn(j)))


# ---- containers
def box(S, env, name='s', multi=None):
    t = S.obj(name, 'param', Struct([(0, Cell(1, 'i')), (1, Cell(1, 'i')), (8, Cell(8, 'p')), (16, Cell(8, 'p')), (24, Cell(8, 'p'))], 32), 32)
    n = S.int(name + '_n', 64, 0, BIG)
    cap = S.int(name + '_cap', 64, 0, BIG)
    S.assume(n <= cap)
    b = S.heap(name + '_items', Cell(8, 'i'), cap, False)
    S.ex.store(S.st, VPtr(t.obj, 8), b, ('ptr',))
    S.ex.store(S.st, VPtr(t.obj, 16), VPtr(b.obj, norm(n * 8)), ('ptr',))
    S.ex.store(S.st, VPtr(t.obj, 24), VPtr(b.obj, norm(cap * 8)), ('ptr',))
    a = S.arr(VPtr(b.obj, 0))
    S.assume(sorted_(a, 0, n, strict=not (env.multi if multi is None else multi)))
    return t, n, b


def mk(multi, arg=True, its=0):
    def f(S, env):
        env.multi = multi
        env.t, env.n, env.b = box(S, env)
        out = [env.t]
        if arg:
            x = S.obj('x', 'param', Struct([(0, Cell(8, 'i'))], 8), 8)
            env.x = S.int('x', 64)
            S.ex.store(S.st, x, VInt(env.x, 64), ('i', 64))
            out.append(x)
        ps = [S.int('at%d' % k, 64, 0, BIG) for k in range(its)]
        S.assume([p <= env.n if its == 2 else p < env.n for p in ps], ps[0] <= ps[1] if its == 2 else True)
        env.ps = ps
        return out + [VPtr(env.b.obj, norm(p * 8)) for p in ps]
    return f


def view(S, env, t=None):
    t = t or env.t
    b = S.ex.load(S.st, VPtr(t.obj, 8), ('ptr',))
    e = S.ex.load(S.st, VPtr(t.obj, 16), ('ptr',))
    S.ex.oblige(S.st, 'the elements are in one piece of storage', 'post', b.obj is e.obj and is_c(b.off) and b.off == 0)
    return b, norm_div(e.off, 8), S.arr(VPtr(b.obj, 0))


def pos(S, env, p):
    b, n, a = view(S, env)
    if p.obj is not b.obj:
        S.ex.oblige(S.st, 'the iterator points into the container', 'post', False)
    return norm_div(p.off, 8)


def kept(S, old, env, at=lambda x: x, lo=0, hi=None, w='every element is kept'):
    """element x of the new container is element at(x) of the old one, for x in [lo,hi)"""
    b, n, a = view(S, env)
    a0 = old.arr(VPtr(env.b.obj, 0))
    x = z3.Int('x0')
    return (w, Implies(And(lo <= x, x < (n if hi is None else hi)), Eq(a(x), a0(at(x)))))


def in_order(S, env):
    b, n, a = view(S, env)
    return ('the elements are in order' + ('' if env.multi else ', no two equivalent'), sorted_(a, 0, n, not env.multi, goal=True))


def same(S, old, env):
    b, n, a = view(S, env)
    return [('the container is unchanged', Eq(n, env.n)), kept(S, old, env, hi=env.n)]


def lo_is(S, old, env, r, up=False):
    a0 = old.arr(VPtr(env.b.obj, 0))
    x, k = z3.Int('x0'), KEY(Z(env.x))
    c = KEY(Z(a0(x)))
    return [('the bound is in range', And(0 <= r, r <= env.n)), ('every element before the bound is smaller' + (' or equivalent' if up else ''), Implies(And(0 <= x, x < r), (c <= k) if up else (c < k))),
            ('no element from the bound on is smaller' + (' or equivalent' if up else ''), Implies(And(r <= x, x < env.n), (c > k) if up else (c >= k)))]


def p_bound(up):
    return lambda S, old, r, args, env: lo_is(S, old, env, pos(S, env, r), up) + same(S, old, env)


def p_range(S, old, r, args, env):
    a, b = [pos(S, env, S.ex.load(S.st, p, ('ptr',))) for p in (args[2], args[3])]
    return lo_is(S, old, env, a) + [('upper: ' + n, f) for n, f in lo_is(S, old, env, b, True)] + same(S, old, env)


def p_find(S, old, r, args, env):
    p = pos(S, env, r)
    a0, x, k = old.arr(VPtr(env.b.obj, 0)), z3.Int('x0'), KEY(Z(env.x))
    return [('found, or the end', And(0 <= p, p <= env.n)), ('what is found is equivalent', Implies(p < env.n, Eq(KEY(Z(a0(p))), k))),
            ('the end only without an equivalent element', Implies(And(Eq(p, env.n), 0 <= x, x < env.n), Ne(KEY(Z(a0(x))), k)))] + same(S, old, env)


def cnt(S, old, env, c):
    """c elements are equivalent to x: they lie in [u, u+c) for some u"""
    a0, x, k = old.arr(VPtr(env.b.obj, 0)), z3.Int('x0'), KEY(Z(env.x))
    u = None
    return a0, x, k


def p_count(S, old, r, args, env):
    c = S.ex.as_u(S.st, r)
    a0, k = old.arr(VPtr(env.b.obj, 0)), KEY(Z(env.x))
    l, u = z3.Int('wl'), z3.Int('wu')
    # l and u are fixed by what they mean; they exist because the elements are in order
    S.assume(0 <= l, l <= u, u <= env.n, forall(1, lambda j: Implies(And(0 <= j, j < env.n), And(Iff(j < l, KEY(Z(a0.fn(j))) < k), Iff(j < u, KEY(Z(a0.fn(j))) <= k))), lambda j: [a0.fn(j)]))
    ex = S.ex
    for e in (l, u, l - 1, u - 1):
        S.assume(Implies(And(0 <= e, e < env.n), And(Iff(e < l, KEY(Z(a0.read(e))) < k), Iff(e < u, KEY(Z(a0.read(e))) <= k))))
    return [('the number of equivalent elements', Eq(c, u - l))] + same(S, old, env)


def p_insert(S, old, r, args, env):
    b, n, a = view(S, env)
    a0, x, k = old.arr(VPtr(env.b.obj, 0)), z3.Int('x0'), KEY(Z(env.x))
    i = pos(S, env, S.ex.load(S.st, args[2], ('ptr',)))
    if env.multi:
        new = True
    else:
        new = Ne(S.ex.as_u(S.st, S.ex.load(S.st, VPtr(args[2].obj, 8), ('i', 8))), 0)
    out = [in_order(S, env), ('the iterator names an element', And(0 <= i, i < n)),
           ('one element more exactly when it is inserted', Eq(n, env.n + If(new, 1, 0))),
           ('inserted: the element itself is at the iterator', Implies(new, Eq(a(i), env.x))),
           ('inserted: the elements before keep their place', Implies(And(new, 0 <= x, x < i), Eq(a(x), a0(x)))),
           ('inserted: the elements after move one up', Implies(And(new, i < x, x < n), Eq(a(x), a0(x - 1))))]
    if env.multi:
        out.append(('inserted behind its equivalents', Implies(And(i < x, x < n), KEY(Z(a(x))) > k)))
    else:
        out += [('refused exactly when an equivalent one is there', Implies(And(new, 0 <= x, x < env.n), Ne(KEY(Z(a0(x))), k))),
                ('refused: the equivalent one is named', Implies(Not(new), Eq(KEY(Z(a0(i))), k))),
                ('refused: nothing changes', Implies(And(Not(new), 0 <= x, x < n), Eq(a(x), a0(x))))]
    return out


def removed(S, old, r, args, env, l, h):
    b, n, a = view(S, env)
    return [in_order(S, env), ('exactly the elements named are gone', Eq(n, env.n - (h - l))), kept(S, old, env, lambda x: If(x < l, x, x + (h - l)), w='all other elements are kept, in order')]


def p_erase(S, old, r, args, env):
    l = env.ps[0]
    h = env.ps[1] if len(env.ps) > 1 else l + 1
    return removed(S, old, r, args, env, l, h) + [('the iterator names what followed', Eq(pos(S, env, r), l))]


def p_erasekey(S, old, r, args, env):
    c = S.ex.as_u(S.st, r)
    p_count(S, old, r, args, env)
    l, u = z3.Int('wl'), z3.Int('wu')
    return [('the number of elements removed', Eq(c, u - l))] + removed(S, old, r, args, env, l, u)


def p_size(S, old, r, args, env):
    return [('the number of elements', Eq(S.ex.as_u(S.st, r), env.n))] + same(S, old, env)


def p_empty(S, old, r, args, env):
    return [('empty exactly without elements', Iff(r.e, Eq(env.n, 0)))] + same(S, old, env)


def p_at(end):
    return lambda S, old, r, args, env: [('the position', Eq(pos(S, env, r), env.n if end else 0))] + same(S, old, env)


def p_clear(S, old, r, args, env):
    return [('nothing is left', Eq(view(S, env)[1], 0))]


FNS = []
for T, multi in (('set', False), ('mul', True)):
    nm = 'set' if not multi else 'multiset'
    def F(n, setup, post, **kw):
        FNS.append(FnSpec('%s: %s' % (nm, n), r'\bvp_%s_%s\(' % (T, n), setup, post, hooks=HK, **kw))
    A1, A0 = mk(multi), mk(multi, False)
    def s_ins(S, env, multi=multi, A1=A1):
        a = A1(S, env)
        r = S.obj('result', 'param', Struct([(0, Cell(8, 'p')), (8, Cell(1, 'i'))], 16), 16)
        return a + [r]
    def s_rng(S, env, A1=A1):
        return A1(S, env) + [S.obj(q, 'param', Struct([(0, Cell(8, 'p'))], 8), 8) for q in ('from', 'to')]
    F('insert', s_ins, p_insert)
    F('emplace', s_ins, p_insert)
    F('erase', mk(multi, False, 1), p_erase)
    F('erase2', mk(multi, False, 2), p_erase)
    F('erasekey', A1, p_erasekey)
    for c in ('', 'c'):
        F('find' + c, A1, p_find)
        F('lower' + c, A1, p_bound(False))
        F('upper' + c, A1, p_bound(True))
        F('range' + c, s_rng, p_range)
        F(('c' if c else '') + 'begin', A0, p_at(False))
        F(('c' if c else '') + 'end', A0, p_at(True))
    F('count', A1, p_count)
    F('size', A0, p_size)
    F('empty', A0, p_empty)
    F('clear', A0, p_clear)

    def s_ir(S, env, A0=A0):
        a = A0(S, env)
        env.m = S.int('m', 64, 0, BIG)
        env.src = S.heap('source', Cell(8, 'i'), env.m, False)
        return a + [env.src, VPtr(env.src.obj, norm(env.m * 8))]

    def s_swap(S, env, multi=multi):
        env.multi = multi
        env.t, env.n, env.b = box(S, env)
        env.t2, env.n2, env.b2 = box(S, env, 'o')
        return [env.t, env.t2]

    def p_swap(S, old, r, args, env):
        out = []
        for t, n, b in ((env.t, env.n2, env.b2), (env.t2, env.n, env.b)):
            bb, nn, a = view(S, env, t)
            x = z3.Int('x0')
            out += [('the elements of the other', And(bb.obj is b.obj, Eq(nn, n))), ('unchanged', Implies(And(0 <= x, x < n), Eq(a(x), old.arr(VPtr(b.obj, 0))(x))))]
        return out
    F('swap', s_swap, p_swap)


# ---- insertion sort
def s_sort(S, env):
    env.n = S.int('n', 64, 0, BIG)
    env.b = S.heap('items', Cell(8, 'i'), env.n, False)
    return [env.b, VPtr(env.b.obj, norm(env.n * 8))]


def li_sort(L):
    a, a0 = L.S.arr(VPtr(L.e.b.obj, 0)), L.S0.arr(VPtr(L.e.b.obj, 0))
    return [('position in range', And(0 <= L.i, L.i <= L.e.n)), ('the elements before it are sorted', sorted_(a, 0, L.i)), ('the same elements', Eq(a.sum(0, L.e.n), a0.sum(0, L.e.n)))]


def p_sort(S, old, r, args, env):
    a = S.arr(VPtr(env.b.obj, 0))
    return [('sorted', sorted_(a, 0, env.n, goal=True)), ('the same elements', Eq(a.sum(0, env.n), old.arr(VPtr(env.b.obj, 0)).sum(0, env.n)))]


FNS.append(FnSpec('sort', r'\bvp_sort\(', s_sort, p_sort, hooks=HK, loops=[LoopSpec(r'tiny::sort', inv=li_sort, roles={'i': r'.*'}, ptr_roles=('i',), variant=lambda L: L.e.n - L.i)]))
BOUNDED = [('maps, comparison operators, construction from ranges, whole histories', 'random histories against std::set, std::multiset, std::map, std::multimap')]
ASSUME = ['std::lower_bound, upper_bound, equal_range, rotate and std::vector by contract (binary search over a sorted range; rotation moves the block; push_back moves everything to new storage)']
