"""tpie::array and array_view_base hold exactly what was stored."""
from lib import *

ID = 'C01'
TU = 'array'
HARNESS = 'arrays'
SCENARIOS = ['array']
CLS = '_ZTSN4tpie5arrayI4elemNS_9allocatorIS1_EEEE'
VCLS = '_ZTSN4tpie15array_view_baseI4elemEE'
P = r'^tpie::array<elem, tpie::allocator<elem> ?>::'
VP = r'^tpie::array_view_base<elem>::'


def mk(S, env, name='this', lo=0, bucket='null', tss=None):
    t = this_obj(S, None, CLS, name)
    n, buf = mk_array(S, t, '', name=name + '_buf', lo=lo, bucket=bucket)
    if tss:
        b = S.int(name + '_tss', 8, 0, 2)
        S.set(t, 'm_tss_used', b, 8)
    return t


def V(S, t):
    return ArrayView(S, t)


def wf(S, t, n, what='this'):
    """well-formed: the buffer holds exactly n elements, is live, and null only for n = 0"""
    a = V(S, t)
    d = a.data
    if d.obj is None:
        return [('%s: a null buffer only for size 0' % what, Eq(n, 0))]
    return [('%s: the buffer starts at its allocation and holds the size' % what, Implies(Z(n) > 0, And(Eq(d.off, 0), le(Z(n) * 8, d.obj.size), d.obj.id not in S.st.dead, Not(d.nul))))]


def same_contents(S, t, old, t0, n, nm):
    k = z3.Int('k')
    a, b = V(S, t), V(old, t0)
    if a.data.obj is None:
        return [(nm, Eq(n, 0))]
    return [(nm, Implies(And(k >= 0, k < n), Eq(a.arr()(k), b.arr()(k))))]


def fresh_buf(S, t, other, nm):
    a, b = V(S, t).data, V(S, other).data
    if a.obj is None or b.obj is None:
        return []
    return [(nm, a.obj is not b.obj)]


# ---- resize
def s_resize(S, env):
    t = mk(S, env, tss=True)
    env.n = S.int('newsize', 64, 0, 2 ** 56)
    return [t, VInt(env.n, 64)]


def post_size(S, old, r, args, env):
    t = args[0]
    return [('the array has the requested size', Eq(V(S, t).size, env.n))] + wf(S, t, env.n)


def exc_empty(S, old, r, args, env):
    t = args[0]
    d = V(S, t).data
    return [('a failed resize leaves an empty array', And(Eq(V(S, t).size, 0), d.obj is None))]


def s_resize_v(S, env):
    t = mk(S, env, tss=True)
    env.n = S.int('newsize', 64, 0, 2 ** 56)
    env.v = S.int('value')
    v = S.obj('elm', cls='_ZTS4elem')
    S.set(v, 'v', env.v)
    return [t, VInt(env.n, 64), v]


def post_filled(S, old, r, args, env):
    t = args[0]
    k = z3.Int('k')
    a = V(S, t)
    out = post_size(S, old, r, args, env)
    if a.data.obj is not None:
        out.append(('every element is the given value', Implies(And(k >= 0, k < env.n), Eq(a.arr()(k), env.v))))
    return out


def s_ctor_v(S, env):
    t = this_obj(S, None, CLS)
    env.n = S.int('newsize', 64, 0, 2 ** 56)
    env.v = S.int('value')
    v = S.obj('elm', cls='_ZTS4elem')
    S.set(v, 'v', env.v)
    al = S.obj('alloc', cls='_ZTSN4tpie9allocatorI4elemEE')
    S.set(al, 'bucket.bucket', VPtr(None, 0))
    return [t, VInt(env.n, 64), v, al]


def s_ctor(S, env):
    t = this_obj(S, None, CLS)
    env.n = S.int('newsize', 64, 0, 2 ** 56)
    al = S.obj('alloc', cls='_ZTSN4tpie9allocatorI4elemEE')
    S.set(al, 'bucket.bucket', VPtr(None, 0))
    return [t, VInt(env.n, 64), al]


# ---- copies
def s_copy_ctor(S, env):
    t = this_obj(S, None, CLS)
    o = mk(S, env, 'other')
    env.n = V(S, o).size
    return [t, o]


def post_copy(S, old, r, args, env):
    t, o = args
    return post_size(S, old, r, args, env) + same_contents(S, t, old, o, env.n, 'the copy has the elements of the original') + \
        same_contents(S, o, old, o, env.n, 'the original keeps its elements') + \
        ([('the original keeps its size', Eq(V(S, o).size, env.n))]) + \
        (fresh_buf(S, t, o, 'the copy does not share the buffer') if o.obj is not t.obj else [])


def s_assign(S, env):
    if env.case == 'self':
        t = mk(S, env, tss=True)
        env.n = V(S, t).size
        return [t, t]
    t = mk(S, env, tss=True)
    o = mk(S, env, 'other', tss=True)
    env.n = V(S, o).size
    return [t, o]


def post_move(S, old, r, args, env):
    t, o = args
    return post_size(S, old, r, args, env) + same_contents(S, t, old, o, env.n, 'the elements are moved') + \
        ([] if t.obj is o.obj else [('the source is empty', And(Eq(V(S, o).size, 0), V(S, o).data.obj is None if 'ctor' in (env.case or '') else True))]) + \
        ([] if t.obj is o.obj else fresh_buf(S, t, o, 'the buffer is not shared'))


def s_move_ctor(S, env):
    env.case = 'ctor'
    t = this_obj(S, None, CLS)
    o = mk(S, env, 'other', tss=True)
    env.n = V(S, o).size
    return [t, o]


def s_two(S, env):
    return [mk(S, env, tss=True), mk(S, env, 'other', tss=True)]


def post_swap(S, old, r, args, env):
    t, o = args
    nt, no = V(old, t).size, V(old, o).size
    return [('swap exchanges the sizes', And(Eq(V(S, t).size, no), Eq(V(S, o).size, nt)))] + \
        same_contents(S, t, old, o, no, 'this has the elements of the other') + same_contents(S, o, old, t, nt, 'the other has the elements of this') + \
        wf(S, t, no) + wf(S, o, nt, 'other') + \
        [('the allocation kind travels with the buffer', And(Eq(S.get(t, 'm_tss_used', 8), old.get(o, 'm_tss_used', 8)), Eq(S.get(o, 'm_tss_used', 8), old.get(t, 'm_tss_used', 8))))]


# ---- access
def s_at(lo=0, extra=0, rel=None):
    def s(S, env):
        t = mk(S, env, lo=1)
        env.n = V(S, t).size
        env.i = S.int('i', 64)
        S.assume(env.i < env.n + extra)
        if rel:
            S.assume(rel(env))
        return [t, VInt(env.i, 64)]
    return s


def ret_elem(idx, const=False):
    def post(S, old, r, args, env):
        d = V(S, args[0]).data
        p = S.ex.concretize(S.st, r)
        return [('refers to the element of that index', And(isinstance(p, VPtr) and p.obj is d.obj, Eq(p.off, idx(env) * 8) if isinstance(p, VPtr) else False))]
    return post


def post_it(idx):
    def post(S, old, r, args, env):
        # the iterator is returned in memory or in a register: it holds a pointer
        d = V(S, args[0]).data
        p = r
        if isinstance(r, VAgg):
            p = r.v[0]
        p = S.ex.concretize(S.st, p)
        return [('the iterator is at that index', And(isinstance(p, VPtr) and p.obj is d.obj, Eq(p.off, idx(env) * 8) if isinstance(p, VPtr) else False))]
    return post


def s_this(S, env):
    t = mk(S, env, lo=1)
    env.n = V(S, t).size
    return [t]


def s_this0(S, env):
    t = mk(S, env, lo=0)
    env.n = V(S, t).size
    return [t]


def none(S, a, e):
    return []


def li_fill(L):
    S = L.S
    p = L.p['first']
    if p.obj is None:
        return []
    a = S.arr(p)
    return [('filled so far', forall(1, lambda x: Implies(And(L.i0['first'] <= x, x < L.first), a.read(x) == L.e.v), lambda x: a.fn(x)))]


def li_assign(L):
    S, e = L.S, L.e
    a = V(S, e.args[0]).arr()
    b = V(S, e.args[1]).arr()
    return [('index in range', And(0 <= L.i, L.i <= V(S, e.args[0]).size)),
            ('elements copied so far', forall(1, lambda x: Implies(And(0 <= x, x < L.i), a.read(x) == b.read(x)), lambda x: a.fn(x)))]


def li_eq(L):
    S, e = L.S, L.e
    a, b = V(S, e.args[0]).arr(), V(S, e.args[1]).arr()
    return [('index in range', And(0 <= L.i, L.i <= V(S, e.args[0]).size)),
            ('elements agree so far', forall(1, lambda x: Implies(And(0 <= x, x < L.i), a.read(x) == b.read(x)), lambda x: a.fn(x)))]


def keepargs(f):
    def s(S, env):
        env.args = f(S, env)
        return env.args
    return s


def post_eq(neg):
    def post(S, old, r, args, env):
        t, o = args
        n, m = V(S, t).size, V(S, o).size
        a, b = V(S, t).arr(), V(S, o).arr()
        k = z3.Int('k')
        eq = Not(r.e) if neg else r.e
        w = z3.Int('w')
        return [('equal arrays have equal sizes', Implies(eq, Eq(n, m))),
                ('equal arrays agree at every index', Implies(And(eq, k >= 0, k < n), Eq(a(k), b(k)))),
                ('unequal arrays differ in size or somewhere', Implies(Not(eq), Or(Not(Eq(n, m)), exists(1, lambda x: And(x >= 0, x < n, a(x) != b(x))))))]
    return post


FILL = LoopSpec(r'std::(__fill_a1|__do_uninit_fill|__uninitialized_fill|fill|uninitialized_fill)', inv=li_fill, roles={'first': '.*first.*|.*cur.*'}, ptr_roles=('first',), name='fill')
ASG = LoopSpec(r'tpie::array<.*>::operator=', inv=li_assign, roles={'i': 'i'}, name='assign')
EQL = LoopSpec(r'tpie::array<.*>::operator[!=]=', inv=li_eq, roles={'i': 'i'}, name='compare')
THR = {'mm_throws': True}


def s_pair_idx(S, env):
    t = mk(S, env, lo=1)
    env.n = V(S, t).size
    env.i = S.int('i')
    env.j = S.int('j')
    S.assume(env.i <= env.n, env.j <= env.n)
    return [t, VInt(env.i, 64), VInt(env.j, 64)]


def ret_s(f, nm='distance is the difference of the indices'):
    def post(S, old, r, args, env):
        return [(nm, Eq(S.ex.as_s(S.st, r), f(env)))]
    return post


def ret_b(f, nm):
    def post(S, old, r, args, env):
        return [(nm, Iff(r.e, f(env)))]
    return post


# ---- views
def mkv(lo=0):
    def s(S, env):
        t = this_obj(S, None, VCLS)
        env.n = S.int('view_n', 64, lo, 2 ** 56)
        off = S.int('view_off', 64, 0, 2 ** 56)
        tail = S.int('view_tail', 64, 0, 2 ** 56)
        buf = S.heap('buf', ELEM, off + env.n + tail)
        env.buf, env.off = buf, off
        S.set(t, 'm_start', VPtr(buf.obj, off * 8))
        S.set(t, 'm_end', VPtr(buf.obj, (off + env.n) * 8))
        return [t]
    return s


def mkvi(lo=1, extra=0, rel=None):
    def s(S, env):
        a = mkv(lo)(S, env)
        env.i = S.int('i')
        S.assume(env.i < env.n + extra)
        if rel:
            S.assume(rel(env))
        return a + [VInt(env.i, 64)]
    return s


def mkv2(S, env):
    a = mkv(0)(S, env)
    env.i, env.j = S.int('i'), S.int('j')
    S.assume(env.i <= env.n, env.j <= env.n)
    return a + [VInt(env.i, 64), VInt(env.j, 64)]


def vret(idx):
    def post(S, old, r, args, env):
        p = S.ex.concretize(S.st, r.v[0] if isinstance(r, VAgg) else r)
        return [('refers to the element of that index', And(isinstance(p, VPtr) and p.obj is env.buf.obj, Eq(p.off, (env.off + idx(env)) * 8) if isinstance(p, VPtr) else False))]
    return post


def ret_u(f, nm):
    def post(S, old, r, args, env):
        return [(nm, Eq(S.ex.as_u(S.st, r), f(env)))]
    return post


def whole(S, args, env):
    return None


I_ = lambda e: e.i
FNS = [
    FnSpec('array::resize(n)', P + r'resize\(unsigned long\)', s_resize, post_size, hooks=MM, exc=exc_empty, opts=THR),
    FnSpec('array::resize(n, value)', P + r'resize\(unsigned long, elem const&\)', s_resize_v, post_filled, hooks=MM, loops=[FILL], exc=exc_empty, opts=THR),
    FnSpec('array::array(n, value)', P + r'array\(unsigned long, elem const&, ', s_ctor_v, post_filled, hooks=MM, loops=[FILL], exc='any', opts=THR),
    FnSpec('array::array(n)', P + r'array\(unsigned long, tpie::allocator<elem> const&\)', s_ctor, post_size, hooks=MM, exc='any', opts=THR),
    FnSpec('array::array(const array&)', P + r'array\(tpie::array<elem, tpie::allocator<elem> ?> const&\)', s_copy_ctor, post_copy, hooks=MM, exc='any', opts=THR),
    FnSpec('array::array(array&&)', P + r'array\(tpie::array<elem, tpie::allocator<elem> ?>&&\)', s_move_ctor, post_move, hooks=MM),
    FnSpec('array::operator=(const array&)', P + r'operator=\(tpie::array<elem, tpie::allocator<elem> ?> const&\)', keepargs(s_assign), post_copy, hooks=MM, loops=[ASG], cases=('other', 'self'), exc='any', opts=THR),
    FnSpec('array::operator=(array&&)', P + r'operator=\(tpie::array<elem, tpie::allocator<elem> ?>&&\)', s_assign, post_move, hooks=MM, cases=('other', 'self')),
    FnSpec('array::swap', P + r'swap\(', s_two, post_swap, hooks=MM),
    FnSpec('std::swap(array)', r'^vp_swap\(', s_two, post_swap, hooks=MM),
    FnSpec('array::operator==', P + r'operator==\(', keepargs(s_two), post_eq(False), loops=[EQL], frame=none),
    FnSpec('array::operator!=', P + r'operator!=\(', keepargs(s_two), post_eq(True), loops=[EQL], frame=none),
    FnSpec('array::operator[]', P + r'operator\[\]\(unsigned long\)$', s_at(), ret_elem(I_), frame=none),
    FnSpec('array::operator[] const', P + r'operator\[\]\(unsigned long\) const', s_at(), ret_elem(I_), frame=none),
    FnSpec('array::at', P + r'at\(unsigned long\)$', s_at(), ret_elem(I_), frame=none),
    FnSpec('array::at const', P + r'at\(unsigned long\) const', s_at(), ret_elem(I_), frame=none),
    FnSpec('array::find', P + r'find\(unsigned long\)$', s_at(extra=1), post_it(I_), frame=none),
    FnSpec('array::find const', P + r'find\(unsigned long\) const', s_at(extra=1), post_it(I_), frame=none),
    FnSpec('array::front', P + r'front\(\)$', s_this, ret_elem(lambda e: 0), frame=none),
    FnSpec('array::front const', P + r'front\(\) const', s_this, ret_elem(lambda e: 0), frame=none),
    FnSpec('array::back', P + r'back\(\)$', s_this, ret_elem(lambda e: e.n - 1), frame=none),
    FnSpec('array::back const', P + r'back\(\) const', s_this, ret_elem(lambda e: e.n - 1), frame=none),
    FnSpec('array::begin', P + r'begin\(\)$', s_this, post_it(lambda e: 0), frame=none),
    FnSpec('array::begin const', P + r'begin\(\) const', s_this, post_it(lambda e: 0), frame=none),
    FnSpec('array::end', P + r'end\(\)$', s_this, post_it(lambda e: e.n), frame=none),
    FnSpec('array::end const', P + r'end\(\) const', s_this, post_it(lambda e: e.n), frame=none),
    FnSpec('array::rbegin', P + r'rbegin\(\)$', s_this, post_it(lambda e: e.n - 1), frame=none),
    FnSpec('array::rbegin const', P + r'rbegin\(\) const', s_this, post_it(lambda e: e.n - 1), frame=none),
    FnSpec('array::rend', P + r'rend\(\)$', s_this, post_it(lambda e: -1), frame=none),
    FnSpec('array::rend const', P + r'rend\(\) const', s_this, post_it(lambda e: -1), frame=none),
    FnSpec('array::size', P + r'size\(\) const', s_this0, ret_u(lambda e: e.n, 'size() is the number of elements'), frame=none),
    FnSpec('array::empty', P + r'empty\(\) const', s_this0, ret_b(lambda e: Eq(e.n, 0), 'empty() iff there are no elements'), frame=none),
    FnSpec('iterator: begin + k', r'^vp_fwd\(', s_at(), ret_elem(I_), frame=none),
    FnSpec('iterator: begin[k]', r'^vp_fwd_idx\(', s_at(), ret_elem(I_), frame=none),
    FnSpec('iterator: end - k', r'^vp_fwd_back\(', s_at(extra=1, rel=lambda e: e.i > 0), ret_elem(lambda e: e.n - e.i), frame=none),
    FnSpec('iterator: ++', r'^vp_fwd_inc\(', s_at(rel=lambda e: e.i + 1 < e.n), ret_elem(lambda e: e.i + 1), frame=none),
    FnSpec('iterator: --', r'^vp_fwd_dec\(', s_at(extra=1, rel=lambda e: e.i > 0), ret_elem(lambda e: e.i - 1), frame=none),
    FnSpec('iterator: const begin + k', r'^vp_cfwd\(', s_at(), ret_elem(I_), frame=none),
    FnSpec('reverse: rbegin + k', r'^vp_rev\(', s_at(), ret_elem(lambda e: e.n - 1 - e.i), frame=none),
    FnSpec('reverse: rbegin[k]', r'^vp_rev_idx\(', s_at(), ret_elem(lambda e: e.n - 1 - e.i), frame=none),
    FnSpec('reverse: ++', r'^vp_rev_inc\(', s_at(rel=lambda e: e.i + 1 < e.n), ret_elem(lambda e: e.n - 2 - e.i), frame=none),
    FnSpec('reverse: --', r'^vp_rev_dec\(', s_at(), ret_elem(lambda e: e.i), frame=none),
    FnSpec('reverse: const rbegin + k', r'^vp_crev\(', s_at(), ret_elem(lambda e: e.n - 1 - e.i), frame=none),
    FnSpec('iterator: distance', r'^vp_dist\(', s_pair_idx, ret_s(lambda e: e.j - e.i), frame=none),
    FnSpec('reverse: distance', r'^vp_rdist\(', s_pair_idx, ret_s(lambda e: e.j - e.i), frame=none),
    FnSpec('iterator: end - begin', r'^vp_span\(', s_this, ret_s(lambda e: e.n), frame=none),
    FnSpec('reverse: rend - rbegin', r'^vp_rspan\(', s_this, ret_s(lambda e: e.n), frame=none),
    FnSpec('iterator: <', r'^vp_lt\(', s_pair_idx, ret_b(lambda e: e.i < e.j, 'order of iterators is the order of the indices'), frame=none),
    FnSpec('reverse: <', r'^vp_rlt\(', s_pair_idx, ret_b(lambda e: e.i < e.j, 'order of iterators is the order of the indices'), frame=none),
    FnSpec('iterator: ==', r'^vp_eq\(', s_pair_idx, ret_b(lambda e: e.i == e.j, 'iterators are equal iff the indices are'), frame=none),
    FnSpec('array_view_base::operator[]', VP + r'operator\[\]\(unsigned long\) const', mkvi(), vret(I_), frame=none),
    FnSpec('array_view_base::at', VP + r'at\(unsigned long\) const', mkvi(), vret(I_), frame=none),
    FnSpec('array_view_base::find', VP + r'find\(unsigned long\) const', mkvi(0, 1), vret(I_), frame=none),
    FnSpec('array_view_base::front', VP + r'front\(\) const', mkv(1), vret(lambda e: 0), frame=none),
    FnSpec('array_view_base::back', VP + r'back\(\) const', mkv(1), vret(lambda e: e.n - 1), frame=none),
    FnSpec('array_view_base::begin', VP + r'begin\(\) const', mkv(0), vret(lambda e: 0), frame=none),
    FnSpec('array_view_base::end', VP + r'end\(\) const', mkv(0), vret(lambda e: e.n), frame=none),
    FnSpec('array_view_base::size', VP + r'size\(\) const', mkv(0), ret_u(lambda e: e.n, 'size() is the number of elements'), frame=none),
    FnSpec('array_view_base::empty', VP + r'empty\(\) const', mkv(0), ret_b(lambda e: Eq(e.n, 0), 'empty() iff there are no elements'), frame=none),
    FnSpec('view iterator: begin + k', r'^vp_vfwd\(', mkvi(), vret(I_), frame=none),
    FnSpec('view iterator: end - k', r'^vp_vback\(', mkvi(1, 1, lambda e: e.i > 0), vret(lambda e: e.n - e.i), frame=none),
    FnSpec('view iterator: ++', r'^vp_vinc\(', mkvi(1, 0, lambda e: e.i + 1 < e.n), vret(lambda e: e.i + 1), frame=none),
    FnSpec('view iterator: --', r'^vp_vdec\(', mkvi(1, 1, lambda e: e.i > 0), vret(lambda e: e.i - 1), frame=none),
    FnSpec('view iterator: distance', r'^vp_vdist\(', mkv2, ret_s(lambda e: e.j - e.i), frame=none),
    FnSpec('view iterator: end - begin', r'^vp_vspan\(', mkv(0), ret_s(lambda e: e.n), frame=none),
]

BOUNDED = [('array of int and of a lifetime-checking class: construction, copy, move, resize (also refused by the memory limit), swap, views, iterators in both directions, std::copy',
            'random histories of up to 30 operations on 3 arrays of at most 9 elements, AddressSanitizer on')]
