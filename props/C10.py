"""The usage reported by a resource manager is what was acquired minus what was released."""
from lib import *

ID = 'C10'
TU = 'resource'
HARNESS = 'resources'
SCENARIOS = ['memory', 'files']
KEEP = [r'tpie::log_', r'print_resource_complaint', r'^std::']
RM = '_ZTSN4tpie16resource_managerE'
U64 = 2 ** 64


def nop(ex, st, ins, args, dn):
    """logging, string formatting and string streams have no effect on the accounting (assumed)"""
    return None if ins.ty == ('void',) else havoc_ret(ex, st, ins)


def havoc_ret(ex, st, ins):
    if ins.ty[0] == 'i':
        v = VInt(ex.fresh('ret'), ins.ty[1])
        ex.assume(st, z3.And(v.e >= 0, v.e < 2 ** ins.ty[1]))
        return v
    o = Obj('ostream', 'global', None, None)
    o.gname = 'ostream'
    st.objs[o.id] = o
    return VPtr(o, 0)


def h_oor(ex, st, ins, args, dn):
    """throw_out_of_resource_error always throws (proved for the memory and the file manager)"""
    return [('throw', st, '_ZTIN4tpie21out_of_resource_errorE')]


LOG = [(r'^vp_vt_oor', h_oor), (r'basic_stringstream|print_resource_complaint|tpie::log_|basic_ostream|^std::ostream|basic_string|logstream', nop)]
MODES = ((0, 'ignore'), (1, 'debug'), (2, 'warn'), (3, 'throw'))


def rm(S, env, case=None):
    t = S.obj('rm', cls=RM)
    env.used = S.int('used', 64, 0, 2 ** 63)
    env.limit = S.int('limit', 64, 0, U64)
    env.t = t
    S.set(t, 'm_used._M_i', env.used)
    S.set(t, 'm_limit', env.limit)
    env.vt = S.obj('vtable', 'param', Struct([(8 * i, Cell(8, 'p')) for i in range(6)], 48), 48)
    for i in range(6):
        S.st.cells[(env.vt.obj.id, (8 * i,))] = VFn('vp_vt_oor')
    k = S.ex.resolve(S.st, t.obj, 0, 8)[0]
    S.st.cells[(t.obj.id, k)] = env.vt
    if case is not None:
        S.set(t, 'm_enforce', case[0])
    return t


def used(S, t):
    return S.get(t, 'm_used._M_i')


def s_inc(S, env):
    t = rm(S, env, env.case)
    env.n = S.int('amount', 64, 0, 2 ** 63)
    return [t, VInt(env.n, 64)]


def over(env):
    return And(env.used + env.n > env.limit, env.limit > 0)


def post_inc(S, old, r, args, env):
    out = [('usage grows by exactly the amount', Eq(used(S, env.t), env.used + env.n))]
    if env.case[1] == 'throw':
        out.append(('no success beyond the limit', Not(over(env))))
    return out


def exc_inc(S, old, r, args, env):
    return [('only refused beyond the limit in throwing mode', And(env.case[1] == 'throw', over(env))),
            ('a refused acquisition leaves the usage unchanged', Eq(used(S, env.t), env.used))]


def fr_inc(S, args, env):
    return [S.f(env.t, 'm_used._M_i'), S.f(env.t, 'm_maxExceeded'), S.f(env.t, 'm_nextWarning')]


def s_dec(S, env):
    t = rm(S, env)
    env.n = S.int('amount', 64, 0, 2 ** 63)
    S.assume(env.n <= env.used)
    return [t, VInt(env.n, 64)]


def s_one(S, env):
    return [rm(S, env)]


def none(S, a, e):
    return []


def ret(f, nm):
    def post(S, old, r, args, env):
        return [(nm, Eq(S.ex.as_u(S.st, r), f(env)))]
    return post


def s_limit(S, env):
    t = rm(S, env)
    env.n = S.int('newlimit', 64, 0, U64)
    return [t, VInt(env.n, 64)]


def s_mode(S, env):
    t = rm(S, env)
    return [t, VInt(env.case, 32)]


# ---- allocation functions: ghost mm_used is the usage of the memory manager
def acct(f):
    def s(S, env):
        env.u0 = S.int('mm_used0', 64, 0, 2 ** 62)
        S.st.ghost['mm_used'] = env.u0
        return f(S, env)
    return s


def g(S):
    return S.st.ghost['mm_used']


def delta(d, nm):
    def post(S, old, r, args, env):
        return [(nm, Eq(g(S), env.u0 + d(env)))] + noleak(S, old, r, env)
    return post


def noleak(S, old, r, env):
    keep = r.obj.id if isinstance(r, VPtr) and r.obj is not None else None
    return [('nothing allocated is left behind', not [o for o in S.st.objs.values() if o.kind == 'heap' and o.id not in old.st.objs and o.id not in S.st.dead and o.id != keep])]


def exc_same(S, old, r, args, env):
    return [('a failed acquisition leaves the usage unchanged', Eq(g(S), env.u0))] + noleak(S, old, None, env)


def h_ctor(ex, st, ins, args, dn):
    """a constructor of the user's type: may throw, does not touch the accounting"""
    s = st.fork()
    s.path = s.path + ('constructor throws',)
    if 'vp_P' in dn:
        ex.store(st, args[0], ex._vt(st), ('ptr',))
    return [('throw', s, '_ZTISt13runtime_error'), ('ret', st, None)]


def h_dtor(ex, st, ins, args, dn):
    """a destructor of the user's type: does not touch the accounting"""
    return None


def vt_of(ex):
    def mk(st):
        o = ex.__dict__.get('_vto')
        if o is None:
            o = ex._vto = Obj('vp_P_vtable', 'global', Struct([(8 * i, Cell(8, 'p' if i else 'i')) for i in range(4)], 32), 32)
            o.gname = 'vp_P_vtable'
        st.objs[o.id] = o
        st.cells[(o.id, (0,))] = VInt(0, 64)          # offset to top
        for i in (1, 2, 3):
            st.cells[(o.id, (8 * i,))] = VFn('vp_vt_dtor')
        return VPtr(o, 16)
    return mk


CT = MM + [(r'^vp_[TP]::vp_[TP]\(', h_ctor), (r'^vp_[TP]::~vp_[TP]\(|^vp_vt_dtor', h_dtor)]
TH = {'mm_throws': True, 'alloc_may_fail': True}


def s_none(S, env):
    S.ex._vt = vt_of(S.ex)
    return []


def s_x(S, env):
    S.ex._vt = vt_of(S.ex)
    return [VInt(S.int('x', 64), 64)]


def s_n(S, env):
    env.n = S.int('n', 64, 0, 2 ** 56)
    return [VInt(env.n, 64)]


def s_del(size, nullable=True, poly=False):
    def s(S, env):
        if env.case == 'null':
            env.d = 0
            return [VPtr(None, 0)]
        env.d = size
        S.assume(env.u0 >= size)
        if not poly:
            return [S.heap('p', Cell(8, 'i'), size // 8)]
        # tpie_allocate puts the size in front of the object
        o = S.heap('p', Cell(8, 'i'), 1 + size // 8)
        o.obj.layout = Struct([(0, Cell(8, 'i')), (8, Cell(8, 'p')), (16, Cell(8, 'i'))], 24)
        o.obj.size = 24
        S.st.cells[(o.obj.id, (0,))] = VInt(size, 64)
        S.st.cells[(o.obj.id, (8,))] = vt_of(S.ex)(S.st)
        return [VPtr(o.obj, 8)]
    return s


def post_del(S, old, r, args, env):
    out = [('usage shrinks by exactly the size', Eq(g(S), env.u0 - env.d))]
    if env.case != 'null':
        out.append(('the memory is returned', args[0].obj.id in S.st.dead))
    return out


def s_delA(S, env):
    if env.case == 'null':
        env.d = 0
        return [VPtr(None, 0), VInt(S.int('n', 64, 0, 2 ** 56), 64)]
    n = S.int('n', 64, 0, 2 ** 56)
    env.d = n * 8
    S.assume(env.u0 >= n * 8)
    return [S.heap('p', ELEM, n), VInt(n, 64)]


ACLS = '_ZTSN4tpie9allocatorI4elemEE'


def s_alloc(S, env):
    a = S.obj('a', cls=ACLS)
    env.a = a
    if env.case == 'bucket':
        b = S.obj('bucket', cls='_ZTSN4tpie13memory_bucketE')
        env.b = b
        env.c0 = S.int('count', 64, 0, 2 ** 62)
        S.set(b, 'count._M_i', env.c0)
        S.set(a, 'bucket.bucket', b)
    else:
        S.set(a, 'bucket.bucket', VPtr(None, 0))
    env.n = S.int('n', 64, 1, 2 ** 56)
    return [a, VInt(env.n, 64)]


def bucket(S, env, d):
    if env.case != 'bucket':
        return []
    return [('the bucket counts exactly the bytes', Eq(S.get(env.b, 'count._M_i'), env.c0 + d))]


def post_alloc(S, old, r, args, env):
    return [('usage grows by exactly the bytes', Eq(g(S), env.u0 + env.n * 8)), ('the block holds the elements', le(env.n * 8, r.obj.size))] + bucket(S, env, env.n * 8) + noleak(S, old, r, env)


def exc_alloc(S, old, r, args, env):
    return exc_same(S, old, r, args, env) + bucket(S, env, 0)


def s_dealloc(S, env):
    a, n = s_alloc(S, env)
    S.assume(env.u0 >= env.n * 8)
    if env.case == 'bucket':
        S.assume(env.c0 >= env.n * 8)
    env.p = S.heap('p', ELEM, env.n)
    return [a, env.p, n]


def post_dealloc(S, old, r, args, env):
    return [('usage shrinks by exactly the bytes', Eq(g(S), env.u0 - env.n * 8)), ('the memory is returned', env.p.obj.id in S.st.dead)] + bucket(S, env, -env.n * 8)


def s_uptr(S, env):
    p = S.obj('up', 'param', Struct([(0, Cell(8, 'p'))], 8), 8)
    if env.case == 'null':
        env.d = 0
        S.st.cells[(p.obj.id, (0,))] = VPtr(None, 0)
        return [p]
    env.d = 8
    S.assume(env.u0 >= 8)
    h = S.heap('p', Cell(8, 'i'), 1)
    env.h = h
    S.st.cells[(p.obj.id, (0,))] = h
    return [p]


def post_uptr(S, old, r, args, env):
    return [('usage shrinks by the size of the object owned', Eq(g(S), env.u0 - env.d))] + ([('the object is returned', env.h.obj.id in S.st.dead)] if env.d else [])


# ---- arrays: the memory registered is that of the elements held
import C01


def s_arr(two=False, arg=None):
    def s(S, env):
        t = C01.mk(S, env, tss=False, lo=0)
        env.t, env.n0 = t, ArrayView(S, t).size
        S.assume(env.u0 >= env.n0 * 8)
        if arg:
            env.n = S.int('newsize', 64, 0, 2 ** 56)
            return [t, VInt(env.n, 64)]
        if two:
            o = C01.mk(S, env, 'other', lo=0)
            env.n = ArrayView(S, o).size
            S.assume(env.u0 >= env.n0 * 8 + env.n * 8)
            return [t, o]
        return [t]
    return s


def post_arr(S, old, r, args, env):
    return [('usage follows the size', Eq(g(S), env.u0 - env.n0 * 8 + env.n * 8))]


def exc_arr(S, old, r, args, env):
    n = ArrayView(S, env.t).size
    return [('usage follows the size also on failure', Eq(g(S), env.u0 - env.n0 * 8 + n * 8))]


FNS = [
    FnSpec('register_increased_usage', r'resource_manager::register_increased_usage\(', s_inc, post_inc, exc=exc_inc, hooks=LOG, frame=fr_inc, cases=MODES),
    FnSpec('register_decreased_usage', r'resource_manager::register_decreased_usage\(', s_dec, lambda S, o, r, a, e: [('usage shrinks by exactly the amount', Eq(used(S, e.t), e.used - e.n))], hooks=LOG, frame=lambda S, a, e: [S.f(e.t, 'm_used._M_i')]),
    FnSpec('used', r'resource_manager::used\(\) const', s_one, ret(lambda e: e.used, 'used() is the usage'), frame=none),
    FnSpec('available', r'resource_manager::available\(\) const', s_one, ret(lambda e: If(e.used < e.limit, e.limit - e.used, 0), 'available() is the limit minus the usage, never negative'), frame=none),
    FnSpec('limit', r'\bvp_limit\(', s_one, ret(lambda e: e.limit, 'limit() is the limit'), frame=none),
    FnSpec('set_limit', r'resource_manager::set_limit\(', s_limit, lambda S, o, r, a, e: [('the limit is the one given', Eq(S.get(e.t, 'm_limit'), e.n))], frame=lambda S, a, e: [S.f(e.t, 'm_limit')]),
    FnSpec('set_enforcement', r'resource_manager::set_enforcement\(', s_mode, lambda S, o, r, a, e: [('the mode is the one given', Eq(S.get(e.t, 'm_enforce'), e.case))], frame=lambda S, a, e: [S.f(e.t, 'm_enforce')], cases=(0, 1, 2, 3)),
    FnSpec('tpie_new', r'\bvp_new\(', acct(s_none), delta(lambda e: 8, 'usage grows by exactly the size of the object'), exc=exc_same, hooks=CT, opts=TH),
    FnSpec('tpie_new (throwing constructor)', r'\bvp_newT\(', acct(s_x), delta(lambda e: 16, 'usage grows by exactly the size of the object'), exc=exc_same, hooks=CT, opts=TH),
    FnSpec('tpie_new (polymorphic)', r'\bvp_newP\(', acct(s_x), delta(lambda e: 16, 'usage grows by exactly the size of the object'), exc=exc_same, hooks=CT, opts=TH),
    FnSpec('tpie_delete', r'\bvp_del\(', acct(s_del(8)), post_del, hooks=CT, cases=('object', 'null')),
    FnSpec('tpie_delete (destructor)', r'\bvp_delT\(', acct(s_del(16)), post_del, hooks=CT, cases=('object', 'null')),
    FnSpec('tpie_delete (polymorphic)', r'\bvp_delP\(', acct(s_del(16, poly=True)), post_del, hooks=CT, cases=('object', 'null')),
    FnSpec('tpie_new_array', r'\bvp_newA\(', acct(s_n), delta(lambda e: e.n * 8, 'usage grows by exactly the size of the array'), exc=exc_same, hooks=CT, opts=TH),
    FnSpec('tpie_delete_array', r'\bvp_delA\(', acct(s_delA), post_del, hooks=CT, cases=('array', 'null')),
    FnSpec('allocator::allocate', r'\bvp_alloc\(', acct(s_alloc), post_alloc, exc=exc_alloc, hooks=CT, opts=TH, cases=('bucket', 'none')),
    FnSpec('allocator::deallocate', r'\bvp_dealloc\(', acct(s_dealloc), post_dealloc, hooks=CT, cases=('bucket', 'none')),
    FnSpec('make_unique and its destruction', r'\bvp_unique\(', acct(s_x), delta(lambda e: 0, 'usage is back where it was'), exc=exc_same, hooks=CT, opts=TH),
    FnSpec('unique_ptr::reset', r'\bvp_unique_reset\(', acct(s_uptr), post_uptr, hooks=CT, cases=('object', 'null')),
    FnSpec('register_allocation', r'\bvp_reg\(', acct(lambda S, e: [h_mm(S.ex, S.st, None, None, None)] + s_n(S, e)), delta(lambda e: e.n, 'usage grows by the bytes given'), exc=exc_same, hooks=CT, opts=TH),
    FnSpec('register_deallocation', r'\bvp_dereg\(', acct(lambda S, e: [h_mm(S.ex, S.st, None, None, None)] + s_n(S, e)), delta(lambda e: -e.n, 'usage shrinks by the bytes given'), hooks=CT),
    FnSpec('increment_open_file_count', r'\bvp_incfile\(', acct(lambda S, e: [h_mm(S.ex, S.st, None, None, None)]), delta(lambda e: 1, 'one more open file'), exc=exc_same, hooks=CT, opts=TH),
    FnSpec('decrement_open_file_count', r'\bvp_decfile\(', acct(lambda S, e: [h_mm(S.ex, S.st, None, None, None)]), delta(lambda e: -1, 'one less open file'), hooks=CT),
    FnSpec('array::resize', C01.P + r'resize\(unsigned long\)', acct(s_arr(arg=1)), post_arr, exc=exc_arr, hooks=MM, opts={'mm_throws': True}),
    FnSpec('array::~array', C01.P + r'~array\(', acct(s_arr()), lambda S, o, r, a, e: [('the memory of the elements is released', Eq(g(S), e.u0 - e.n0 * 8))], hooks=MM),
]

BOUNDED = [('every public way to acquire and release memory and open files, with throwing constructors, refused limits and failed opens', 'random histories of up to 800 operations')]
