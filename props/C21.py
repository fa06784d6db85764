"""Serialization: what is written is the encoding of the value, what is read is the value encoded, byte for byte.

The sink and the source are a ghost log of values, each with its width in bytes, and a count of bytes."""
from lib import *
from lib import _fresh

ID = 'C21'
TU = 'serial'
HARNESS = 'serial'
SCENARIOS = ['values', 'nested', 'strings', 'sized']
KEEP = [r'vector<.*::resize|_M_default_append', r'tpie::array<.*::resize', r'^std::__cxx11|^std::basic_string']
LEMMAS = []
BIG = 2 ** 50
ITEM = 0     # width recorded for a value written by a user's own serialize


def ghost_array(S, name):
    o = Obj(name, 'global', Arr(8, 2 ** 59, Cell(8, 'i')), 2 ** 62)
    o.gname = name
    S.st.objs[o.id] = o
    return VPtr(o, 0)


def log(S, env):
    """the log, what was written so far, and how far it was read"""
    ex = S.ex
    ex.spec_env = env
    env.val, env.wid = ghost_array(S, 'log'), ghost_array(S, 'widths')
    S.arr(env.val), S.arr(env.wid)
    env.at, env.bytes0 = S.int('at', 64, 0, BIG), S.int('bytes', 64, 0, BIG)
    S.st.ghost.update(at=env.at, bytes=env.bytes0)
    env.io = S.obj('io', 'param', Struct([(0, Cell(1, 'i'))], 1), 1)
    return env.io


def AT(S):
    return S.st.ghost['at']


def BYTES(S):
    return S.st.ghost['bytes']


def val(S, e):
    return S.arr(e.val)


def wid(S, e):
    return S.arr(e.wid)


def put(ex, st, p, v):
    ex.store(st, VPtr(p.obj, norm(Z(st.ghost['at']) * 8)), VInt(v, 64), ('i', 64))


def adv(ex, st, k, b):
    gset(ex, st, 'at', norm(Z(st.ghost['at']) + k))
    gset(ex, st, 'bytes', norm(Z(st.ghost['bytes']) + b))


def scalar(p, n):
    return is_c(n) and n in (1, 2, 4, 8)


def bulk(ex, st, p, n):
    if not isinstance(p, VPtr):
        raise Unsupported('where the bytes are')
    p = ex.deref(st, p, 'the bytes written or read')
    k, i, cur, s0, s, cnt, node, conds = ex.arr_at(st, p, n)
    if len(k) or not isinstance(node.el, Cell):
        raise Unsupported('bulk transfer of structures')
    ex.oblige(st, 'the bytes transferred lie inside the array', 'safety', Or(Eq(n, 0), And(le(0, s0), le(0, cnt), le(Z(s0) + cnt, node.count))))
    key = (p.obj.id, (cur, 0))
    return p, key, s0, s, cnt


def h_write(ex, st, ins, args, dn):
    e = ex.spec_env
    n, p = ex.as_u(st, args[2]), args[1]
    ex.oblige(st, 'written to the sink given', 'pre', args[0].obj is e.io.obj)
    if scalar(p, n):
        put(ex, st, e.val, ex.as_u(st, ex.load(st, p, ('i', 8 * n))))
        put(ex, st, e.wid, n)
        adv(ex, st, 1, n)
        return None
    p, key, s0, s, cnt = bulk(ex, st, p, n)
    src = ex.leaf(st, p.obj, 0, s)
    at = st.ghost['at']
    for g, f in ((e.val, lambda a: a.copy((), at, norm(Z(at) + cnt), src, (), norm(Z(s0) - at))), (e.wid, lambda a: a.fill((), at, norm(Z(at) + cnt), s))):
        kk = (g.obj.id, (0, 0))
        st.cells[kk] = f(ex.leaf(st, g.obj, 0, 8))
        ex.note_write(st, kk)
    adv(ex, st, cnt, n)
    return None


def h_read(ex, st, ins, args, dn):
    e = ex.spec_env
    n, p = ex.as_u(st, args[2]), args[1]
    ex.oblige(st, 'read from the source given', 'pre', args[0].obj is e.io.obj)
    at = st.ghost['at']
    V, Wd = ex.leaf(st, e.val.obj, 0, 8), ex.leaf(st, e.wid.obj, 0, 8)
    if scalar(p, n):
        ex.oblige(st, 'a value of this width comes next', 'pre', Eq(Wd(at), n))
        v = V(at)
        ex.assume(st, And(0 <= v, v < 2 ** (8 * n)))
        ex.store(st, p, VInt(v, 8 * n), ('i', 8 * n))
        adv(ex, st, 1, n)
        return None
    p, key, s0, s, cnt = bulk(ex, st, p, n)
    k = z3.Int('k!%d' % next(_fresh))
    ex.oblige(st, 'values of this width come next', 'pre', Implies(And(0 <= k, k < cnt), Eq(Wd(norm(Z(at) + k)), s)))
    a = ex.leaf(st, p.obj, 0, s)
    kk = (p.obj.id, (0, 0))
    st.cells[kk] = a.copy((), s0, norm(Z(s0) + cnt), V, (), norm(Z(at) - s0))
    ex.note_write(st, kk)
    adv(ex, st, cnt, n)
    return None


def h_iwrite(ex, st, ins, args, dn):
    """a user's own serialize: one opaque value of one byte or more"""
    e = ex.spec_env
    ex.oblige(st, 'written to the sink given', 'pre', args[0].obj is e.io.obj)
    put(ex, st, e.val, ex.as_u(st, ex.load(st, args[1], ('i', 64))))
    put(ex, st, e.wid, ITEM)
    adv(ex, st, 1, 1)


def h_iread(ex, st, ins, args, dn):
    e = ex.spec_env
    ex.oblige(st, 'read from the source given', 'pre', args[0].obj is e.io.obj)
    at = st.ghost['at']
    ex.oblige(st, 'such a value comes next', 'pre', Eq(ex.leaf(st, e.wid.obj, 0, 8)(at), ITEM))
    v = ex.leaf(st, e.val.obj, 0, 8)(at)
    ex.assume(st, And(0 <= v, v < 2 ** 64))
    ex.store(st, args[1], VInt(v, 64), ('i', 64))
    adv(ex, st, 1, 1)


def fresh_array(ex, st, n, el, nm):
    o = Obj(nm, 'heap', Arr(el.size, n, el), norm(Z(n) * el.size))
    st.objs[o.id] = o
    return o


def h_vresize(ex, st, ins, args, dn):
    """std::vector::resize: exactly the size asked for; the elements are not used"""
    S = Ctx(ex, st)
    n = ex.as_u(st, args[1])
    o = fresh_array(ex, st, n, Cell(8, 'i'), 'vector buffer')
    ex.store(st, args[0], VPtr(o, 0, Eq(n, 0)), ('ptr',))
    ex.store(st, VPtr(args[0].obj, 8), VPtr(o, norm(Z(n) * 8), Eq(n, 0)), ('ptr',))
    ex.store(st, VPtr(args[0].obj, 16), VPtr(o, norm(Z(n) * 8), Eq(n, 0)), ('ptr',))


def h_aresize(ex, st, ins, args, dn):
    """tpie::array::resize: exactly the size asked for (C01)"""
    S = Ctx(ex, st)
    e = ex.spec_env
    n = ex.as_u(st, args[1])
    o = fresh_array(ex, st, n, Cell(8, 'i'), 'array buffer')
    S.set(args[0], 'm_elements', VPtr(o, 0, Eq(n, 0)), cls=e.acls)
    S.set(args[0], 'm_size', n, cls=e.acls)


def h_sresize(ex, st, ins, args, dn):
    """std::string::resize"""
    n = ex.as_u(st, args[1])
    o = fresh_array(ex, st, n, Cell(1, 'i'), 'string buffer')
    ex.store(st, args[0], VPtr(o, 0), ('ptr',))
    ex.store(st, VPtr(args[0].obj, 8), VInt(n, 64), ('i', 64))


def h_ssize(ex, st, ins, args, dn):
    return ex.load(st, VPtr(args[0].obj, 8), ('i', 64))


def h_sdata(ex, st, ins, args, dn):
    return ex.load(st, args[0], ('ptr',))


HOOKS = [(r'^snk::write\(', h_write), (r'^src::read\(', h_read), (r'^vp::serialize\(', h_iwrite), (r'^vp::unserialize\(', h_iread),
         (r'vector<.*>::resize\(', h_vresize), (r'tpie::array<.*>::resize\(', h_aresize),
         (r'basic_string<.*>::resize\(', h_sresize), (r'basic_string<.*>::size\(\)', h_ssize), (r'basic_string<.*>::(c_str|_M_data|data)\(\)', h_sdata)]


# ---- states
def scal(w, off=0):
    def f(S, env):
        x = S.obj('value', 'param', Struct([(0, Cell(w, 'i'))], w), w)
        env.v = S.int('v', 8 * w)
        S.ex.store(S.st, x, VInt(env.v, 8 * w), ('i', 8 * w))
        return x
    return f


def fields(*fs):
    def f(S, env):
        size = (max(o + w for o, w in fs) + 7) // 8 * 8
        x = S.obj('value', 'param', Struct([(o, Cell(w, 'i')) for o, w in sorted(fs)], size), size)
        env.vs = []
        for i, (o, w) in enumerate(fs):
            env.vs.append(S.int('v%d' % i, 8 * w))
            S.ex.store(S.st, VPtr(x.obj, o), VInt(env.vs[-1], 8 * w), ('i', 8 * w))
        return x
    return f


def fixed(n):
    def f(S, env):
        env.n = n
        env.buf = S.heap('values', Cell(8, 'i'), n, kind='param')
        return env.buf
    return f


def vec(S, env):
    env.n = S.int('n', 64, 0, BIG)
    env.buf = S.heap('values', Cell(8, 'i'), env.n, Eq(env.n, 0))
    x = S.obj('vec', 'param', Struct([(o, Cell(8, 'p')) for o in (0, 8, 16)], 24), 24)
    st, ex = S.st, S.ex
    ex.store(st, x, env.buf, ('ptr',))
    e = VPtr(env.buf.obj, norm(Z(env.n) * 8), Eq(env.n, 0))
    for o in (8, 16):
        ex.store(st, VPtr(x.obj, o), e, ('ptr',))
    return x


def arr(cls):
    def f(S, env):
        x = S.obj('arr', cls=cls)
        env.n, env.buf = mk_array(S, x, '')
        S.assume(env.n <= BIG)
        env.acls = cls
        return x
    return f


def string(S, env):
    env.n = S.int('n', 64, 0, BIG)
    env.buf = S.heap('chars', Cell(1, 'i'), norm(env.n + 1))
    x = S.obj('str', 'param', Struct([(0, Cell(8, 'p')), (8, Cell(8, 'i')), (16, Cell(8, 'i')), (24, Cell(8, 'i'))], 32), 32)
    S.ex.store(S.st, x, env.buf, ('ptr',))
    S.ex.store(S.st, VPtr(x.obj, 8), VInt(env.n, 64), ('i', 64))
    return x


def rng(S, env):
    env.n = S.int('n', 64, 0, BIG)
    env.buf = S.heap('values', Cell(8, 'i'), env.n)
    return (env.buf, VPtr(env.buf.obj, norm(Z(env.n) * 8)))


def setup(f):
    def g(S, env):
        io = log(S, env)
        x = f(S, env)
        env.x = x
        return [io] + (list(x) if isinstance(x, tuple) else [x])
    return g


# ---- what is written
def kept(S, old, env):
    k = z3.Int('k')
    return ('what was written before is kept', Implies(And(0 <= k, k < env.at), And(Eq(val(S, env)(k), val(old, env)(k)), Eq(wid(S, env)(k), wid(old, env)(k)))))


def w_fields(*ws):
    """the fields, each with its width, in this order"""
    def post(S, old, r, args, env):
        vs = [env.v] if len(ws) == 1 else env.vs
        out = [kept(S, old, env), ('as many values as the type has', Eq(AT(S), env.at + len(ws))), ('as many bytes', Eq(BYTES(S), env.bytes0 + sum(w or 1 for w in ws)))]
        for i, w in enumerate(ws):
            out.append(('field %d' % i, And(Eq(val(S, env)(norm(env.at + i)), vs[i]), Eq(wid(S, env)(norm(env.at + i)), w))))
        return out
    return post


def w_seq(w, sized, b=None):
    def post(S, old, r, args, env):
        h = 1 if sized else 0
        k = z3.Int('k')
        a = old.arr(env.buf, 0, w or 8)
        out = [kept(S, old, env), ('as many values as there are', Eq(AT(S), env.at + h + env.n)), ('as many bytes', Eq(BYTES(S), env.bytes0 + 8 * h + Z(env.n) * (w or 1)))]
        if sized:
            out.append(('the number of elements first', And(Eq(val(S, env)(env.at), env.n), Eq(wid(S, env)(env.at), 8))))
        p = norm(Z(env.at) + h + k)
        return out + [('the elements in order', Implies(And(0 <= k, k < env.n), And(Eq(val(S, env)(p), a(k)), Eq(wid(S, env)(p), w))))]
    return post


# ---- what is read
def r_setup(f, *ws):
    base = setup(f)

    def g(S, env):
        a = base(S, env)
        for i, w in enumerate(ws):
            v = val(S, env)(norm(env.at + i))
            S.assume(Eq(wid(S, env)(norm(env.at + i)), w), 0 <= v, v < 2 ** (8 * (w or 8)))
        return a
    return g


def r_seq_setup(f, w, sized):
    base = setup(f)

    def g(S, env):
        a = base(S, env)
        env.m = env.n
        h = 0
        if sized:
            env.m = S.int('m', 64, 0, BIG)
            S.assume(Eq(val(S, env)(env.at), env.m), Eq(wid(S, env)(env.at), 8))
            h = 1
        q = z3.Int('q')
        V, Wd = val(S, env), wid(S, env)
        S.assume(forall(1, lambda i: Implies(And(env.at + h <= i, i < env.at + h + env.m), Eq(Wd(i), w)), lambda i: [Wd.fn(i)]),
                 forall(1, lambda i: Implies(And(env.at + h <= i, i < env.at + h + env.m), And(0 <= V(i), V(i) < 2 ** (8 * (w or 8)))), lambda i: [V.fn(i)]))
        return a
    return g


def untouched(S, old, env):
    k = z3.Int('k')
    return ('reading changes nothing in the source', And(Eq(val(S, env)(k), val(old, env)(k)), Eq(wid(S, env)(k), wid(old, env)(k))))


def r_fields(*fs):
    def post(S, old, r, args, env):
        out = [untouched(S, old, env), ('exactly the values of the type are consumed', Eq(AT(S), env.at + len(fs))), ('and their bytes', Eq(BYTES(S), env.bytes0 + sum((1 if i else w) for o, w, i in fs)))]
        for i, (o, w, _) in enumerate(fs):
            out.append(('field %d' % i, Eq(S.ex.as_u(S.st, S.ex.load(S.st, VPtr(env.x.obj, o), ('i', 8 * w))), val(S, env)(norm(env.at + i)))))
        return out
    return post


def contents(S, env, kind):
    """(pointer to the elements, number of elements) of what was read"""
    if kind == 'fixed':
        return env.buf, env.n
    if kind == 'vec':
        return S.ex.load(S.st, env.x, ('ptr',)), None
    if kind == 'str':
        return S.ex.load(S.st, env.x, ('ptr',)), S.ex.as_u(S.st, S.ex.load(S.st, VPtr(env.x.obj, 8), ('i', 64)))
    return S.ptr(env.x, 'm_elements', cls=env.acls), S.get(env.x, 'm_size', cls=env.acls)


def r_seq(kind, w):
    def post(S, old, r, args, env):
        h = 0 if kind == 'fixed' else 1
        k = z3.Int('k')
        p, n = contents(S, env, kind)
        if kind == 'vec':
            q = S.ex.load(S.st, VPtr(env.x.obj, 8), ('ptr',))
            n = exact_div(norm(Z(q.off) - Z(p.off)), 8)
        out = [untouched(S, old, env), ('the number of elements', Eq(n, env.m)), ('exactly the values are consumed', Eq(AT(S), env.at + h + env.m)), ('and their bytes', Eq(BYTES(S), env.bytes0 + 8 * h + Z(env.m) * (w or 1)))]
        a = S.arr(p, 0, w or 8)
        return out + [('the elements in order', Implies(And(0 <= k, k < env.m), Eq(a(k), val(S, env)(norm(Z(env.at) + h + k)))))]
    return post


# ---- loops over elements with their own serialize
def wl(h, w=ITEM, b=8):
    def inv(L):
        e, S, S0 = L.e, L.S, L.S0
        i = L.i
        p = lambda k: norm(Z(e.at) + h + k)
        a = Ctx(S.ex, S.ex.entry).arr(e.buf, 0, b)
        V, Wd, V0, W0 = val(S, e), wid(S, e), val(Ctx(S.ex, S.ex.entry), e), wid(Ctx(S.ex, S.ex.entry), e)
        return [('position in range', And(0 <= i, i <= e.n)), ('one value per element', Eq(AT(S), e.at + h + i)), ('one byte count per element', Eq(BYTES(S), e.bytes0 + 8 * h + i * (w or 1))),
                ('the elements passed are written', forall(1, lambda k: Implies(And(e.at + h <= k, k < e.at + h + i), And(Eq(V(k), a(norm(k - e.at - h))), Eq(Wd(k), w))), lambda k: [V.fn(k)])),
                ('their widths', forall(1, lambda k: Implies(And(e.at + h <= k, k < e.at + h + i), Eq(Wd(k), w)), lambda k: [Wd.fn(k)]))] + \
               ([('the number of elements first', And(Eq(V(e.at), e.n), Eq(Wd(e.at), 8)))] if h else []) + \
               [('what was written before is kept', And(forall(1, lambda k: Implies(And(0 <= k, k < e.at), Eq(V(k), V0(k))), lambda k: [V.fn(k)]), forall(1, lambda k: Implies(And(0 <= k, k < e.at), Eq(Wd(k), W0(k))), lambda k: [Wd.fn(k)])))]
    return [LoopSpec(r'.', inv, roles={'i': r'.*'}, ptr_roles=('i',))]


def rl(kind, w):
    h = 0 if kind == 'fixed' else 1

    def inv(L):
        e, S = L.e, L.S
        i = L.i
        p, n = contents(S, e, kind)
        a = S.arr(p, 0, w or 8)
        V = val(S, e)
        return [('position in range', And(0 <= i, i <= e.m)), ('one value per element', Eq(AT(S), e.at + h + i)), ('one byte count per element', Eq(BYTES(S), e.bytes0 + 8 * h + i * (w or 1))),
                ('the elements passed are read', forall(1, lambda k: Implies(And(0 <= k, k < i), Eq(a(k), V(norm(Z(e.at) + h + k)))), lambda k: [a.fn(k)]))]
    return [LoopSpec(r'.', inv, roles={'i': r'.*'}, ptr_roles=('i',))]


AE = '_ZTSN4tpie5arrayI4elemNS_9allocatorIS1_EEEE'
AI = '_ZTSN4tpie5arrayIN2vp4itemENS_9allocatorIS2_EEEE'
PAIR = ((0, 8), (8, 8))
TUP = ((16, 8), (8, 8), (0, 4))   # libstdc++ lays a tuple out from its last element
FNS = []


def w(name, fn, st, post, **k):
    FNS.append(FnSpec('serialize ' + name, r'\bvp_w_%s\(' % fn, st, post, hooks=HOOKS, **k))


def r(name, fn, st, post, **k):
    FNS.append(FnSpec('unserialize ' + name, r'\bvp_r_%s\(' % fn, st, post, hooks=HOOKS, **k))


for nm, fn, wd in (('a 64-bit integer', 'u64', 8), ('a 32-bit integer', 'u32', 4), ('a character', 'char', 1), ('a trivially copyable structure', 'elem', 8)):
    w(nm, fn, setup(scal(wd)), w_fields(wd))
    r(nm, fn, r_setup(scal(wd), wd), r_fields((0, wd, False)))
w('a pair', 'pair', setup(fields(*PAIR)), w_fields(ITEM, 8))
r('a pair', 'pair', r_setup(fields(*PAIR), ITEM, 8), r_fields((0, 8, True), (8, 8, False)))
w('a tuple', 'tuple', setup(fields(*TUP)), w_fields(8, ITEM, 4))
r('a tuple', 'tuple', r_setup(fields(*TUP), 8, ITEM, 4), r_fields((16, 8, False), (8, 8, True), (0, 4, False)))
for nm, fn, ty, sized, kind in (('a C array', 'carr', fixed(5), 0, 'fixed'), ('a std::array', 'sarr', fixed(5), 0, 'fixed'), ('a vector', 'vec', vec, 1, 'vec'), ('a tpie::array', 'arr', arr(AE), 1, 'arr'), ('a range', 'range', rng, 0, 'fixed')):
    w(nm, fn, setup(ty), w_seq(8, sized), loops=wl(sized, 8))
    r(nm, fn, r_seq_setup(ty, 8, sized), r_seq(kind, 8), loops=rl(kind, 8))
for nm, fn, ty, sized, kind in (('a C array of user types', 'iarr', fixed(5), 0, 'fixed'), ('a std::array of user types', 'siarr', fixed(5), 0, 'fixed'), ('a vector of user types', 'ivec', vec, 1, 'vec'), ('a tpie::array of user types', 'iarray', arr(AI), 1, 'arr'), ('a range of user types', 'irange', rng, 0, 'fixed')):
    w(nm, fn, setup(ty), w_seq(ITEM, sized), loops=wl(sized))
    r(nm, fn, r_seq_setup(ty, ITEM, sized), r_seq(kind, ITEM), loops=rl(kind, ITEM))
w('a string', 'str', setup(string), w_seq(1, 1), loops=wl(1, 1, 1))
r('a string', 'str', r_seq_setup(string, 1, 1), r_seq('str', 1), loops=rl('str', 1))


def size_is(f):
    return lambda S, old, r, args, env: [('the number of bytes serialize would write', Eq(S.ex.as_u(S.st, r), f(env)))]


def sl(h, w):
    def inv(L):
        return [('position in range', And(0 <= L.i, L.i <= L.e.n)), ('what was counted', Eq(L.c, h + L.i * w))]
    return [LoopSpec(r'.', inv, roles={'i': r'.*i.*', 'c': r'.*c.*'}, ptr_roles=('i',))]


for nm, fn, ty, f, l in (('a 32-bit integer', 'u32', scal(4), lambda e: 4, ()), ('a vector', 'vec', vec, lambda e: 8 + 8 * Z(e.n), ()), ('a string', 'str', string, lambda e: 8 + Z(e.n), sl(8, 1)), ('a C array', 'carr', fixed(5), lambda e: 40, sl(0, 8))):
    FNS.append(FnSpec('serialized_size of ' + nm, r'\bvp_s_%s\(' % fn, lambda S, env, ty=ty: setup(ty)(S, env)[1:], size_is(f), hooks=HOOKS, loops=l))
BOUNDED = [('nested vectors and user types, whole round trips through real byte buffers', 'random nestings for a fixed number of seconds')]
ASSUME = ['a sink takes the bytes in order and a source hands them back in order', 'std::vector and std::string resize as the C++ standard says', 'a user type reads back with its own unserialize what its own serialize wrote']
