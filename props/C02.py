"""packed_array: exact contents, no cross-talk, iterators agree with index arithmetic; every width that divides the word."""
from lib import *
import bits

ID = 'C02'
TU = 'packed'
HARNESS = 'arrays'
SCENARIOS = ['packed']
WIDTHS = (1, 2, 4, 8, 16, 32, 64)
TY = {1: ('b', 'bool'), 2: ('j', 'unsigned int'), 4: ('j', 'unsigned int'), 8: ('j', 'unsigned int'), 16: ('j', 'unsigned int'), 32: ('j', 'unsigned int'), 64: ('m', 'unsigned long')}
TW = {'b': 8, 'j': 32, 'm': 64}


def cls(B):
    return '_ZTSN4tpie12packed_arrayI%sLi%dEEE' % (TY[B][0], B)


def words(n, B):
    return (Z(n) + (64 // B - 1)) / (64 // B)


def mk(S, env, B, name='this', lo=1):
    t = this_obj(S, None, cls(B), name)
    n = S.int(name + '_n', 64, lo, 2 ** 56)
    w = S.int(name + '_words', 64, lo, 2 ** 56)
    S.assume(Eq(w, words(n, B)))
    buf = S.heap(name + '_buf', ELEM, w, Z(n) == 0 if lo == 0 else False)
    S.set(t, 'm_elements', buf)
    S.set(t, 'm_size', n)
    env['n_' + name], env['w_' + name] = n, w
    return t


def val(B, v):
    """argument value of the element type"""
    if B == 1:
        return VBool(z3.Bool('val')), z3.If(z3.Bool('val'), 1, 0)
    return None


def lane_idx(S, env, B, name, lane, rev=False):
    """an index whose storage position has the given lane"""
    q = S.int('q_' + name, 64, 0, 2 ** 56)
    n = env.n_this
    pos = q * (64 // B) + lane
    S.assume(pos < n)
    env['q_' + name], env['lane_' + name] = q, lane
    env['pos_' + name] = pos
    return pos


def word(S, t, q):
    return ArrayView(S, t).arr()(q)


def field(w, lane, B):
    return bits.field(w, lane * B, B)


def ival(S, r):
    return If(r.e, 1, 0) if isinstance(r, VBool) else S.ex.as_u(S.st, r)


def reader(B, idx):
    """idx(env, pos) -> index argument such that the storage position is pos"""
    def setup(S, env):
        t = mk(S, env, B)
        pos = lane_idx(S, env, B, 'i', env.case)
        return [t] + [VInt(x, 64) for x in idx(S, env, pos)]

    def post(S, old, r, args, env):
        return [('reads the stored bits of that index', Eq(ival(S, r), field(word(old, args[0], env.q_i), env.case, B)))]
    return setup, post


def setval(S, env, B):
    if B == 1:
        b = z3.Bool('val')
        env.v = If(b, 1, 0)
        return VBool(b)
    w = TW[TY[B][0]]
    env.v = S.int('val', w, 0, 2 ** B)     # a value that fits
    return VInt(env.v, w)


def writer(B, idx):
    def setup(S, env):
        t = mk(S, env, B)
        pos = lane_idx(S, env, B, 'i', env.case)
        return [t] + [VInt(x, 64) for x in idx(S, env, pos)] + [setval(S, env, B)]

    def post(S, old, r, args, env):
        return stored(S, old, args[0], env, B, env.v)
    return setup, post


def stored(S, old, t, env, B, v):
    w, w0 = word(S, t, env.q_i), word(old, t, env.q_i)
    s = env.lane_i * B
    k = z3.Int('k')
    a, a0 = ArrayView(S, t).arr(), ArrayView(old, t).arr()
    out = [('the stored value is read back', Eq(field(w, env.lane_i, B), v)),
           ('other words are unchanged', Implies(And(k >= 0, k < env.w_this, k != env.q_i), Eq(a(k), a0(k))))]
    if s:
        out.append(('lower elements of the word are unchanged', Eq(bits.field(w, 0, s), bits.field(w0, 0, s))))
    if s + B < 64:
        out.append(('higher elements of the word are unchanged', Eq(bits.field(w, s + B, 64 - s - B), bits.field(w0, s + B, 64 - s - B))))
    return out


def setter2(B):
    """a[i] = a[j]: position i takes the value of position j; the pair of lanes (i, j)"""
    def setup(S, env):
        t = mk(S, env, B)
        li, lj = env.case
        p = lane_idx(S, env, B, 'i', li)
        q = lane_idx(S, env, B, 'j', lj)
        return [t, VInt(p, 64), VInt(q, 64)]

    def post(S, old, r, args, env):
        return stored(S, old, args[0], env, B, field(word(old, args[0], env.q_j), env.lane_j, B))
    return setup, post


def same(S, env, pos):
    return [pos]


def rev(S, env, pos):
    return [env.n_this - 1 - pos]


def from_end(S, env, pos):
    return [env.n_this - pos]


def from_rend(S, env, pos):
    return [pos + 1]


def plus(S, env, pos):
    k = S.int('step', 64, 0, 2 ** 56)
    S.assume(k <= pos)
    return [pos - k, k]


def minus(S, env, pos):
    k = S.int('step', 64, 0, 2 ** 56)
    S.assume(pos + k <= env.n_this)
    return [pos + k, k]


def before(S, env, pos):
    S.assume(pos >= 1)
    return [pos - 1]


def after(S, env, pos):
    return [pos + 1]


def rbefore(S, env, pos):
    # reverse index k with element n-1-(k+1) = pos
    S.assume(pos <= env.n_this - 2)
    return [env.n_this - 2 - pos]


def rafter(S, env, pos):
    return [env.n_this - pos]


def pair(B):
    def s(S, env):
        t = mk(S, env, B)
        i, j = S.int('i', 64, 0, 2 ** 57), S.int('j', 64, 0, 2 ** 57)
        S.assume(i <= env.n_this, j <= env.n_this)
        env.i, env.j = i, j
        return [t, VInt(i, 64), VInt(j, 64)]
    return s


def one(B, lo=1):
    def s(S, env):
        return [mk(S, env, B, lo=lo)]
    return s


def ret_s(f):
    def post(S, old, r, args, env):
        return [('distances are differences of indices', Eq(S.ex.as_s(S.st, r), f(env)))]
    return post


def ret_b(f):
    def post(S, old, r, args, env):
        return [('comparisons agree with the indices', Iff(r.e, f(env)))]
    return post


def none(S, a, e):
    return []


# ---- whole-array operations
def s_resize(B):
    def s(S, env):
        t = mk(S, env, B, lo=0)
        env.n = S.int('newsize', 64, 0, 2 ** 56)
        return [t, VInt(env.n, 64)]
    return s


def wf(S, t, n, B):
    a = ArrayView(S, t)
    d = a.data
    if d.obj is None:
        return [('a null buffer only for size 0', Eq(n, 0))]
    return [('the buffer holds all words of the array', Implies(Z(n) > 0, And(Eq(d.off, 0), le(words(n, B) * 8, d.obj.size), d.obj.id not in S.st.dead)))]


def post_resize(B):
    def post(S, old, r, args, env):
        t = args[0]
        return [('the array has the requested size', Eq(ArrayView(S, t).size, env.n))] + wf(S, t, env.n, B)
    return post


def exc_resize(S, old, r, args, env):
    a = ArrayView(S, args[0])
    return [('a failed resize leaves an empty array', And(Eq(a.size, 0), a.data.obj is None))]


REP = {B: sum(1 << (B * i) for i in range(64 // B)) for B in WIDTHS}


def s_fill(B, resize=False, ctor=False):
    def s(S, env):
        if ctor:
            t = this_obj(S, None, cls(B))
        else:
            t = mk(S, env, B, lo=0)
        env.n = env.get('n_this')
        env.t = t
        a = [t]
        if resize or ctor:
            env.n = S.int('newsize', 64, 0, 2 ** 56)
            a.append(VInt(env.n, 64))
        return a + [setval(S, env, B)]
    return s


def post_fill(B):
    def post(S, old, r, args, env):
        t = args[0]
        k = z3.Int('k')
        a = ArrayView(S, t)
        out = [('the array has the requested size', Eq(a.size, env.n))] + wf(S, t, env.n, B)
        if a.data.obj is not None:
            out.append(('every element of every word is the value', Implies(And(k >= 0, k < words(env.n, B)), Eq(a.arr()(k), env.v * REP[B]))))
        return out
    return post


def li_fill(B):
    def li(L):
        S, e = L.S, L.e
        a = ArrayView(S, e.t)
        out = [('index in range', And(0 <= L.i, L.i <= words(e.n, B)))]
        if a.data.obj is not None:
            out.append(('words filled so far', forall(1, lambda x: Implies(And(0 <= x, x < L.i), a.arr().read(x) == e.v * REP[B]), lambda x: a.arr().fn(x))))
        return out
    return li


def s_assign(B):
    def s(S, env):
        if env.case == 'self':
            t = mk(S, env, B, lo=0)
            env.n, env.w = env.n_this, env.w_this
            env.args = [t, t]
        else:
            t = mk(S, env, B, lo=0)
            o = mk(S, env, B, 'other', lo=0)
            env.n, env.w = env.n_other, env.w_other
            env.args = [t, o]
        env.orig = ArrayView(S, env.args[1]).arr()
        return env.args
    return s


def s_copy_ctor(B):
    def s(S, env):
        t = this_obj(S, None, cls(B))
        o = mk(S, env, B, 'other', lo=0)
        env.n, env.w = env.n_other, env.w_other
        env.args = [t, o]
        env.orig = ArrayView(S, o).arr()
        return env.args
    return s


def same_words(S, t, old, o, w, nm):
    k = z3.Int('k')
    a, b = ArrayView(S, t), ArrayView(old, o)
    if a.data.obj is None:
        return [(nm, Eq(w, 0))]
    return [(nm, Implies(And(k >= 0, k < w), Eq(a.arr()(k), b.arr()(k))))]


def post_copy(B):
    def post(S, old, r, args, env):
        t, o = args
        out = [('the copy has the size of the original', Eq(ArrayView(S, t).size, env.n))] + wf(S, t, env.n, B)
        out += same_words(S, t, old, o, env.w, 'the copy has the elements of the original')
        out += same_words(S, o, old, o, env.w, 'the original keeps its elements')
        a, b = ArrayView(S, t).data, ArrayView(S, o).data
        if t.obj is not o.obj and a.obj is not None and b.obj is not None:
            out.append(('the buffers are separate', a.obj is not b.obj))
        return out
    return post


def li_assign(L):
    S, e = L.S, L.e
    a, b = ArrayView(S, e.args[0]), ArrayView(S, e.args[1])
    out = [('index in range', And(0 <= L.i, L.i <= e.w))]
    if a.data.obj is not None and b.data.obj is not None:
        out.append(('words copied so far', forall(1, lambda x: Implies(And(0 <= x, x < L.i), a.arr().read(x) == e.orig.read(x)), lambda x: a.arr().fn(x))))
        out.append(('the original keeps its words', forall(1, lambda x: Implies(And(0 <= x, x < e.w), b.arr().read(x) == e.orig.read(x)), lambda x: b.arr().fn(x))))
    return out


def post_move(B):
    def post(S, old, r, args, env):
        t, o = args
        out = [('the size is moved', Eq(ArrayView(S, t).size, env.n))] + wf(S, t, env.n, B)
        out += same_words(S, t, old, o, env.w, 'the elements are moved')
        if t.obj is not o.obj:
            out.append(('the source is empty', And(Eq(ArrayView(S, o).size, 0))))
        return out
    return post


def s_two(B):
    def s(S, env):
        env.args = [mk(S, env, B, lo=0), mk(S, env, B, 'other', lo=0)]
        env.n, env.w = env.n_other, env.w_other
        return env.args
    return s


def post_swap(B):
    def post(S, old, r, args, env):
        t, o = args
        return [('the sizes are exchanged', And(Eq(ArrayView(S, t).size, env.n_other), Eq(ArrayView(S, o).size, env.n_this)))] + \
            same_words(S, t, old, o, env.w_other, 'this has the elements of the other') + same_words(S, o, old, t, env.w_this, 'the other has the elements of this')
    return post


def ret_size(S, old, r, args, env):
    return [('size() is the number of elements', Eq(S.ex.as_u(S.st, r), env.n_this))]


def ret_empty(S, old, r, args, env):
    return [('empty() iff there are no elements', Iff(r.e, Eq(env.n_this, 0)))]


THR = {'mm_throws': True}
FNS = []
for B in WIDTHS:
    N = 64 // B
    lanes = tuple(range(N))
    P = r'^tpie::packed_array<%s, %d>::' % (TY[B][1], B)
    for nm, ix in (('get', same), ('getp', same), ('iget', same), ('cget', same), ('fget', same), ('idx', same), ('rget', rev), ('crget', rev),
                   ('end', from_end), ('rend', from_rend), ('sub', minus), ('add', plus), ('inc', before), ('dec', after), ('rinc', rbefore), ('rdec', rafter)):
        s, p = reader(B, ix)
        FNS.append(FnSpec('packed_array<%d>: %s' % (B, nm), r'\bvp_%s%d\(' % (nm, B), s, p, frame=none, cases=lanes))
    for nm, ix in (('set', same), ('iset', same), ('rset', rev)):
        s, p = writer(B, ix)
        FNS.append(FnSpec('packed_array<%d>: %s' % (B, nm), r'\bvp_%s%d\(' % (nm, B), s, p, cases=lanes))
    for nm in ('setr', 'isetr'):
        s, p = setter2(B)
        pairs = [(i, j) for i in lanes for j in lanes]
        if len(pairs) > 256:
            pairs = [(i, (i * 37 + 11) % N) for i in lanes] + [(i, i) for i in lanes]
        FNS.append(FnSpec('packed_array<%d>: %s' % (B, nm), r'\bvp_%s%d\(' % (nm, B), s, p, cases=tuple(pairs)))
    for nm, f in (('dist', lambda e: e.j - e.i), ('rdist', lambda e: e.j - e.i)):
        FNS.append(FnSpec('packed_array<%d>: %s' % (B, nm), r'\bvp_%s%d\(' % (nm, B), pair(B), ret_s(f), frame=none))
    for nm in ('span', 'rspan'):
        FNS.append(FnSpec('packed_array<%d>: %s' % (B, nm), r'\bvp_%s%d\(' % (nm, B), one(B), ret_s(lambda e: e.n_this), frame=none))
    for nm, f in (('lt', lambda e: e.i < e.j), ('le', lambda e: e.i <= e.j), ('gt', lambda e: e.i > e.j), ('ge', lambda e: e.i >= e.j), ('eq', lambda e: e.i == e.j),
                  ('ne', lambda e: e.i != e.j), ('rlt', lambda e: e.i < e.j)):
        FNS.append(FnSpec('packed_array<%d>: %s' % (B, nm), r'\bvp_%s%d\(' % (nm, B), pair(B), ret_b(f), frame=none))
    LF = [LoopSpec(r'packed_array<.*>::fill', unroll=N + 1, nth=0, name='fill: one word'), LoopSpec(r'packed_array<.*>::fill', inv=li_fill(B), roles={'i': 'i.*'}, nth=1, name='fill: all words')]
    LA = [LoopSpec(r'packed_array<.*>::operator=', inv=li_assign, roles={'i': 'i.*'}, name='copy')]
    T = re.escape(TY[B][1])
    FNS += [
        FnSpec('packed_array<%d>::resize(n)' % B, P + r'resize\(unsigned long\)', s_resize(B), post_resize(B), hooks=MM, exc=exc_resize, opts=THR),
        FnSpec('packed_array<%d>::resize(n, v)' % B, P + r'resize\(unsigned long, %s\)' % T, s_fill(B, resize=True), post_fill(B), hooks=MM, loops=LF, exc=exc_resize, opts=THR),
        FnSpec('packed_array<%d>::fill' % B, P + r'fill\(', s_fill(B), post_fill(B), hooks=MM, loops=LF),
        FnSpec('packed_array<%d>::packed_array(n)' % B, P + r'packed_array\(unsigned long\)', lambda S, e, B=B: [this_obj(S, None, cls(B)), VInt(e.__setitem__('n', S.int('newsize', 64, 0, 2 ** 56)) or e.n, 64)], post_resize(B), hooks=MM, exc='any', opts=THR),
        FnSpec('packed_array<%d>::packed_array(n, v)' % B, P + r'packed_array\(unsigned long, %s\)' % T, s_fill(B, ctor=True), post_fill(B), hooks=MM, loops=LF, exc='any', opts=THR),
        FnSpec('packed_array<%d>::packed_array(const&)' % B, P + r'packed_array\(tpie::packed_array<.*> const&\)', s_copy_ctor(B), post_copy(B), hooks=MM, loops=LA, exc='any', opts=THR),
        FnSpec('packed_array<%d>::packed_array(&&)' % B, P + r'packed_array\(tpie::packed_array<.*>&&\)', s_copy_ctor(B), post_move(B), hooks=MM),
        FnSpec('packed_array<%d>::operator=(const&)' % B, P + r'operator=\(tpie::packed_array<.*> const&\)', s_assign(B), post_copy(B), hooks=MM, loops=LA, cases=('other', 'self'), exc='any', opts=THR),
        FnSpec('packed_array<%d>::operator=(&&)' % B, P + r'operator=\(tpie::packed_array<.*>&&\)', s_two(B), post_move(B), hooks=MM),
        FnSpec('packed_array<%d>::swap' % B, P + r'swap\(', s_two(B), post_swap(B)),
        FnSpec('packed_array<%d>::size' % B, P + r'size\(\) const', one(B, 0), ret_size, frame=none),
        FnSpec('packed_array<%d>::empty' % B, P + r'empty\(\) const', one(B, 0), ret_empty, frame=none),
    ]


def _field_lemma():
    """the three word facts of `stored` mean: every other element of the word reads as before, for any lane"""
    for B in WIDTHS:
        if B == 64:
            continue
        w, w0, i, j = z3.BitVecs('w w0 i j', 64)
        N = 64 // B
        M = z3.BitVecVal((1 << B) - 1, 64)
        get = lambda x, l: z3.LShR(x, l * B) & M
        low = z3.BitVecVal(-1, 64) & ~(z3.BitVecVal(-1, 64) << (i * B))
        yield ('width %d: equal lower and higher parts give equal other elements' % B,
               [z3.ULT(i, N), z3.ULT(j, N), i != j, (w & low) == (w0 & low), z3.Or(i == N - 1, z3.LShR(w, (i + 1) * B) == z3.LShR(w0, (i + 1) * B))],
               get(w, j) == get(w0, j))
        v = z3.BitVec('v', 64)
        yield ('width %d: the repeated value reads back at every lane' % B, [z3.ULT(j, N), z3.ULE(v, M)], get(v * z3.BitVecVal(REP[B], 64), j) == v)


L_FIELD = Lemma('fields of a word', lambda: list(_field_lemma()))
LEMMAS = [L_FIELD]
ASSUME = ['integer div/mod on words stands for shifts and masks of the same word (standard identity)',
          'a[i] = a[j] is checked for every pair of lanes for element widths 4 and up; for widths 1 and 2 (64 and 32 lanes) for every lane i with two lanes j each']
