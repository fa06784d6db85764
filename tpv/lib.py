"""Shared contracts: memory manager, element order, arrays."""
import re
import z3
from sym import *
from sym import _fresh
from exe import *
from prove import FnSpec, Lemma

KEY = z3.Function('key', I, I)   # integer rank of an element: any strict weak order on finitely many values has one


def LT(a, b):
    return KEY(Z(a)) < KEY(Z(b))


def h_less(ex, st, ins, args, dn):
    """vp_less(const elem&, const elem&): an arbitrary strict weak order, no side effects"""
    a = ex.load(st, args[0], ('i', 64))
    b = ex.load(st, args[1], ('i', 64))
    return VBool(LT(ex.as_u(st, a), ex.as_u(st, b)))


def gset(ex, st, k, v):
    st.ghost[k] = v
    for m in ex._marks(st):
        m.add(('g', k))


def h_mm(ex, st, ins, args, dn):
    o = ex.__dict__.setdefault('_mmobj', {})
    if 'o' not in o:
        o['o'] = Obj('memory_manager', 'global', None, None)
        o['o'].gname = 'memory_manager'
    st.objs[o['o'].id] = o['o']
    return VPtr(o['o'], 0)


def h_inc(ex, st, ins, args, dn):
    """contract of resource_manager::register_increased_usage on the memory manager (proved in C10)"""
    n = ex.as_u(st, args[1])
    outs = []
    if ex.opts.get('mm_throws'):
        s = st.fork()
        s.path = s.path + ('limit exceeded',)
        outs.append(('throw', s, '_ZTIN4tpie19out_of_memory_errorE'))
    if 'mm_used' in st.ghost:
        gset(ex, st, 'mm_used', st.ghost['mm_used'] + n)
    outs.append(('ret', st, None))
    return outs


def h_dec(ex, st, ins, args, dn):
    n = ex.as_u(st, args[1])
    if 'mm_used' in st.ghost:
        gset(ex, st, 'mm_used', st.ghost['mm_used'] - n)
    return None


def h_nop(ex, st, ins, args, dn):
    return None


MM = [(r'^tpie::get_memory_manager\(\)', h_mm),
      (r'^tpie::resource_manager::register_increased_usage\(', h_inc),
      (r'^tpie::resource_manager::register_decreased_usage\(', h_dec)]
LESS = [(r'^vp_less\(', h_less)]

ELEM = Cell(8, 'i')


def MUL(S, a, b):
    return S.ex.mulfn(S.st, norm(a), norm(b))


def UDIV(S, a, b):
    return S.ex.divmod(S.st, norm(a), norm(b))[0]


def UMOD(S, a, b):
    return S.ex.divmod(S.st, norm(a), norm(b))[1]


class ArrayView:
    """a tpie::array<elem> reached through `this` at member path p"""
    def __init__(self, S, this, p='', cls=None):
        self.S, self.this, self.p, self.cls = S, this, p, cls

    def fld(self, n):
        return (self.p + '.' if self.p else '') + n

    @property
    def size(self):
        return self.S.get(self.this, self.fld('m_size'), cls=self.cls)

    @property
    def data(self):
        return self.S.ptr(self.this, self.fld('m_elements'), cls=self.cls)

    def arr(self, off=0, size=8):
        d = self.data
        if d.obj is None:
            return AV('null', 1)
        return self.S.arr(d, off, size)


def mk_array(S, this, p, name='buf', el=ELEM, lo=0, bucket='null', dcls=None):
    """a well-formed tpie::array of symbolic size; the buffer is null iff the size is 0"""
    pre = p + '.' if p else ''
    n = S.int(name + '_n', 64, lo, 2 ** 56)
    buf = S.heap(name, el, n, Z(n) == 0 if lo == 0 else False)
    S.set(this, pre + 'm_elements', buf)
    S.set(this, pre + 'm_size', n)
    S.set(this, pre + 'm_tss_used', 0, 8)
    if bucket == 'null':
        S.set(this, pre + 'm_allocator.bucket.bucket', VPtr(None, 0))
    else:
        b = S.obj('bucket', 'param', Struct([(0, Cell(8, 'i')), (8, Cell(8, 'p'))], 16), 16)
        S.st.ghost['bucket'] = b
        S.set(this, pre + 'm_allocator.bucket.bucket', b)
    return n, buf


def this_obj(S, ll, dcls, name='this', over=None):
    return S.obj(name, 'param', cls=dcls, over=over)


# ---- lemmas behind the background axioms of prove.axioms_for
def _sum_lemma():
    S = z3.Function('S', I, I, I)
    f = z3.Function('f', I, I)
    a, b, c = z3.Ints('a b c')
    x, y = z3.Ints('x y')
    defs = [z3.ForAll([x], S(x, x) == 0, patterns=[S(x, x)]),
            z3.ForAll([x, y], z3.Implies(x <= y, S(x, y + 1) == S(x, y) + W(f(y))), patterns=[S(x, y + 1)])]
    yield 'sum additivity, base case', defs, z3.Implies(a <= b, S(a, b) + S(b, b) == S(a, b))
    yield ('sum additivity, induction step', defs + [a <= b, b <= c, S(a, b) + S(b, c) == S(a, c),
                                                    S(b, c + 1) == S(b, c) + W(f(c)), S(a, c + 1) == S(a, c) + W(f(c))],
           S(a, b) + S(b, c + 1) == S(a, c + 1))
    yield 'sum of one element', defs + [S(a, a + 1) == S(a, a) + W(f(a)), S(a, a) == 0], S(a, a + 1) == W(f(a))


def _umod_lemma():
    a, b, n, qa, qb, r = z3.Ints('a b n qa qb r')
    d = z3.Int('d')
    yield 'remainder is in range', [n > 0, a >= 0], z3.And(a % n >= 0, a % n < n)
    yield ('two indices less than n apart have different remainders', [n > 0, 0 <= a, a < b, b - a < n, a == qa * n + r, b == qb * n + r, d == qb - qa, b - a == d * n,
           z3.Implies(d >= 1, d * n >= n), z3.Implies(d <= 0, d * n <= 0)], z3.BoolVal(False))
    yield ('an index less than twice the size wraps once', [n > 0, n <= a, a < 2 * n, a == qa * n + r, 0 <= r, r < n, z3.Implies(qa >= 2, qa * n >= 2 * n), z3.Implies(qa <= 0, qa * n <= 0), z3.Implies(qa == 1, qa * n == n)],
           z3.And(qa == 1, r == a - n))
    yield 'step: q >= 2 and n > 0 gives q*n >= 2n', [n > 0, qa >= 2, d == qa - 2, d * n >= 0, qa == d + 2], qa * n >= 2 * n
    yield 'step: d >= 1 and n > 0 gives d*n >= n', [n > 0, d >= 1], d * n >= n
    yield 'step: d <= 0 and n > 0 gives d*n <= 0', [n > 0, d <= 0], d * n <= 0


L_SUM = Lemma('range sums', lambda: list(_sum_lemma()))
L_UMOD = Lemma('circular indices', lambda: list(_umod_lemma()))


def products(n):
    """facts about the products with the positive constant n that occur in an obligation (lemma 'products')"""
    mul = z3.Function('mul', I, I, I)

    def g(texts):
        ts, seen = {}, set()
        st = list(texts)
        while st:
            x = st.pop()
            if not z3.is_expr(x) or x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_quantifier(x):
                st.append(x.body())
            elif z3.is_app(x):
                if x.decl().eq(mul):
                    for a, b in ((x.arg(0), x.arg(1)), (x.arg(1), x.arg(0))):
                        if a.eq(n):
                            ts[b.get_id()] = (b, x)
                st.extend(x.children())
        ts = [t for t in ts.values() if not any_var(t[0])]
        out = []
        for b, p in ts:
            out.append(z3.And(z3.Implies(b == 0, p == 0), z3.Implies(b >= 1, z3.And(p >= n, p >= b))))
        for i, (a, p) in enumerate(ts):
            for b, q in ts[i + 1:]:
                out.append(z3.And(z3.Implies(z3.And(0 <= a, a < b), p + n <= q), z3.Implies(z3.And(0 <= b, b < a), q + n <= p), z3.Implies(a == b, p == q), z3.Implies(b == a + 1, q == p + n), z3.Implies(a == b + 1, p == q + n), z3.Implies(z3.And(0 <= a, a + 2 <= b), p + 2 * n <= q), z3.Implies(z3.And(0 <= b, b + 2 <= a), q + 2 * n <= p)))
        return out
    g.ground = True
    return g


def any_var(t):
    st = [t]
    while st:
        x = st.pop()
        if z3.is_var(x):
            return True
        st.extend(x.children())
    return False


def _prod_lemma():
    a, b, n, q, d = z3.Ints('a b n q d')
    yield 'a product with 0', [a == 0], a * n == 0
    yield 'a product is at least its factor', [a >= 1, n >= 1, d == a - 1, d * n >= 0], a * n >= n
    yield 'a product is at least its other factor', [a >= 1, n >= 1, d == n - 1, a * d >= 0, n == d + 1], a * n >= a
    yield 'a product of non-negative numbers', [a >= 0, n >= 0], a * n >= 0
    yield 'products are spaced by the factor', [0 <= a, a < b, n >= 1, d == b - a - 1, d >= 0, d * n >= 0, b == a + 1 + d], a * n + n <= b * n
    yield 'products two apart are spaced by two factors', [0 <= a, a + 2 <= b, n >= 1, d == b - a - 2, d >= 0, d * n >= 0, b == a + 2 + d], a * n + 2 * n <= b * n
    yield 'the next product', [b == a + 1], b * n == a * n + n
    yield 'division with remainder', [n >= 1, a >= 0], a == n * (a / n) + a % n


L_PROD = Lemma('products', lambda: list(_prod_lemma()))
