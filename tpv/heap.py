"""Binary-heap specifications (min-heap by KEY) and the contracts of the libstdc++ heap algorithms."""
from lib import *


def child(p, c):
    return Or(c == 2 * p + 1, c == 2 * p + 2)


def heap(a, n, off=0, rev=False, skip=None):
    """every child is not smaller than its parent (skip: edges leaving this position are exempt)"""
    def b(p, c):
        o = KEY(Z(a(off + p))) <= KEY(Z(a(off + c))) if not rev else KEY(Z(a(off + p))) >= KEY(Z(a(off + c)))
        return Implies(And(0 <= p, c < n, child(p, c), True if skip is None else p != skip), o)
    def pat(p, c):
        return z3.MultiPattern(a.fn(p + off) if not (is_c(off) and off == 0) else a.fn(p), a.fn(c + off) if not (is_c(off) and off == 0) else a.fn(c))
    return forall(2, b, pat)


def _heap_top():
    a = AV('a', 1)
    n, i, p, j = z3.Ints('n i p j')
    ih = z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < i), KEY(a.fn(0)) <= KEY(a.fn(j))), patterns=[a.fn(j)])
    yield 'base: the top is not larger than itself', [], KEY(a.fn(0)) <= KEY(a.fn(0))
    yield ('step: if every smaller index holds no smaller element, neither does i', [heap(a, n), ih, i > 0, i < n, p == (i - 1) / 2, z3.Function('seen', I, z3.BoolSort())(a.fn(p))],
           KEY(a.fn(0)) <= KEY(a.fn(i)))


L_HEAP = Lemma('the top of a heap is minimal (induction on the index)', lambda: list(_heap_top()))


def heap_top(a, n, rev=False):
    """instance of the lemma: heap => a[0] is minimal"""
    x = z3.Int('ht')
    r = (lambda u, v: u <= v) if not rev else (lambda u, v: u >= v)
    return Implies(heap(a, n, 0, rev), forall(1, lambda x: Implies(And(0 <= x, x < n), r(KEY(Z(a(0))), KEY(Z(a(x))))), lambda x: a.fn(x)))


def _range(ex, st, args):
    f, l = ex.concretize(st, args[0]), ex.concretize(st, args[1])
    if not (isinstance(f, VPtr) and isinstance(l, VPtr) and f.obj is l.obj):
        raise Unsupported('iterator range over two objects')
    if f.obj is None:
        return f, None, 0, 0
    lo, hi = norm_div(f.off, 8), norm_div(l.off, 8)
    ex.oblige(st, 'iterator range is ordered', 'pre', le(lo, hi))
    return f, f.obj, lo, hi


def norm_div(e, k):
    p = poly(e)
    if p[0] % k or any(c % k for c, _ in p[1].values()):
        raise Unsupported('unaligned range')
    return unpoly((p[0] // k, {q: (c // k, t) for q, (c, t) in p[1].items()}))


def _rev(dn):
    """is the comparator the swapped one (min-heap) or the plain one (max-heap)"""
    if re.search(r'binary_argument_swap<Cmp>', dn):
        return False
    if re.search(r', Cmp>', dn):
        return True
    raise Unsupported('comparator of ' + dn)


def _rearrange(ex, st, f, lo, hi):
    """a new arrangement of [lo,hi): same multiset, everything else unchanged"""
    S = Ctx(ex, st)
    a0 = S.arr(f)
    ex.havoc_leaf(st, f.obj, 0, 8)
    a1 = S.arr(f)
    S.assume(forall(1, lambda x: Implies(Or(x < lo, x >= hi), Eq(a1.read(x), a0.read(x))), lambda x: a1.fn(x)))
    S.assume(Eq(a1.sum(lo, hi), a0.sum(lo, hi)))
    return S, a0, a1


def h_push_heap(ex, st, ins, args, dn):
    """std::push_heap: turns heap [first,last-1) plus one element into heap [first,last), same elements"""
    f, o, lo, hi = _range(ex, st, args)
    rev = _rev(dn)
    S = Ctx(ex, st)
    ex.oblige(st, 'push_heap: the range is not empty', 'pre', lt(lo, hi))
    ex.oblige(st, 'push_heap: [first,last-1) is a heap', 'pre', heap(S.arr(f), hi - lo - 1, lo, rev))
    S, a0, a1 = _rearrange(ex, st, f, lo, hi)
    S.assume(heap(a1, hi - lo, lo, rev))
    return None


def h_pop_heap(ex, st, ins, args, dn):
    """std::pop_heap: moves the first element last, [first,last-1) stays a heap, same elements"""
    f, o, lo, hi = _range(ex, st, args)
    rev = _rev(dn)
    S = Ctx(ex, st)
    ex.oblige(st, 'pop_heap: the range is not empty', 'pre', lt(lo, hi))
    ex.oblige(st, 'pop_heap: [first,last) is a heap', 'pre', heap(S.arr(f), hi - lo, lo, rev))
    S, a0, a1 = _rearrange(ex, st, f, lo, hi)
    S.assume(heap(a1, hi - lo - 1, lo, rev), Eq(a1.read(hi - 1), a0.read(lo)), a1.sum(lo, hi) == a1.sum(lo, hi - 1) + W(Z(a1.read(hi - 1))))
    return None


def h_make_heap(ex, st, ins, args, dn):
    """std::make_heap: rearranges [first,last) into a heap, same elements"""
    f, o, lo, hi = _range(ex, st, args)
    if o is None:
        return None
    rev = _rev(dn)
    S, a0, a1 = _rearrange(ex, st, f, lo, hi)
    S.assume(heap(a1, hi - lo, lo, rev))
    return None


STDHEAP = [(r'std::push_heap<', h_push_heap), (r'std::pop_heap<', h_pop_heap), (r'std::make_heap<', h_make_heap)]
STDKEEP = [r'std::(push|pop|make)_heap<']
