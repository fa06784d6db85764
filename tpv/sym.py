"""Symbolic values, memory model and verification-condition generation over
the LLVM IR of the code under /repo (see DESIGN.md, section "The verifier")."""
import re
import sys
import time
import math
import itertools
import z3
import ir

sys.setrecursionlimit(200000)


class Unsupported(Exception):
    """the verifier cannot express this construct (never a verdict)"""


# --------------------------------------------------------------------------
# terms
def is_c(e):
    return isinstance(e, int) and not isinstance(e, bool)


def Z(e):
    if isinstance(e, bool):
        return z3.BoolVal(e)
    return z3.IntVal(e) if isinstance(e, int) else e


def ZB(e):
    return z3.BoolVal(e) if isinstance(e, bool) else e


def And(*a):
    a = [x for y in a for x in (y if isinstance(y, (list, tuple)) else [y])]
    a = [x for x in a if x is not True]
    if any(x is False for x in a):
        return False
    if not a:
        return True
    if len(a) == 1:
        return a[0]
    return z3.And(*[ZB(x) for x in a])


def Or(*a):
    a = [x for y in a for x in (y if isinstance(y, (list, tuple)) else [y])]
    a = [x for x in a if x is not False]
    if any(x is True for x in a):
        return True
    if not a:
        return False
    if len(a) == 1:
        return a[0]
    return z3.Or(*[ZB(x) for x in a])


def Not(a):
    if isinstance(a, bool):
        return not a
    if z3.is_not(a):
        return a.arg(0)
    return z3.Not(a)


def Implies(a, b):
    return Or(Not(a), b)


def Iff(a, b):
    if isinstance(a, bool):
        return b if a else Not(b)
    if isinstance(b, bool):
        return a if b else Not(a)
    return a == b


def If(c, a, b):
    if isinstance(c, bool):
        return a if c else b
    if is_c(a) and is_c(b) and a == b:
        return a
    if z3.is_expr(a) and z3.is_expr(b) and a.eq(b):
        return a
    if isinstance(a, bool) or isinstance(b, bool) or (z3.is_expr(a) and z3.is_bool(a)):
        return z3.If(c, ZB(a), ZB(b))
    return z3.If(c, Z(a), Z(b))


def Eq(a, b):
    if is_c(a) and is_c(b):
        return a == b
    if isinstance(a, bool) or isinstance(b, bool) or (z3.is_expr(a) and z3.is_bool(a)):
        return Iff(a, b)
    d = pconst_diff(a, b)
    if d is not None:
        return d == 0
    return Z(a) == Z(b)


def Ne(a, b):
    return Not(Eq(a, b))


_poly_cache = {}


def poly(e):
    """Int expr -> (const, {ast id: (coef, term)})"""
    if is_c(e):
        return e, {}
    k = e.get_id()
    r = _poly_cache.get(k)
    if r is not None:
        return r[0]
    r = _poly(e)
    _poly_cache[k] = (r, e)
    return r


def padd(a, b, m=1):
    c = a[0] + m * b[0]
    d = dict(a[1])
    for k, (co, t) in b[1].items():
        n = d.get(k, (0, t))[0] + m * co
        if n == 0:
            d.pop(k, None)
        else:
            d[k] = (n, t)
    return c, d


def pscale(a, m):
    if m == 0:
        return 0, {}
    return a[0] * m, {k: (c * m, t) for k, (c, t) in a[1].items()}


def _poly(e):
    if z3.is_int_value(e):
        return e.as_long(), {}
    if z3.is_app(e):
        k = e.decl().kind()
        if k == z3.Z3_OP_ADD:
            r = (0, {})
            for ch in e.children():
                r = padd(r, poly(ch))
            return r
        if k == z3.Z3_OP_SUB:
            ch = e.children()
            r = poly(ch[0])
            for c in ch[1:]:
                r = padd(r, poly(c), -1)
            return r
        if k == z3.Z3_OP_UMINUS:
            return pscale(poly(e.arg(0)), -1)
        if k == z3.Z3_OP_MUL:
            co = 1
            rest = []
            for ch in e.children():
                pc = poly(ch)
                if not pc[1]:
                    co *= pc[0]
                else:
                    rest.append((ch, pc))
            if not rest:
                return co, {}
            if len(rest) == 1:
                return pscale(rest[0][1], co)
    return 0, {e.get_id(): (1, e)}


def unpoly(p):
    r = None
    for k in sorted(p[1]):
        c, t = p[1][k]
        x = t if c == 1 else (c * t)
        r = x if r is None else r + x
    if r is None:
        return p[0]
    if p[0]:
        r = r + p[0]
    return r


def norm(e):
    return unpoly(poly(e)) if z3.is_expr(e) else e


def pconst_diff(a, b):
    """a-b if syntactically constant"""
    if z3.is_expr(a) and a.sort() != z3.IntSort() or z3.is_expr(b) and b.sort() != z3.IntSort():
        return 0 if (z3.is_expr(a) and z3.is_expr(b) and a.eq(b)) else None
    p = padd(poly(a), poly(b), -1)
    if not p[1]:
        return p[0]
    return None


# --------------------------------------------------------------------------
# values
class VInt:
    __slots__ = ('e', 'w')

    def __init__(self, e, w):
        self.e, self.w = e, w

    def __repr__(self):
        return 'i%d(%s)' % (self.w, self.e)


class VBool:
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = e

    def __repr__(self):
        return 'b(%s)' % (self.e,)


class VPtr:
    """obj None = null + off.  nul: condition under which the pointer is null"""
    __slots__ = ('obj', 'off', 'nul')

    def __init__(self, obj, off=0, nul=False):
        self.obj, self.off, self.nul = obj, off, nul

    def __repr__(self):
        return 'ptr(%s+%s%s)' % (self.obj, self.off, '' if self.nul is False else '?null')


class VOpq:
    """pointer with an unknown pointee; e is an Int address"""
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = e

    def __repr__(self):
        return 'opq(%s)' % self.e


class VFn:
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return 'fn(%s)' % self.name


class VFp:
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = e


class VAgg:
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = list(v)

    def __repr__(self):
        return 'agg(%s)' % self.v


class VUndef:
    def __repr__(self):
        return 'undef'


FP = z3.DeclareSort('FP')


# --------------------------------------------------------------------------
# layouts
class Cell:
    def __init__(self, size, kind):
        self.size, self.kind = size, kind

    def __repr__(self):
        return '%s%d' % (self.kind, self.size)


class Struct:
    def __init__(self, fields, size):
        self.fields, self.size = fields, size

    def __repr__(self):
        return 'S%d%s' % (self.size, self.fields)


class Arr:
    def __init__(self, stride, count, el):
        self.stride, self.count, self.el = stride, count, el
        self.size = stride * count if is_c(count) else None

    def __repr__(self):
        return 'A(%s,%s,%s)' % (self.stride, self.count, self.el)


class Dyn:
    """element of known size whose cells are discovered by the accesses"""
    def __init__(self, size):
        self.size = size
        self.cells = {}

    def __repr__(self):
        return 'D%s' % self.size


def lt_of(m, ty, over=None, base=0):
    if over and base in over:
        o = over[base]
        return o
    ty0 = ty
    ty = m.resolve(ty)
    k = ty[0]
    if k == 'i':
        return Cell(m.sizeof(ty), 'i')
    if k == 'ptr':
        return Cell(8, 'p')
    if k == 'fp':
        return Cell(m.sizeof(ty), 'f')
    if k == 'arr':
        return Arr(m.sizeof(ty[2]), ty[1], lt_of(m, ty[2], over, base))
    if k == 'vec':
        return Arr(m.sizeof(ty[2]), ty[1], lt_of(m, ty[2], over, base))
    if k == 'st':
        fs = []
        for i in range(len(ty[1])):
            o, f = m.fieldoff(ty, i)
            if m.sizeof(f) == 0:
                continue
            fs.append((o, lt_of(m, f, over, base + o)))
        return Struct(fs, m.sizeof(ty))
    raise Unsupported('layout of %r' % (ty0,))


# --------------------------------------------------------------------------
# array leaf values
_fresh = itertools.count()
I = z3.IntSort()
W = z3.Function('W', I, I)  # arbitrary weight: sums of W characterise multisets


class AV:
    """functional array: base function updated by a list of writes"""
    __slots__ = ('name', 'dims', 'ops', 'sort', 'fn', 'w')

    def __init__(self, name, dims, sort=None, ops=(), w=64):
        self.name, self.dims, self.ops = name, dims, tuple(ops)
        self.sort = sort if sort is not None else I
        self.fn = z3.Function(name, *([I] * dims), self.sort)
        self.w = w

    def _new(self, ops):
        a = AV.__new__(AV)
        a.name, a.dims, a.sort, a.fn, a.w = self.name, self.dims, self.sort, self.fn, self.w
        a.ops = tuple(ops)
        return a

    def upd(self, idx, val):
        idx = tuple(norm(i) for i in idx)
        return self._new(self.ops + (('u', idx, val),))

    def copy(self, prefix, lo, hi, src, sprefix, shift):
        """self[prefix, k, rest] := src[sprefix, k+shift, rest] for lo<=k<hi"""
        return self._new(self.ops + (('c', tuple(prefix), lo, hi, src, tuple(sprefix), shift),))

    def fill(self, prefix, lo, hi, val):
        return self._new(self.ops + (('f', tuple(prefix), lo, hi, val),))

    def reverse(self, lo, hi):
        """self[k] := self[lo+hi-1-k] for lo<=k<hi"""
        return self._new(self.ops + (('c', (), lo, hi, _Rev(self, lo, hi), (), 0),))

    def read(self, *idx):
        idx = tuple(norm(i) for i in idx)
        return self._read(idx, len(self.ops))

    __call__ = read

    def _read(self, idx, n):
        conds = []
        while n > 0:
            o = self.ops[n - 1]
            n -= 1
            if o[0] == 'u':
                c = And([Eq(a, b) for a, b in zip(idx, o[1])])
                v = o[2]
            elif o[0] == 'c':
                d = len(o[1])
                k = idx[d]
                c = And([Eq(a, b) for a, b in zip(idx, o[1])], le(o[2], k), lt(k, o[3]))
                if c is False:
                    continue
                v = o[4].read(*(o[5] + (k + o[6],) + idx[d + 1:]))
            else:
                d = len(o[1])
                k = idx[d]
                c = And([Eq(a, b) for a, b in zip(idx, o[1])], le(o[2], k), lt(k, o[3]))
                v = o[4]
            if c is False:
                continue
            if c is True:
                r = v
                break
            conds.append((c, v))
        else:
            r = self.fn(*[Z(i) for i in idx])
        for c, v in reversed(conds):
            r = If(c, v, r)
        return r

    def sumf(self):
        return z3.Function(self.name + '.sum', I, I, I)

    def sum(self, lo, hi, n=None):
        """sum of W over [lo,hi)  (1-dimensional leaves)"""
        if n is None:
            n = len(self.ops)
        if pconst_diff(lo, hi) == 0:
            return 0
        if n == 0:
            return self.sumf()(Z(norm(lo)), Z(norm(hi)))
        o = self.ops[n - 1]
        if o[0] == 'u':
            i = o[1][0]
            c = And(le(lo, i), lt(i, hi))
            base = self.sum(lo, hi, n - 1)
            if c is False:
                return base
            return base + If(c, W(Z(o[2])) - W(Z(self._read((norm(i),), n - 1))), 0)
        if o[0] == 'c':
            c = zmax(lo, zmin(hi, o[2]))
            d = zmax(c, zmin(hi, o[3]))
            return self.sum(lo, c, n - 1) + o[4].sum(c + o[6], d + o[6]) + self.sum(d, hi, n - 1)
        raise Unsupported('sum over fill')

    def sums(self):
        r = [self.sumf()]
        for o in self.ops:
            if o[0] == 'c':
                r += o[4].sums()
        return r


class _Rev:
    def __init__(self, src, lo, hi):
        self.src, self.lo, self.hi = src, lo, hi

    def read(self, k):
        return self.src.read(norm(Z(self.lo) + Z(self.hi) - 1 - Z(k)))

    def sum(self, lo, hi):
        return self.src.sum(norm(Z(self.lo) + Z(self.hi) - Z(hi)), norm(Z(self.lo) + Z(self.hi) - Z(lo)))

    def sums(self):
        return self.src.sums()


def zmax(a, b):
    d = pconst_diff(a, b)
    if d is not None:
        return a if d >= 0 else b
    return If(Z(a) >= Z(b), a, b)


def zmin(a, b):
    d = pconst_diff(a, b)
    if d is not None:
        return a if d <= 0 else b
    return If(Z(a) <= Z(b), a, b)


def le(a, b):
    d = pconst_diff(a, b)
    if d is not None:
        return d <= 0
    return Z(a) <= Z(b)


def lt(a, b):
    d = pconst_diff(a, b)
    if d is not None:
        return d < 0
    return Z(a) < Z(b)


# --------------------------------------------------------------------------
class Obj:
    _n = itertools.count()

    def __init__(self, name, kind, layout=None, size=None):
        self.id = next(Obj._n)
        self.name = name
        self.kind = kind
        self.layout = layout
        self.size = size
        self.base = None
        self.readonly = False

    def __repr__(self):
        return self.name

    def addr(self):
        if self.base is None:
            self.base = z3.Int('&' + self.name)
        return self.base


class State:
    __slots__ = ('env', 'cells', 'dead', 'pc', 'ghost', 'loops', 'objs', 'path', 'depth', 'mark')

    def __init__(self):
        self.env = {}
        self.cells = {}
        self.dead = frozenset()
        self.pc = ()      # linked list (parent, fact, quantified?)
        self.ghost = {}
        self.loops = {}
        self.objs = {}
        self.path = ()
        self.depth = 0
        self.mark = None

    def fork(self):
        s = State()
        s.env = dict(self.env)
        s.cells = dict(self.cells)
        s.dead = self.dead
        s.pc = self.pc
        s.ghost = dict(self.ghost)
        s.loops = dict(self.loops)
        s.objs = dict(self.objs)
        s.path = self.path
        s.depth = self.depth
        s.mark = self.mark
        return s

    def facts(self):
        r = []
        p = self.pc
        while p:
            r.append(p[1])
            p = p[0]
        r.reverse()
        return r


def has_quant(e):
    seen = set()
    st = [e]
    while st:
        x = st.pop()
        if z3.is_quantifier(x):
            return True
        k = x.get_id()
        if k in seen:
            continue
        seen.add(k)
        st.extend(x.children())
    return False


class Light:
    """incremental quantifier-free solver following the current path"""
    def __init__(self, timeout=400):
        self.s = z3.SolverFor('QF_UFLIA')
        self.s.set('timeout', timeout)
        self.stack = []  # pc nodes
        self.n = 0
        self.cache = {}

    def sync(self, pc):
        chain = []
        p = pc
        while p:
            chain.append(p)
            p = p[0]
        chain.reverse()
        k = 0
        while k < len(self.stack) and k < len(chain) and self.stack[k] is chain[k]:
            k += 1
        while len(self.stack) > k:
            self.s.pop()
            self.stack.pop()
        for p in chain[k:]:
            self.s.push()
            self.stack.append(p)
            if not p[2]:
                self.s.add(p[1])

    def feasible(self, pc, extra=None):
        self.sync(pc)
        self.n += 1
        if extra is None:
            r = self.s.check()
        else:
            if extra is True:
                return True
            if extra is False:
                return False
            r = self.s.check(extra)
        return r != z3.unsat

    def prove(self, pc, f):
        if f is True:
            return True
        if f is False:
            return False
        key = (id(pc), f.get_id())
        r = self.cache.get(key)
        if r is None:
            r = (not self.feasible(pc, z3.Not(f)), pc, f)
            self.cache[key] = r
        return r[0]


class Obligation:
    __slots__ = ('name', 'kind', 'facts', 'goal', 'path', 'result', 'time', 'backend', 'model', 'fn', 'line', 'cover')

    def __init__(self, name, kind, facts, goal, path, fn, line=None):
        self.name, self.kind, self.facts, self.goal, self.path = name, kind, facts, goal, path
        self.result = None
        self.time = 0.0
        self.backend = None
        self.model = None
        self.fn = fn
        self.line = line
