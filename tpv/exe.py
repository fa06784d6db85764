"""Path-based symbolic executor: cuts loops at their headers with invariants,
replaces calls by contracts, and emits the proof obligations."""
import re
import itertools
import z3
import ir
from sym import *
from sym import _fresh


class PathEnd(Exception):
    pass


class LoopSpec:
    """origin: regex on the (demangled) function whose source contains the loop.
    roles: {role: hint regex for the variable name}; inv(L)->[(name, formula)];
    variant(L)-> Int expression that decreases and is >= 0 (optional)"""
    def __init__(self, origin, inv=None, roles=None, variant=None, name=None, ptr_roles=(), unroll=0, nth=None, peel=None, fixed_ptrs=False):
        self.origin, self.inv, self.roles, self.variant = origin, inv, roles or {}, variant
        self.name = name or origin
        self.ptr_roles = ptr_roles
        self.unroll = unroll
        self.peel = peel              # peel(env): the first iteration is run on its own, the invariant holds from the second on
        self.fixed_ptrs = fixed_ptrs  # pointer cells keep their value around the loop (checked at the back edge)
        self.nth = nth


class L:
    """what an invariant sees"""
    def __init__(self, S, S0, vals, init):
        self.S, self.S0, self.v, self.init = S, S0, vals, init
        self.r = {}
        self.i0 = {}

    def __getattr__(self, k):
        try:
            return self.__dict__['r'][k]
        except KeyError:
            raise AttributeError(k)


class Ctx:
    """spec-side view of a state"""
    def __init__(self, ex, st):
        self.ex, self.st = ex, st

    # -- constructing
    def int(self, name, w=64, lo=0, hi=None):
        v = z3.Int(name)
        self.assume(v >= lo)
        self.assume(v < (hi if hi is not None else 2 ** w))
        return v

    def assume(self, *fs):
        for f in fs:
            if isinstance(f, (list, tuple)):
                if len(f) == 2 and isinstance(f[0], str):
                    f = f[1]
                else:
                    self.assume(*f)
                    continue
            self.ex.assume(self.st, f)

    def obj(self, name, kind='param', layout=None, size=None, ctype=None, over=None, cls=None):
        if cls is not None:
            tid = self.ex.type_id(cls)
            layout = self.ex.di_layout(tid, over)
            size = layout.size
        elif ctype is not None:
            ty = self.ex.find_type(ctype)
            layout = lt_of(self.ex.m, ty, over)
            size = layout.size
        o = Obj(name, kind, layout, size)
        o.ctype = ctype
        if cls is not None:
            o.dcls = cls
        self.st.objs[o.id] = o
        return VPtr(o, 0)

    def heap(self, name, el, count, nul=False, kind='heap'):
        """heap array of `count` elements with layout el (Cell/Struct or LLVM type name)"""
        if isinstance(el, str):
            el = lt_of(self.ex.m, self.ex.find_type(el))
        o = Obj(name, kind, Arr(el.size, count, el), el.size * count)
        self.st.objs[o.id] = o
        return VPtr(o, 0, nul)

    # -- access by member path (debug info)
    def f(self, ptr, path, cls=None):
        off = self.ex.member(ptr, path, cls)
        return VPtr(ptr.obj, norm(ptr.off + off))

    def get(self, ptr, path=None, w=64, cls=None, kind='i'):
        p = self.f(ptr, path, cls) if path else ptr
        return self.ex.peek(self.st, p, w, kind)

    def set(self, ptr, path, v, w=64, cls=None):
        p = self.f(ptr, path, cls) if path else ptr
        if isinstance(v, VPtr) or isinstance(v, VFn) or isinstance(v, VOpq):
            self.ex.poke(self.st, p, v)
        else:
            cell = self.ex.resolve(self.st, p.obj, p.off, w // 8)[2]
            if cell.kind == 'i' and cell.size * 8 != w:
                # the member is narrower or wider than the contract was written for
                w = cell.size * 8
                self.assume(And(le(0, v), lt(v, 2 ** w)))
            self.ex.poke(self.st, p, VInt(v, w))

    def ptr(self, ptr, path=None, cls=None):
        p = self.f(ptr, path, cls) if path else ptr
        return self.ex.peek_ptr(self.st, p)

    def arr(self, ptr, off=0, size=8):
        """the array leaf of the object ptr points into, at element offset off"""
        return self.ex.leaf(self.st, ptr.obj, off, size)

    def havoc(self, ptr, path=None, w=64, cls=None):
        p = self.f(ptr, path, cls) if path else ptr
        return self.ex.havoc_cell(self.st, p, w)

    def havoc_arr(self, ptr, off=0, size=8):
        return self.ex.havoc_leaf(self.st, ptr.obj, off, size)

    def require(self, name, f, kind='pre'):
        self.ex.oblige(self.st, name, kind, f)

    def fresh(self, name='v', w=64):
        v = z3.Int('%s!%d' % (name, next(_fresh)))
        self.assume(v >= 0, v < 2 ** w)
        return v

    def g(self, k):
        return self.st.ghost[k]

    def forall(self, n, body, lo=None, hi=None, pats=None):
        return forall(n, body, pats)


_qn = itertools.count()


def exact_div(t, s):
    """t / s when t is syntactically a multiple of s, else None"""
    if is_c(t):
        return t // s if t % s == 0 else None
    p = poly(t)
    if p[0] % s:
        return None
    out = {}
    extra = 0
    for k, (c, a) in p[1].items():
        if c % s == 0:
            out[k] = (c // s, a)
            continue
        if not z3.is_app_of(a, z3.Z3_OP_ITE):
            return None
        u, v = exact_div(norm(a.arg(1)), s), exact_div(norm(a.arg(2)), s)
        if u is None or v is None:
            return None
        extra = extra + c * If(a.arg(0), u, v)
    r = unpoly((p[0] // s, out))
    return r if is_c(extra) and extra == 0 else norm(Z(r) + extra)



def forall(n, body, pats=None):
    """n bound Int variables; body(*vs) -> formula"""
    vs = [z3.Int('q%d!%d' % (i, next(_qn))) for i in range(n)]
    b = body(*vs)
    if isinstance(b, bool):
        return b
    if pats is not None:
        ps = pats(*vs)
        if not isinstance(ps, (list, tuple)):
            ps = [ps]
        return z3.ForAll(vs, b, patterns=list(ps))
    return z3.ForAll(vs, b)


def exists(n, body):
    vs = [z3.Int('q%d!%d' % (i, next(_qn))) for i in range(n)]
    b = body(*vs)
    if isinstance(b, bool):
        return b
    return z3.Exists(vs, b)


class Executor:
    MAXDEPTH = 12
    MAXPATHS = 4000

    def __init__(self, module, demangled, hooks=(), loops=(), opts=None):
        self.m = module
        self.dm = demangled
        self.dbg = ir.DebugTypes(module)
        self.hooks = [(re.compile(p), h) for p, h in hooks]
        self.loopspecs = list(loops)
        self.opts = {'nsw': True, 'alloc_may_fail': False, 'hidden_ok': ()}
        self.opts.update(opts or {})
        self.light = Light(self.opts.get('light_timeout', 400))
        self.obls = []          # deferred obligations
        self.trivial = {}       # kind -> number discharged without/with the light solver
        self.named = {}         # name -> count of emitted obligations
        self.dry = 0
        self.fname = ''
        self.paths = 0
        self.assumptions = set()
        self.globals = {}
        self.modsets = {}
        self.assignment = None   # forced role assignment
        self.loopseen = {}
        self.curline = None
        self.fnlist = set()

    # ---------------------------------------------------------------- basics
    def fresh(self, name='v'):
        return z3.Int('%s!%d' % (name, next(_fresh)))

    def assume(self, st, f):
        if f is True:
            return
        if f is False:
            f = z3.BoolVal(False)
        if isinstance(f, (list, tuple)):
            for x in f:
                self.assume(st, x[1] if isinstance(x, tuple) else x)
            return
        st.pc = (st.pc, f, has_quant(f))

    def oblige(self, st, name, kind, goal, keep=True):
        if self.dry:
            if keep and kind not in ('post', 'inv', 'frame'):
                self.assume(st, goal)
            return
        self.named[name] = self.named.get(name, 0) + 1
        o = Obligation(name, kind, None, goal, st.path, self.fname, self.curline)
        if goal is True:
            o.result, o.backend = 'proved', 'syntactic'
        elif goal is not False and not has_quant(goal) and self.light.prove(st.pc, goal):
            o.result, o.backend = 'proved', 'z3-qf'
        else:
            o.facts = st.facts()
        self.obls.append(o)
        if keep and goal is not True:
            self.assume(st, goal)

    def find_type(self, name):
        """LLVM named type; tolerant of numeric suffixes"""
        for k in (name, 'class.' + name, 'struct.' + name, 'union.' + name):
            if k in self.m.types and self.m.types[k] != ('opaque',):
                return ('named', k)
        # names that carry a '.N' suffix
        for k in sorted(self.m.types):
            b = re.sub(r'\.\d+$', '', k)
            if b in (name, 'class.' + name, 'struct.' + name, 'union.' + name) and self.m.types[k] != ('opaque',):
                return ('named', k)
        raise Unsupported('type %s not in module' % name)

    def type_id(self, cls):
        """debug-info id by identifier (_ZTS..), or by prefix"""
        d = self.dbg.byname
        if cls in d:
            return d[cls]
        for k in sorted(d):
            if k.startswith(cls):
                return d[k]
        raise Unsupported('no debug info for class %s' % cls)

    def di_layout(self, tid, over=None, base=0):
        """memory layout of a type, from the debug information"""
        if over and base in over:
            return over[base]
        t, kind, d = self.dbg.strip(tid)
        if kind == 'DIBasicType':
            enc = d.get('encoding', '')
            return Cell(int(d['size']) // 8, 'f' if enc == 'DW_ATE_float' else 'i')
        if kind == 'DIDerivedType':
            if d['tag'] == 'DW_TAG_ptr_to_member_type':
                return Struct([(0, Cell(8, 'i')), (8, Cell(8, 'i'))], 16) if int(d.get('size', '64')) == 128 else Cell(8, 'i')
            return Cell(8, 'p')
        if kind == 'DICompositeType':
            tag = d['tag']
            if tag == 'DW_TAG_enumeration_type':
                return Cell(int(d['size']) // 8, 'i')
            if tag == 'DW_TAG_array_type':
                el = self.di_layout(d['baseType'], over, base)
                n = int(d['size']) // 8 // el.size
                return Arr(el.size, n, el)
            if tag == 'DW_TAG_union_type':
                best = None
                for nm, o, mt, b in self.dbg.members(t):
                    l = self.di_layout(mt, over, base)
                    if best is None or l.size > best.size:
                        best = l
                sz = int(d['size']) // 8
                return Struct([(0, best)], sz)
            fs = []
            for nm, o, mt, b in self.dbg.members(t):
                if base + o in (over or {}):
                    fs.append((o, over[base + o]))
                    continue
                l = self.di_layout(mt, over, base + o)
                if b and isinstance(l, Struct):
                    fs += [(o + oo, x) for oo, x in l.fields]
                elif isinstance(l, Struct) and not l.fields:
                    continue
                else:
                    fs.append((o, l))
            fs.sort(key=lambda x: x[0])
            return Struct(fs, int(d.get('size', '0')) // 8)
        if kind == 'DISubroutineType':
            return Cell(8, 'p')
        raise Unsupported('layout of debug type %s %s' % (kind, d))

    def member(self, ptr, path, cls=None):
        if isinstance(path, int):
            return path
        cls = cls or getattr(ptr.obj, 'dcls', None)
        key = (cls, path)
        c = self.__dict__.setdefault('_memcache', {})
        if key in c:
            return c[key]
        r = self.dbg.field(self.type_id(cls), path)
        if r is None:
            b = self.opts.get('baseline_offsets', {}).get('%s|%s' % (cls, path))
            if b is None:
                raise Unsupported('member %s of %s not found' % (path, cls))
            r = (b, None)
        self.__dict__.setdefault('member_offsets', {})['%s|%s' % (cls, path)] = r[0]
        c[key] = r[0]
        return r[0]

    # ---------------------------------------------------------------- ints
    def as_u(self, st, v):
        e, w = v.e, v.w
        if is_c(e):
            return e % (1 << w)
        M = 1 << w
        if self.light.prove(st.pc, z3.And(e >= 0, e < M)):
            return e
        if self.light.prove(st.pc, z3.And(e >= -M, e < M)):
            return z3.If(e < 0, e + M, e)
        if self.light.prove(st.pc, z3.And(e >= 0, e < 2 * M)):
            return z3.If(e >= M, e - M, e)
        return e % M

    def as_s(self, st, v):
        e, w = v.e, v.w
        H = 1 << (w - 1)
        M = 1 << w
        if is_c(e):
            return (e + H) % M - H
        if self.light.prove(st.pc, z3.And(e >= -H, e < H)):
            return e
        if self.light.prove(st.pc, z3.And(e >= -H, e < M + H)):
            return z3.If(e >= H, e - M, e)
        return (e + H) % M - H

    # ---------------------------------------------------------------- operands
    def val(self, st, op):
        k, x, ty = op[0], op[1], op[2]
        if k == 'l':
            try:
                return st.env[x]
            except KeyError:
                raise Unsupported('undefined %' + x)
        if k == 'c':
            if ty == ('i', 1):
                return VBool(bool(x))
            return VInt(x, ty[1])
        if k == 'null':
            return VPtr(None, 0)
        if k == 'undef':
            return self.undef(st, ty)
        if k == 'zero':
            return self.zero(ty)
        if k == 'g':
            return self.glob(st, x)
        if k == 'fp':
            return VFp(z3.Const('fp_' + x, FP))
        if k == 'agg':
            return VAgg([self.val(st, o) for o in x])
        if k == 'cgep':
            return self.gep(st, x[0], [self.val(st, o) for o in x[1]], x[1])
        if k == 'ccast':
            v = self.val(st, x[1])
            return self.cast(st, x[0], v, x[2])
        if k == 'md':
            return None
        raise Unsupported('operand ' + k)

    def undef(self, st, ty):
        ty = self.m.resolve(ty)
        if ty[0] == 'i':
            if ty[1] == 1:
                return VBool(z3.Bool('undef!%d' % next(_fresh)))
            v = z3.Int('undef!%d' % next(_fresh))
            self.assume(st, z3.And(v >= 0, v < 2 ** ty[1]))
            return VInt(v, ty[1])
        if ty[0] == 'ptr':
            return VOpq(z3.Int('undefp!%d' % next(_fresh)))
        if ty[0] == 'st':
            return VAgg([self.undef(st, f) for f in ty[1]])
        if ty[0] == 'arr' and ty[1] <= 16:
            return VAgg([self.undef(st, ty[2]) for _ in range(ty[1])])
        if ty[0] == 'fp':
            return VFp(z3.Const('undeff!%d' % next(_fresh), FP))
        raise Unsupported('undef %r' % (ty,))

    def zero(self, ty):
        ty = self.m.resolve(ty)
        if ty[0] == 'i':
            return VBool(False) if ty[1] == 1 else VInt(0, ty[1])
        if ty[0] == 'ptr':
            return VPtr(None, 0)
        if ty[0] == 'st':
            return VAgg([self.zero(f) for f in ty[1]])
        if ty[0] == 'arr':
            return VAgg([self.zero(ty[2]) for _ in range(ty[1])])
        if ty[0] == 'fp':
            return VFp(z3.Const('fp_0', FP))
        raise Unsupported('zero %r' % (ty,))

    def glob(self, st, name):
        if name in self.m.funcs or name in self.m.decls:
            return VFn(name)
        if name not in self.globals:
            o = Obj('@' + name, 'global')
            o.gname = name
            txt = self.m.globals.get(name)
            if txt is not None:
                try:
                    toks = ir.tokenize(re.split(r', (?:comdat|align|section|!dbg)', txt)[0])
                    i = 0
                    const = False
                    while toks[i] not in ('global', 'constant'):
                        i += 1
                    const = toks[i] == 'constant'
                    p = ir.P(toks[i + 1:], self.m)
                    ty = p.type()
                    o.layout = lt_of(self.m, ty)
                    o.size = o.layout.size
                    o.gty = ty
                    o.readonly = const
                    if const and p.peek() is not None:
                        o.init = p.value(ty)
                except (ir.IRError, Unsupported, IndexError, KeyError):
                    pass
            self.globals[name] = o
        o = self.globals[name]
        st.objs.setdefault(o.id, o)
        return VPtr(o, 0)

    # ---------------------------------------------------------------- casts
    def cast(self, st, op, v, ty):
        if op in ('bitcast', 'addrspacecast'):
            if isinstance(v, (VPtr, VOpq, VFn)) and ty[0] == 'ptr':
                return v
            raise Unsupported('bitcast')
        if op == 'trunc':
            if ty[1] == 1:
                return VBool(self.bit0(st, v))
            if isinstance(v, VBool):
                raise Unsupported('trunc bool')
            return VInt(v.e, ty[1])
        if op == 'zext':
            if isinstance(v, VBool):
                return VInt(If(v.e, 1, 0), ty[1])
            return VInt(self.as_u(st, v), ty[1])
        if op == 'sext':
            if isinstance(v, VBool):
                return VInt(If(v.e, -1, 0), ty[1])
            return VInt(self.as_s(st, v), ty[1])
        if op == 'ptrtoint':
            return VInt(self.ptr_addr(st, v), ty[1])
        if op == 'inttoptr':
            return self.addr_ptr(st, v.e)
        if op in ('sitofp', 'uitofp'):
            e = (self.as_s if op[0] == 's' else self.as_u)(st, v) if isinstance(v, VInt) else v.e
            return VFp(z3.Function(op, I, FP)(Z(e) if not isinstance(v, VBool) else If(v.e, 1, 0)))
        if op in ('fptoui', 'fptosi'):
            e = z3.Function(op, FP, I)(v.e)
            self.assume(st, z3.And(e >= 0, e < 2 ** ty[1]))
            return VInt(e, ty[1])
        if op in ('fpext', 'fptrunc'):
            return VFp(z3.Function(op, FP, FP)(v.e))
        raise Unsupported('cast ' + op)

    def bit0(self, st, v):
        if isinstance(v, VBool):
            return v.e
        e = v.e
        if is_c(e):
            return bool(e & 1)
        # common case: the value of a C++ bool
        if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_ITE and is_cz(e.arg(1), 1) and is_cz(e.arg(2), 0):
            return e.arg(0)
        if self.light.prove(st.pc, z3.And(e >= 0, e <= 1)):
            return e == 1
        return e % 2 == 1

    def ptr_addr(self, st, v):
        if isinstance(v, VOpq):
            return v.e
        if isinstance(v, VFn):
            return z3.Int('&fn_' + v.name)
        if v.obj is None:
            return v.off
        a = v.obj.addr()
        if v.obj.id not in st.ghost.get('$addr', ()):
            st.ghost['$addr'] = st.ghost.get('$addr', ()) + (v.obj.id,)
            sz = v.obj.size
            self.assume(st, z3.And(a > 0, a % 8 == 0, a + (Z(sz) if sz is not None else 0) < 2 ** 63))
        e = a + v.off
        if v.nul is not False and not self.light.prove(st.pc, Not(v.nul)):
            if self.light.prove(st.pc, v.nul):
                return 0
            e = If(v.nul, 0, e)
        return e

    def addr_ptr(self, st, e):
        if is_c(e):
            return VPtr(None, e)
        p = poly(e)
        for o in list(st.objs.values()):
            if o.base is not None and o.base.get_id() in p[1] and p[1][o.base.get_id()][0] == 1:
                d = padd(p, (0, {o.base.get_id(): (1, o.base)}), -1)
                return VPtr(o, unpoly(d))
        # constant zero / if-then-else with null
        if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_ITE and is_cz(e.arg(1), 0):
            r = self.addr_ptr(st, e.arg(2))
            if isinstance(r, VPtr) and r.nul is False:
                return VPtr(r.obj, r.off, e.arg(0))
        return VOpq(e)

    def concretize(self, st, v):
        """try to turn an opaque pointer into object+offset using the path condition"""
        if not isinstance(v, VOpq):
            return v
        r = self.addr_ptr(st, v.e)
        if not isinstance(r, VOpq):
            return r
        if self.light.prove(st.pc, Z(v.e) == 0):
            return VPtr(None, 0)
        for o in list(st.objs.values()):
            if o.base is not None and o.id not in st.dead:
                if self.light.prove(st.pc, Z(v.e) == o.base):
                    return VPtr(o, 0)
        for o in list(st.objs.values()):
            if o.base is not None and o.id not in st.dead and o.size is not None:
                if self.light.prove(st.pc, z3.And(Z(v.e) >= o.base, Z(v.e) < o.base + o.size)):
                    return VPtr(o, norm(v.e - o.base))
        h = self.opts.get('resolve_ptr')
        if h:
            r = h(self, st, v)
            if r is not None:
                return r
        return v

    # ---------------------------------------------------------------- memory
    def ensure_layout(self, obj, ty):
        if obj.layout is not None or obj.size is None:
            return
        sz = self.m.sizeof(ty)
        if sz == 0:
            return
        p = poly(obj.size)
        if not p[1] and p[0] == sz:
            obj.layout = lt_of(self.m, ty)
            return
        if p[0] % sz == 0 and all(c % sz == 0 for c, _ in p[1].values()):
            cnt = unpoly((p[0] // sz, {k: (c // sz, t) for k, (c, t) in p[1].items()}))
            obj.layout = Arr(sz, cnt, lt_of(self.m, ty))
            return
        raise Unsupported('layout of %s (size %s) as %r' % (obj, obj.size, ty))

    def resolve(self, st, obj, off, size, check=True):
        """-> (key, idxs, leaf node, [bounds conditions])"""
        if obj.layout is None:
            raise Unsupported('no layout for %s' % obj)
        node = obj.layout
        p = poly(off)
        key = []
        idx = []
        conds = []
        cur = 0
        while True:
            if isinstance(node, Cell):
                if p[1] or p[0] != 0:
                    raise Unsupported('offset %s inside cell of %s' % (unpoly(p), obj))
                key.append(cur)
                return tuple(key), tuple(idx), node, conds
            if isinstance(node, Dyn):
                if p[1]:
                    raise Unsupported('symbolic offset in dyn element')
                for o, c in node.cells.items():
                    if o == p[0]:
                        if c.size != size:
                            raise Unsupported('mixed access sizes')
                    elif o < p[0] + size and p[0] < o + c.size:
                        raise Unsupported('overlapping accesses')
                node.cells.setdefault(p[0], Cell(size, 'i'))
                key.append(cur + p[0])
                return tuple(key), tuple(idx), node.cells[p[0]], conds
            if isinstance(node, Arr):
                s = node.stride
                qi = p[0] // s
                rem = p[0] % s
                it, lt_ = {}, {}
                for k, (c, t) in p[1].items():
                    if c % s == 0:
                        it[k] = (c // s, t)
                    else:
                        lt_[k] = (c, t)
                i = unpoly((qi, it))
                conds.append(And(le(0, i), lt(i, node.count) if node.count is not None else True))
                key.append(cur)
                idx.append(i)
                cur = 0
                node = node.el
                p = (rem, lt_)
                continue
            if isinstance(node, Struct):
                if not p[1]:
                    for fo, fn in node.fields:
                        fs = self.nsize(fn)
                        if fo <= p[0] < fo + fs:
                            break
                    else:
                        raise Unsupported('offset %s not a field of %s %s' % (p[0], obj, node))
                    cur += fo
                    p = (p[0] - fo, p[1])
                    node = fn
                    continue
                cands = []
                for fo, fn in node.fields:
                    if self.has_arr(fn):
                        cands.append((fo, fn))
                if len(cands) > 1:
                    c2 = [c for c in cands if c[0] <= p[0] < c[0] + self.nsize(c[1])]
                    ok = None
                    for c in c2 + [c for c in cands if c not in c2]:
                        e = unpoly((p[0] - c[0], p[1]))
                        if self.light.prove(st.pc, And(le(0, e), lt(e, self.nsize(c[1])))):
                            ok = c
                            break
                    cands = [ok] if ok else (c2 or cands)
                if not cands:
                    raise Unsupported('symbolic offset into %s' % obj)
                fo, fn = cands[0]
                cur += fo
                p = (p[0] - fo, p[1])
                node = fn
                continue
            raise Unsupported('layout node %r' % node)

    def nsize(self, n):
        if isinstance(n, Arr):
            if is_c(n.count):
                return n.stride * n.count
            return 1 << 62
        return n.size

    def has_arr(self, n):
        if isinstance(n, Arr):
            return True
        if isinstance(n, Struct):
            return any(self.has_arr(f) for _, f in n.fields)
        return False

    def initial(self, st, obj, key, idx, cell):
        nm = '%s.%s' % (obj.name, '_'.join(map(str, key)))
        nm = '%s#%d' % (nm, obj.id)
        if len(idx) == 0:
            return self.fresh_val(st, nm, cell)
        return AV(nm, len(idx), FP if cell.kind == 'f' else I, (), cell.size * 8)

    def fresh_val(self, st, nm, cell, canon=True):
        if cell.kind == 'f':
            return VFp(z3.Const(nm, FP))
        v = z3.Int(nm)
        if cell.kind == 'p':
            self.assume(st, z3.And(v >= 0, v < 2 ** 64))
            return VOpq(v)
        self.assume(st, z3.And(v >= 0, v < 2 ** (8 * cell.size)))
        return VInt(v, 8 * cell.size)

    def cellval(self, st, obj, key, idx, cell):
        k = (obj.id, key)
        c = st.cells.get(k)
        if c is None:
            ini = getattr(obj, 'init', None)
            if ini is not None and not idx:
                c = self.const_cell(st, obj, key, cell)
                if c is not None:
                    return c
            c = self.initial(st, obj, key, idx, cell)
            if isinstance(c, AV):
                st.cells[k] = c
            else:
                st.cells[k] = c
        return c

    def const_cell(self, st, obj, key, cell):
        off = key[0]
        v = obj.init
        ty = obj.gty
        while True:
            ty = self.m.resolve(ty)
            if ty[0] in ('i', 'ptr', 'fp'):
                r = self.val(st, v)
                return r if off == 0 else None
            if v[0] == 'zero':
                return {'i': VInt(0, 8 * cell.size), 'p': VPtr(None, 0)}.get(cell.kind)
            if v[0] != 'agg':
                return None
            if ty[0] == 'st':
                for i in range(len(ty[1])):
                    o, f = self.m.fieldoff(ty, i)
                    if o <= off < o + self.m.sizeof(f):
                        v, ty, off = v[1][i], f, off - o
                        break
                else:
                    return None
            elif ty[0] == 'arr':
                s = self.m.sizeof(ty[2])
                v, ty, off = v[1][off // s], ty[2], off % s
            else:
                return None

    def note_write(self, st, k):
        m = st.mark
        while m is not None:
            m[1].add(k)
            m = m[0]

    def deref(self, st, p, what):
        p = self.concretize(st, p)
        if isinstance(p, VOpq):
            raise Unsupported('%s through unknown pointer %s' % (what, p.e))
        if not isinstance(p, VPtr):
            raise Unsupported('%s through %r' % (what, p))
        if p.obj is None:
            self.oblige(st, 'null-deref', 'safety', False)
            raise PathEnd()
        if p.nul is not False:
            self.oblige(st, 'non-null', 'safety', Not(p.nul))
            p = VPtr(p.obj, p.off)
        if p.obj.id in st.dead:
            self.oblige(st, 'use-after-free', 'safety', False)
            raise PathEnd()
        return p

    def load(self, st, p, ty):
        ty = self.m.resolve(ty)
        p = self.deref(st, p, 'load')
        if ty[0] == 'st' or ty[0] == 'arr':
            if ty[0] == 'st':
                r = []
                for i in range(len(ty[1])):
                    o, f = self.m.fieldoff(ty, i)
                    r.append(self.load(st, VPtr(p.obj, norm(p.off + o)), f))
                return VAgg(r)
            raise Unsupported('load array')
        if p.obj.kind == 'global' and p.obj.gname.startswith('_ZTV'):
            return self.load_vt(st, p)
        self.ensure_layout(p.obj, ty)
        sz = self.m.sizeof(ty)
        try:
            key, idx, cell, conds = self.resolve(st, p.obj, p.off, sz)
        except Unsupported:
            r = self.load_compose(st, p, sz, ty)
            if r is None:
                raise
            return r
        for c in conds:
            self.oblige(st, 'in-bounds', 'safety', c)
        if cell.size != sz:
            r = self.load_compose(st, p, sz, ty)
            if r is None:
                raise Unsupported('load %d of cell %d in %s@%s' % (sz, cell.size, p.obj, p.off))
            return r
        c = self.cellval(st, p.obj, key, idx, cell)
        if idx:
            e = c.read(*idx)
            if ty[0] == 'ptr':
                if not is_c(e):
                    self.assume(st, z3.And(e >= 0, e < 2 ** 64))
                return self.addr_ptr(st, e)
            if ty[0] == 'fp':
                return VFp(e)
            if not is_c(e):
                self.assume(st, z3.And(e >= 0, e < 2 ** (8 * sz)))
            v = VInt(e, 8 * sz)
        else:
            v = c
        if ty[0] == 'i':
            if ty[1] == 1:
                return v if isinstance(v, VBool) else VBool(self.bit0(st, v))
            if isinstance(v, VInt):
                if v.w != ty[1]:
                    v = VInt(v.e, ty[1])
                return v
            if isinstance(v, VBool):
                return VInt(If(v.e, 1, 0), ty[1])
            if isinstance(v, (VPtr, VOpq, VFn)):
                return VInt(self.ptr_addr(st, v), 64)
            if isinstance(v, VUndef):
                return self.undef(st, ty)
        if ty[0] == 'ptr':
            if isinstance(v, VInt):
                return self.addr_ptr(st, v.e)
            return v
        if ty[0] == 'fp' and isinstance(v, VInt):
            return VFp(z3.Function('bits2fp', I, FP)(Z(v.e)))
        return v

    def load_compose(self, st, p, sz, ty):
        """integer load that covers several byte-or-larger cells (struct passed in registers, byte buffers)"""
        if ty[0] not in ('i', 'ptr') or sz > 16:
            return None
        parts = []
        o = 0
        while o < sz:
            done = False
            for s in (8, 4, 2, 1):
                if o + s > sz or s >= sz:
                    continue
                try:
                    key, idx, cell, conds = self.resolve(st, p.obj, norm(p.off + o), s)
                except Unsupported:
                    continue
                if cell.size != s:
                    continue
                v = self.load(st, VPtr(p.obj, norm(p.off + o)), ('i', 8 * s))
                parts.append((o, s, self.as_u(st, v)))
                o += s
                done = True
                break
            if not done:
                return None
        e = 0
        for o, s, v in parts:
            e = e + v * (1 << (8 * o))
        e = recompose(parts, sz) or e
        if ty[0] == 'ptr':
            return self.addr_ptr(st, e)
        return VInt(e, 8 * sz)

    def load_vt(self, st, p):
        c = poly(p.off)
        if c[1]:
            raise Unsupported('vtable index')
        v = self.const_cell(st, p.obj, (c[0],), Cell(8, 'p')) if getattr(p.obj, 'init', None) else None
        if v is None:
            raise Unsupported('vtable of %s not available' % p.obj)
        return v

    def canon(self, st, v, cell):
        """value -> Int term stored in an array leaf"""
        if isinstance(v, VInt):
            return self.as_u(st, v)
        if isinstance(v, VBool):
            return If(v.e, 1, 0)
        if isinstance(v, (VPtr, VOpq, VFn)):
            return self.ptr_addr(st, v)
        if isinstance(v, VFp):
            return v.e
        raise Unsupported('canon %r' % v)

    def store(self, st, p, v, ty):
        ty = self.m.resolve(ty)
        p = self.deref(st, p, 'store')
        if isinstance(v, VAgg):
            for i in range(len(v.v)):
                o, f = self.m.fieldoff(ty, i) if ty[0] == 'st' else (i * self.m.sizeof(ty[2]), ty[2])
                self.store(st, VPtr(p.obj, norm(p.off + o)), v.v[i], f)
            return
        if p.obj.kind == 'exc':
            return              # exception objects carry no verified state
        if p.obj.readonly:
            raise Unsupported('store to constant ' + p.obj.name)
        self.ensure_layout(p.obj, ty)
        sz = self.m.sizeof(ty)
        split = False
        try:
            key, idx, cell, conds = self.resolve(st, p.obj, p.off, sz)
            if cell.size != sz:
                split = True
        except Unsupported:
            split = True
        if split:
            if not self.store_split(st, p, v, sz):
                raise Unsupported('store %d into %s@%s' % (sz, p.obj, p.off))
            return
        for c in conds:
            self.oblige(st, 'in-bounds', 'safety', c)
        k = (p.obj.id, key)
        if idx:
            c = self.cellval(st, p.obj, key, idx, cell)
            st.cells[k] = c.upd(idx, self.canon(st, v, cell))
        else:
            if isinstance(v, VInt) and not is_c(v.e) and not self.opts.get('lazy_store'):
                v = VInt(self.as_u(st, v), v.w)
            st.cells[k] = v
        self.note_write(st, k)

    def store_split(self, st, p, v, sz):
        if not isinstance(v, (VInt, VPtr, VOpq)) or sz > 16:
            return False
        if not isinstance(v, VInt):
            v = VInt(self.ptr_addr(st, v), 64)
        e = self.as_u(st, v)
        o = 0
        todo = []
        while o < sz:
            for s in (8, 4, 2, 1):
                if o + s > sz or s >= sz:
                    continue
                try:
                    key, idx, cell, conds = self.resolve(st, p.obj, norm(p.off + o), s)
                except Unsupported:
                    continue
                if cell.size != s:
                    continue
                todo.append((o, s))
                o += s
                break
            else:
                return False
        for o, s in todo:
            self.store(st, VPtr(p.obj, norm(p.off + o)), VInt(extract(e, o, s, sz), 8 * s), ('i', 8 * s))
        return True

    # spec-side access without obligations
    def peek(self, st, p, w, kind='i'):
        key, idx, cell, conds = self.resolve(st, p.obj, p.off, w // 8)
        c = self.cellval(st, p.obj, key, idx, cell)
        if idx:
            return c.read(*idx)
        if isinstance(c, VInt):
            return self.as_u(st, c)
        if isinstance(c, VBool):
            return If(c.e, 1, 0)
        if isinstance(c, (VPtr, VOpq, VFn)):
            return self.ptr_addr(st, c)
        if isinstance(c, VFp):
            return c.e
        raise Unsupported('peek')

    def peek_ptr(self, st, p):
        key, idx, cell, conds = self.resolve(st, p.obj, p.off, 8)
        c = self.cellval(st, p.obj, key, idx, cell)
        if idx:
            return self.concretize(st, self.addr_ptr(st, c.read(*idx)))
        if isinstance(c, VInt):
            c = self.addr_ptr(st, c.e)
        return self.concretize(st, c)

    def poke(self, st, p, v):
        sz = v.w // 8 if isinstance(v, VInt) else 8
        key, idx, cell, conds = self.resolve(st, p.obj, p.off, sz)
        k = (p.obj.id, key)
        if idx:
            c = self.cellval(st, p.obj, key, idx, cell)
            st.cells[k] = c.upd(idx, self.canon(st, v, cell))
        else:
            st.cells[k] = v
        self.note_write(st, k)

    def leaf(self, st, obj, off, size):
        if obj.layout is None:
            self.ensure_layout(obj, ('i', size * 8))
        node = obj.layout
        key, idx, cell, conds = self.resolve(st, obj, off, size)
        if not idx:
            raise Unsupported('leaf of non-array %s' % obj)
        return self.cellval(st, obj, key, idx, cell)

    def havoc_leaf(self, st, obj, off, size):
        key, idx, cell, conds = self.resolve(st, obj, off, size)
        return self.havoc_key(st, obj, key, idx, cell)

    def havoc_cell(self, st, p, w):
        key, idx, cell, conds = self.resolve(st, p.obj, p.off, w // 8)
        return self.havoc_key(st, p.obj, key, idx, cell)

    def havoc_key(self, st, obj, key, idx, cell):
        nm = '%s.%s!%d' % (obj.name, '_'.join(map(str, key)), next(_fresh))
        if idx:
            v = AV(nm, len(idx), FP if cell.kind == 'f' else I, (), cell.size * 8)
        else:
            v = self.fresh_val(st, nm, cell)
        st.cells[(obj.id, key)] = v
        self.note_write(st, (obj.id, key))
        return v

    # ---------------------------------------------------------------- gep
    def gep(self, st, bt, vals, ops):
        p = vals[0]
        if isinstance(p, VFn):
            raise Unsupported('gep on function')
        off = 0
        ty = bt
        for i, v in enumerate(vals[1:]):
            if i == 0:
                s = self.m.sizeof(ty)
                e = self.as_s(st, v) if not is_c(v.e) else ((v.e + (1 << 63)) % (1 << 64) - (1 << 63) if v.w == 64 else v.e)
                off = off + e * s
            else:
                t = self.m.resolve(ty)
                if t[0] == 'st':
                    o, ty = self.m.fieldoff(t, v.e)
                    off = off + o
                else:
                    ty = t[2]
                    e = self.as_s(st, v)
                    off = off + e * self.m.sizeof(ty)
        if isinstance(p, VOpq):
            if is_c(off) and off == 0:
                return p
            q = self.concretize(st, p)
            if isinstance(q, VOpq):
                return VOpq(norm(q.e + off))
            p = q
        if p.obj is not None and p.obj.layout is None and bt != ('i', 8):
            try:
                self.ensure_layout(p.obj, bt)
            except Unsupported:
                pass
        return VPtr(p.obj, norm(p.off + off), p.nul)

    # ---------------------------------------------------------------- mem intrinsics
    def cells_under(self, node, base=0, maxn=64):
        """[(rel offset, Cell)] of a concrete-size node"""
        if isinstance(node, Cell):
            return [(base, node)]
        if isinstance(node, Struct):
            r = []
            for o, f in node.fields:
                x = self.cells_under(f, base + o, maxn)
                if x is None:
                    return None
                r += x
            return r
        if isinstance(node, Arr):
            if not is_c(node.count) or node.count > maxn:
                return None
            r = []
            for i in range(node.count):
                x = self.cells_under(node.el, base + i * node.stride, maxn)
                if x is None:
                    return None
                r += x
            return r
        return None

    def node_at(self, st, obj, off, n):
        """layout nodes exactly covering [off, off+n): list of (rel, node)"""
        node = obj.layout
        p = poly(off)
        while True:
            if isinstance(node, Arr):
                s = node.stride
                rem = p[0] % s
                lt_ = {k: (c, t) for k, (c, t) in p[1].items() if c % s}
                if rem == 0 and not lt_ and n >= s and n % s == 0:
                    return [(i * s, node.el) for i in range(n // s)] if n // s <= 64 else None
                node = node.el
                p = (rem, lt_)
                continue
            if isinstance(node, Struct):
                if p[1]:
                    # descend into the array field
                    cands = [(fo, f) for fo, f in node.fields if self.has_arr(f)]
                    if len(cands) != 1:
                        cands = [c for c in cands if c[0] <= p[0] < c[0] + self.nsize(c[1])]
                    if not cands:
                        return None
                    fo, f = cands[0]
                    node = f
                    p = (p[0] - fo, p[1])
                    continue
                if p[0] == 0 and node.size == n:
                    return [(0, node)]
                r = []
                for fo, f in node.fields:
                    fs = self.nsize(f)
                    if fo >= p[0] and fo + fs <= p[0] + n:
                        r.append((fo - p[0], f))
                    elif fo < p[0] + n and p[0] < fo + fs:
                        if fo <= p[0] and p[0] + n <= fo + fs:
                            node = f
                            p = (p[0] - fo, {})
                            r = None
                            break
                        return None
                if r is None:
                    continue
                return r or None
            if isinstance(node, Cell):
                if not p[1] and p[0] == 0 and node.size == n:
                    return [(0, node)]
                return None
            return None

    def memcpy(self, st, d, s, n, move):
        n = norm(n) if not is_c(n) else n
        if is_c(n) and n == 0:
            return
        if not is_c(n):
            if not self.light.feasible(st.pc, Z(n) != 0):
                return
            if self.light.feasible(st.pc, Z(n) == 0):
                # null or dangling pointers are fine for a zero length copy
                d2, s2 = self.concretize(st, d), self.concretize(st, s)
                if isinstance(d2, VPtr) and isinstance(s2, VPtr) and d2.obj is not None and s2.obj is not None:
                    d, s = VPtr(d2.obj, d2.off), VPtr(s2.obj, s2.off)
                    if d2.nul is not False or s2.nul is not False:
                        self.oblige(st, 'memcpy non-null', 'safety', Or(Z(n) == 0, And(Not(d2.nul), Not(s2.nul))))
                    return self.memcpy_range(st, d, s, n, move)
        d = self.deref(st, d, 'memcpy')
        s = self.deref(st, s, 'memcpy')
        if is_c(n):
            nd = self.node_at(st, d.obj, d.off, n) if d.obj.layout is not None else None
            ns = self.node_at(st, s.obj, s.off, n) if s.obj.layout is not None else None
            for nodes in (nd, ns):
                if nodes is None:
                    continue
                cl = []
                for rel, nn in nodes:
                    x = self.cells_under(nn, rel)
                    if x is None:
                        cl = None
                        break
                    cl += x
                if cl is None or len(cl) > 64:
                    continue
                for other in (s, d):
                    if other.obj.layout is None:
                        if len(cl) == 1:
                            self.ensure_layout(other.obj, {'i': ('i', 8 * cl[0][1].size), 'p': ('ptr',), 'f': ('fp', 'double')}[cl[0][1].kind])
                        else:
                            other.obj.layout = (d if other is s else s).obj.layout if other.obj.size == n else None
                            if other.obj.layout is None:
                                raise Unsupported('memcpy to unlaid object')
                vals = []
                try:
                    for rel, c in cl:
                        ty = {'i': ('i', 8 * c.size), 'p': ('ptr',), 'f': ('fp', 'double' if c.size == 8 else 'float')}[c.kind]
                        vals.append((rel, ty, self.load(st, VPtr(s.obj, norm(s.off + rel)), ty)))
                    for rel, ty, v in vals:
                        self.store(st, VPtr(d.obj, norm(d.off + rel)), v, ty)
                    return
                except Unsupported:
                    continue
        self.memcpy_range(st, d, s, n, move)

    def arr_at(self, st, p, n):
        """(key prefix, idx prefix, start index, stride, count, el, bounds)"""
        node = p.obj.layout
        q = poly(p.off)
        key, idx, conds = [], [], []
        cur = 0
        pn = poly(n)
        while True:
            if isinstance(node, Arr):
                s = node.stride
                lt_ = {k: (c, t) for k, (c, t) in q[1].items() if c % s}
                rem = q[0] % s
                i = unpoly((q[0] // s, {k: (c // s, t) for k, (c, t) in q[1].items() if c % s == 0}))
                cnt = exact_div(n, s) if not lt_ and rem == 0 else None
                if cnt is not None:
                    return tuple(key), tuple(idx), cur, i, s, cnt, node, conds
                key.append(cur)
                idx.append(i)
                conds.append(And(le(0, i), lt(i, node.count)))
                cur = 0
                node = node.el
                q = (rem, lt_)
                continue
            if isinstance(node, Struct):
                cands = [(fo, f) for fo, f in node.fields if (fo <= q[0] < fo + self.nsize(f) if not q[1] else self.has_arr(f))]
                if len(cands) > 1:
                    cands = [c for c in cands if c[0] <= q[0] < c[0] + self.nsize(c[1])]
                if not cands:
                    raise Unsupported('range in struct')
                fo, f = cands[0]
                cur += fo
                q = (q[0] - fo, q[1])
                node = f
                continue
            raise Unsupported('range copy of %s bytes at %s+%s' % (n, p.obj, p.off))

    def leaves_of(self, node, base=0):
        """[(key tail, dims, Cell)] of an element node"""
        if isinstance(node, Cell):
            return [((base,), node)]
        if isinstance(node, Dyn):
            return [((base + o,), c) for o, c in node.cells.items()]
        if isinstance(node, Struct):
            r = []
            for o, f in node.fields:
                r += self.leaves_of(f, base + o)
            return r
        if isinstance(node, Arr):
            return [((base,) + t, c) for t, c in self.leaves_of(node.el, 0)]
        raise Unsupported('leaves')

    def memcpy_range(self, st, d, s, n, move):
        if d.obj.layout is None and s.obj.layout is not None and isinstance(s.obj.layout, Arr):
            self.copy_layout(d.obj, s.obj.layout)
        if s.obj.layout is None and d.obj.layout is not None and isinstance(d.obj.layout, Arr):
            self.copy_layout(s.obj, d.obj.layout)
        if s.obj.layout is None and d.obj.layout is None:
            raise Unsupported('memcpy between untyped objects')
        dk, di, dcur, d0, ds, cnt, dn, dconds = self.arr_at(st, d, n)
        sk, si, scur, s0, ss, scnt, sn, sconds = self.arr_at(st, s, n)
        if ds != ss:
            raise Unsupported('memcpy stride %d vs %d' % (ds, ss))
        nz = Z(n) == 0 if not is_c(n) else False
        for c in dconds + sconds:
            self.oblige(st, 'in-bounds', 'safety', Or(nz, c))
        self.oblige(st, 'copy-destination-in-bounds', 'safety', Or(nz, And(le(0, d0), le(d0 + cnt, dn.count))))
        self.oblige(st, 'copy-source-in-bounds', 'safety', Or(nz, And(le(0, s0), le(s0 + cnt, sn.count))))
        if not is_c(n):
            self.oblige(st, 'copy-length-nonneg', 'safety', le(0, cnt))
        if not move and d.obj is s.obj:
            self.oblige(st, 'memcpy-no-overlap', 'safety', Or(nz, le(d0 + cnt, s0), le(s0 + cnt, d0), Eq(s0, d0)))
        new = []
        for t, c in self.leaves_of(dn.el):
            kd = dk + (dcur,) + t
            ks = sk + (scur,) + t
            nd = len(kd) - 1
            iddummy = di + (0,) * (nd - len(di))
            av = self.cellval(st, d.obj, kd, iddummy, c)
            sv = self.cellval(st, s.obj, ks, si + (0,) * (len(ks) - 1 - len(si)), c)
            new.append(((d.obj.id, kd), av.copy(di, d0, norm(d0 + cnt), sv, si, norm(s0 - d0))))
        for k, v in new:
            st.cells[k] = v
            self.note_write(st, k)

    def copy_layout(self, obj, lay):
        p = poly(obj.size)
        s = lay.stride
        if p[0] % s == 0 and all(c % s == 0 for c, _ in p[1].values()):
            obj.layout = Arr(s, unpoly((p[0] // s, {k: (c // s, t) for k, (c, t) in p[1].items()})), lay.el)
        else:
            raise Unsupported('copy layout')

    def memset(self, st, d, v, n):
        if is_c(n) and n == 0:
            return
        if not is_c(n) and not self.light.feasible(st.pc, Z(n) != 0):
            return
        d = self.deref(st, d, 'memset')
        b = v.e
        if is_c(n) and d.obj.layout is not None:
            nodes = self.node_at(st, d.obj, d.off, n)
            if nodes is not None:
                cl = []
                for rel, nn in nodes:
                    x = self.cells_under(nn, rel)
                    if x is None:
                        cl = None
                        break
                    cl += x
                if cl is not None:
                    if not is_c(b):
                        raise Unsupported('memset value')
                    for rel, c in cl:
                        x = sum((b & 255) << (8 * i) for i in range(c.size))
                        if c.kind == 'p' and x == 0:
                            self.store(st, VPtr(d.obj, norm(d.off + rel)), VPtr(None, 0), ('ptr',))
                        else:
                            self.store(st, VPtr(d.obj, norm(d.off + rel)), VInt(x, 8 * c.size), ('i', 8 * c.size))
                    return
        if d.obj.layout is None:
            self.ensure_layout(d.obj, ('i', 8))
        dk, di, dcur, d0, ds, cnt, dn, dconds = self.arr_at(st, d, n)
        nz = Z(n) == 0 if not is_c(n) else False
        self.oblige(st, 'memset-in-bounds', 'safety', Or(nz, And(le(0, d0), le(d0 + cnt, dn.count))))
        for t, c in self.leaves_of(dn.el):
            kd = dk + (dcur,) + t
            av = self.cellval(st, d.obj, kd, di + (0,) * (len(kd) - 1 - len(di)), c)
            if is_c(b):
                x = sum((b & 255) << (8 * i) for i in range(c.size))
            elif c.size == 1:
                x = self.as_u(st, VInt(b, 8))
            else:
                raise Unsupported('memset value')
            st.cells[(d.obj.id, kd)] = av.fill(di, d0, norm(d0 + cnt), x)
            self.note_write(st, (d.obj.id, kd))

    # ---------------------------------------------------------------- allocation
    def new_object(self, st, name, size, kind='heap'):
        o = Obj('%s%d' % (name, next(_fresh)), kind, None, size)
        st.objs[o.id] = o
        return o


def is_cz(e, n):
    return z3.is_int_value(e) and e.as_long() == n


BYTE = {}


def extract(e, o, s, total):
    """bytes [o,o+s) of the little-endian integer e"""
    if is_c(e):
        return (e >> (8 * o)) & ((1 << (8 * s)) - 1)
    f = z3.Function('bytes_%d_%d_of_%d' % (o, s, total), I, I)
    return f(Z(e))


def recompose(parts, sz):
    """recognise the extraction of one term"""
    src = None
    for o, s, v in parts:
        if is_c(v) or not z3.is_app(v):
            return None
        nm = v.decl().name()
        if nm != 'bytes_%d_%d_of_%d' % (o, s, sz):
            return None
        a = v.arg(0)
        if src is None:
            src = a
        elif not src.eq(a):
            return None
    return src
