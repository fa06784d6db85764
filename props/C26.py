"""The pipelining nodes between opaque neighbours.

Every neighbour is a sequence: a destination collects what is pushed to it, a source hands out items 0..N-1 in order, a stream or a
stack is the sequence it holds.  J is an arbitrary position, so what is proved for it holds for all of them."""
from lib import *
from lib import _fresh

ID = 'C26'
TU = 'pipe'
HARNESS = 'pipe'
SCENARIOS = ['chain', 'direct', 'joins', 'file', 'strings']
STANDIN_SECS = 25
KEEP = [r'^(void )?tpie::file_stream<unsigned long>::', r'^tpie::compressed_stream_base::', r'^tpie::stack<unsigned long>::', r'^std::stack<', r'^tpie::internal_queue<', r'^std::vector<unsigned long.*>::(push_back|clear|size|empty)\(',
        r'^tpie::pipelining::node::', r'^void tpie::free_structure_memory']
LEMMAS = []
BIG = 2 ** 50
PRED = z3.Function('pred', I, z3.BoolSort())
FUN = z3.Function('fun', I, I)


def mangled(n, *args):
    one = {'T': 'm', 'P': 'PKm', 'Q': 'Pm', 'A': 'SaImE'}
    return '_ZTSN4tpie10pipelining4bits%d%sI%sEE' % (len(n), n, ''.join(one.get(a) or '%d%s' % (len(a), a) for a in args))


def ghost_array(S, name):
    o = Obj(name, 'global', Arr(8, 2 ** 59, Cell(8, 'i')), 2 ** 62)
    o.gname = name
    S.st.objs[o.id] = o
    p = VPtr(o, 0)
    S.arr(p)
    return p


def port(S, e, name, ptr, source=False, size=1):
    """the sequence `name` reached through the object at ptr"""
    e.__dict__.setdefault('ports', []).append((ptr, size, name))
    e.__dict__.setdefault('A', {})[name] = ghost_array(S, name)
    n = S.int('n_' + name, 64, 0, BIG)
    S.st.ghost['n:' + name] = n
    S.st.ghost['p:' + name] = 0
    if source:
        p = S.int('p_' + name, 64, 0, BIG)
        S.assume(p <= n)
        S.st.ghost['p:' + name] = p
    S.ex.spec_env = e
    e.J = z3.Int('J')


def which(ex, st, p):
    p = ex.deref(st, p, 'the neighbour')
    for q, size, name in ex.spec_env.ports:
        if q.obj is p.obj:
            o = norm(Z(p.off) - Z(q.off)) if not (is_c(p.off) and is_c(q.off)) else p.off - q.off
            if is_c(o) and 0 <= o < size:
                return name
    raise Unsupported('a neighbour the contract does not know')


def cnt(S, n):
    return S.st.ghost['n:' + n]


def pos(S, n):
    return S.st.ghost['p:' + n]


def seq(S, e, n):
    return S.arr(e.A[n])


def append(ex, st, name, v):
    n = st.ghost['n:' + name]
    ex.store(st, VPtr(ex.spec_env.A[name].obj, norm(Z(n) * 8)), VInt(v, 64), ('i', 64))
    gset(ex, st, 'n:' + name, norm(Z(n) + 1))


def h_push(ex, st, ins, args, dn):
    append(ex, st, which(ex, st, args[0]), ex.as_u(st, ex.load(st, args[1], ('i', 64))))
    return [('ret', st, None)]


def h_push2(ex, st, ins, args, dn):
    """a pair is collected as two sequences"""
    name = which(ex, st, args[0])
    a = ex.as_u(st, ex.load(st, args[1], ('i', 64)))
    b = ex.as_u(st, ex.load(st, VPtr(args[1].obj, norm(args[1].off + 8)), ('i', 64)))
    append(ex, st, name, a)
    append(ex, st, name + '.second', b)
    return [('ret', st, None)]


def h_can(ex, st, ins, args, dn):
    n = which(ex, st, args[0])
    return VBool(Z(st.ghost['p:' + n]) < Z(st.ghost['n:' + n]))


def h_none(ex, st, ins, args, dn):
    n = which(ex, st, args[0])
    return VBool(Z(st.ghost['p:' + n]) >= Z(st.ghost['n:' + n]))


def h_pull(ex, st, ins, args, dn):
    n = which(ex, st, args[0])
    p = st.ghost['p:' + n]
    ex.oblige(st, '%s: only pulled while it has items' % n, 'pre', Z(p) < Z(st.ghost['n:' + n]))
    v = ex.load(st, VPtr(ex.spec_env.A[n].obj, norm(Z(p) * 8)), ('i', 64))
    gset(ex, st, 'p:' + n, norm(Z(p) + 1))
    return v


def h_peek(ex, st, ins, args, dn):
    n = which(ex, st, args[0])
    p = st.ghost['p:' + n]
    ex.oblige(st, '%s: only looked at while it has items' % n, 'pre', Z(p) < Z(st.ghost['n:' + n]))
    return VPtr(ex.spec_env.A[n].obj, norm(Z(p) * 8))


def h_read(ex, st, ins, args, dn):
    """file_stream::read: a reference to the item, and the position moves on"""
    r = h_peek(ex, st, ins, args, dn)
    n = which(ex, st, args[0])
    gset(ex, st, 'p:' + n, norm(Z(st.ghost['p:' + n]) + 1))
    return r


def h_take(ex, st, ins, args, dn):
    """stack::pop: a reference to the last item, which is gone"""
    r = h_stop(ex, st, ins, args, dn)
    n = which(ex, st, args[0])
    gset(ex, st, 'n:' + n, norm(Z(st.ghost['n:' + n]) - 1))
    return r


def h_skip(ex, st, ins, args, dn):
    n = which(ex, st, args[0])
    p = st.ghost['p:' + n]
    ex.oblige(st, '%s: only popped while it has items' % n, 'pre', Z(p) < Z(st.ghost['n:' + n]))
    gset(ex, st, 'p:' + n, norm(Z(p) + 1))
    return [('ret', st, None)]


def h_spush(ex, st, ins, args, dn):
    append(ex, st, which(ex, st, args[0]), ex.as_u(st, ex.load(st, args[1], ('i', 64))))
    return [('ret', st, None)]


def h_qpush(ex, st, ins, args, dn):
    append(ex, st, which(ex, st, args[0]), ex.as_u(st, args[1]))
    return [('ret', st, None)]


def h_sempty(ex, st, ins, args, dn):
    return VBool(Eq(st.ghost['n:' + which(ex, st, args[0])], 0))


def h_ssize(ex, st, ins, args, dn):
    return VInt(st.ghost['n:' + which(ex, st, args[0])], 64)


def h_spop(ex, st, ins, args, dn):
    n = which(ex, st, args[0])
    c = st.ghost['n:' + n]
    ex.oblige(st, '%s: only popped while it has items' % n, 'pre', Z(c) > 0)
    v = ex.load(st, VPtr(ex.spec_env.A[n].obj, norm(Z(c) * 8 - 8)), ('i', 64))
    gset(ex, st, 'n:' + n, norm(Z(c) - 1))
    return v


def h_stop(ex, st, ins, args, dn):
    n = which(ex, st, args[0])
    c = st.ghost['n:' + n]
    ex.oblige(st, '%s: only looked at while it has items' % n, 'pre', Z(c) > 0)
    return VPtr(ex.spec_env.A[n].obj, norm(Z(c) * 8 - 8))


def h_sdrop(ex, st, ins, args, dn):
    h_spop(ex, st, ins, args, dn)
    return [('ret', st, None)]


def h_seek(ex, st, ins, args, dn):
    n = which(ex, st, args[0])
    o, w = ex.as_u(st, args[1]), ex.as_u(st, args[2])
    if not (is_c(o) and o == 0 and is_c(w) and w == 0):
        raise Unsupported('a seek that is not to the beginning')
    gset(ex, st, 'p:' + n, 0)
    return [('ret', st, None)]


def h_isopen(ex, st, ins, args, dn):
    return VBool(ex.spec_env.isopen)


def h_pred(ex, st, ins, args, dn):
    return VBool(PRED(Z(ex.as_u(st, args[0]))))


def h_fun(ex, st, ins, args, dn):
    v = FUN(Z(ex.as_u(st, args[0])))
    ex.assume(st, And(0 <= v, v < 2 ** 64))
    return VInt(v, 64)


def h_lt(ex, st, ins, args, dn):
    return VBool(LT(ex.as_u(st, args[0]), ex.as_u(st, args[1])))


# std::vector of the chunker
def h_vpb(ex, st, ins, args, dn):
    append(ex, st, which(ex, st, args[0]), ex.as_u(st, ex.load(st, args[1], ('i', 64))))
    return [('ret', st, None)]


def h_vclear(ex, st, ins, args, dn):
    n = which(ex, st, args[0])
    gset(ex, st, 'n:' + n, 0)
    return [('ret', st, None)]


def h_vpush(ex, st, ins, args, dn):
    """a batch: its items follow the items so far, its size the sizes so far"""
    d, s = which(ex, st, args[0]), which(ex, st, args[1])
    A = ex.spec_env.A
    k, n = st.ghost['n:' + s], st.ghost['n:' + d]
    append(ex, st, d + '.sizes', k)
    ex.memcpy_range(st, VPtr(A[d].obj, norm(Z(n) * 8)), VPtr(A[s].obj, 0), norm(Z(k) * 8), True)
    gset(ex, st, 'n:' + d, norm(Z(n) + Z(k)))
    return [('ret', st, None)]


HK = [(r'^dst::push\(', h_push), (r'^(pdst|cdst)::push\(', h_push2), (r'^vdst::push\(', h_vpush), (r'^src::pull\(', h_pull), (r'^src::can_pull\(', h_can), (r'^src::peek\(', h_peek),
      (r'^vp_pred\(', h_pred), (r'^vp_fun\(', h_fun), (r'^vp_less\(', h_lt), (r'^tpie::pipelining::node::(step|end)\(', h_nop),
      (r'^tpie::file_stream<unsigned long>::write\(', h_push), (r'^tpie::file_stream<unsigned long>::read\(', h_read), (r'^tpie::compressed_stream_base::can_read\(', h_can),
      (r'^tpie::compressed_stream_base::seek\(', h_seek), (r'^tpie::compressed_stream_base::is_open\(', h_isopen),
      (r'^tpie::stack<unsigned long>::push\(', h_spush), (r'^tpie::stack<unsigned long>::pop\(', h_take), (r'^tpie::stack<unsigned long>::empty\(', h_sempty), (r'^tpie::stack<unsigned long>::size\(', h_ssize),
      (r'^std::stack<.*::push\(', h_spush), (r'^std::stack<.*::pop\(', h_sdrop), (r'^std::stack<.*::top\(', h_stop), (r'^std::stack<.*::empty\(', h_sempty), (r'^std::stack<.*::size\(', h_ssize),
      (r'^tpie::internal_queue<.*::push\(', h_qpush), (r'^tpie::internal_queue<.*::front\(', h_peek), (r'^tpie::internal_queue<.*::pop\(', h_skip), (r'^tpie::internal_queue<.*::empty\(', h_none),
      (r'^std::vector<.*::push_back\(', h_vpb), (r'^std::vector<.*::size\(', h_ssize), (r'^std::vector<.*::empty\(', h_sempty), (r'^std::vector<.*::clear\(', h_vclear), (r'free_structure_memory', h_vclear)]


HK_VEC = [h for h in HK if 'vector' not in h[0]]


# ------------------------------------------------------------ what is promised
def kept(S, old, e, name):
    n0 = cnt(old, name)
    return ('what was in %s before stays' % name, Implies(And(0 <= e.J, e.J < n0), Eq(seq(S, e, name)(e.J), seq(old, e, name)(e.J))))


def emitted(S, old, e, name, vals):
    """exactly these items were appended"""
    n0 = cnt(old, name)
    return [('%s gets %d item(s)' % (name, len(vals)), Eq(cnt(S, name), n0 + len(vals))), kept(S, old, e, name)] + \
        [('item %d of %s' % (i, name), Eq(seq(S, e, name)(norm(n0 + i)), v)) for i, v in enumerate(vals)]


def taken(S, old, name, k):
    return [('%d item(s) of %s are used' % (k, name), Eq(pos(S, name), pos(old, name) + k)), ('%s keeps its items' % name, Eq(cnt(S, name), cnt(old, name)))]


def copied(S, old, e, a, b, upto=None):
    """b gets the items of a from its position on, in order; at the end a is used up"""
    p0, n0 = pos(old, a), cnt(old, b)
    p = pos(S, a)
    return [('as many items as were taken', Eq(cnt(S, b), n0 + p - p0)), ('forwards', And(p0 <= p, p <= cnt(old, a), Eq(cnt(S, a), cnt(old, a)))), kept(S, old, e, b),
            ('the items in order', Implies(And(n0 <= e.J, e.J < n0 + p - p0), Eq(seq(S, e, b)(e.J), seq(old, e, a)(norm(p0 + e.J - n0)))))]


def item(S, e):
    e.x = S.int('x', 64)
    q = S.heap('item', Cell(8, 'i'), 1, False, kind='param')
    S.set(q, None, e.x)
    return q


def pair_item(S, e):
    e.x, e.y = S.int('x', 64), S.int('y', 64)
    q = S.heap('item', Cell(8, 'i'), 2, False, kind='param')
    S.set(q, None, e.x)
    S.set(VPtr(q.obj, 8), None, e.y)
    return q


def node(S, e, cls, dests=(), sources=()):
    e.n = S.obj('n', cls=cls)
    for d in dests:
        port(S, e, 'out' if d in ('dest', 'dest1') else 'out2', S.f(e.n, d))
    for s in sources:
        port(S, e, 'in', S.f(e.n, s), source=True)
    return e.n


def push_spec(name, fn, cls, post, dests=('dest',), sources=(), setup=None, it=item, loops=(), opts=None):
    def s(S, e):
        n = node(S, e, cls, dests, sources)
        q = it(S, e)
        if setup:
            setup(S, e)
        return [n, q]
    return FnSpec(name, r'^vp_%s\(' % fn, s, post, hooks=HK, loops=loops, opts=opts)


def have_one(S, e):
    S.assume(pos(S, 'in') < cnt(S, 'in'))


def F(e):
    return FUN(Z(e.x))


def p_filter(S, old, r, args, e):
    P = PRED(Z(e.x))
    n0 = cnt(old, 'out')
    return [('passed on exactly if the predicate holds', Eq(cnt(S, 'out'), n0 + If(P, 1, 0))), kept(S, old, e, 'out'), ('the item itself', Implies(P, Eq(seq(S, e, 'out')(n0), e.x)))]


def p_exclude(S, old, r, args, e):
    P = PRED(Z(e.x))
    n0 = cnt(old, 'out')
    return [('passed on exactly if the flag is set', Eq(cnt(S, 'out'), n0 + If(P, 1, 0))), kept(S, old, e, 'out'), ('the value', Implies(P, Eq(seq(S, e, 'out')(n0), F(e))))]


def p_map(S, old, r, args, e):
    return emitted(S, old, e, 'out', [F(e)])


def s_linear(S, e):
    e.a, e.b = S.int('factor', 64), S.int('term', 64)
    S.set(e.n, 'factor', e.a)
    S.set(e.n, 'term', e.b)


def p_linear(S, old, r, args, e):
    v = seq(S, e, 'out')(cnt(old, 'out'))
    k = z3.Int('k')
    return [('one item', Eq(cnt(S, 'out'), cnt(old, 'out') + 1)), kept(S, old, e, 'out'),
            ('factor times item plus term', Implies(MUL(S, e.x, e.a) + Z(e.b) < 2 ** 64, Eq(v, MUL(S, e.x, e.a) + e.b)))]


def p_fork(S, old, r, args, e):
    return emitted(S, old, e, 'out', [e.x]) + emitted(S, old, e, 'out2', [e.x])


def s_zip(S, e):
    second(S, e, 'out')
    have_one(S, e)


def second(S, e, name):
    e.A[name + '.second'] = ghost_array(S, name + '.second')
    S.st.ghost['n:' + name + '.second'] = cnt(S, name)


def p_zip(S, old, r, args, e):
    y = seq(old, e, 'in')(pos(old, 'in'))
    return emitted(S, old, e, 'out', [e.x]) + emitted(S, old, e, 'out.second', [y]) + taken(S, old, 'in', 1)


def p_unzip(S, old, r, args, e):
    return emitted(S, old, e, 'out', [e.x]) + emitted(S, old, e, 'out2', [e.y])


def p_merge(S, old, r, args, e):
    return emitted(S, old, e, 'out', [e.x, seq(old, e, 'in')(pos(old, 'in'))]) + taken(S, old, 'in', 1)


def om_so_far(S, S0, e):
    K = z3.Int('K')
    return copied(S, S0, e, 'in', 'out') + [('only smaller items went before', z3.ForAll([K], Implies(And(pos(S0, 'in') <= K, K < pos(S, 'in')), LT(seq(S0, e, 'in')(K), e.x)),
                                             patterns=[seq(S0, e, 'in')(K)]))]


def p_om(S, old, r, args, e):
    K = z3.Int('K')
    p0, p1, n0 = pos(old, 'in'), pos(S, 'in'), cnt(old, 'out')
    a = seq(old, e, 'in')
    return [('the items taken and the item pushed', Eq(cnt(S, 'out'), n0 + p1 - p0 + 1)), ('forwards', And(p0 <= p1, p1 <= cnt(old, 'in'), Eq(cnt(S, 'in'), cnt(old, 'in')))), kept(S, old, e, 'out'),
            ('first the items taken, in order', Implies(And(n0 <= e.J, e.J < n0 + p1 - p0), Eq(seq(S, e, 'out')(e.J), a(norm(p0 + e.J - n0))))),
            ('then the item pushed', Eq(seq(S, e, 'out')(norm(n0 + p1 - p0)), e.x)),
            ('every item taken is smaller', Implies(And(p0 <= e.J, e.J < p1), LT(a(e.J), e.x))),
            ('the next item is not smaller', Implies(p1 < cnt(old, 'in'), Not(LT(a(p1), e.x))))]


def L_copy(e_inv):
    return LoopSpec(r'.', lambda L: e_inv(L.S, Ctx(L.S.ex, L.S.ex.entry), L.e))


L_ALL = L_copy(lambda S, S0, e: copied(S, S0, e, 'in', 'out'))
L_OM = L_copy(om_so_far)


def p_all(S, old, r, args, e):
    return copied(S, old, e, 'in', 'out') + [('nothing is left', Eq(pos(S, 'in'), cnt(S, 'in')))]


def result(post):
    """the value returned as a formula or a number"""
    def p(S, old, r, args, e):
        if isinstance(r, VBool):
            r = r.e
        elif isinstance(r, VInt):
            r = S.ex.as_u(S.st, r)
        return post(S, old, r, args, e)
    return p


def go_spec(name, fn, cls, dests=('dest',), sources=(), setup=None, post=p_all, loops=(L_ALL,), cases=(None,)):
    def s(S, e):
        n = node(S, e, cls, dests, sources)
        if setup:
            setup(S, e)
        return [n]
    return FnSpec(name, r'^vp_%s\(' % fn, s, result(post), hooks=HK_VEC if 'vector' in name else HK, loops=loops, cases=cases)


# ---- runs of equal items
def s_cc(S, e):
    second(S, e, 'out')
    e.c, e.b = S.int('count', 64, 0, BIG), S.int('buffered', 64)
    S.set(e.n, 'current_count', e.c)
    S.set(e.n, 'item_buffer', e.b)


def p_cc(S, old, r, args, e):
    same = And(e.c > 0, Eq(e.b, e.x))
    n0 = cnt(old, 'out')
    done = And(Not(same), e.c > 0)
    return [('a run ends exactly when a different item arrives', And(Eq(cnt(S, 'out'), n0 + If(done, 1, 0)), Eq(cnt(S, 'out.second'), cnt(S, 'out')))), kept(S, old, e, 'out'), kept(S, old, e, 'out.second'),
            ('the run with its item and length', Implies(done, And(Eq(seq(S, e, 'out')(n0), e.b), Eq(seq(S, e, 'out.second')(n0), e.c)))),
            ('the current run', And(Eq(S.get(e.n, 'item_buffer'), e.x), Eq(S.get(e.n, 'current_count'), If(same, e.c + 1, 1))))]


def p_cc_end(S, old, r, args, e):
    n0 = cnt(old, 'out')
    return [('the last run is passed on', And(Eq(cnt(S, 'out'), n0 + If(e.c > 0, 1, 0)), Eq(cnt(S, 'out.second'), cnt(S, 'out')))), kept(S, old, e, 'out'), kept(S, old, e, 'out.second'),
            ('with its item and length', Implies(e.c > 0, And(Eq(seq(S, e, 'out')(n0), e.b), Eq(seq(S, e, 'out.second')(n0), e.c))))]


# ---- batches
def s_chunk(S, e):
    e.max = S.int('maxSize', 64, 1, BIG)
    S.set(e.n, 'maxSize', e.max)
    port(S, e, 'items', S.f(e.n, 'items'))
    e.A['out.sizes'] = ghost_array(S, 'out.sizes')
    S.st.ghost['n:out.sizes'] = S.int('batches', 64, 0, BIG)
    S.assume(cnt(S, 'items') <= e.max)


def flat(S, e):
    """all items so far: those of the batches passed on, then those collected"""
    n = cnt(S, 'out')
    return lambda j: If(j < n, seq(S, e, 'out')(j), seq(S, e, 'items')(norm(j - n)))


def p_chunk(S, old, r, args, e):
    k, b0, t0 = cnt(old, 'items'), cnt(old, 'out.sizes'), cnt(old, 'out') + cnt(old, 'items')
    full = Eq(k, e.max)
    return [('one more item', Eq(cnt(S, 'out') + cnt(S, 'items'), t0 + 1)), ('the items in order', Implies(And(0 <= e.J, e.J < t0), Eq(flat(S, e)(e.J), flat(old, e)(e.J)))), ('the new item is last', Eq(flat(S, e)(t0), e.x)),
            ('a batch is passed on exactly when it is full', Eq(cnt(S, 'out.sizes'), b0 + If(full, 1, 0))), ('at most maxSize collected, at least one', And(cnt(S, 'items') <= e.max, cnt(S, 'items') >= 1)),
            ('the batch has maxSize items', Implies(full, Eq(seq(S, e, 'out.sizes')(b0), e.max))), kept(S, old, e, 'out.sizes')]


def p_chunk_end(S, old, r, args, e):
    k, b0, t0 = cnt(old, 'items'), cnt(old, 'out.sizes'), cnt(old, 'out') + cnt(old, 'items')
    return [('everything is passed on', Eq(cnt(S, 'out'), t0)), ('the items in order', Implies(And(0 <= e.J, e.J < t0), Eq(seq(S, e, 'out')(e.J), flat(old, e)(e.J)))),
            ('the rest is one batch, none if there is none', Eq(cnt(S, 'out.sizes'), b0 + If(k > 0, 1, 0))), ('of its size', Implies(k > 0, Eq(seq(S, e, 'out.sizes')(b0), k))), kept(S, old, e, 'out.sizes')]


# ---- pulling
def pull_spec(name, fn, cls, post, dests=(), sources=('source',), setup=None, cases=(None,)):
    return go_spec(name, fn, cls, dests, sources, setup, post, (), cases)


def s_pp(S, e):
    e.cp, e.it = z3.Bool('could_pull'), S.int('buffered', 64)
    S.set(e.n, 'could_pull', norm(If(e.cp, 1, 0)), 8)
    S.set(e.n, 'item', e.it)


def pp_next(S, old, e):
    more = pos(old, 'in') < cnt(old, 'in')
    return [('one item is read ahead if there is one', And(Eq(pos(S, 'in'), pos(old, 'in') + If(more, 1, 0)), Iff(Ne(S.get(e.n, 'could_pull', 8), 0), more))),
            ('the item is the next one', Implies(more, Eq(S.get(e.n, 'item'), seq(old, e, 'in')(pos(old, 'in')))))]


def p_pp_pull(S, old, r, args, e):
    return [('the item read ahead', Eq(r, e.it))] + pp_next(S, old, e)


def p_can(S, old, r, args, e):
    return [('exactly while items are left', Iff(r, pos(old, 'in') < cnt(old, 'in'))), ('nothing is used', Eq(pos(S, 'in'), pos(old, 'in')))]


def p_next(S, old, r, args, e):
    return [('the next item', Eq(r, seq(old, e, 'in')(pos(old, 'in'))))] + taken(S, old, 'in', 1)


def p_pull_map(S, old, r, args, e):
    return [('the function of the next item', Eq(r, FUN(Z(seq(old, e, 'in')(pos(old, 'in'))))))] + taken(S, old, 'in', 1)


# ---- streams, stacks and queues between two nodes
def behind(member, source=False, deref=True, size=1):
    def s(S, e):
        if deref:
            q = S.obj('store', 'param', None, None)
            S.set(e.n, member, q)
            port(S, e, 'in' if source else 'store', q, source=source)
        else:
            port(S, e, 'store', S.f(e.n, member), size=size)
    return s


def then(*fs):
    def s(S, e):
        for f in fs:
            f(S, e)
    return s


def p_store(S, old, r, args, e):
    return emitted(S, old, e, 'store', [e.x])


def p_rewound(S, old, r, args, e):
    n0, N = cnt(old, 'out'), cnt(old, 'in')
    return [('every item of the buffer', Eq(cnt(S, 'out'), n0 + N)), kept(S, old, e, 'out'), ('in order', Implies(And(n0 <= e.J, e.J < n0 + N), Eq(seq(S, e, 'out')(e.J), seq(old, e, 'in')(norm(e.J - n0)))))]


def inv_rewound(S, S0, e):
    n0, p = cnt(S0, 'out'), pos(S, 'in')
    return [('as many as taken', Eq(cnt(S, 'out'), n0 + p)), ('in range', And(0 <= p, p <= cnt(S0, 'in'))), kept(S, S0, e, 'out'),
            ('in order', Implies(And(n0 <= e.J, e.J < n0 + p), Eq(seq(S, e, 'out')(e.J), seq(S0, e, 'in')(norm(e.J - n0)))))]


def reversed_(S, S0, e):
    n0, N, n = cnt(S0, 'out'), cnt(S0, 'store'), cnt(S, 'store')
    return [('as many as taken', Eq(cnt(S, 'out'), n0 + N - n)), ('in range', And(0 <= n, n <= N)), kept(S, S0, e, 'out'),
            ('last to first', Implies(And(n0 <= e.J, e.J < n0 + N - n), Eq(seq(S, e, 'out')(e.J), seq(S0, e, 'store')(norm(N - 1 - (e.J - n0))))))]


def p_reversed(S, old, r, args, e):
    return reversed_(S, old, e) + [('nothing is left', Eq(cnt(S, 'store'), 0))]


def p_last(S, old, r, args, e):
    n = cnt(old, 'store')
    return [('the last item', Eq(r, seq(old, e, 'store')(norm(n - 1)))), ('it is gone', Eq(cnt(S, 'store'), n - 1))]


def p_some(S, old, r, args, e):
    return [('exactly while items are left', Iff(r, cnt(old, 'store') > 0))]


def has_store(S, e):
    S.assume(cnt(S, 'store') > 0)


def open_(S, e):
    e.isopen = z3.Bool('isopen')


def p_fi(S, old, r, args, e):
    return copied(S, old, e, 'in', 'out') + [('nothing is left of an open stream', Implies(e.isopen, Eq(pos(S, 'in'), cnt(S, 'in')))), ('a closed stream gives nothing', Implies(Not(e.isopen), Eq(cnt(S, 'out'), cnt(old, 'out'))))]


def p_tee(S, old, r, args, e):
    return emitted(S, old, e, 'out', [e.x]) + emitted(S, old, e, 'store', [e.x])


L_ALL_S = L_copy(lambda S, S0, e: copied(S, S0, e, 'in', 'store'))


def p_all_s(S, old, r, args, e):
    return copied(S, old, e, 'in', 'store') + [('nothing is left', Eq(pos(S, 'in'), cnt(S, 'in')))]


# ---- vectors and iterators
def vector(S, e):
    """const std::vector & input: start and end of its items"""
    e.N = S.int('N', 64, 0, BIG)
    e.buf = S.heap('items', Cell(8, 'i'), e.N, False, kind='param')
    v = S.heap('vector', Cell(8, 'p'), 3, False, kind='param')
    S.set(v, None, e.buf)
    S.set(VPtr(v.obj, 8), None, VPtr(e.buf.obj, norm(e.N * 8)))
    S.set(VPtr(v.obj, 16), None, VPtr(e.buf.obj, norm(e.N * 8)))
    S.set(e.n, 'input', v)


def range_(S, e):
    e.N = S.int('N', 64, 0, BIG)
    e.buf = S.heap('items', Cell(8, 'i'), e.N, False, kind='param')
    S.set(e.n, 'i', e.buf)
    S.set(e.n, 'till', VPtr(e.buf.obj, norm(e.N * 8)))


def vec_so_far(S, S0, e, k):
    n0 = cnt(S0, 'out')
    return [('as many as seen', Eq(cnt(S, 'out'), n0 + k)), ('in range', And(0 <= k, k <= e.N)), kept(S, S0, e, 'out'),
            ('in order', Implies(And(n0 <= e.J, e.J < n0 + k), Eq(seq(S, e, 'out')(e.J), S0.arr(e.buf)(norm(e.J - n0)))))]


def p_vec(S, old, r, args, e):
    return vec_so_far(S, old, e, e.N)


L_VEC = LoopSpec(r'.', lambda L: vec_so_far(L.S, Ctx(L.S.ex, L.S.ex.entry), L.e, L.i), roles={'i': r'__begin|begin|\bi\b'}, ptr_roles=('i',))


def L_pii_inv(L):
    q = L.S.ptr(L.e.n, 'i')
    return vec_so_far(L.S, Ctx(L.S.ex, L.S.ex.entry), L.e, norm(Z(cnt(L.S, 'out')) - Z(cnt(Ctx(L.S.ex, L.S.ex.entry), 'out')))) + \
        [('the iterator follows', And(q.obj is L.e.buf.obj, Eq(q.off, 8 * (cnt(L.S, 'out') - cnt(Ctx(L.S.ex, L.S.ex.entry), 'out')))))]


def piv(S, e):
    vector(S, e)
    e.i = S.int('idx', 64, 0, BIG)
    S.set(e.n, 'idx', e.i)
    S.assume(e.i <= e.N)


def piv_some(S, e):
    piv(S, e)
    S.assume(e.i < e.N)


def p_piv_pull(S, old, r, args, e):
    return [('the item at the index', And(r.obj is e.buf.obj, Eq(r.off, 8 * e.i))), ('the index moves on', Eq(S.get(e.n, 'idx'), e.i + 1))]


def p_piv_peek(S, old, r, args, e):
    return [('the item at the index', And(r.obj is e.buf.obj, Eq(r.off, 8 * e.i))), ('the index stays', Eq(S.get(e.n, 'idx'), e.i))]


def p_piv_can(S, old, r, args, e):
    return [('exactly while items are left', Iff(r, e.i < e.N))]


def s_poi(S, e):
    e.N = S.int('N', 64, 1, BIG)
    e.k = S.int('k', 64, 0, BIG)
    S.assume(e.k < e.N)
    e.buf = S.heap('items', Cell(8, 'i'), e.N, False, kind='param')
    S.set(e.n, 'i', VPtr(e.buf.obj, norm(e.k * 8)))
    e.J = z3.Int('J')


def p_poi(S, old, r, args, e):
    q = S.ptr(e.n, 'i')
    return [('the item goes where the iterator points and nothing else changes', Implies(And(0 <= e.J, e.J < e.N), Eq(S.arr(e.buf)(e.J), If(Eq(e.J, e.k), e.x, old.arr(e.buf)(e.J))))),
            ('the iterator moves on', And(q.obj is e.buf.obj, Eq(q.off, 8 * e.k + 8)))]


# ---- numbers
def s_range(S, e):
    e.a, e.b, e.d = S.int('from', 64, 0, 2 ** 58), S.int('to', 64, 0, 2 ** 58), S.int('increment', 64, 1, 2 ** 58)
    for n, v in (('from', e.a), ('to', e.b), ('increment', e.d)):
        S.set(e.n, n, v)
    S.assume(Eq(cnt(S, 'out'), 0))


def rng(S, e, i):
    n = cnt(S, 'out')
    return [('the next number', Eq(i, e.a + MUL(S, n, e.d))), ('every number so far', Implies(And(0 <= e.J, e.J < n), And(Eq(seq(S, e, 'out')(e.J), e.a + MUL(S, e.J, e.d)), seq(S, e, 'out')(e.J) < e.b)))]


def p_range(S, old, r, args, e):
    n = cnt(S, 'out')
    return [('every number of the range in order', Implies(And(0 <= e.J, e.J < n), And(Eq(seq(S, e, 'out')(e.J), e.a + MUL(S, e.J, e.d)), seq(S, e, 'out')(e.J) < e.b))),
            ('none is missing', e.a + MUL(S, n, e.d) >= e.b)]


def inv_range(L):
    o = [o for o in L.st.objs.values() if o.kind == 'alloca' and o.size == 8]
    if len(o) != 1:
        raise Unsupported('range: which variable is the counter')
    i = L.S.get(VPtr(o[0], 0))
    return rng(L.S, L.e, i) + [('in the range of the type', And(e_range(L, i), cnt(L.S, 'out') >= 0, cnt(L.S, 'out') <= i))]


def e_range(L, i):
    return And(i >= L.e.a, Or(Eq(i, L.e.a), i < L.e.b + L.e.d))


L_RANGE = LoopSpec(r'.', inv_range)


def mul_step(texts):
    """ground facts (lemma 'steps of a range'): (n+1)*d = n*d + d"""
    mul = z3.Function('mul', I, I, I)
    out, seen, ts = [], set(), []
    st = list(texts)
    while st:
        x = st.pop()
        if not z3.is_expr(x) or x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            continue
        if z3.is_app(x):
            if x.decl().eq(mul):
                ts.append(x)
            st.extend(x.children())
    d = z3.Int('increment')
    for x in ts:
        for a, b in ((x.arg(0), x.arg(1)), (x.arg(1), x.arg(0))):
            if b.eq(d):
                out.append(z3.Implies(a == 0, x == 0))
                for y in ts:
                    for c, f in ((y.arg(0), y.arg(1)), (y.arg(1), y.arg(0))):
                        if f.eq(d):
                            out.append(z3.And(z3.Implies(c == a + 1, y == x + d), z3.Implies(c == a, y == x)))
    return out


mul_step.ground = True


def _mul_lemma():
    n, d = z3.Ints('n d')
    yield 'zero steps', [], 0 * d == 0
    yield 'one more step', [], (n + 1) * d == n * d + d


LEMMAS = [Lemma('steps of a range', lambda: list(_mul_lemma()))]

D = 'dst'
CC = mangled('count_consecutive_t', 'cdst')
CH = mangled('chunker_t', 'vdst')
OM = mangled('ordered_merge_t', D, 'sfact', 'Cmp')
PP = mangled('pull_peek_t', 'src')
PIV = mangled('pull_input_vector_t', 'T', 'A')
FNS = [
    push_spec('filter', 'filter', mangled('filter_t', D, 'Pred'), p_filter),
    push_spec('map', 'map', mangled('map_t', D, 'Fun'), p_map),
    push_spec('map (template)', 'mapt', mangled('map_temp_t', D, 'Fun'), p_map),
    push_spec('lambda', 'lambda', mangled('lambda_t', D, 'Fun'), p_map),
    push_spec('exclude_lambda', 'exclude', mangled('exclude_lambda_t', D, 'Exc'), p_exclude),
    push_spec('linear', 'linear', mangled('linear_t', D), p_linear, setup=s_linear, opts=dict(wrap=True)),
    push_spec('fork', 'fork', mangled('fork_t', D, 'dfact'), p_fork, dests=('dest', 'dest2')),
    push_spec('zip', 'zip', mangled('zip_t', 'pdst', 'sfact'), p_zip, sources=('src',), setup=s_zip),
    push_spec('unzip', 'unzip', mangled('unzip_t', D, 'dfact'), p_unzip, dests=('dest1', 'dest2'), it=pair_item),
    push_spec('merge', 'mergep', mangled('merge_t', D, 'sfact'), p_merge, sources=('with',), setup=have_one),
    push_spec('ordered_merge push', 'omerge', OM, p_om, sources=('with',), loops=(L_OM,)),
    go_spec('ordered_merge end', 'omerge_end', OM, sources=('with',)),
    push_spec('count_consecutive push', 'cc', CC, p_cc, setup=s_cc),
    go_spec('count_consecutive end', 'cc_end', CC, setup=s_cc, post=p_cc_end, loops=()),
    push_spec('extract_first', 'ef', mangled('extract_first_t', D), lambda S, old, r, a, e: emitted(S, old, e, 'out', [e.x]), it=pair_item),
    push_spec('chunker push', 'chunk', CH, p_chunk, setup=s_chunk),
    go_spec('chunker end', 'chunk_end', CH, setup=s_chunk, post=p_chunk_end, loops=()),
    go_spec('range', 'range', mangled('range_t', D), setup=s_range, post=p_range, loops=(L_RANGE,)),
    go_spec('pull_source', 'ps', mangled('pull_source_t', D, 'sfact'), sources=('src',)),
    pull_spec('pull_peek begin', 'pp_begin', PP, lambda S, old, r, a, e: pp_next(S, old, e), setup=s_pp),
    pull_spec('pull_peek pull', 'pp_pull', PP, p_pp_pull, setup=s_pp),
    pull_spec('pull_peek can_pull', 'pp_can', PP, lambda S, old, r, a, e: [('whether an item was read ahead', Iff(r, e.cp))], setup=s_pp),
    pull_spec('pull_peek peek', 'pp_peek', PP, lambda S, old, r, a, e: [('the item read ahead', Eq(S.get(r), e.it))], setup=s_pp),
    pull_spec('pull_fork pull', 'pf_pull', mangled('pull_fork_t', 'src', 'dfact'), lambda S, old, r, a, e: p_next(S, old, r, a, e) + emitted(S, old, e, 'out', [r]), dests=('dest',), setup=have_one),
    pull_spec('pull_fork can_pull', 'pf_can', mangled('pull_fork_t', 'src', 'dfact'), p_can, dests=('dest',)),
    pull_spec('pull_map pull', 'pm_pull', mangled('pull_map_t', 'src', 'Fun'), p_pull_map, sources=('src',), setup=have_one),
    pull_spec('pull_map can_pull', 'pm_can', mangled('pull_map_t', 'src', 'Fun'), p_can, sources=('src',)),
    push_spec('buffer push', 'bi', mangled('buffer_input_t', 'T'), p_store, dests=(), setup=behind('m_queue', deref=False, size=80)),
    go_spec('buffer go', 'bo', mangled('buffer_output_t', D), setup=behind('m_queue', True), post=p_rewound, loops=(L_copy(inv_rewound),)),
    pull_spec('buffer pull', 'bp_pull', mangled('buffer_pull_output_t', 'T'), p_next, sources=(), setup=then(behind('m_queue', True), have_one)),
    pull_spec('buffer can_pull', 'bp_can', mangled('buffer_pull_output_t', 'T'), p_can, sources=(), setup=behind('m_queue', True)),
    push_spec('reverser push', 'ri', mangled('reverser_input_t', 'T'), p_store, dests=(), setup=behind('m_stack', deref=False, size=200)),
    go_spec('reverser go', 'ro', mangled('reverser_output_t', D), setup=behind('m_stack'), post=p_reversed, loops=(L_copy(reversed_),)),
    pull_spec('reverser pull', 'rp_pull', mangled('reverser_pull_output_t', 'T'), p_last, sources=(), setup=then(behind('m_stack'), has_store)),
    pull_spec('reverser can_pull', 'rp_can', mangled('reverser_pull_output_t', 'T'), p_some, sources=(), setup=behind('m_stack')),
    push_spec('internal_reverser push', 'iri', mangled('internal_reverser_input_t', 'T'), p_store, dests=(), setup=behind('m_stack')),
    go_spec('internal_reverser go', 'iro', mangled('internal_reverser_output_t', D), setup=behind('m_stack'), post=p_reversed, loops=(L_copy(reversed_),)),
    pull_spec('internal_reverser pull', 'irp_pull', mangled('internal_reverser_pull_output_t', 'T'), p_last, sources=(), setup=then(behind('m_stack'), has_store)),
    pull_spec('internal_reverser can_pull', 'irp_can', mangled('internal_reverser_pull_output_t', 'T'), p_some, sources=(), setup=behind('m_stack')),
    push_spec('internal_buffer push', 'ibi', mangled('internal_buffer_input_t', 'T'), p_store, dests=(), setup=behind('m_queue')),
    pull_spec('internal_buffer pull', 'ibp_pull', mangled('internal_buffer_pull_output_t', 'T'), p_next, sources=(), setup=then(behind('m_queue', True), have_one)),
    pull_spec('internal_buffer can_pull', 'ibp_can', mangled('internal_buffer_pull_output_t', 'T'), p_can, sources=(), setup=behind('m_queue', True)),
    go_spec('input go', 'fi', mangled('input_t', D), setup=then(behind('fs', True), open_), post=p_fi),
    pull_spec('pull_input pull', 'fpi_pull', mangled('pull_input_t', 'T'), p_next, sources=(), setup=then(behind('fs', True), have_one)),
    pull_spec('pull_input can_pull', 'fpi_can', mangled('pull_input_t', 'T'), p_can, sources=(), setup=behind('fs', True)),
    push_spec('output push', 'fo', mangled('output_t', 'T'), p_store, dests=(), setup=behind('fs')),
    go_spec('pull_output go', 'fpo', mangled('pull_output_t', 'src'), dests=(), sources=('source',), setup=behind('fs'), post=p_all_s, loops=(L_ALL_S,)),
    push_spec('tee push', 'tee', mangled('tee_t', D, 'T'), p_tee, setup=behind('fs')),
    go_spec('input_vector go', 'iv', mangled('input_vector_t', D, 'T', 'A'), setup=vector, post=p_vec, loops=(L_VEC,)),
    pull_spec('pull_input_vector begin', 'piv_begin', PIV, lambda S, old, r, a, e: [('at the first item', Eq(S.get(e.n, 'idx'), 0))], sources=(), setup=piv),
    pull_spec('pull_input_vector pull', 'piv_pull', PIV, p_piv_pull, sources=(), setup=piv_some),
    pull_spec('pull_input_vector peek', 'piv_peek', PIV, p_piv_peek, sources=(), setup=piv_some),
    pull_spec('pull_input_vector can_pull', 'piv_can', PIV, p_piv_can, sources=(), setup=piv),
    go_spec('push_input_iterator go', 'pii', mangled('push_input_iterator_t', D, 'P'), setup=range_, post=p_vec, loops=(LoopSpec(r'.', L_pii_inv),)),
    push_spec('push_output_iterator push', 'poi', mangled('push_output_iterator_t', 'Q', 'T'), p_poi, dests=(), setup=s_poi),
]
for f in FNS:
    if f.name == 'range':
        f.axioms = (mul_step,)
BOUNDED = [('whole pipelines: graph construction, phases, ownership and moves of nodes, parallel stages', 'random pipelines of the driver against a reference, random seeds')]
ASSUME = ['streams, stacks and queues between nodes by their contracts (C05, C13, C15, C16)', 'predicates, functions and orders given by the user are pure']
