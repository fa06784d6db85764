"""The merge sorter: where runs are kept, how they are grouped, what is read and written.

A stream of stored positions is a sequence; the runs of a level are numbered 0, 1, ...; J is an arbitrary index."""
from lib import *
from lib import _fresh
import C10

ID = 'C23'
TU = 'sorter'
HARNESS = 'sorter'
SCENARIOS = ['merge', 'stream', 'ser', 'parallel', 'positions']
STANDIN_SECS = 30
SEARCH_SECS = 90
KEEP = [r'tpie::file_stream<', r'^tpie::compressed_stream_base::', r'^(unsigned long )?tpie::merge_sorter<.*::', r'^tpie::merge_sorter_base::', r'^tpie::merger<', r'run_positions::', r'^tpie::internal_priority_queue<', r'parallel_sort',
        r'^tpie::array<.*::(resize|swap|array|~array|operator=|memory_usage)\(', r'^tpie::array<tpie::(file_stream|stream_position).*operator\[\]', r'^tpie::temp_file::', r'^tpie::linear_memory_usage::', r'^tpie::log_', r'^tpie::get_log', r'operator<<', r'^tpie::exception',
        r'^std::__cxx11::basic_string', r'^tpie::get_memory_manager', r'available\(']
BIG = 2 ** 40
MS = '_ZTSN4tpie12merge_sorterImLb0E3CmpNS_13dynamic_storeEEE'
MSB = '_ZTSN4tpie17merge_sorter_baseE'
RP = '_ZTSN4tpie4bits13run_positionsE'
MG = '_ZTSN4tpie6mergerINS_13dynamic_store8specificImEE3CmpEE'
EXC = '_ZTIN4tpie9exceptionE'
POW = z3.Function('runlength', I, I, I, I)


def isset(ex, st, v):
    return v.e if isinstance(v, VBool) else Ne(ex.as_u(st, v), 0)


def is0(ex, st, v):
    v = ex.as_u(st, v)
    return is_c(v) and v == 0


def garray(S, name, el=None):
    el = el or Cell(8, 'i')
    o = Obj(name, 'global', Arr(el.size, 2 ** 55, el), 2 ** 62)
    o.gname = name
    S.st.objs[o.id] = o
    p = VPtr(o, 0)
    for off in range(0, el.size, 8):
        S.arr(p, off)
    return p


LOGS = [(r'^tpie::log_|^tpie::get_log|basic_ostream|^std::ostream|sort_parameters::dump|^std::vector<std::shared_ptr|^std::__shared_ptr|progress_indicator', C10.nop), (r'^std::(__cxx11::)?basic_string|^tpie::exception::(exception|~)', C10.nop)]


def event(ex, st, *a):
    gset(ex, st, 'log', st.ghost.get('log', ()) + (a,))


def EV(S, kind=None):
    return [a for a in S.st.ghost.get('log', ()) if kind is None or a[0] == kind]


# ------------------------------------------------------------------------------ numbers
def sorter(S, e, cls=MS):
    S.ex.spec_env = e
    e.J = z3.Int('J')
    e.t = S.obj('sorter', cls=cls)
    e.rl, e.fan, e.ffan = S.int('p.runLength', 64, 1, BIG), S.int('p.fanout', 64, 2, 2 ** 30), S.int('p.finalFanout', 64, 2, 2 ** 30)
    e.irt = S.int('p.internalReportThreshold', 64, 0, BIG)
    for n, v in (('runLength', e.rl), ('fanout', e.fan), ('finalFanout', e.ffan), ('internalReportThreshold', e.irt)):
        S.set(e.t, 'p.' + n, v)
    S.assume(e.ffan <= e.fan, e.irt <= e.rl)
    e.fin = S.int('m_finishedRuns', 64, 0, BIG)
    S.set(e.t, 'm_finishedRuns', e.fin)
    e.cnt = S.int('m_currentRunItemCount', 64, 0, BIG)
    S.set(e.t, 'm_currentRunItemCount', e.cnt)
    return e.t


def g(S, e, n, w=64):
    return S.get(e.t, n, w)


def s_index(S, e):
    sorter(S, e)
    e.level, e.run = S.int('level', 64, 0, 2 ** 62), S.int('run', 64, 0, 2 ** 62)
    return [e.t, VInt(e.level, 64), VInt(e.run, 64)]


def index(S, e, level, run):
    return If(Eq(UMOD(S, level, 2), 0), 0, Z(e.fan)) + Z(UMOD(S, run, e.fan))


def p_index(S, old, r, args, e):
    return [('the file of the run in the half of its level', Eq(r, index(S, e, e.level, e.run))), ('one of the run files', And(0 <= Z(r), Z(r) < 2 * e.fan))]


def _index_lemma():
    a, b, f, qa, qb, ra, rb, la, lb = z3.Ints('a b f qa qb ra rb la lb')
    base = [f >= 1, 0 <= ra, ra < f, 0 <= rb, rb < f, z3.Or(la == 0, la == 1), z3.Or(lb == 0, lb == 1)]
    ia, ib = la * f + ra, lb * f + rb
    yield 'the files of two levels in a row are disjoint', base + [la == 0, lb == 1], ra != f + rb
    yield 'fewer than fanout runs in a row have different files', [f >= 1, 0 <= ra, ra < f, a == qa + ra, b == qb + rb, 0 <= rb, rb < f, a < b, b - a < f, ra == rb, z3.Or(qa == qb, qb >= qa + f, qb <= qa - f)], z3.BoolVal(False)


def s_runlen(S, e):
    S.ex.spec_env = e
    e.a, e.f, e.l = S.int('initial', 64, 0, 2 ** 62), S.int('fanout', 64, 0, 2 ** 62), S.int('level', 64, 0, 2 ** 62)
    S.assume(Eq(POW(e.a, e.f, 0), e.a))
    return [VInt(e.a, 64), VInt(e.f, 64), VInt(e.l, 64)]


def inv_runlen_(L):
    e = L.e
    rl, i = L.r['rl'], L.r['i']
    return [('the length so far', Eq(rl, POW(e.a, e.f, Z(i)))), ('the level so far', And(0 <= i, i <= e.l))]


def terms(texts, *fns):
    """the applications of the functions in the texts"""
    seen, st, out = set(), list(texts), [[] for _ in fns]
    while st:
        x = st.pop()
        if not z3.is_expr(x) or x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            continue
        if z3.is_app(x):
            for f, o in zip(fns, out):
                if x.decl().eq(f):
                    o.append(x)
            st.extend(x.children())
    return out


MULF = z3.Function('mul', I, I, I)


def ax_pow(texts):
    """the definition of the run length of the next level"""
    out = []
    ts, ms = terms(texts, POW, MULF)
    for x in ts:
        for y in ts:
            if not y.eq(x):
                step = z3.And(x.arg(0) == y.arg(0), x.arg(1) == y.arg(1), y.arg(2) == x.arg(2) + 1)
                for m in ms:
                    for k in (0, 1):
                        out.append(z3.Implies(z3.And(step, m.arg(k) == x, m.arg(1 - k) == x.arg(1)), y == m % 2 ** 64))
    return out


ax_pow.ground = True


def ax_bit(texts):
    """products with a factor that is 0 or 1"""
    out = []
    for m in terms(texts, MULF)[0]:
        for k in (0, 1):
            a, b = m.arg(k), m.arg(1 - k)
            out += [z3.Implies(a == 0, m == 0), z3.Implies(a == 1, m == b)]
    return out


ax_bit.ground = True


def p_runlen(S, old, r, args, e):
    return [('initial length times fanout to the level', Eq(r, POW(e.a, e.f, e.l)))]


FM = z3.Function('fanout_memory', I, I)


def h_fm(ex, st, ins, args, dn):
    v = FM(Z(ex.as_u(st, args[1])))
    ex.assume(st, And(0 <= v, v < 2 ** 64))
    return VInt(v, 64)


def s_fanout(S, e):
    S.ex.spec_env = e
    e.t = S.obj('sorter', cls=MSB)
    e.mem, e.files = S.int('memory', 64), S.int('files', 64, 5, 2 ** 62)
    return [e.t, VInt(e.mem, 64), VInt(e.files, 64)]


def fan_inv(e, lo, hi):
    return [('the lower end fits in memory', Or(Eq(lo, 2), FM(Z(lo)) <= e.mem)), ('the upper end is out of files or memory', Or(Eq(hi, e.files - 2), FM(Z(hi)) > e.mem)), ('in order', And(2 <= lo, lo < hi, hi <= e.files - 2))]


def inv_fanout(L):
    return fan_inv(L.e, L.r['lo'], L.r['hi'])


def p_fanout(S, old, r, args, e):
    return [('at least two runs, and files are left for the output', And(2 <= r, r < e.files - 2)), ('it fits in memory or is the least', Or(Eq(r, 2), FM(Z(r)) <= e.mem)),
            ('one more would not do', Or(Eq(r + 1, e.files - 2), FM(Z(r) + 1) > e.mem))]


# ------------------------------------------------------------------------------ run positions
def positions(S, e):
    S.ex.spec_env = e
    e.J = z3.Int('J')
    e.t = S.obj('positions', cls=RP)
    e.lv = S.int('levels', 64, 1, 2 ** 62)
    S.set(e.t, 'm_levels', e.lv)
    e.open, e.fin, e.evac, e.extra = [S.int(n, 8, 0, 2) for n in ('open', 'final', 'evacuated', 'extra')]
    for n, v in (('m_open', e.open), ('m_final', e.fin), ('m_evacuated', e.evac), ('m_finalExtraSet', e.extra)):
        S.set(e.t, n, v, 8)
    el = Struct([(0, Cell(8, 'i')), (8, Cell(8, 'i'))], 16)
    e.A = [garray(S, 'positions%d' % k, el) for k in (0, 1)]
    e.par = S.int('parity', 64, 0, 2)          # of the number of levels
    S.assume(Eq(UMOD(S, e.lv, 2), e.par), Eq(UMOD(S, e.lv - 1, 2), 1 - e.par), Implies(e.lv >= 2, Eq(UMOD(S, e.lv - 2, 2), e.par)))
    for k in (0, 1):
        n, p, m = S.int('n%d' % k, 64, 0, BIG), S.int('p%d' % k, 64, 0, BIG), S.int('runs%d' % k, 64, 0, BIG)
        S.assume(p <= n)
        S.st.ghost.update({'n%d' % k: n, 'p%d' % k: p})
        S.ex.poke(S.st, VPtr(S.f(e.t, 'm_runs').obj, norm(S.f(e.t, 'm_runs').off + 8 * k)), VInt(m, 64))
    S.assume(Implies(Eq(e.par, 0), And(Eq(S.st.ghost['n1'], runs(S, e, 1)), Eq(S.st.ghost['p0'], runs(S, e, 0)))),
             Implies(Eq(e.par, 1), And(Eq(S.st.ghost['n0'], runs(S, e, 0)), Eq(S.st.ghost['p1'], runs(S, e, 1)))))
    e.fpn, e.fpb = mk_array(S, e.t, 'm_finalPositions', 'finals', el)
    return e.t


def runs(S, e, k):
    q = S.f(e.t, 'm_runs')
    return S.get(VPtr(q.obj, norm(q.off + 8 * k)))


def gn(S, k, w='n'):
    return S.st.ghost[w + str(k)]


def pos_at(S, e, k, i):
    """both words of stored position i of stream k"""
    return S.arr(e.A[k], 0)(norm(i)), S.arr(e.A[k], 8)(norm(i))


def stream_no(ex, st, p):
    """[(state, k)]: which of the two position streams"""
    e = ex.spec_env
    S = Ctx(ex, st)
    q = S.f(e.t, 'm_positions')
    if p.obj is not q.obj:
        raise Unsupported('a stream the contract does not know')
    out = []
    size = 72
    o = norm(Z(p.off) - Z(q.off))
    for k in (0, 1):
        f = Eq(o, size * k)
        if f is False or not ex.light.feasible(st.pc, Z(f) if not isinstance(f, bool) else z3.BoolVal(f)):
            continue
        s = st.fork()
        ex.assume(s, f)
        out.append((s, k))
    return out


def h_pwrite(ex, st, ins, args, dn):
    outs = []
    for s, k in stream_no(ex, st, args[0]):
        n = s.ghost['n%d' % k]
        for o in (0, 8):
            v = ex.load(s, VPtr(args[1].obj, norm(args[1].off + o)), ('i', 64))
            ex.store(s, VPtr(ex.spec_env.A[k].obj, norm(Z(n) * 16 + o)), v, ('i', 64))
        gset(ex, s, 'n%d' % k, norm(Z(n) + 1))
        outs.append(('ret', s, None))
    return outs


def h_pcan(ex, st, ins, args, dn):
    return [('ret', s, VBool(Z(s.ghost['p%d' % k]) < Z(s.ghost['n%d' % k]))) for s, k in stream_no(ex, st, args[0])]


def h_pread(ex, st, ins, args, dn):
    outs = []
    for s, k in stream_no(ex, st, args[0]):
        p = s.ghost['p%d' % k]
        ex.oblige(s, 'read: an item is left', 'pre', Z(p) < Z(s.ghost['n%d' % k]))
        gset(ex, s, 'p%d' % k, norm(Z(p) + 1))
        outs.append(('ret', s, VPtr(ex.spec_env.A[k].obj, norm(Z(p) * 16))))
    return outs


def h_psize(w):
    def h(ex, st, ins, args, dn):
        return [('ret', s, VInt(s.ghost['%s%d' % (w, k)], 64)) for s, k in stream_no(ex, st, args[0])]
    return h


def h_ptrunc(ex, st, ins, args, dn):
    outs = []
    if not is0(ex, st, args[1]):
        raise Unsupported('truncated to another size')
    for s, k in stream_no(ex, st, args[0]):
        gset(ex, s, 'n%d' % k, 0)
        gset(ex, s, 'p%d' % k, 0)
        outs.append(('ret', s, None))
    return outs


def h_pseek(ex, st, ins, args, dn):
    outs = []
    if not (is0(ex, st, args[1]) and (len(args) < 3 or is0(ex, st, args[2]))):
        raise Unsupported('another seek')
    for s, k in stream_no(ex, st, args[0]):
        gset(ex, s, 'p%d' % k, 0)
        outs.append(('ret', s, None))
    return outs


def h_popen(ex, st, ins, args, dn):
    """run_positions::open of a closed object"""
    S, e = Ctx(ex, st), ex.spec_env
    for n, v in (('m_open', 1), ('m_evacuated', 0), ('m_final', 0), ('m_finalExtraSet', 0)):
        ex.store(st, S.f(e.t, n), VInt(v, 8), ('i', 8))
    ex.store(st, S.f(e.t, 'm_levels'), VInt(1, 64), ('i', 64))
    q = S.f(e.t, 'm_runs')
    for k in (0, 1):
        ex.store(st, VPtr(q.obj, norm(q.off + 8 * k)), VInt(0, 64), ('i', 64))
        for w in 'np':
            gset(ex, st, w + str(k), 0)
    gset(ex, st, 'opened', True)
    return [('ret', st, None)]


def h_pclose(ex, st, ins, args, dn):
    for s, k in stream_no(ex, st, args[0]):
        event(ex, s, 'close', k)
        return [('ret', s, None)]


def h_presize(ex, st, ins, args, dn):
    """array::resize (C01)"""
    S, e = Ctx(ex, st), ex.spec_env
    n = ex.as_u(st, args[1])
    o = Obj('final positions', 'heap', Arr(16, n, Struct([(0, Cell(8, 'i')), (8, Cell(8, 'i'))], 16)), norm(Z(n) * 16))
    st.objs[o.id] = o
    ex.store(st, S.f(e.t, 'm_finalPositions.m_elements'), VPtr(o, 0), ('ptr',))
    ex.store(st, S.f(e.t, 'm_finalPositions.m_size'), VInt(n, 64), ('i', 64))
    return [('ret', st, None)]


def h_preadall(ex, st, ins, args, dn):
    """file_stream::read of a range: that many items in order"""
    e = ex.spec_env
    S0 = Ctx(ex, st)
    a, b = args[1], args[2]
    q = S0.ptr(e.t, 'm_finalPositions.m_elements')
    n = S0.get(e.t, 'm_finalPositions.m_size')
    outs = []
    for s, k in stream_no(ex, st, args[0]):
        p = s.ghost['p%d' % k]
        ex.oblige(s, 'read: that many items are left', 'pre', Z(p) + Z(n) <= Z(s.ghost['n%d' % k]))
        ex.memcpy_range(s, VPtr(q.obj, 0), VPtr(e.A[k].obj, norm(Z(p) * 16)), norm(Z(n) * 16), True)
        gset(ex, s, 'p%d' % k, norm(Z(p) + Z(n)))
        outs.append(('ret', s, None))
    return outs


HP = [(r'^tpie::file_stream<tpie::stream_position>::write\(', h_pwrite), (r'^tpie::file_stream<tpie::stream_position>::read\(\)', h_pread), (r'^void tpie::file_stream<tpie::stream_position>::read<', h_preadall),
      (r'^tpie::compressed_stream_base::can_read\(', h_pcan), (r'^tpie::compressed_stream_base::size\(', h_psize('n')), (r'^tpie::compressed_stream_base::offset\(', h_psize('p')),
      (r'^tpie::compressed_stream_base::truncate\(unsigned long', h_ptrunc), (r'^tpie::compressed_stream_base::seek\(', h_pseek), (r'run_positions::open\(', h_popen), (r'^tpie::compressed_stream_base::close\(', h_pclose),
      (r'^tpie::array<tpie::stream_position.*::resize\(', h_presize)] + LOGS


def s_setpos(S, e):
    positions(S, e)
    e.level, e.run, e.v0, e.v1 = S.int('level', 64, 0, 2 ** 62), S.int('run', 64, 0, BIG), S.int('v0', 64), S.int('v1', 64)
    S.assume(Or(Eq(e.open, 1), And(Eq(e.fin, 0), Eq(e.evac, 0))))
    return [e.t, VInt(e.level, 64), VInt(e.run, 64), VInt(e.v0, 64), VInt(e.v1, 64)]


def stored(S, e, k):
    return gn(S, k)


def other_kept(S, old, e, k, upto):
    a, b = pos_at(S, e, k, e.J)
    c, d = pos_at(old, e, k, e.J)
    return ('positions stored before stay', Implies(And(0 <= e.J, e.J < upto), And(Eq(a, c), Eq(b, d))))


def p_setpos(S, old, r, args, e):
    lv = If(S.st.ghost.get('opened', False), 1, e.lv)
    w = norm(1 - Z(e.par)) if not S.st.ghost.get('opened') else 0
    out = [('the level being written', Eq(e.level + 1, lv))]
    if S.st.ghost.get('opened'):
        a, b = pos_at(S, e, 0, 0)
        return out + [('the first run of a new object', And(Eq(e.run, 0), Eq(gn(S, 0), 1), Eq(runs(S, e, 0), 1), Eq(a, e.v0), Eq(b, e.v1)))]
    fin = Eq(e.fin, 1)
    for k in (0, 1):
        n0 = gn(old, k)
        a, b = pos_at(S, e, k, n0)
        here = And(Not(fin), Eq(w, k))
        out += [('run %d is stored as item run of its stream' % k, Implies(here, And(Eq(e.run, runs(old, e, k)), Eq(gn(S, k), n0 + 1), Eq(n0, e.run), Eq(a, e.v0), Eq(b, e.v1), Eq(runs(S, e, k), e.run + 1)))),
                ('the other stream stays (%d)' % k, Implies(Not(here), And(Eq(gn(S, k), n0), Eq(runs(S, e, k), runs(old, e, k))))), other_kept(S, old, e, k, n0)]
    x, y = S.get(e.t, 'm_finalExtra.m_readOffset'), S.get(e.t, 'm_finalExtra.m_offset')
    return out + [('in the final level the one extra position is stored', Implies(fin, And(Eq(S.get(e.t, 'm_finalExtraSet', 8), 1), Eq(x, e.v0), Eq(y, e.v1)))),
                  ('otherwise not', Implies(Not(fin), Eq(S.get(e.t, 'm_finalExtraSet', 8), e.extra)))]


def x_setpos(S, old, r, args, e):
    lv = If(S.st.ghost.get('opened', False), 1, e.lv)
    w = 1 - e.par
    wrong = Or(*[And(Eq(w, k), Ne(e.run, runs(old, e, k))) for k in (0, 1)]) if not S.st.ghost.get('opened') else Ne(e.run, 0)
    return [('only for a wrong level or run number', Or(Ne(e.level + 1, lv), And(Eq(e.fin, 0), wrong)))]


def s_getpos(S, e):
    positions(S, e)
    e.level, e.run = S.int('level', 64, 0, 2 ** 62), S.int('run', 64, 0, BIG)
    S.assume(Implies(And(Eq(e.fin, 1), Eq(e.open, 1)), Or(Ne(e.level + 2, e.lv), e.run < e.fpn)))
    return [e.t, VInt(e.level, 64), VInt(e.run, 64)]


def two(S, r):
    return [S.ex.as_u(S.st, x) for x in r.v]


def p_getpos(S, old, r, args, e):
    a, b = two(S, r)
    fin = Eq(e.fin, 1)
    f = S.f(e.t, 'm_finalExtra')
    last = And(fin, Eq(e.level + 1, e.lv))
    out = [('only of an open object', Eq(e.open, 1)), ('the level read or, in the final level, the extra run', Or(last, Eq(e.level + 2, e.lv))),
           ('the extra position', Implies(last, And(Eq(e.extra, 1), Eq(a, old.get(e.t, 'm_finalExtra.m_readOffset')), Eq(b, old.get(e.t, 'm_finalExtra.m_offset')))))]
    F0, F1 = old.arr(e.fpb, 0), old.arr(e.fpb, 8)
    out += [('the final positions', Implies(And(fin, Not(last)), And(Eq(a, F0(e.run)), Eq(b, F1(e.run)))))]
    for k in (0, 1):
        here = And(Not(fin), Eq(e.par, k))
        x, y = pos_at(old, e, k, e.run)
        out += [('run %d: the position stored for it' % k, Implies(here, And(Eq(e.run, runs(old, e, k)), Eq(a, x), Eq(b, y), Eq(runs(S, e, k), e.run + 1), Eq(gn(S, k, 'p'), e.run + 1)))),
                ('what is stored stays (%d)' % k, And(Eq(gn(S, k), gn(old, k)), Implies(Not(here), And(Eq(gn(S, k, 'p'), gn(old, k, 'p')), Eq(runs(S, e, k), runs(old, e, k)))))), other_kept(S, old, e, k, gn(old, k))]
    return out


def x_getpos(S, old, r, args, e):
    last = And(Eq(e.fin, 1), Eq(e.level + 1, e.lv))
    w = Or(*[And(Eq(e.par, k), Or(Ne(e.run, runs(old, e, k)), gn(old, k, 'p') >= gn(old, k))) for k in (0, 1)])
    return [('only if it was not stored or not in order', Or(Ne(e.open, 1), And(last, Ne(e.extra, 1)), And(Not(last), Ne(e.level + 2, e.lv)), And(Eq(e.fin, 0), w)))]


def s_pos(S, e):
    return [positions(S, e)]


def p_next(S, old, r, args, e):
    out = [('one more level', Eq(S.get(e.t, 'm_levels'), e.lv + 1)), ('numbering starts over', And(Eq(runs(S, e, 0), 0), Eq(runs(S, e, 1), 0))), ('in the right state', And(Eq(e.open, 1), Eq(e.fin, 0), Eq(e.evac, 0)))]
    for k in (0, 1):
        out += [('the stream last read is emptied for writing (%d)' % k, Implies(Eq(e.par, k), And(Eq(gn(S, k), 0), Eq(gn(S, k, 'p'), 0)))),
                ('the stream last written is read from the start (%d)' % k, Implies(Eq(e.par, 1 - k), And(Eq(gn(S, k, 'p'), 0), Eq(gn(S, k), gn(old, k))))),
                ('what was written stays (%d)' % k, Implies(Eq(e.par, 1 - k), other_kept(S, old, e, k, gn(old, k))[1]))]
    return out


def x_state(S, old, r, args, e):
    return [('only in a wrong state', Or(Ne(e.open, 1), Eq(e.fin, 1), Eq(e.evac, 1)))]


def s_final(S, e):
    positions(S, e)
    e.f = S.int('fanout', 64, 0, BIG)
    return [e.t, VInt(e.f, 64)]


def p_final(S, old, r, args, e):
    out = [('final', Eq(S.get(e.t, 'm_final', 8), 1)), ('in the right state', And(Eq(e.open, 1), Eq(e.fin, 0), Eq(e.evac, 0)))]
    q = S.ptr(e.t, 'm_finalPositions.m_elements')
    n = S.get(e.t, 'm_finalPositions.m_size')
    F0, F1 = S.arr(q, 0), S.arr(q, 8)
    for k in (0, 1):
        p0 = gn(old, k, 'p')
        left = gn(old, k) - p0
        x, y = pos_at(old, e, k, p0 + e.J)
        out += [('as many positions as are left, at most fanout (%d)' % k, Implies(Eq(e.par, k), Eq(n, If(e.f > left, left, e.f)))),
                ('the next positions in order (%d)' % k, Implies(And(Eq(e.par, k), 0 <= e.J, e.J < n), And(Eq(F0(e.J), x), Eq(F1(e.J), y))))]
    return out


# ------------------------------------------------------------------------------ run files
def run_files(S, e):
    n = e.nfiles = norm(e.fan * 2)
    e.files = S.heap('run files', Cell(8, 'p'), n)
    S.set(e.t, 'm_runFiles.m_elements', e.files)
    S.set(e.t, 'm_runFiles.m_size', n)
    e.fs = S.obj('fs', 'param', Struct([(i, Cell(8, 'i')) for i in range(0, 72, 8)], 72), 72)


def file_no(ex, st, p):
    e = ex.spec_env
    if p.obj is not e.files.obj:
        raise Unsupported('a file the contract does not know')
    return p.off


def h_free(ex, st, ins, args, dn):
    event(ex, st, 'free', file_no(ex, st, args[0]))


def h_fopen(ex, st, ins, args, dn):
    ex.oblige(st, 'the stream given is opened', 'pre', args[0].obj is ex.spec_env.fs.obj)
    event(ex, st, 'open', file_no(ex, st, args[1]), ex.as_u(st, args[2]), ex.as_u(st, args[3]))


def h_fseek(ex, st, ins, args, dn):
    event(ex, st, 'seek', ex.as_u(st, args[1]), ex.as_u(st, args[2]))


def h_fgetpos(ex, st, ins, args, dn):
    S, e = Ctx(ex, st), ex.spec_env
    e.pos = (S.fresh('pos'), S.fresh('pos'))
    event(ex, st, 'getpos')
    return VAgg([VInt(e.pos[0], 64), VInt(e.pos[1], 64)])


def pair_arg(ex, st, args, i):
    """a stream_position passed as two words or as a reference"""
    if isinstance(args[i], VPtr):
        return tuple(ex.as_u(st, ex.load(st, VPtr(args[i].obj, norm(args[i].off + o)), ('i', 64))) for o in (0, 8))
    return ex.as_u(st, args[i]), ex.as_u(st, args[i + 1])


def h_fsetpos(ex, st, ins, args, dn):
    event(ex, st, 'setpos', *pair_arg(ex, st, args, 1))


def h_rpset(ex, st, ins, args, dn):
    event(ex, st, 'store', ex.as_u(st, args[1]), ex.as_u(st, args[2]), *pair_arg(ex, st, args, 3))


def h_rpget(ex, st, ins, args, dn):
    S = Ctx(ex, st)
    v = (S.fresh('stored'), S.fresh('stored'))
    event(ex, st, 'fetch', ex.as_u(st, args[1]), ex.as_u(st, args[2]), *v)
    return VAgg([VInt(v[0], 64), VInt(v[1], 64)])


def h_index(ex, st, ins, args, dn):
    """run_file_index: proved below"""
    S = Ctx(ex, st)
    v = index(S, ex.spec_env, ex.as_u(st, args[1]), ex.as_u(st, args[2]))
    ex.assume(st, And(0 <= v, v < 2 * ex.spec_env.fan))
    return VInt(v, 64)


HF = [(r'run_file_index\(', h_index), (r'^tpie::temp_file::free\(', h_free), (r'^tpie::compressed_stream_base::open\(tpie::temp_file&', h_fopen), (r'^tpie::compressed_stream_base::seek\(', h_fseek),
      (r'get_position\(\)', h_fgetpos), (r'^tpie::compressed_stream_base::set_position\(', h_fsetpos), (r'run_positions::set_position\(', h_rpset), (r'run_positions::get_position\(', h_rpget)] + LOGS


def s_open(S, e):
    sorter(S, e)
    run_files(S, e)
    e.level, e.run = S.int('level', 64, 0, 2 ** 62), S.int('run', 64, 0, 2 ** 62)
    return [e.t, e.fs, VInt(e.level, 64), VInt(e.run, 64)]


def the_file(S, e):
    return norm(index(S, e, e.level, e.run) * 8)


def p_openw(S, old, r, args, e):
    ev = EV(S)
    kinds = [a[0] for a in ev]
    new = e.run < e.fan
    out = [('the file is emptied first exactly for the first run in it', Iff(new, kinds[:1] == ['free'])), ('then opened, the run appended and its position stored', kinds[-4:] == ['open', 'seek', 'getpos', 'store'] and len(kinds) <= 5)]
    if kinds[-4:] != ['open', 'seek', 'getpos', 'store']:
        return out
    for a in ev:
        if a[0] in ('free', 'open'):
            out += [('%s: the file of the run' % a[0], Eq(a[1], the_file(S, e)))]
    o, s, st = ev[-4], ev[-3], ev[-1]
    return out + [('opened for reading and writing', Eq(o[2], 2)), ('written at the end', And(Eq(s[1], 0), Eq(s[2], 1))), ('the position stored is that of the run', And(Eq(st[1], e.level), Eq(st[2], e.run), Eq(st[3], e.pos[0]), Eq(st[4], e.pos[1])))]


def p_openr(S, old, r, args, e):
    ev = EV(S)
    kinds = [a[0] for a in ev]
    if sorted(kinds) != ['fetch', 'open', 'setpos'] or kinds[-1] != 'setpos':
        return [('the file is opened at the position stored for the run', False)]
    o, f, s = EV(S, 'open')[0], EV(S, 'fetch')[0], ev[-1]
    return [('the file of the run', Eq(o[1], the_file(S, e))), ('the position stored for the run', And(Eq(f[1], e.level), Eq(f[2], e.run))), ('reading starts there', And(Eq(s[1], f[3]), Eq(s[2], f[4])))]


FNS = []


def F(name, fn, setup, post=None, **k):
    FNS.append(FnSpec(name, fn, setup, post, **k))


M = r'^(?:unsigned long )?tpie::merge_sorter<unsigned long.*>::'
F('run_file_index', M + r'run_file_index\(', s_index, lambda S, o, r, a, e: p_index(S, o, S.ex.as_u(S.st, r), a, e), axioms=(ax_bit,))
F('calculate_run_length', r'merge_sorter_base::calculate_run_length\(', s_runlen, lambda S, o, r, a, e: p_runlen(S, o, S.ex.as_u(S.st, r), a, e), loops=(LoopSpec(r'.', inv_runlen_, roles={'rl': r'runLength', 'i': r'^i\b'}),), axioms=(ax_pow,), opts=dict(wrap=True))
F('calculate_fanout', r'merge_sorter_base::calculate_fanout\(', s_fanout, lambda S, o, r, a, e: p_fanout(S, o, S.ex.as_u(S.st, r), a, e), hooks=[(r'linear_memory_usage::operator\(\)\(', h_fm)], loops=(LoopSpec(r'.', inv_fanout, roles={'lo': r'fanout_lo', 'hi': r'fanout_hi'}),))
F('run_positions::set_position', r'run_positions::set_position\(', s_setpos, p_setpos, exc=x_setpos, hooks=HP)
F('run_positions::get_position', r'run_positions::get_position\(', s_getpos, p_getpos, exc=x_getpos, hooks=HP)
F('run_positions::next_level', r'run_positions::next_level\(', s_pos, p_next, exc=x_state, hooks=HP)
F('run_positions::final_level', r'run_positions::final_level\(', s_final, p_final, exc=x_state, hooks=HP)
F('open_run_file_write', M + r'open_run_file_write\(', s_open, p_openw, hooks=HF)
F('open_run_file_read', M + r'open_run_file_read\(', s_open, p_openr, hooks=HF)
LEMMAS = [Lemma('run files', lambda: list(_index_lemma()))]


# ------------------------------------------------------------------------------ run formation
MAX = 2 ** 64 - 1


def buffer(S, e):
    """the buffer of the run being formed"""
    sorter(S, e)
    S.assume(e.cnt <= e.rl)
    e.bn, e.bb = mk_array(S, e.t, 'm_currentRunItems', 'items', lo=1)
    e.ic = S.int('m_itemCount', 64, 0, 2 ** 62)
    S.set(e.t, 'm_itemCount', e.ic)


def sort_hook(ex, st, ins, args, dn):
    event(ex, st, 'sort')


def h_empty(ex, st, ins, args, dn):
    """empty_current_run: proved below"""
    S, e = Ctx(ex, st), ex.spec_env
    event(ex, st, 'empty', S.get(e.t, 'm_currentRunItemCount'), S.get(e.t, 'm_finishedRuns'))
    ex.store(st, S.f(e.t, 'm_currentRunItemCount'), VInt(0, 64), ('i', 64))
    ex.store(st, S.f(e.t, 'm_finishedRuns'), VInt(norm(S.get(e.t, 'm_finishedRuns') + 1), 64), ('i', 64))


def s_push(S, e):
    buffer(S, e)
    S.assume(Eq(e.bn, e.rl))
    e.x = S.obj('item', 'param', Struct([(0, Cell(8, 'i'))], 8), 8)
    e.v = S.int('x', 64)
    S.ex.poke(S.st, e.x, VInt(e.v, 64))
    return [e.t, e.x]


def p_push(S, old, r, args, e):
    B, B0 = S.arr(e.bb), old.arr(e.bb)
    full = e.cnt >= e.rl
    ev = [a[0] for a in EV(S)]
    at = If(full, 0, Z(e.cnt))
    return [('a full buffer is sorted and written as a run first', Iff(full, ev == ['sort', 'empty'])), ('otherwise nothing is written', Iff(Not(full), ev == [])), ('the item is stored', Eq(B(at), e.v)),
            ('one more in the buffer', Eq(g(S, e, 'm_currentRunItemCount'), at + 1)), ('one more in all', Eq(g(S, e, 'm_itemCount'), e.ic + 1)),
            ('the items of the run stay', Implies(And(Not(full), 0 <= e.J, e.J < e.cnt), Eq(B(e.J), B0(e.J)))), ('at most a run in the buffer', g(S, e, 'm_currentRunItemCount') <= e.rl)]


def written(ex, st, v):
    n = st.ghost['out']
    ex.poke(st, VPtr(ex.spec_env.out.obj, norm(Z(n) * 8)), VInt(v, 64))
    gset(ex, st, 'out', norm(Z(n) + 1))


def h_write(ex, st, ins, args, dn):
    ex.oblige(st, 'written to the run opened', 'pre', len(EV(Ctx(ex, st), 'openw')) == 1)
    v = ex.load(st, VPtr(args[1].obj, args[1].off), ('i', 64)) if isinstance(args[1], VPtr) else args[1]
    written(ex, st, ex.as_u(st, v))


def h_openw(ex, st, ins, args, dn):
    event(ex, st, 'openw', ex.as_u(st, args[2]), ex.as_u(st, args[3]))


HW = [(r'sort_current_run\(', sort_hook), (r'open_run_file_write\(', h_openw), (r'^tpie::file_stream<unsigned long>::write\(', h_write), (r'^tpie::file_stream<unsigned long>::(file_stream|~file_stream)\(', C10.nop),
      (r'^tpie::compressed_stream_base::~', C10.nop)] + LOGS


def s_empty(S, e):
    buffer(S, e)
    S.assume(e.cnt <= e.bn)
    e.out = garray(S, 'run')
    e.B0 = S.arr(e.bb)
    S.st.ghost['out'] = 0
    return [e.t]


def inv_empty(L):
    e, S = L.e, L.S
    i = L.r['i']
    return [('as many written as taken', And(0 <= i, i <= e.cnt, Eq(S.st.ghost['out'], i), Eq(g(S, e, 'm_currentRunItemCount'), e.cnt), Eq(g(S, e, 'm_finishedRuns'), e.fin))),
            ('in order', Implies(And(0 <= e.J, e.J < i), Eq(S.arr(e.out)(e.J), e.B0(e.J)))), ('the items are there', Implies(And(0 <= e.J, e.J < e.cnt), Eq(S.arr(e.bb)(e.J), e.B0(e.J))))]


def p_empty(S, old, r, args, e):
    ev = EV(S)
    if [a[0] for a in ev] != ['openw']:
        return [('one run is opened', False)]
    return [('the next run of level 0', And(Eq(ev[0][1], 0), Eq(ev[0][2], e.fin))), ('all items', Eq(S.st.ghost['out'], e.cnt)), ('in order', Implies(And(0 <= e.J, e.J < e.cnt), Eq(S.arr(e.out)(e.J), e.B0(e.J)))),
            ('the buffer is empty', Eq(g(S, e, 'm_currentRunItemCount'), 0)), ('one more run', Eq(g(S, e, 'm_finishedRuns'), e.fin + 1))]


# ------------------------------------------------------------------------------ the merger is given its runs
def h_in_new(ex, st, ins, args, dn):
    event(ex, st, 'in', ex.as_u(st, args[1]))
    gset(ex, st, 'in', ex.as_u(st, args[1]))


def h_in_at(ex, st, ins, args, dn):
    i = ex.as_u(st, args[1])
    ex.oblige(st, 'a stream of the array', 'pre', And(0 <= Z(i), Z(i) < Z(st.ghost['in'])))
    return VPtr(ex.spec_env.LV.obj, norm(Z(i) * 8))


def h_openr(ex, st, ins, args, dn):
    e = ex.spec_env
    if not isinstance(args[1], VPtr) or args[1].obj is not e.LV.obj:
        raise Unsupported('a stream the contract does not know')
    for q, v in ((e.LV, args[2]), (e.RN, args[3])):
        ex.poke(st, VPtr(q.obj, args[1].off), VInt(ex.as_u(st, v), 64))


def h_length(ex, st, ins, args, dn):
    """calculate_run_length: proved below"""
    a = [Z(ex.as_u(st, x)) for x in args[-3:]]
    v = POW(*a)
    ex.assume(st, And(0 <= v, v < 2 ** 64))
    return VInt(v, 64)


def h_reset(ex, st, ins, args, dn):
    event(ex, st, 'reset', st.ghost.get('in'), ex.as_u(st, args[2]))


def h_uneva(ex, st, ins, args, dn):
    event(ex, st, 'unevacuate')


def h_init(ex, st, ins, args, dn):
    event(ex, st, 'init', *[ex.as_u(st, a) for a in args[1:4]])


IN = r'^tpie::array<tpie::file_stream<unsigned long>.*::'
HI = [(IN + r'array\(unsigned', h_in_new), (IN + r'operator\[\]', h_in_at), (IN + r'~array', C10.nop), (r'open_run_file_read\(', h_openr), (r'calculate_run_length\(', h_length), (r'^tpie::merger<.*::reset\(tpie::array', h_reset),
      (r'run_positions::unevacuate\(', h_uneva), (r'^tpie::compressed_stream_base::(size|offset)\(', C10.nop), (r'^tpie::allocator<.*(allocator\(|~allocator)', C10.nop)] + LOGS


def inputs(S, e):
    e.LV, e.RN = garray(S, 'level of'), garray(S, 'run of')
    S.st.ghost['in'] = 0


def s_init(S, e):
    sorter(S, e)
    inputs(S, e)
    e.level, e.run, e.count = S.int('level', 64, 0, 2 ** 62), S.int('run', 64, 0, BIG), S.int('count', 64, 0, BIG)
    return [e.t] + [VInt(x, 64) for x in (e.level, e.run, e.count)]


def given(S, e, i, level, run):
    return And(Eq(S.arr(e.LV)(i), level), Eq(S.arr(e.RN)(i), run))


def inv_init(L):
    e, S = L.e, L.S
    i = L.r['i']
    return [('runs opened so far', And(0 <= i, i <= e.count, Eq(S.st.ghost['in'], e.count))), ('in order', Implies(And(0 <= e.J, e.J < i), given(S, e, e.J, e.level, e.run + e.J)))]


def p_init(S, old, r, args, e):
    ev = EV(S, 'reset')
    if len(ev) != 1:
        return [('the merger is given the runs once', False)]
    return [('as many runs as asked for', Eq(ev[0][1], e.count)), ('consecutive runs of the level', Implies(And(0 <= e.J, e.J < e.count), given(S, e, e.J, e.level, e.run + e.J))), ('the length of the runs of the level', Eq(ev[0][2], POW(Z(e.rl), Z(e.fan), Z(e.level))))]


def s_reinit(S, e):
    sorter(S, e)
    inputs(S, e)
    e.level, e.count, e.special = S.int('m_finalMergeLevel', 64, 0, 2 ** 62), S.int('m_finalRunCount', 64, 0, BIG), S.int('m_finalMergeSpecialRunNumber', 64)
    for n, v in (('m_finalMergeLevel', e.level), ('m_finalRunCount', e.count), ('m_finalMergeSpecialRunNumber', e.special)):
        S.set(e.t, n, v)
    S.set(e.t, 'm_evacuated', S.int('evacuated', 8, 0, 2), 8)
    S.set(e.t, 'm_finalMergeInitialized', 1, 8)
    return [e.t]


def inv_reinit(L):
    e, S = L.e, L.S
    i = L.r['i']
    return [('runs opened so far', And(0 <= i, i <= e.ffan - 1, Eq(S.st.ghost['in'], e.ffan))), ('in order', Implies(And(0 <= e.J, e.J < i), given(S, e, e.J, e.level, e.J)))]


def p_reinit(S, old, r, args, e):
    ev, un, ini = EV(S, 'reset'), EV(S, 'unevacuate'), EV(S, 'init')
    out = [('the files are there again', len(un) == 1), ('no longer evacuated', Eq(g(S, e, 'm_evacuated', 8), 0))]
    sp = Ne(e.special, MAX)
    if ini:
        return out + [('no special run', Not(sp)), ('all runs of the final level', And(len(ini) == 1 and not ev, Eq(ini[0][1], e.level), Eq(ini[0][2], 0), Eq(ini[0][3], e.count)))]
    if len(ev) != 1:
        return out + [('the merger is given the runs once', False)]
    return out + [('there is a special run', sp), ('final fanout runs', Eq(ev[0][1], e.ffan)), ('the runs before it', Implies(And(0 <= e.J, e.J < e.ffan - 1), given(S, e, e.J, e.level, e.J))), ('the special run last', given(S, e, e.ffan - 1, e.level + 1, e.special)),
                  ('the length of the runs of the level above', Eq(ev[0][2], POW(Z(e.rl), Z(e.fan), Z(e.level) + 1)))]


# ------------------------------------------------------------------------------ one merge, and the order of merges
def h_mcan(ex, st, ins, args, dn):
    return VBool(Z(st.ghost['mp']) < Z(ex.spec_env.mn))


def h_mpull(ex, st, ins, args, dn):
    p = st.ghost['mp']
    ex.oblige(st, 'pull: an item is left', 'pre', Z(p) < Z(ex.spec_env.mn))
    gset(ex, st, 'mp', norm(Z(p) + 1))
    v = Ctx(ex, st).arr(ex.spec_env.merged)(norm(p))
    ex.assume(st, And(0 <= v, v < 2 ** 64))
    return VInt(v, 64)


def s_mruns(S, e):
    sorter(S, e)
    e.level, e.run, e.count = S.int('level', 64, 0, 2 ** 62), S.int('run', 64, 0, BIG), S.int('count', 64, 0, BIG)
    e.out, e.merged, e.mn = garray(S, 'run'), garray(S, 'merged'), S.int('merged items', 64, 0, BIG)
    S.st.ghost.update(out=0, mp=0)
    return [e.t] + [VInt(x, 64) for x in (e.level, e.run, e.count)] + [S.obj('pi', 'param', Struct([(0, Cell(8, 'i'))], 8), 8)]


def inv_mruns(L):
    e, S = L.e, L.S
    n = S.st.ghost['out']
    return [('as many written as pulled', And(0 <= Z(n), Z(n) <= e.mn, Eq(n, S.st.ghost['mp']))), ('in order', Implies(And(0 <= e.J, e.J < Z(n)), Eq(S.arr(e.out)(e.J), S.arr(e.merged)(e.J))))]


def p_mruns(S, old, r, args, e):
    ev, w = EV(S, 'init'), EV(S, 'openw')
    if len(ev) != 1 or len(w) != 1 or EV(S)[0] is not ev[0]:
        return [('the runs are opened and then the run written', False)]
    nxt = UDIV(S, e.run, e.fan)
    return [('the runs asked for', And(Eq(ev[0][1], e.level), Eq(ev[0][2], e.run), Eq(ev[0][3], e.count))), ('to the run of the next level', And(Eq(w[0][1], e.level + 1), Eq(w[0][2], nxt), Eq(r, nxt))), ('all that is merged', Eq(S.st.ghost['out'], e.mn)),
            ('in the order of the merge', Implies(And(0 <= e.J, e.J < e.mn), Eq(S.arr(e.out)(e.J), S.arr(e.merged)(e.J))))]


def h_nl(ex, st, ins, args, dn):
    event(ex, st, 'next_level')


def h_fl(ex, st, ins, args, dn):
    event(ex, st, 'final_level', ex.as_u(st, args[1]))


def h_mr(ex, st, ins, args, dn):
    S = Ctx(ex, st)
    event(ex, st, 'merge', *[ex.as_u(st, a) for a in args[1:4]])
    return VInt(UDIV(S, ex.as_u(st, args[2]), ex.spec_env.fan), 64)


def h_ri(ex, st, ins, args, dn):
    S, e = Ctx(ex, st), ex.spec_env
    event(ex, st, 'reinit', *[S.get(e.t, n) for n in ('m_finalMergeLevel', 'm_finalRunCount', 'm_finalMergeSpecialRunNumber')])


def s_final_init(S, e):
    sorter(S, e)
    e.level, e.count = S.int('level', 64, 0, 2 ** 62), S.int('count', 64, 0, BIG)
    S.assume(e.count <= e.fan)
    e.was = S.int('initialized', 8, 0, 2)
    S.set(e.t, 'm_finalMergeInitialized', e.was, 8)
    return [e.t, VInt(e.level, 64), VInt(e.count, 64)]


def p_final_init(S, old, r, args, e):
    kinds = [a[0] for a in EV(S)]
    if kinds == ['reinit']:
        return [('only the second time', Eq(e.was, 1))]
    out = [('the first time', Eq(e.was, 0)), ('the positions of the final level are read before any merge', kinds in (['next_level', 'final_level', 'reinit'], ['next_level', 'final_level', 'merge', 'reinit'])), ('initialised', Eq(g(S, e, 'm_finalMergeInitialized', 8), 1))]
    if not out[1][1]:
        return out
    f, ri = EV(S, 'final_level')[0], EV(S, 'reinit')[0]
    out += [('all positions of a merge', Eq(f[1], e.fan)), ('the level and its number of runs', And(Eq(ri[1], e.level), Eq(ri[2], e.count)))]
    m = EV(S, 'merge')
    if not m:
        return out + [('they can be merged at once', e.count <= e.ffan), ('no special run', Eq(ri[3], MAX))]
    return out + [('too many to merge at once', e.count > e.ffan), ('the last runs of the level are merged to one', And(Eq(m[0][1], e.level), Eq(m[0][2], e.ffan - 1), Eq(m[0][2] + m[0][3], e.count))), ('the special run', Eq(ri[3], UDIV(S, e.ffan - 1, e.fan))), ('and not none', Ne(ri[3], MAX))]


def s_prepare(S, e):
    sorter(S, e)
    S.assume(e.fin >= 1)
    S.st.ghost.update(L=-1, tot=0, rd=0, made=e.fin, final=False)
    S.set(e.t, 'm_itemCount', S.int('m_itemCount', 64, 0, 2 ** 62))
    return [e.t, S.obj('pi', 'param', Struct([(0, Cell(8, 'i'))], 8), 8)]


def h_p_nl(ex, st, ins, args, dn):
    g_ = st.ghost
    ex.oblige(st, 'next_level: every run of the level read so far was merged', 'pre', Eq(g_['rd'], g_['tot']))
    gset(ex, st, 'tot', g_['made'])
    gset(ex, st, 'rd', 0)
    gset(ex, st, 'made', 0)
    gset(ex, st, 'L', norm(Z(g_['L']) + 1))


def h_p_mr(ex, st, ins, args, dn):
    g_, e, S = st.ghost, ex.spec_env, Ctx(ex, st)
    lv, rn, n = [Z(ex.as_u(st, a)) for a in args[1:4]]
    ex.oblige(st, 'merge_runs: of the level being read', 'pre', Eq(lv, g_['L']))
    ex.oblige(st, 'merge_runs: the next runs not yet merged', 'pre', Eq(rn, g_['rd']))
    ex.oblige(st, 'merge_runs: at most fanout runs, all there', 'pre', And(1 <= n, n <= e.fan, rn + n <= Z(g_['tot'])))
    ex.oblige(st, 'merge_runs: fewer only at the end', 'pre', Or(Eq(n, e.fan), Eq(rn + n, g_['tot'])))
    ex.oblige(st, 'merge_runs: to the next run of the level above', 'pre', Eq(rn, MUL(S, g_['made'], e.fan)))
    gset(ex, st, 'rd', norm(rn + n))
    gset(ex, st, 'made', norm(Z(g_['made']) + 1))
    return VInt(S.fresh('nextRun'), 64)


def h_p_fin(ex, st, ins, args, dn):
    g_, e = st.ghost, ex.spec_env
    lv, n = [Z(ex.as_u(st, a)) for a in args[1:3]]
    ex.oblige(st, 'final merge: every run of the level below was merged', 'pre', Eq(g_['rd'], g_['tot']))
    ex.oblige(st, 'final merge: the top level with all its runs', 'pre', And(Eq(lv, Z(g_['L']) + 1), Eq(n, g_['made']), 1 <= n, n <= e.fan))
    event(ex, st, 'final')


def inv_levels(L):
    e, S = L.e, L.S
    h = S.st.ghost
    ml, rc = L.r['ml'], L.r['rc']
    return [('the level written last is complete', And(Eq(h['rd'], h['tot']), Eq(Z(h['L']) + 1, ml), Eq(h['made'], rc), 1 <= rc, rc <= BIG, 0 <= ml, ml + rc <= e.fin, 0 <= Z(h['tot']), Z(h['tot']) <= BIG))]


def inv_groups(L):
    e, S = L.e, L.S
    h = S.st.ghost
    i, nw = L.r['i'], L.r['nw']
    rc = Z(h['tot'])
    m = MUL(S, nw, e.fan)
    return [('the level being read', And(Eq(h['made'], nw), 0 <= nw, e.fan < rc, rc <= BIG, 0 <= Z(h['L']), Z(h['L']) + rc <= e.fin)), ('the next group starts at a multiple of fanout', And(Eq(i, m), 0 <= i, i <= rc + e.fan)),
            ('the runs before it are merged', Eq(h['rd'], If(i < rc, i, rc))), ('fewer runs above', And(Implies(i >= 1, nw >= 1), 2 * nw <= i, Implies(nw >= 1, i - e.fan < rc)))]


def p_prepare(S, old, r, args, e):
    return [('the final merge is set up', len(EV(S, 'final')) == 1), ('reporting', Eq(g(S, e, 'm_state', 32), 3))]


def h_float(ex, st, ins, args, dn):
    """logarithms: only progress is computed from them"""
    import sym
    return sym.VFp(z3.FreshConst(sym.FP))


def ax_groups(fan):
    def f(texts):
        out = []
        for m in terms(texts, MULF)[0]:
            for k in (0, 1):
                a, b = m.arg(k), m.arg(1 - k)
                out += [z3.Implies(z3.And(a == W(fan), b == 0), m == 0)]
                out += [z3.Implies(z3.And(a == W(fan), b >= 0), m >= 2 * b)]
                for n in terms(texts, MULF)[0]:
                    for l in (0, 1):
                        c, d = n.arg(l), n.arg(1 - l)
                        out += [z3.Implies(z3.And(a == W(fan), c == a, d == b + 1), n == m + a)]
        return out
    f.ground = True
    return f


HM = [(r'::initialize_merger\(', h_init), (r'^tpie::merger<.*::can_pull\(', h_mcan), (r'^tpie::merger<.*::pull\(', h_mpull)] + HW
HFI = [(r'run_positions::next_level\(', h_nl), (r'run_positions::final_level\(', h_fl), (r'::merge_runs<', h_mr), (r'reinitialize_final_merger\(', h_ri)] + LOGS
HPP = [(r'run_positions::next_level\(', h_p_nl), (r'::merge_runs<', h_p_mr), (r'initialize_final_merger\(', h_p_fin), (r'run_positions::unevacuate\(', h_uneva), (r'^(ceil|log)f?$|^std::(ceil|log)', h_float)] + LOGS
F('push copy', M + r'push\(unsigned long const&\)', s_push, p_push, hooks=[(r'empty_current_run\(', h_empty)] + HW)
F('push move', M + r'push\(unsigned long&&\)', s_push, p_push, hooks=[(r'empty_current_run\(', h_empty)] + HW)
F('empty_current_run', M + r'empty_current_run\(', s_empty, p_empty, hooks=HW, loops=(LoopSpec(r'.', inv_empty, roles={'i': r'^i\b'}),))
F('initialize_merger', M + r'initialize_merger\(', s_init, p_init, hooks=HI, loops=(LoopSpec(r'.', inv_init, roles={'i': r'^i\b'}),))
F('reinitialize_final_merger', M + r'reinitialize_final_merger\(', s_reinit, p_reinit, hooks=[(r'::initialize_merger\(', h_init)] + HI, loops=(LoopSpec(r'.', inv_reinit, roles={'i': r'^i\b'}),))
F('merge_runs', M + r'merge_runs<', s_mruns, lambda S, o, r, a, e: p_mruns(S, o, S.ex.as_u(S.st, r), a, e), hooks=HM, loops=(LoopSpec(r'.', inv_mruns, roles={}),))
F('initialize_final_merger', M + r'initialize_final_merger\(', s_final_init, p_final_init, hooks=HFI)
F('prepare_pull', M + r'prepare_pull\(', s_prepare, p_prepare, hooks=HPP, loops=(LoopSpec(r'prepare_pull', inv_levels, roles={'ml': r'mergeLevel', 'rc': r'runCount'}, nth=0), LoopSpec(r'prepare_pull', inv_groups, roles={'i': r'^i\b', 'nw': r'newRunCount'}, nth=1)), opts=dict(wrap=True), axioms=(ax_groups(z3.Int('p.fanout')),))


# ------------------------------------------------------------------------------ reporting
def h_psort(ex, st, ins, args, dn):
    """parallel_sort of [begin, end): checked by the driver only"""
    event(ex, st, 'range', args[0], args[1])


def s_sortrun(S, e):
    buffer(S, e)
    S.assume(e.cnt <= e.bn)
    return [e.t]


def p_sortrun(S, old, r, args, e):
    ev = EV(S, 'range')
    if len(ev) != 1:
        return [('sorted once', False)]
    a, b = ev[0][1:]
    return [('exactly the items of the run', And(a.obj is e.bb.obj, b.obj is e.bb.obj, Eq(a.off, 0), Eq(b.off, e.cnt * 8)))]


def h_mcan2(ex, st, ins, args, dn):
    event(ex, st, 'mcan')
    return VBool(Z(st.ghost['mp']) < Z(ex.spec_env.mn))


def h_reini(ex, st, ins, args, dn):
    S, e = Ctx(ex, st), ex.spec_env
    event(ex, st, 'reinit')
    ex.store(st, S.f(e.t, 'm_evacuated'), VInt(0, 8), ('i', 8))
    gset(ex, st, 'mp', 0)


def h_close(ex, st, ins, args, dn):
    event(ex, st, 'close')


def h_resize0(ex, st, ins, args, dn):
    """array::resize (C01): to nothing"""
    S, e = Ctx(ex, st), ex.spec_env
    if not is0(ex, st, args[1]):
        raise Unsupported('resized to another size')
    ex.oblige(st, 'the buffer is given up only when all of it is reported', 'pre', S.get(e.t, 'm_itemsPulled') >= S.get(e.t, 'm_currentRunItemCount'))
    event(ex, st, 'emptied')


HR = [(r'reinitialize_final_merger\(', h_reini), (r'^tpie::merger<.*::can_pull\(', h_mcan2), (r'^tpie::merger<.*::pull\(', h_mpull), (r'run_positions::close\(', h_close), (r'^tpie::array<unsigned long.*::resize\(', h_resize0)] + LOGS


def s_report(S, e):
    buffer(S, e)
    S.assume(e.cnt <= e.bn)
    e.internal, e.eva = S.int('m_reportInternal', 8, 0, 2), S.int('m_evacuated', 8, 0, 2)
    S.set(e.t, 'm_reportInternal', e.internal, 8)
    S.set(e.t, 'm_evacuated', e.eva, 8)
    e.pulled = S.int('m_itemsPulled', 64, 0, BIG)
    S.assume(e.pulled <= e.cnt)
    S.set(e.t, 'm_itemsPulled', e.pulled)
    e.merged, e.mn, mp = garray(S, 'merged'), S.int('merged items', 64, 0, BIG), S.int('merged so far', 64, 0, BIG)
    S.assume(mp <= e.mn)
    S.st.ghost['mp'] = mp
    e.mp = mp
    return [e.t]


def s_pull(S, e):
    a = s_report(S, e)
    S.assume(If(Eq(e.internal, 1), e.pulled < e.cnt, If(Eq(e.eva, 1), 0, Z(e.mp)) < e.mn))
    return a


def p_can(S, old, r, args, e):
    re = Eq(e.eva, 1)
    return [('internal: items of the buffer are left', Implies(Eq(e.internal, 1), Iff(r, e.pulled < e.cnt))), ('external: items of the merge are left', Implies(Ne(e.internal, 1), Iff(r, If(re, 0, Z(e.mp)) < e.mn))),
            ('an evacuated merge is set up again first', Implies(Ne(e.internal, 1), Iff(re, [a[0] for a in EV(S)][:1] == ['reinit'])))]


def p_pull(S, old, r, args, e):
    B, M_ = old.arr(e.bb), S.arr(e.merged)
    p0 = If(Eq(e.eva, 1), 0, Z(e.mp))
    kinds = [a[0] for a in EV(S)]
    return [('internal: the next item of the buffer', Implies(Eq(e.internal, 1), And(Eq(r, B(e.pulled)), Eq(g(S, e, 'm_itemsPulled'), e.pulled + 1), Eq(S.st.ghost['mp'], e.mp)))),
            ('internal: the rest stays', Implies(And(Eq(e.internal, 1), e.pulled < e.J, e.J < e.cnt), And('emptied' not in kinds, Eq(S.arr(e.bb)(e.J), B(e.J))))),
            ('external: the next item of the merge', Implies(Ne(e.internal, 1), And(Eq(r, M_(norm(p0))), Eq(S.st.ghost['mp'], p0 + 1)))), ('an evacuated merge is set up again first', Implies(Ne(e.internal, 1), Iff(Eq(e.eva, 1), kinds[:1] == ['reinit'])))]


def result(p):
    def q(S, old, r, args, e):
        return p(S, old, r.e if isinstance(r, VBool) else S.ex.as_u(S.st, r), args, e)
    return q


F('sort_current_run', M + r'sort_current_run\(', s_sortrun, p_sortrun, hooks=[(r'parallel_sort', h_psort)] + LOGS)
F('can_pull', M + r'can_pull\(', s_report, result(p_can), hooks=HR)
F('pull', M + r'pull\(', s_pull, result(p_pull), hooks=HR)
BOUNDED = [('merger (the heap over the runs), parallel_sort, begin/end/evacuate, parameter calculation, run files on disk and the serialization sorter: the driver', 'sorter driver: up to a few thousand items, memory limits that give 1 to 30 runs and up to three merge levels, pseudo-random and adversarial orders, evacuation at every point, stated seeds')]
ASSUME = ['file_stream keeps what is written and set_position/get_position address it (C11/C12); temp_file (C16), array (C01) and the internal heap (C06) by their contracts', 'the merger yields the union of its runs in order (driver only; the same heap merge is proved for merge_sorted_runs in C27)',
          'logging and progress have no effect on the data; logarithms are used for progress only', 'run counts up to 2^40, run length times fanout to the level is computed modulo 2^64 as in the code']
