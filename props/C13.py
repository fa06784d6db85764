"""Stream files reopen with the same contents and user data; bad headers are rejected."""
from lib import *
from oslib import *

ID = 'C13'
TU = 'files'
HARNESS = 'files'
SCENARIOS = ['reopen', 'headers', 'bytes', 'blocks']
STANDIN_SECS = 20
KEEP = [r'^std::', r'throw_errno'] + FAKEEP
SA = '_ZTSN4tpie13file_accessor15stream_accessorINS0_5posixEEE'
BA = '_ZTSN4tpie13file_accessor20byte_stream_accessorINS0_5posixEEE'
HK = FA + MM + STR
MAGIC, VERSION = 0x521cbe927dd6056a, 4
NUM = ['m_size', 'm_userDataSize', 'm_maxUserDataSize', 'm_itemSize', 'm_blockSize', 'm_blockItems', 'm_lastBlockReadOffset']


def acc(S, env, cls=SA, opened=True, write=None):
    fa_setup(S, env, exists=z3.Bool('exists'))
    a = S.obj('a', cls=cls)
    env.a = a
    if opened:
        S.st.ghost['fopen'] = True
    S.set(a, 'm_open', 1 if opened else 0, 8)
    env.write = z3.Bool('write') if write is None else write
    S.set(a, 'm_write', If(env.write, 1, 0), 8)
    lim = {'m_size': 2 ** 50, 'm_userDataSize': 2 ** 40, 'm_maxUserDataSize': 2 ** 40, 'm_itemSize': 2 ** 32, 'm_blockSize': 2 ** 32, 'm_blockItems': 2 ** 32, 'm_lastBlockReadOffset': 2 ** 64}
    env.f = {}
    for n in NUM:
        env.f[n] = S.int(n, 64, 0, lim[n])
        S.set(a, n, env.f[n])
    env.comp = z3.Bool('compressed')
    S.set(a, 'm_useCompression', If(env.comp, 1, 0), 8)
    f = env.f
    if opened:
        S.assume(f['m_itemSize'] >= 1, f['m_itemSize'] <= f['m_blockSize'], f['m_blockItems'] >= 1,
                 MUL(S, f['m_blockItems'], f['m_itemSize']) <= f['m_blockSize'], f['m_userDataSize'] <= f['m_maxUserDataSize'])
    env.hs = hsize(env, f['m_maxUserDataSize'])
    return a


def hsize(env, mx):
    """size of header and user data, rounded up to a 4096 byte boundary"""
    return (env.hsize + mx + 4095) / 4096 * 4096


def g(S, k):
    return S.st.ghost[k]


def m(S, env, n):
    return S.get(env.a, n)


def flag(S, env, n):
    return Ne(S.get(env.a, n, 8), 0)


def same_fields(S, env, but=()):
    return And([Eq(m(S, env, n), env.f[n]) for n in NUM if n not in but])


def bytes_same(S, old, env, lo=None, hi=None):
    """bytes after the header unchanged (outside [lo,hi) if given)"""
    i = z3.Int('i')
    c = True if lo is None else Or(i < lo, i >= hi)
    return Implies(And(0 <= i, c), Eq(fbytes(S, env)(i), fbytes(old, env)(i)))


HF = ['magic', 'version', 'itemSize', 'blockSize', 'userDataSize', 'maxUserDataSize', 'size', 'flags', 'lastBlockReadOffset']


def hdr_same(S, old, env):
    return And([Eq(hdr(S, env, n), hdr(old, env, n)) for n in HF])


def hdr_is(S, env, clean):
    """the header in the file describes the accessor"""
    fl = hdr(S, env, 'flags')
    return And(Eq(hdr(S, env, 'magic'), MAGIC), Eq(hdr(S, env, 'version'), VERSION), Eq(hdr(S, env, 'itemSize'), m(S, env, 'm_itemSize')),
               Eq(hdr(S, env, 'blockSize'), m(S, env, 'm_blockSize')), Eq(hdr(S, env, 'userDataSize'), m(S, env, 'm_userDataSize')),
               Eq(hdr(S, env, 'maxUserDataSize'), m(S, env, 'm_maxUserDataSize')), Eq(hdr(S, env, 'size'), m(S, env, 'm_size')),
               Eq(hdr(S, env, 'lastBlockReadOffset'), m(S, env, 'm_lastBlockReadOffset')),
               Eq(Z(fl) % 2, 1 if clean else 0), Iff(Eq(Z(fl) / 2 % 2, 1), flag(S, env, 'm_useCompression')))


def valid(S, env, isz, bsz):
    return And(Eq(hdr(S, env, 'magic'), MAGIC), Eq(hdr(S, env, 'version'), VERSION), Eq(hdr(S, env, 'itemSize'), isz), Eq(hdr(S, env, 'blockSize'), bsz),
               hdr(S, env, 'userDataSize') <= hdr(S, env, 'maxUserDataSize'), Eq(Z(hdr(S, env, 'flags')) % 2, 1))


def s_open(S, env):
    a = acc(S, env, opened=False)
    env.isz = S.int('itemSize', 64, 1, 2 ** 32)
    env.bsz = S.int('blockSize', 64, 1, 2 ** 32)
    env.mud = S.int('maxUserData', 64, 0, 2 ** 40)
    S.assume(env.isz <= env.bsz)
    env.cf = S.int('compressionFlags', 32, 0, 2 ** 31)
    r, w = env.case
    p = S.obj('path', 'param', None, None)
    return [a, p, VBool(bool(r)), VBool(bool(w)), VInt(env.isz, 64), VInt(env.bsz, 64), VInt(env.mud, 64), VInt(env.cf, 32)]


def existing(S, env):
    r, w = env.case
    return False if (w and not r) else (True if not w else S.st.ghost['exists'])


def post_open(S, old, r, args, env):
    rd, wr = env.case
    if not rd and not wr:
        return [('an open for neither reading nor writing is refused', False)]
    ex_ = existing(S, env)
    new = And([Eq(m(S, env, 'm_size'), 0), Eq(m(S, env, 'm_userDataSize'), 0), Eq(m(S, env, 'm_maxUserDataSize'), env.mud),
               Iff(flag(S, env, 'm_useCompression'), Ne(env.cf, 0)), Eq(m(S, env, 'm_lastBlockReadOffset'), 2 ** 64 - 1), hdr_is(S, env, False)])
    h = lambda n: hdr(old, env, n)
    olds = And([Eq(m(S, env, 'm_size'), h('size')), Eq(m(S, env, 'm_userDataSize'), h('userDataSize')), Eq(m(S, env, 'm_maxUserDataSize'), h('maxUserDataSize')),
                Eq(m(S, env, 'm_lastBlockReadOffset'), h('lastBlockReadOffset')), Iff(flag(S, env, 'm_useCompression'), Eq(Z(h('flags')) / 2 % 2, 1))])
    out = [('the file is open', And(S.st.ghost['fopen'], flag(S, env, 'm_open'), Iff(flag(S, env, 'm_write'), bool(wr)))),
           ('item and block size', And(Eq(m(S, env, 'm_itemSize'), env.isz), Eq(m(S, env, 'm_blockSize'), env.bsz), Eq(m(S, env, 'm_blockItems'), UDIV(S, env.bsz, env.isz)))),
           ('a new stream is empty and described by its header', Implies(Not(ex_), new)),
           ('an existing stream has the stored size, user data and layout', Implies(ex_, olds)),
           ('only a valid stream of this item and block size is opened', Implies(ex_, valid(old, env, env.isz, env.bsz))),
           ('items and user data are untouched', Implies(ex_, bytes_same(S, old, env)))]
    if wr:
        out.append(('a stream open for writing is marked as not cleanly closed', Implies(ex_, hdr_is(S, env, False))))
        out.append(('room for the user data asked for', m(S, env, 'm_maxUserDataSize') >= env.mud))
    else:
        out.append(('a read-only stream is untouched', hdr_same(S, old, env)))
    return out


def exc_open(S, old, r, args, env):
    rd, wr = env.case
    ex_ = existing(S, env) if (rd or wr) else False
    small = And(bool(wr), Implies(ex_, hdr(old, env, 'maxUserDataSize') < env.mud), ex_)
    return [('a refused open leaves no file open', Or(Not(S.st.ghost['fopen']), S.st.ghost.get('os_failed', False))),
            ('a valid stream is not refused', Or(bool(S.st.ghost.get('os_failed')), not (rd or wr), And(ex_, Not(valid(old, env, env.isz, env.bsz))), small))]


def s_close(S, env):
    o, w = env.case
    return [acc(S, env, opened=o, write=w)]


def post_close(S, old, r, args, env):
    o, w = env.case
    out = [('the file is closed', And(Not(S.st.ghost['fopen']), Not(flag(S, env, 'm_open')))), ('items and user data are untouched', bytes_same(S, old, env)), ('the accessor keeps its description', same_fields(S, env))]
    if o and w:
        out.append(('the header describes the stream, cleanly closed', hdr_is(S, env, True)))
    else:
        out.append(('the header is untouched', hdr_same(S, old, env)))
    return out


def exc_os(S, old, r, args, env):
    return [('only after an error of the operating system', bool(S.st.ghost.get('os_failed'))), ('the accessor keeps its description', same_fields(S, env))]


def exc_close(S, old, r, args, env):
    return exc_os(S, old, r, args, env) + [('the stream is marked open exactly while its file is open', Iff(S.st.ghost['fopen'], flag(S, env, 'm_open')))]


def s_block(S, env):
    a = acc(S, env)
    f = env.f
    env.b = S.int('block', 64, 0, 2 ** 32)
    env.n = S.int('items', 64, 0, 2 ** 32)
    S.assume(env.n <= f['m_blockItems'])
    env.bytes = MUL(S, env.n, f['m_itemSize'])
    env.first = MUL(S, env.b, f['m_blockItems'])
    env.at = MUL(S, env.b, f['m_blockSize'])
    S.assume(0 <= env.first, env.first <= f['m_size'] if env.rd else True, env.first < 2 ** 60)
    S.assume(0 <= env.at, env.at < 2 ** 60, 0 <= env.bytes, env.bytes <= f['m_blockSize'])
    cap = S.int('bufsize', 64, 0, 2 ** 40)
    S.assume(cap >= env.bytes)
    env.buf = S.heap('data', Cell(1, 'i'), cap, False, kind='param')
    env.loc = env.hs + env.at - env.hsize
    return [a, env.buf, VInt(env.b, 64), VInt(env.n, 64)]


def s_rblock(S, env):
    env.rd = True
    r = s_block(S, env)
    f = env.f
    left = f['m_size'] - env.first
    env.want = If(env.n > left, left, env.n)
    env.wb = If(env.n > left, MUL(S, left, f['m_itemSize']), env.bytes)
    # monotonicity of the product: fewer items need no more bytes
    S.assume(0 <= env.wb, env.wb <= env.bytes)
    return r


def s_wblock(S, env):
    env.rd = False
    return s_block(S, env)


def post_rblock(S, old, r, args, env):
    f, d = fbytes(old, env), S.arr(env.buf, 0, 1)
    i = z3.Int('i')
    return [('exactly the items of the block inside the stream are read', Eq(S.ex.as_u(S.st, r), env.want)),
            ('the items are those at the place of the block', Implies(And(0 <= i, i < env.wb), Eq(d(i), f(env.loc + i)))),
            ('nothing beyond them is overwritten', Implies(And(i >= env.wb), Eq(d(i), old.arr(env.buf, 0, 1)(i)))),
            ('the file and the description are untouched', And(same_fields(S, env), bytes_same(S, old, env), hdr_same(S, old, env)))]


def post_wblock(S, old, r, args, env):
    f, f0, d = fbytes(S, env), fbytes(old, env), old.arr(env.buf, 0, 1)
    i = z3.Int('i')
    end = env.first + env.n
    return [('the items are stored at the place of the block and nothing else changes',
             Implies(i >= 0, Eq(f(i), If(And(env.loc <= i, i < env.loc + env.bytes), d(i - env.loc), f0(i))))),
            ('the stream grows to hold them', Eq(m(S, env, 'm_size'), If(end > env.f['m_size'], end, env.f['m_size']))),
            ('the place of a block lies beyond header and user data', env.loc >= env.f['m_maxUserDataSize']),
            ('the description is untouched', And(same_fields(S, env, ('m_size',)), hdr_same(S, old, env)))]


def s_ud(S, env):
    a = acc(S, env)
    env.n = S.int('count', 64, 0, 2 ** 41)
    env.buf = S.heap('data', Cell(1, 'i'), env.n, False, kind='param')
    return [a, env.buf, VInt(env.n, 64)]


def post_rud(S, old, r, args, env):
    k = If(env.n > env.f['m_userDataSize'], env.f['m_userDataSize'], env.n)
    i = z3.Int('i')
    return [('as many bytes as are stored and fit', Eq(S.ex.as_u(S.st, r), k)),
            ('exactly the stored user data', Implies(And(0 <= i, i < k), Eq(S.arr(env.buf, 0, 1)(i), fbytes(old, env)(i)))),
            ('nothing beyond it is overwritten', Implies(i >= k, Eq(S.arr(env.buf, 0, 1)(i), old.arr(env.buf, 0, 1)(i)))),
            ('the file and the description are untouched', And(same_fields(S, env), bytes_same(S, old, env), hdr_same(S, old, env)))]


def post_wud(S, old, r, args, env):
    i = z3.Int('i')
    return [('only user data within the declared limit is accepted', env.n <= env.f['m_maxUserDataSize']),
            ('the user data is stored and no item changes', Implies(i >= 0, Eq(fbytes(S, env)(i), If(i < env.n, old.arr(env.buf, 0, 1)(i), fbytes(old, env)(i))))),
            ('its size is the count given', Eq(m(S, env, 'm_userDataSize'), env.n)),
            ('the description is untouched', And(same_fields(S, env, ('m_userDataSize',)), hdr_same(S, old, env)))]


def exc_wud(S, old, r, args, env):
    return [('refused only beyond the limit or on an error', Or(bool(S.st.ghost.get('os_failed')), env.n > env.f['m_maxUserDataSize'])), ('the description is untouched', same_fields(S, env))]


def s_trunc(S, env):
    a = acc(S, env)
    env.n = S.int('newsize', 64, 0, 2 ** 50)
    f = env.f
    env.e1 = MUL(S, UDIV(S, env.n, f['m_blockItems']), f['m_blockSize'])
    env.e2 = MUL(S, UMOD(S, env.n, f['m_blockItems']), f['m_itemSize'])
    S.assume(0 <= env.e1, env.e1 < 2 ** 60, 0 <= env.e2, env.e2 < 2 ** 60)
    return [a, VInt(env.n, 64)]


def post_trunc(S, old, r, args, env):
    f = env.f
    i = z3.Int('i')
    end = env.hs + env.e1 + env.e2
    return [('the size is the one given', Eq(m(S, env, 'm_size'), env.n)),
            ('the file ends right after the last item', Eq(g(S, 'fsize'), end)),
            ('everything before the end is kept', Implies(And(0 <= i, i < end - env.hsize), Or(Eq(fbytes(S, env)(i), fbytes(old, env)(i)), i >= env.fsize - env.hsize))),
            ('the description is untouched', And(same_fields(S, env, ('m_size',)), hdr_same(S, old, env)))]


def exc_trunc(S, old, r, args, env):
    return [('refused only for a compressed stream or on an error', Or(bool(S.st.ghost.get('os_failed')), And(env.comp, env.n != 0))), ('the description is untouched', same_fields(S, env))]


def s_get(S, env):
    return [acc(S, env)]


def getter(n):
    return lambda S, o, r, a, e: [('returns ' + n, Eq(S.ex.as_u(S.st, r), e.f[n]))]


def s_bs(S, env):
    a = acc(S, env)
    f = env.f
    env.e1 = MUL(S, UDIV(S, f['m_size'] + f['m_blockItems'] - 1, f['m_blockItems']), f['m_blockSize'])
    S.assume(0 <= env.e1, env.e1 < 2 ** 60)
    return [a]


def post_bs(S, old, r, args, env):
    f = env.f
    return [('whole blocks plus the header', Eq(S.ex.as_u(S.st, r), env.e1 + env.hs))]


# ---- byte streams
def s_b(S, env):
    a = acc(S, env, cls=BA)
    env.off = S.int('offset', 64, 0, 2 ** 60)
    env.n = S.int('count', 64, 0, 2 ** 60)
    env.buf = S.heap('data', Cell(1, 'i'), env.n, False, kind='param')
    S.assume(env.fsize < 2 ** 60)
    env.len = If(env.fsize > env.hs, env.fsize - env.hs, 0)
    env.base = env.hs - env.hsize
    return [a, VInt(env.off, 64), env.buf, VInt(env.n, 64)]


def s_bread(S, env):
    r = s_b(S, env)
    S.assume(env.off <= env.len)
    return r


def post_bread(S, old, r, args, env):
    k = If(env.off + env.n > env.len, env.len - env.off, env.n)
    i = z3.Int('i')
    return [('as many bytes as the stream holds from there', Eq(S.ex.as_u(S.st, r), k)),
            ('exactly those bytes', Implies(And(0 <= i, i < k), Eq(S.arr(env.buf, 0, 1)(i), fbytes(old, env)(env.base + env.off + i)))),
            ('the file and the description are untouched', And(same_fields(S, env), bytes_same(S, old, env), hdr_same(S, old, env)))]


def post_bwrite(at):
    def post(S, old, r, args, env):
        p = env.base + at(env)
        i = z3.Int('i')
        end = p + env.n + env.hsize
        return [('the bytes are stored at their place and nothing else changes',
                 Implies(i >= 0, Eq(fbytes(S, env)(i), If(And(p <= i, i < p + env.n), old.arr(env.buf, 0, 1)(i - p), fbytes(old, env)(i))))),
                ('the file grows to hold them', Eq(g(S, 'fsize'), If(And(env.n > 0, end > env.fsize), end, env.fsize))),
                ('header and description are untouched', And(same_fields(S, env), hdr_same(S, old, env)))]
    return post


def s_bappend(S, env):
    a, o, b, n = s_b(S, env)
    return [a, b, n]


def s_btrunc(S, env):
    a, o, b, n = s_b(S, env)
    return [a, n]


def post_btrunc(S, old, r, args, env):
    i = z3.Int('i')
    return [('the stream has exactly the length given', Eq(g(S, 'fsize'), env.hs + env.n)),
            ('the bytes kept are unchanged', Implies(And(0 <= i, i < env.n, i < env.len), Eq(fbytes(S, env)(env.base + i), fbytes(old, env)(env.base + i)))),
            ('the description is untouched', And(same_fields(S, env), hdr_same(S, old, env)))]


def s_ba(S, env):
    return s_b(S, env)[:1]


FNS = [
    FnSpec('open', r'\bvp_sopen\(', s_open, post_open, exc=exc_open, hooks=HK, cases=((1, 0), (0, 1), (1, 1), (0, 0)), opts={'no_return_ok': True}),
    FnSpec('close', r'\bvp_sclose\(', s_close, post_close, exc=exc_close, hooks=HK, cases=((True, True), (True, False), (False, True))),
    FnSpec('read_block', r'\bvp_rblock\(', s_rblock, post_rblock, exc=exc_os, hooks=HK),
    FnSpec('write_block', r'\bvp_wblock\(', s_wblock, post_wblock, exc=exc_os, hooks=HK),
    FnSpec('read_user_data', r'\bvp_rud\(', s_ud, post_rud, exc=exc_os, hooks=HK),
    FnSpec('write_user_data', r'\bvp_wud\(', s_ud, post_wud, exc=exc_wud, hooks=HK),
    FnSpec('truncate', r'\bvp_strunc\(', s_trunc, post_trunc, exc=exc_trunc, hooks=HK),
    FnSpec('byte_size', r'\bvp_bsize\(', s_bs, post_bs, hooks=HK),
    FnSpec('size', r'\bvp_ssize\(', s_get, getter('m_size'), hooks=HK),
    FnSpec('user_data_size', r'\bvp_uds\(', s_get, getter('m_userDataSize'), hooks=HK),
    FnSpec('max_user_data_size', r'\bvp_mud\(', s_get, getter('m_maxUserDataSize'), hooks=HK),
    FnSpec('get_last_block_read_offset', r'\bvp_lbro\(', s_get, getter('m_lastBlockReadOffset'), hooks=HK),
    FnSpec('get_compressed', r'\bvp_comp\(', s_get, lambda S, o, r, a, e: [('compression flag', Iff(r.e, e.comp))], hooks=HK),
    FnSpec('set_last_block_read_offset', r'\bvp_slbro\(', lambda S, e: s_get(S, e) + [VInt(S.int('n', 64), 64)], lambda S, o, r, a, e: [('stored', Eq(m(S, e, 'm_lastBlockReadOffset'), a[1].e)), ('nothing else', same_fields(S, e, ('m_lastBlockReadOffset',)))], hooks=HK),
    FnSpec('byte read', r'\bvp_bread\(', s_bread, post_bread, exc=exc_os, hooks=HK),
    FnSpec('byte write', r'\bvp_bwrite\(', s_b, post_bwrite(lambda e: e.off), exc=exc_os, hooks=HK),
    FnSpec('byte append', r'\bvp_bappend\(', s_bappend, post_bwrite(lambda e: e.len), exc=exc_os, hooks=HK),
    FnSpec('truncate_bytes', r'\bvp_btrunc\(', s_btrunc, post_btrunc, exc=exc_os, hooks=HK),
    FnSpec('byte file_size', r'\bvp_bfsize\(', s_ba, lambda S, o, r, a, e: [('bytes after the header', Eq(S.ex.as_u(S.st, r), e.len))], exc=exc_os, hooks=HK),
    FnSpec('byte empty', r'\bvp_bempty\(', s_ba, lambda S, o, r, a, e: [('empty() iff the size is 0', Iff(r.e, Eq(e.f['m_size'], 0)))], hooks=HK),
]


def _layout():
    """where items lie: blocks do not overlap, and the end computed by truncate covers exactly the items below the size"""
    b, c, n, isz, bsz, bi, i, k = z3.Ints('b c n isz bsz bi i k')
    base = [isz >= 1, bi >= 1, bsz >= bi * isz, b >= 0, c >= 0, n >= 0]
    yield ('the items of one block end before the next block', base + [n <= bi], n * isz <= bi * isz)
    yield ('blocks do not overlap', base + [n <= bi, b < c, n * isz <= bi * isz], b * bsz + n * isz <= c * bsz)
    q, r, p, s_ = z3.Ints('q r p s')
    qr = [0 <= r, r < bi, 0 <= s_, s_ < bi, 0 <= q, 0 <= p]
    yield ('items of an earlier block end before a truncated end in a later block', base + qr + [q < p, (r + 1) * isz <= bi * isz, (q + 1) * bsz <= p * bsz, s_ * isz >= 0], q * bsz + (r + 1) * isz <= p * bsz + s_ * isz)
    yield ('an item of the last block below the size ends before the truncated end', base + qr + [r < s_], (r + 1) * isz <= s_ * isz)
    yield ('later blocks start later', base + qr + [q < p], (q + 1) * bsz <= p * bsz)
    yield ('the part of a block fits in it', base + qr, (r + 1) * isz <= bi * isz)


LEMMAS = [Lemma('layout of items', lambda: list(_layout()))]
ASSUME = ['products of two symbolic quantities are an uninterpreted commutative function (multiplied out over sums); the layout lemmas state what the arithmetic needs']
BOUNDED = [('whole streams (uncompressed and compressed) written, closed and reopened with user data; damaged headers; the accessor functions with real files', 'random histories of up to 460 operations, items of 1 to 40 bytes, user data up to 9000 bytes')]
