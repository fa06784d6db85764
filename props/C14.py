"""File access transfers exactly the bytes asked for; open files are counted exactly."""
from lib import *
from oslib import *

ID = 'C14'
TU = 'files'
HARNESS = 'files'
SCENARIOS = ['raw', 'opens']
KEEP = [r'^std::', r'throw_errno', r'^tpie::(io_exception|out_of_space)']
CLS = '_ZTSN4tpie13file_accessor5posixE'
HK = OS + MM + STR + [(r'posix::throw_errno', h_throw_errno)]
HK2 = OS + MM + STR


def acc(S, env, opened=True):
    os_setup(S, env)
    a = S.obj('a', cls=CLS)
    env.a = a
    S.set(a, 'm_fd', env.fd if opened else 2 ** 32 - 1, 32)
    return a


def g(S, k):
    return S.st.ghost[k]


def nofd(S, env):
    return [('the descriptor and the count of open files are untouched', And(Eq(g(S, 'fds'), env.fds), Eq(g(S, 'mm_used'), env.used0), Eq(S.get(env.a, 'm_fd', 32), env.fd)))]


def failed(S):
    return [('only after an error of the operating system', bool(S.st.ghost.get('os_failed')))]


def s_rw(S, env):
    a = acc(S, env)
    env.n = S.int('size', 64, 0, 2 ** 56)
    env.buf = S.heap('data', Cell(1, 'i'), env.n, False, kind='param')
    S.assume(env.fpos + env.n < 2 ** 62)
    return [a, env.buf, VInt(env.n, 64)]


def bytes_eq(S, x, y, lo, hi, shift):
    i = z3.Int('i')
    return Implies(And(lo <= i, i < hi), Eq(x(i), y(i + shift)))


def post_read(S, old, r, args, env):
    d, f = S.arr(env.buf, 0, 1), content(old, env)
    return [('every byte asked for is delivered, in order', bytes_eq(S, d, f, 0, env.n, env.fpos)),
            ('the position advances by exactly the size', Eq(g(S, 'fpos'), env.fpos + env.n)),
            ('the file is unchanged', And(Eq(g(S, 'fsize'), env.fsize), bytes_eq(S, content(S, env), f, 0, 2 ** 62, 0))),
            ('the range lies inside the file', Or(Eq(env.n, 0), env.fpos + env.n <= env.fsize))] + nofd(S, env)


def exc_read(S, old, r, args, env):
    return [('refused only on an error or past the end', Or(bool(S.st.ghost.get('os_failed')), env.fpos + env.n > env.fsize)),
            ('the file is unchanged', And(Eq(g(S, 'fsize'), env.fsize), bytes_eq(S, content(S, env), content(old, env), 0, 2 ** 62, 0)))] + nofd(S, env)


def inv_rw(rd):
    def inv(L):
        e, S = L.e, L.S
        size, off = L.size, L.data
        done = e.n - size
        out = [('remaining', And(0 <= size, size <= e.n)), ('progress of the buffer', Eq(off, done)), ('progress of the file', Eq(g(S, 'fpos'), e.fpos + done))]
        f0, f, d = content(L.S0, e), content(S, e), S.arr(e.buf, 0, 1)
        if rd:
            out.append(('inside the file', Or(Eq(done, 0), e.fpos + done <= e.fsize)))
            out.append(('prefix transferred', forall(1, lambda i: Implies(And(0 <= i, i < done), Eq(d(i), f0(i + e.fpos))), lambda i: d.fn(i))))
        else:
            out.append(('prefix transferred', forall(1, lambda i: Eq(f(i), If(And(e.fpos <= i, i < e.fpos + done), d(i - e.fpos), f0(i))), lambda i: f.fn(i))))
            out.append(('file size', Eq(g(S, 'fsize'), If(And(done > 0, e.fpos + done > e.fsize), e.fpos + done, e.fsize))))
        return out
    return inv


LRD = LoopSpec(r'posix::read_i', inv=inv_rw(True), roles={'size': r'.*size.*', 'data': r'.*data.*'}, ptr_roles=('data',), variant=lambda L: L.size, name='read loop')
LWR = LoopSpec(r'posix::write_i', inv=inv_rw(False), roles={'size': r'.*size.*', 'data': r'.*data.*'}, ptr_roles=('data',), variant=lambda L: L.size, name='write loop')


def post_write(S, old, r, args, env):
    d, f, f0 = old.arr(env.buf, 0, 1), content(S, env), content(old, env)
    i = z3.Int('i')
    return [('every byte is stored at its place and nothing else changes', Eq(f(i), If(And(env.fpos <= i, i < env.fpos + env.n), d(i - env.fpos), f0(i)))),
            ('the position advances by exactly the size', Eq(g(S, 'fpos'), env.fpos + env.n)),
            ('the file grows to hold the range', Eq(g(S, 'fsize'), If(And(env.n > 0, env.fpos + env.n > env.fsize), env.fpos + env.n, env.fsize)))] + nofd(S, env)


def exc_os(S, old, r, args, env):
    return failed(S) + nofd(S, env)


def s_off(S, env):
    a = acc(S, env)
    env.n = S.int('offset', 64, 0, 2 ** 62)
    return [a, VInt(env.n, 64)]


def unchanged(S, old, env):
    return [('the file is unchanged', And(Eq(g(S, 'fsize'), env.fsize), bytes_eq(S, content(S, env), content(old, env), 0, 2 ** 62, 0)))]


def post_trunc(S, old, r, args, env):
    i = z3.Int('i')
    return [('the file has exactly the size given', Eq(g(S, 'fsize'), env.n)),
            ('the bytes kept are unchanged', Implies(And(0 <= i, i < env.n, i < env.fsize), Eq(content(S, env)(i), content(old, env)(i)))),
            ('the position is unchanged', Eq(g(S, 'fpos'), env.fpos))] + nofd(S, env)


def s_open(S, env):
    a = acc(S, env, False)
    p = S.obj('path', 'param', None, None)
    return [a, p]


def post_open(flags, trunc=False, tri=False):
    def post(S, old, r, args, env):
        out = []
        ok = True
        if tri:
            ok = r.e
        opened = And(Eq(g(S, 'fds'), env.fds + 1), Eq(g(S, 'mm_used'), env.used0 + 1), Eq(S.get(env.a, 'm_fd', 32), env.fd), 'open_flags' in S.st.ghost, S.st.ghost.get('open_flags') == flags)
        shut = And(Eq(g(S, 'fds'), env.fds), Eq(g(S, 'mm_used'), env.used0), Eq(S.get(env.a, 'm_fd', 32), 2 ** 32 - 1))
        out.append(('an open file is counted once', Implies(ok, opened)))
        if tri:
            out.append(('a missing file is not counted', Implies(Not(ok), And(shut, bool(S.st.ghost.get('os_failed'))))))
        i = z3.Int('i')
        if not trunc:
            out += unchanged(S, old, env)
        else:
            out.append(('the file is emptied', Eq(g(S, 'fsize'), 0)))
        return out
    return post


def exc_open(S, old, r, args, env):
    return [('a refused open leaves nothing open and nothing counted', And(Eq(g(S, 'fds'), env.fds), Eq(g(S, 'mm_used'), env.used0), Eq(S.get(env.a, 'm_fd', 32), 2 ** 32 - 1)))]


def s_close(S, env):
    a = acc(S, env, env.case == 'open')
    S.assume(env.fds >= 1, env.used0 >= 1)
    return [a]


def post_close(S, old, r, args, env):
    d = 1 if env.case == 'open' else 0
    return [('descriptor and count are released exactly once', And(Eq(g(S, 'fds'), env.fds - d), Eq(g(S, 'mm_used'), env.used0 - d))),
            ('the accessor is closed', Eq(S.get(env.a, 'm_fd', 32), 2 ** 32 - 1))]


def exc_close(S, old, r, args, env):
    return failed(S) + post_close(S, old, r, args, env)


def s_life(S, env):
    os_setup(S, env)
    return []


TH = {'mm_throws': True}
FNS = [
    FnSpec('read_i', r'\bvp_read\(', s_rw, post_read, exc=exc_read, hooks=HK, loops=[LRD]),
    FnSpec('write_i', r'\bvp_write\(', s_rw, post_write, exc=exc_os, hooks=HK, loops=[LWR]),
    FnSpec('seek_i', r'\bvp_seek\(', s_off, lambda S, o, r, a, e: [('the position is exactly the offset', Eq(g(S, 'fpos'), e.n))] + unchanged(S, o, e) + nofd(S, e), exc=exc_os, hooks=HK),
    FnSpec('file_size_i', r'\bvp_fsize\(', s_off, lambda S, o, r, a, e: [('reports the size of the file', Eq(S.ex.as_u(S.st, r), e.fsize))] + unchanged(S, o, e) + nofd(S, e), exc=exc_os, hooks=HK),
    FnSpec('truncate_i', r'\bvp_trunc\(', s_off, post_trunc, exc=exc_os, hooks=HK),
    FnSpec('is_open', r'\bvp_isopen\(', s_close, lambda S, o, r, a, e: [('is_open() iff a descriptor is held', Iff(r.e, e.case == 'open'))], hooks=HK, cases=('open', 'closed')),
    FnSpec('open_ro', r'\bvp_open_ro\(', s_open, post_open(0), exc=exc_open, hooks=HK, opts=TH),
    FnSpec('open_wo', r'\bvp_open_wo\(', s_open, post_open(0o2 | 0o100 | 0o1000, True), exc=exc_open, hooks=HK, opts=TH),
    FnSpec('open_rw_new', r'\bvp_open_new\(', s_open, post_open(0o2 | 0o100), exc=exc_open, hooks=HK, opts=TH),
    FnSpec('try_open_rw', r'\bvp_try_open\(', s_open, post_open(0o2, tri=True), exc=exc_open, hooks=HK, opts=TH),
    FnSpec('close_i', r'\bvp_close\(', s_close, post_close, exc=exc_close, hooks=HK, cases=('open', 'closed')),
    FnSpec('throw_errno', r'\bvp_errno\(', lambda S, e: [(os_setup(S, e), S.obj('path', 'param', None, None))[1]], lambda S, o, r, a, e: [('throw_errno always throws', False)], exc='any', hooks=HK2, opts={'no_return_ok': True}),
]

BOUNDED = [('the accessor on real files with injected partial transfers and errors; opening and closing under errors', 'random histories of up to 460 operations, transfers of up to 20000 bytes, one injected error at a time')]
