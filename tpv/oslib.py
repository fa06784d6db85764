"""Assumed contracts of the operating system calls: one regular file, arbitrary
errors and partial transfers.

Ghost state: the file is an object of bytes; 'fpos' position, 'fsize' size (bytes
beyond it are zero), 'fds' descriptors opened minus closed, 'mm_used' the usage of
the file manager."""
import sym
from lib import *

FD = 'fd'


def os_setup(S, env, opened=True):
    st = S.st
    o = Obj('file', 'global', Arr(1, 2 ** 62, Cell(1, 'i')), 2 ** 62)
    o.gname = 'the file'
    st.objs[o.id] = o
    env.file = VPtr(o, 0)
    env.fpos = S.int('fpos', 64, 0, 2 ** 62)
    env.fsize = S.int('fsize', 64, 0, 2 ** 62)
    env.fds = S.int('fds', 64, 0, 2 ** 31)
    env.used0 = S.int('files_used', 64, 0, 2 ** 31)
    env.fd = S.int('fd0', 32, 0, 2 ** 31)
    st.ghost.update(fpos=env.fpos, fsize=env.fsize, fds=env.fds, mm_used=env.used0)
    S.ex.osenv = env
    return env


def content(S, env):
    return S.arr(env.file, 0, 1)


def errno_obj(ex, st, ins, args, dn):
    o = ex.__dict__.get('_errno')
    if o is None:
        o = ex._errno = Obj('errno', 'global', Struct([(0, Cell(4, 'i'))], 4), 4)
        o.gname = 'errno'
    st.objs[o.id] = o
    return VPtr(o, 0)


def set_errno(ex, st):
    p = errno_obj(ex, st, None, None, None)
    v = ex.fresh('errno')
    ex.assume(st, z3.And(v >= 1, v < 200))
    ex.store(st, p, VInt(v, 32), ('i', 32))
    return v


def minus1(w):
    return VInt(2 ** w - 1, w)


def fails(ex, st, w, nm):
    s = st.fork()
    s.path = s.path + (nm + ' fails',)
    set_errno(ex, s)
    s.ghost['os_failed'] = True
    return ('ret', s, minus1(w))


def valid_fd(ex, st, a, nm):
    ex.oblige(st, nm + ' on the open descriptor', 'pre', Eq(ex.as_u(st, a), ex.osenv.fd))


def h_read(ex, st, ins, args, dn):
    """read(2): -1, or any number r of bytes up to the count and the end of the file; 0 only for count 0 or at the end"""
    env = ex.osenv
    valid_fd(ex, st, args[0], 'read')
    n = ex.as_u(st, args[2])
    outs = [fails(ex, st, 64, 'read')]
    r = ex.fresh('got')
    pos, size = st.ghost['fpos'], st.ghost['fsize']
    left = If(le(pos, size), size - pos, 0)
    ex.assume(st, And(0 <= r, r <= n, r <= left, Implies(And(0 < n, 0 < left), r >= 1)))
    ex.memcpy_range(st, args[1], VPtr(env.file.obj, pos), r, True)
    gset(ex, st, 'fpos', norm(pos + r))
    st.path = st.path + ('read returns any count',)
    outs.append(('ret', st, VInt(r, 64)))
    return outs


def h_write(ex, st, ins, args, dn):
    """write(2): -1, or any number of bytes from 1 to the count (0 for count 0)"""
    env = ex.osenv
    valid_fd(ex, st, args[0], 'write')
    n = ex.as_u(st, args[2])
    outs = [fails(ex, st, 64, 'write')]
    r = ex.fresh('put')
    pos, size = st.ghost['fpos'], st.ghost['fsize']
    ex.assume(st, And(0 <= r, r <= n, Implies(0 < n, r >= 1)))
    ex.memcpy_range(st, VPtr(env.file.obj, pos), args[1], r, True)
    gset(ex, st, 'fpos', norm(pos + r))
    gset(ex, st, 'fsize', If(And(r > 0, pos + r > size), pos + r, size))
    st.path = st.path + ('write returns any count',)
    outs.append(('ret', st, VInt(r, 64)))
    return outs


def h_lseek(ex, st, ins, args, dn):
    """lseek(2) with SEEK_SET: fails, or moves to exactly the offset"""
    valid_fd(ex, st, args[0], 'lseek')
    off = ex.as_s(st, args[1])
    ex.oblige(st, 'lseek counts from the beginning', 'pre', Eq(ex.as_u(st, args[2]), 0))
    outs = [fails(ex, st, 64, 'lseek')]
    ex.assume(st, off >= 0)
    gset(ex, st, 'fpos', off)
    outs.append(('ret', st, VInt(off, 64)))
    return outs


def h_fstat(ex, st, ins, args, dn):
    """fstat(2): fails, or reports the size of the file"""
    valid_fd(ex, st, args[0], 'fstat')
    outs = [fails(ex, st, 32, 'fstat')]
    ex.poke(st, VPtr(args[1].obj, norm(args[1].off + 48)), VInt(st.ghost['fsize'], 64))
    outs.append(('ret', st, VInt(0, 32)))
    return outs


def h_ftruncate(ex, st, ins, args, dn):
    """ftruncate(2): fails, or the size is exactly the argument and bytes beyond it are gone (read as zero when extended)"""
    env = ex.osenv
    valid_fd(ex, st, args[0], 'ftruncate')
    n = ex.as_s(st, args[1])
    outs = [fails(ex, st, 32, 'ftruncate')]
    ex.assume(st, n >= 0)
    ex.oblige(st, 'file size below 2^62', 'pre', n < 2 ** 62)
    k = (env.file.obj.id, (0, 0))
    old = st.ghost['fsize']
    av = ex.leaf(st, env.file.obj, 0, 1)
    st.cells[leafkey(ex, st, env.file.obj)] = av.fill((), n, old, 0)
    ex.note_write(st, leafkey(ex, st, env.file.obj))
    gset(ex, st, 'fsize', n)
    outs.append(('ret', st, VInt(0, 32)))
    return outs


def leafkey(ex, st, obj):
    return (obj.id, ex.resolve(st, obj, 0, 1)[0])


def h_open(ex, st, ins, args, dn):
    """open(2): -1, or a descriptor; O_TRUNC empties the file, the position is 0"""
    env = ex.osenv
    outs = [fails(ex, st, 32, 'open')]
    fl = ex.as_u(st, args[1])
    st.ghost['open_flags'] = fl
    gset(ex, st, 'fds', norm(st.ghost['fds'] + 1))
    gset(ex, st, 'fpos', 0)
    if not is_c(fl):
        raise Unsupported('open flags')
    if fl & 0o1000:
        gset(ex, st, 'fsize', 0)
    outs.append(('ret', st, VInt(env.fd, 32)))
    return outs


def h_close(ex, st, ins, args, dn):
    """close(2): the descriptor is released, also when an error is reported"""
    valid_fd(ex, st, args[0], 'close')
    gset(ex, st, 'fds', norm(st.ghost['fds'] - 1))
    return [fails(ex, st, 32, 'close'), ('ret', st, VInt(0, 32))]


def h_throw_errno(ex, st, ins, args, dn):
    """throw_errno always throws (proved separately)"""
    return [('throw', st, '_ZTIN4tpie12io_exceptionE')]


def h_path(ex, st, ins, args, dn):
    """strings hold paths and messages only; they do not affect the verified state"""
    t = ins.ty
    if t == ('void',):
        return None
    if t == ('i', 1):
        return VBool(z3.Bool('strb!%d' % next(sym._fresh)))
    if t[0] == 'i':
        v = ex.fresh('str')
        ex.assume(st, z3.And(v >= 0, v < 2 ** t[1]))
        return VInt(v, t[1])
    o = ex.__dict__.setdefault('_strobj', Obj('string', 'global', None, None))
    o.gname = 'string'
    st.objs[o.id] = o
    return VPtr(o, 0)


def h_zero(ex, st, ins, args, dn):
    return VInt(0, 32)


OS = [(r'^read$', h_read), (r'^write$', h_write), (r'^lseek(64)?$', h_lseek), (r'^fstat(64)?$', h_fstat), (r'^ftruncate(64)?$', h_ftruncate),
      (r'^open(64)?$', h_open), (r'^close$', h_close), (r'^__errno_location$', errno_obj), (r'^posix_fadvise', h_zero),
      (r'^tpie::get_file_manager\(\)', h_mm), (r'^tpie::increment_bytes_', h_nop)]
STR = [(r'^std::(__cxx11::)?basic_string|^std::operator\+|^std::allocator<char>|^strerror$|^std::__cxx11', h_path)]


# ---- contracts of the POSIX file accessor (proved in C14), used by the layers above
def fa_setup(S, env, header='_ZTSN4tpie15stream_header_tE', exists=True):
    """the file seen by the stream layers: the header as a record, then bytes"""
    st = S.st
    ex = S.ex
    hl = ex.di_layout(ex.type_id(header))
    env.hsize = hl.size
    o = Obj('file', 'global', Struct(list(hl.fields) + [(hl.size, Arr(1, 2 ** 62, Cell(1, 'i')))], hl.size + 2 ** 62), hl.size + 2 ** 62)
    o.gname = 'the file'
    st.objs[o.id] = o
    env.file = VPtr(o, 0)
    env.fhdr = header
    env.fsize = S.int('fsize', 64, 0, 2 ** 62)
    st.ghost.update(fpos=S.int('fpos', 64, 0, 2 ** 62), fsize=env.fsize, fopen=False, exists=exists)
    ex.osenv = env
    return env


def hdr(S, env, f):
    """a field of the header stored in the file"""
    return S.get(env.file, f, cls=env.fhdr)


def fbytes(S, env):
    """the bytes after the header, indexed from its end"""
    return S.arr(env.file, env.hsize, 1)


def fa_open_pre(ex, st, nm):
    ex.oblige(st, nm + ' needs an open file', 'pre', st.ghost['fopen'])


def fa_fail(ex, st, nm):
    s = st.fork()
    s.path = s.path + (nm + ' fails',)
    s.ghost['os_failed'] = True
    return ('throw', s, '_ZTIN4tpie12io_exceptionE')


def fcopy(ex, st, d, s, n):
    if is_c(n):
        ex.memcpy(st, d, s, n, True)
    else:
        ex.memcpy_range(st, d, s, n, True)


def c_read(ex, st, ins, args, dn):
    fa_open_pre(ex, st, 'read')
    n = ex.as_u(st, args[2])
    n = norm(n) if not is_c(n) else n
    pos = st.ghost['fpos']
    bad = fa_fail(ex, st, 'read')
    # the buffer may be partly overwritten by a failing read
    if isinstance(args[1], VPtr) and args[1].obj is not None and args[1].obj.layout is not None and isinstance(args[1].obj.layout, Arr):
        ex.havoc_leaf(bad[1], args[1].obj, 0, args[1].obj.layout.stride)
    s2 = st
    ex.assume(s2, Or(Eq(n, 0), pos + n <= s2.ghost['fsize']))
    eof = bad[1]
    eof.ghost['short'] = pos + n > st.ghost['fsize']
    fcopy(ex, s2, args[1], VPtr(ex.osenv.file.obj, pos), n)
    gset(ex, s2, 'fpos', norm(pos + n))
    return [bad, ('ret', s2, None)]


def c_write(ex, st, ins, args, dn):
    fa_open_pre(ex, st, 'write')
    n = ex.as_u(st, args[2])
    n = norm(n) if not is_c(n) else n
    pos = st.ghost['fpos']
    bad = fa_fail(ex, st, 'write')
    fcopy(ex, st, VPtr(ex.osenv.file.obj, pos), args[1], n)
    gset(ex, st, 'fpos', norm(pos + n))
    size = st.ghost['fsize']
    gset(ex, st, 'fsize', If(And(n > 0, pos + n > size), pos + n, size))
    return [bad, ('ret', st, None)]


def c_seek(ex, st, ins, args, dn):
    fa_open_pre(ex, st, 'seek')
    bad = fa_fail(ex, st, 'seek')
    gset(ex, st, 'fpos', ex.as_u(st, args[1]))
    return [bad, ('ret', st, None)]


def c_fsize(ex, st, ins, args, dn):
    fa_open_pre(ex, st, 'file_size')
    return [fa_fail(ex, st, 'fstat'), ('ret', st, VInt(st.ghost['fsize'], 64))]


def c_trunc(ex, st, ins, args, dn):
    fa_open_pre(ex, st, 'truncate')
    env = ex.osenv
    bad = fa_fail(ex, st, 'ftruncate')
    n = ex.as_u(st, args[1])
    ex.oblige(st, 'truncation keeps the header and the user data', 'pre', n >= env.hsize)
    key = ex.resolve(st, env.file.obj, env.hsize, 1)[0]
    av = ex.leaf(st, env.file.obj, env.hsize, 1)
    old = st.ghost['fsize']
    k = (env.file.obj.id, key)
    st.cells[k] = av.fill((), n - env.hsize, old - env.hsize, 0)
    ex.note_write(st, k)
    gset(ex, st, 'fsize', n)
    return [bad, ('ret', st, None)]


def c_close(ex, st, ins, args, dn):
    if st.ghost['fopen'] is False:
        return None
    bad = fa_fail(ex, st, 'close') if ex.opts.get('close_fails', True) else None
    outs = []
    gset(ex, st, 'fopen', False)
    if bad:
        gset(ex, bad[1], 'fopen', False)
        outs.append(bad)
    return outs + [('ret', st, None)]


def c_open(kind):
    def h(ex, st, ins, args, dn):
        ex.oblige(st, 'open: nothing is open yet', 'pre', Not(st.ghost['fopen']))
        bad = fa_fail(ex, st, 'open')
        outs = [bad]
        if kind == 'try':
            n = st.fork()
            n.path = n.path + ('file does not exist',)
            ex.assume(n, Not(n.ghost['exists']))
            outs.append(('ret', n, VBool(False)))
        if kind in ('ro', 'try'):
            ex.assume(st, st.ghost['exists'])
        if kind in ('new',):
            gset(ex, st, 'fsize', If(st.ghost['exists'], st.ghost['fsize'], 0))
        if kind == 'wo':
            gset(ex, st, 'fsize', 0)
        gset(ex, st, 'fopen', True)
        gset(ex, st, 'fpos', 0)
        outs.append(('ret', st, VBool(True) if kind == 'try' else None))
        return outs
    return h


FA = [(r'posix::read_i\(', c_read), (r'posix::write_i\(', c_write), (r'posix::seek_i\(', c_seek), (r'posix::file_size_i\(', c_fsize),
      (r'posix::truncate_i\(', c_trunc), (r'posix::close_i\(', c_close), (r'posix::open_ro\(', c_open('ro')), (r'posix::open_wo\(', c_open('wo')),
      (r'posix::open_rw_new\(', c_open('new')), (r'posix::try_open_rw\(', c_open('try'))]
FAKEEP = [r'posix::(read_i|write_i|seek_i|file_size_i|truncate_i|close_i|open_ro|open_wo|open_rw_new|try_open_rw)\(']
