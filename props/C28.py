"""Temporary names and files.

Strings and paths are opaque tokens (0 is the empty string); a path inside a directory is JOIN(dir, name).  construct_name returns a
name that was never returned before (its random part, by assumption); exists() answers for the file system of that moment."""
from lib import *
import C10

ID = 'C28'
TU = 'tempname'
HARNESS = 'temps'
SCENARIOS = ['names', 'tempfiles']
KEEP = [r'^(.* )?std::', r'construct_name', r'get_timestamp', r'create_subdir', r'gen_temp', r'get_actual_path', r'get_system_path', r'tempname::tpie_name', r'tempfile_error', r'file_accessor', r'exception::', r'update_recorded_size']
JOIN = z3.Function('join', I, I, I)
EXT = z3.Function('suffix', I, I)
NAME = z3.Function('generated', I, I, I, I)   # post base, suffix, serial number
SNAME = '_ZTSN4tpie4bits15temp_file_innerE'
TFN = '_ZTSN4tpie9temp_fileE'
FSERR = '_ZTINSt10filesystem7__cxx1116filesystem_errorE'


def key(ex, st, p):
    p = ex.concretize(st, p)
    if not isinstance(p, VPtr) or p.obj is None or not is_c(p.off):
        raise Unsupported('which string')
    n = getattr(p.obj, 'gname', None) if p.obj.kind == 'global' else None
    return 'str', n or p.obj.id, p.off


def tok(ex, st, p):
    k = key(ex, st, p)
    if k not in st.ghost:
        raise Unsupported('string that was not constructed')
    return st.ghost[k]


def settok(ex, st, p, v):
    gset(ex, st, key(ex, st, p), v)


def newtok(ex, st, name, empty=None):
    v = ex.fresh(name)
    ex.assume(st, v >= 0 if empty is None else (v == 0 if empty else v > 0))
    return v


def h_copy(ex, st, ins, args, dn):
    settok(ex, st, args[0], tok(ex, st, args[1]))
    return args[0]


def cstr(ex, st, p):
    """a string literal by its contents, any other C string by its address"""
    p = ex.concretize(st, p)
    txt = literal(ex, p)
    if txt is not None:
        return 0 if txt == '' else z3.Int('literal ' + txt)
    return z3.Int('cstring %s %s' % (getattr(getattr(p, 'obj', None), 'id', p), getattr(p, 'off', 0)))


def literal(ex, p):
    o = getattr(p, 'obj', None)
    n = getattr(o, 'gname', None)
    if not n:
        return None
    m = re.search(r'constant [^"]*?(?:c"([^"]*)"|(zeroinitializer))', ex.m.globals.get(n) or '')
    if not m:
        return None
    return '' if m.group(2) else m.group(1).replace('\\00', '')


def h_lit(ex, st, ins, args, dn):
    t = cstr(ex, st, args[1])
    if z3.is_expr(t):
        ex.assume(st, t > 0)
    settok(ex, st, args[0], t)
    return args[0]


def h_default(ex, st, ins, args, dn):
    settok(ex, st, args[0], 0)
    return None


def h_empty(ex, st, ins, args, dn):
    return VBool(Eq(tok(ex, st, args[0]), 0))


def h_eqlit(ex, st, ins, args, dn):
    return VBool(Eq(tok(ex, st, args[0]), cstr(ex, st, args[1])))


def h_pathempty(ex, st, ins, args, dn):
    return VBool(Eq(tok(ex, st, args[0]), 0))


def join(ex, st, a, b):
    v = JOIN(Z(a), Z(b))
    ex.assume(st, v > 0)
    return v


def h_divassign(ex, st, ins, args, dn):
    settok(ex, st, args[0], join(ex, st, tok(ex, st, args[0]), tok(ex, st, args[1])))
    return args[0]


def h_div(ex, st, ins, args, dn):
    settok(ex, st, args[0], join(ex, st, tok(ex, st, args[1]), tok(ex, st, args[2])))
    return None


def h_concat(ex, st, ins, args, dn):
    """"." + ext"""
    settok(ex, st, args[0], EXT(Z(tok(ex, st, args[2]))))
    ex.assume(st, EXT(Z(tok(ex, st, args[2]))) > 0)
    return None


def h_sret(ex, st, ins, args, dn):
    settok(ex, st, args[0], tok(ex, st, args[1]))
    return None


def h_name(ex, st, ins, args, dn):
    """construct_name: a name never returned before, made of the base name, the given parts and random digits"""
    s = ex.fresh('serial')
    gset(ex, st, 'names', st.ghost['names'] + (s,))
    v = NAME(Z(tok(ex, st, args[1])), Z(tok(ex, st, args[3])), s)
    ex.assume(st, v > 0)
    settok(ex, st, args[0], v)
    return None


def h_stamp(ex, st, ins, args, dn):
    settok(ex, st, args[0], newtok(ex, st, 'timestamp', False))
    return None


def fserr(ex, st):
    if not ex.opts.get('fs_throws'):
        return []
    s = st.fork()
    s.path = s.path + ('file system error',)
    return [('throw', s, FSERR)]


def h_exists(ex, st, ins, args, dn):
    p = tok(ex, st, args[0])
    out = fserr(ex, st)
    b = ex.fresh('exists')
    ex.assume(st, Or(b == 0, b == 1))
    gset(ex, st, 'exists', st.ghost['exists'] + ((p, b),))
    out.append(('ret', st, VBool(Eq(b, 1))))
    return out


def h_isdir(ex, st, ins, args, dn):
    b = ex.fresh('isdir')
    ex.assume(st, Or(b == 0, b == 1))
    gset(ex, st, 'isdir', st.ghost['isdir'] + ((tok(ex, st, args[0]), b),))
    return fserr(ex, st) + [('ret', st, VBool(Eq(b, 1)))]


def h_mkdir(ex, st, ins, args, dn):
    b = ex.fresh('mkdir')
    ex.assume(st, Or(b == 0, b == 1))
    out = fserr(ex, st)
    gset(ex, st, 'made', st.ghost['made'] + ((tok(ex, st, args[0]), b),))
    return out + [('ret', st, VBool(Eq(b, 1)))]


def h_remove(ex, st, ins, args, dn):
    gset(ex, st, 'removed', st.ghost['removed'] + (tok(ex, st, args[0]),))
    return VBool(True)


def h_remove_all(ex, st, ins, args, dn):
    gset(ex, st, 'rmtop', tok(ex, st, args[0]))
    return VInt(ex.fresh('removed'), 64)


# ---- the stack of subdirectories: its height and what lies on top
def h_sempty(ex, st, ins, args, dn):
    return VBool(Eq(st.ghost['n'], 0))


def h_stop(ex, st, ins, args, dn):
    ex.oblige(st, 'top() of a stack that is not empty', 'pre', st.ghost['n'] > 0)
    return VPtr(ex.spec_env.topo, 0)


def h_spush(ex, st, ins, args, dn):
    v = tok(ex, st, args[1])
    gset(ex, st, 'n', st.ghost['n'] + 1)
    gset(ex, st, ('str', 'stack top', 0), v)


def h_spop(ex, st, ins, args, dn):
    t = st.ghost[('str', 'stack top', 0)]
    ex.oblige(st, 'pop() of a stack that is not empty', 'pre', st.ghost['n'] > 0)
    ex.oblige(st, 'a directory is removed before it is forgotten', 'pre', Or(Eq(t, 0), Eq(st.ghost['rmtop'], t)))
    gset(ex, st, 'n', st.ghost['n'] - 1)
    gset(ex, st, 'rmtop', -1)
    gset(ex, st, ('str', 'stack top', 0), newtok(ex, st, 'next top'))


def h_usage(ex, st, ins, args, dn):
    gset(ex, st, 'usage', st.ghost['usage'] + ex.as_s(st, args[0]))


def h_update(ex, st, ins, args, dn):
    """contract of update_recorded_size (proved below)"""
    e = ex.spec_env
    n = ex.as_u(st, args[1])
    p = ex.concretize(st, args[0])
    S = Ctx(ex, st)
    gset(ex, st, 'usage', st.ghost['usage'] + n - S.get(p, 'm_recordedSize', cls=SNAME))
    S.set(p, 'm_recordedSize', n, cls=SNAME)


STR = r'std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> ?>'
BS = r'^%s::' % STR
PA = r'^std::filesystem::__cxx11::path::'
HS = [(BS + r'basic_string\(\)', h_default), (BS + r'basic_string\(%s (const&|&&)\)' % STR, h_copy), (BS + r'basic_string<.*\(char const\*', h_lit), (BS + r'~', h_nop),
      (BS + r'operator=\(%s' % STR, h_copy), (BS + r'operator=\(char const', h_lit), (BS + r'empty\(\)', h_empty), (r'bool std::operator==<char,', h_eqlit), (r'std::operator\+<char,', h_concat),
      (PA + r'path\(\)', h_default), (PA + r'path(<.*)?\(%s' % STR, h_copy), (PA + r'~', h_nop), (PA + r'string\(\)', h_sret), (PA + r'operator=\(', h_copy), (PA + r'path\(std::filesystem::__cxx11::path', h_copy),
      (r'std::filesystem::__cxx11::path::operator/=', h_divassign), (r'std::filesystem::__cxx11::path::operator=<|enable_if<.*path&>::type std::filesystem::__cxx11::path::operator=', h_copy),
      (r'^std::filesystem::__cxx11::operator/\(', h_div), (r'^std::filesystem::exists\(', h_exists), (r'^std::filesystem::is_directory\(', h_isdir), (r'^std::filesystem::create_directory\(', h_mkdir),
      (r'^std::filesystem::remove\(', h_remove), (r'^std::filesystem::remove_all\(', h_remove_all), (r'construct_name\(', h_name), (r'get_timestamp', h_stamp),
      (r'^std::stack<.*::empty\(\)', h_sempty), (r'^std::stack<.*::top\(\)', h_stop), (r'^std::stack<.*::push\(', h_spush), (r'^std::stack<.*::pop\(\)', h_spop),
      (r'increment_temp_file_usage', h_usage), (r'^std::error_code|^std::(__new_)?allocator<char>|tempfile_error::tempfile_error', h_nop), (r'basic_ostream|^std::ostream|^tpie::log_|^tpie::get_log|^std::vector<std::shared_ptr|^std::__shared_ptr', C10.nop)]


def strobj(S, name, v, kind='param'):
    p = S.obj(name, kind, Struct([(i, Cell(8, 'i')) for i in range(0, 40, 8)], 40), 40)
    S.st.ghost[key(S.ex, S.st, p)] = v
    return p


def base(S, env):
    ex = S.ex
    ex.spec_env = env
    st = S.st
    st.ghost.update(names=(), exists=(), isdir=(), made=(), removed=(), rmtop=-1, usage=S.int('usage', 64, -2 ** 62, 2 ** 62))
    env.u0 = st.ghost['usage']
    n = st.ghost['n'] = env.n0 = S.int('subdirectories', 64, 0, 2 ** 40)
    env.top0 = S.int('top', 64, 0, 2 ** 60)
    o = Obj('stack top', 'global', Struct([(0, Cell(8, 'i'))], 32), 32)
    o.gname = 'stack top'
    st.objs[o.id] = o
    env.topo = o
    st.ghost[('str', 'stack top', 0)] = env.top0
    env.dp0 = S.int('default_path', 64, 0, 2 ** 60)
    for g, v in (('_ZN12_GLOBAL__N_112default_pathB5cxx11E', env.dp0), ('_ZN12_GLOBAL__N_117default_base_nameB5cxx11E', S.int('base', 64, 0, 2 ** 60)), ('_ZN12_GLOBAL__N_117default_extensionB5cxx11E', S.int('ext', 64, 0, 2 ** 60))):
        st.ghost[('str', g, 0)] = v


DP = ('str', '_ZN12_GLOBAL__N_112default_pathB5cxx11E', 0)
TOP = ('str', 'stack top', 0)


def ret_obj(S, env):
    env.r = S.obj('result', 'param', Struct([(i, Cell(8, 'i')) for i in range(0, 32, 8)], 32), 32)
    return env.r


def h_subdir(ex, st, ins, args, dn):
    """create_subdir (proved below): a new, existing subdirectory of the configured directory is on top"""
    e = ex.spec_env
    s = st.fork()
    s.path = s.path + ('no subdirectory',)
    gset(ex, st, 'n', ex.fresh('height'))
    ex.assume(st, st.ghost['n'] >= 1)
    v = e.created = newtok(ex, st, 'subdirectory', False)
    gset(ex, st, TOP, v)
    gset(ex, st, 'created', v)
    return [('throw', s, '_ZTIN4tpie14tempfile_errorE'), ('ret', st, None)]


def s_gen(S, env):
    base(S, env)
    S.st.ghost['created'] = -1
    r = ret_obj(S, env)
    env.post, env.dir, env.suf = S.int('post_base', 64, 0, 2 ** 60), S.int('dir', 64, 0, 2 ** 60), S.int('suffix', 64, 0, 2 ** 60)
    S.assume(Eq(env.dir, 0) if env.case == 'default directory' else env.dir > 0)
    return [r, strobj(S, 'post_base', env.post), strobj(S, 'dir', env.dir), strobj(S, 'suffix', env.suf)]


def p_gen(S, old, r, args, e):
    g = S.st.ghost
    t = tok(S.ex, S.st, e.r)
    ns = g['names']
    if len(ns) != 1:
        return [('one name is generated', False)]
    nm = NAME(Z(e.post), Z(e.suf), ns[0])
    if e.case != 'default directory':
        return [('a new name with the given post base and suffix in the given directory', Eq(t, JOIN(Z(e.dir), nm))),
                ('no file has that name', Or(*[And(Eq(p, t), Eq(b, 0)) for p, b in g['exists']]) if g['exists'] else False)]
    return [('a new name in the current subdirectory', Eq(t, JOIN(Z(g[TOP]), nm))), ('the subdirectory exists', And(g['n'] > 0, Not(Eq(g[TOP], 0)))),
            ('a subdirectory in use is kept', Implies(And(e.n0 > 0, Not(Eq(e.top0, 0))), And(Eq(g[TOP], e.top0), Eq(g['n'], e.n0)))),
            ('otherwise a new one is made', Implies(Or(Eq(e.n0, 0), Eq(e.top0, 0)), Eq(g[TOP], g['created'])))]


def x_gen(S, old, t, args, e):
    g = S.st.ghost
    if e.case != 'default directory':
        return [('only if a file of that name exists', Or(*[Eq(b, 1) for p, b in g['exists']]) if g['exists'] else False)]
    return [('only if no subdirectory can be made', Or(Eq(e.n0, 0), Eq(e.top0, 0)))]


def h_actual(ex, st, ins, args, dn):
    settok(ex, st, args[0], ex.spec_env.actual)


def s_sub(S, env):
    base(S, env)
    env.actual = S.int('configured', 64, 1, 2 ** 60)
    return []


def p_sub(S, old, r, args, e):
    g = S.st.ghost
    t = g[TOP]
    if len(g['names']) != 1:
        return [('one name is generated', False)]
    nm = NAME(0, 0, g['names'][0])
    return [('the new directory lies in the configured directory', Eq(t, JOIN(Z(e.actual), nm))),
            ('it did not exist', Or(*[And(Eq(p, t), Eq(b, 0)) for p, b in g['exists']]) if g['exists'] else False),
            ('it was made', Or(*[And(Eq(p, t), Eq(b, 1)) for p, b in g['made']]) if g['made'] else False),
            ('it is remembered; one that is in use is not forgotten', Eq(g['n'], If(And(e.n0 > 0, Eq(e.top0, 0)), e.n0, e.n0 + 1)))]


def x_sub(S, old, t, args, e):
    g = S.st.ghost
    return [('nothing is remembered', And(Eq(g['n'], e.n0), Eq(g[TOP], e.top0))),
            ('only if the name exists or cannot be made', Or(*([Eq(b, 1) for p, b in g['exists']] + [Eq(b, 0) for p, b in g['made']])) if g['exists'] else False)]


def s_name(S, env):
    base(S, env)
    r = ret_obj(S, env)
    env.post, env.dir, env.ext = S.int('post_base', 64, 0, 2 ** 60), S.int('dir', 64, 0, 2 ** 60), S.int('ext', 64, 0, 2 ** 60)
    return [r, strobj(S, 'post_base', env.post), strobj(S, 'dir', env.dir)] + ([strobj(S, 'ext', env.ext)] if env.case == 'file' else [])


def h_gen(ex, st, ins, args, dn):
    e = ex.spec_env
    gset(ex, st, 'gen', (args[0], tok(ex, st, args[1]), tok(ex, st, args[2]), tok(ex, st, args[3])))
    settok(ex, st, args[0], newtok(ex, st, 'generated', False))


def p_name(S, old, r, args, e):
    g = S.st.ghost.get('gen')
    if g is None:
        return [('the name is generated', False)]
    want = If(Eq(e.ext, 0), z3.Int('literal .tpie'), EXT(Z(e.ext))) if e.case == 'file' else 0
    return [('the name is generated from the given parts and suffix', And(g[0].obj is e.r.obj, Eq(g[1], e.post), Eq(g[2], e.dir), Eq(g[3], want)))]


def s_default(S, env):
    base(S, env)
    env.path, env.sub = S.int('path', 64, 1, 2 ** 60), S.int('subdir', 64, 0, 2 ** 60)
    S.assume(Eq(env.sub, 0) if env.case == 'no subdirectory' else env.sub > 0)
    return [strobj(S, 'path', env.path), strobj(S, 'subdir', env.sub)]


def p_default(S, old, r, args, e):
    g = S.st.ghost
    failed = 'file system error' in S.st.path
    d = JOIN(Z(e.path), Z(e.sub))
    usable = False if failed or not g['isdir'] else And(*[Eq(b, 1) for p, b in g['isdir']])
    want = e.path if e.case == 'no subdirectory' else If(usable, d, e.path)
    return [('the configured directory is path/subdir if it is a directory, otherwise path', Eq(g[DP], want)),
            ('the next name makes a new subdirectory there', And(g['n'] > e.n0, Eq(g[TOP], 0))),
            ('only path/subdir is looked at', And(*[Eq(p, d) for p, b in g['isdir'] + g['exists'] + g['made']]))]


def s_fin(S, env):
    base(S, env)
    return []


def li_fin(L):
    return [('height', L.S.st.ghost['n'] >= 0)]


FIN = LoopSpec(r'finish_tempfile', inv=li_fin, roles={}, variant=lambda L: L.S.st.ghost['n'], name='remove the subdirectories')


def p_fin(S, old, r, args, e):
    return [('every subdirectory was removed', Eq(S.st.ghost['n'], 0))]


# ---- the temporary file
def inner(S, env, name='inner', refs=None, lo=0):
    p = S.obj(name, 'heap', cls=SNAME)
    path = S.int(name + ' path', 64, 0, 2 ** 60)
    S.st.ghost[key(S.ex, S.st, p)] = path
    per = S.int(name + ' persist', 8, 0, 1)
    S.set(p, 'm_persist', per, 8)
    rec = S.int(name + ' recorded', 64, 0, 2 ** 62)
    S.set(p, 'm_recordedSize', rec)
    c = refs if refs is not None else S.int(name + ' refs', 64, lo, 2 ** 60)
    S.set(p, 'm_count', c)
    return p, path, per, rec, c


def s_inner(S, env):
    base(S, env)
    env.p, env.path, env.per, env.rec, env.c = inner(S, env)
    return [env.p]


def gone(S, e, path, per, rec, when=True):
    """the file is removed exactly if it has a path, is not persistent and exists"""
    g = S.st.ghost
    ex = And(*[Eq(p, path) for p, b in g['exists']]) if g['exists'] else True
    there = Or(*[Eq(b, 1) for p, b in g['exists']]) if g['exists'] else False
    looked = len(g['exists']) > 0
    rm = And(Not(Eq(path, 0)), Eq(per, 0), there) if looked else False
    return [('only its own path is looked at', ex),
            ('a file with a path that is not persistent is looked for', Or(Not(when), Eq(path, 0), Not(Eq(per, 0)), looked)),
            ('removed exactly if it is there and not persistent', And(*[Eq(p, path) for p in g['removed']]) if g['removed'] else Not(And(when, rm))),
            ('nothing else is removed', Implies(len(g['removed']) > 0, And(when, rm, len(g['removed']) == 1))),
            ('its recorded size is given back', Eq(g['usage'], e.u0 - (If(And(when, rm), rec, 0))))]


def p_dtor(S, old, r, args, e):
    return gone(S, e, e.path, e.per, e.rec)


def p_ipath(S, old, r, args, e):
    g = S.st.ghost
    k = key(S.ex, S.st, e.p)
    made = g.get('tpie_name')
    return [('the path once chosen stays', Implies(Not(Eq(e.path, 0)), And(Eq(g[k], e.path), made is None))),
            ('otherwise a new temporary name', Implies(Eq(e.path, 0), And(made is not None, Eq(g[k], made if made is not None else -1)))),
            ('the path is returned', And(r.obj is e.p.obj, Eq(r.off, 0)))]


def h_tpie_name(ex, st, ins, args, dn):
    v = newtok(ex, st, 'temporary name', False)
    gset(ex, st, 'tpie_name', v)
    for a in args[1:]:
        ex.oblige(st, 'a name in the configured directory', 'pre', Eq(tok(ex, st, a), 0))
    settok(ex, st, args[0], v)


def s_update(S, env):
    a = s_inner(S, env)
    env.n = S.int('size', 64, 0, 2 ** 62)
    return a + [VInt(env.n, 64)]


def p_update(S, old, r, args, e):
    return [('the usage changes by the difference', Eq(S.st.ghost['usage'], e.u0 + e.n - e.rec)), ('the size is recorded', Eq(S.get(e.p, 'm_recordedSize'), e.n))]


def h_idtor(ex, st, ins, args, dn):
    """~temp_file_inner (proved above), once"""
    p = ex.concretize(st, args[0])
    gset(ex, st, 'died', st.ghost.get('died', ()) + (p.obj.id,))


def tf(S, env, name, i):
    t = S.obj(name, 'param', cls=TFN)
    S.set(t, 'm_inner.px', i)
    return t


def two(S, env):
    """two temp_files, with one or two inner objects"""
    base(S, env)
    env.i1 = inner(S, env, 'first', lo=2 if env.case[1] == 'shared' else 1)
    S.set(env.i1[0], 'm_count', env.i1[4])
    env.t1 = tf(S, env, 'a', env.i1[0])
    env.i2 = env.i1 if env.case[1] == 'shared' else inner(S, env, 'second', lo=1)
    env.t2 = tf(S, env, 'b', env.i2[0])


def died(S, i):
    return i[0].obj.id in S.st.ghost.get('died', ())


def dead(S, i):
    return i[0].obj.id in S.st.dead


def count(S, i):
    return S.get(i[0], 'm_count')


def holds(S, t, i):
    p = S.ptr(t, 'm_inner.px')
    return p.obj is i[0].obj


def released(S, i, by=1):
    """one handle less: destroyed with the last one, otherwise one reference less"""
    if died(S, i) or dead(S, i):
        return And(died(S, i), dead(S, i), Eq(i[4], by))
    return And(i[4] > by, Eq(count(S, i), i[4] - by))


def s_assign(S, env):
    two(S, env)
    return [env.t1, env.t2]


def p_assign(S, old, r, args, e):
    if e.case[1] == 'shared':
        return [('nothing changes', And(holds(S, e.t1, e.i1), holds(S, e.t2, e.i1), not died(S, e.i1), Eq(count(S, e.i1), e.i1[4])))]
    return [('both refer to the same file', And(holds(S, e.t1, e.i2), holds(S, e.t2, e.i2))), ('one owner more', And(not died(S, e.i2), Eq(count(S, e.i2), e.i2[4] + 1))), ('the other file lost an owner', released(S, e.i1))]


def s_copy(S, env):
    base(S, env)
    env.i1 = inner(S, env, lo=1)
    env.t1 = tf(S, env, 'a', env.i1[0])
    env.t2 = S.obj('b', 'param', cls=TFN)
    return [env.t2, env.t1]


def p_copy(S, old, r, args, e):
    return [('both refer to the same file', And(holds(S, e.t1, e.i1), holds(S, e.t2, e.i1))), ('one owner more', Eq(count(S, e.i1), e.i1[4] + 1))]


def s_one(S, env):
    base(S, env)
    env.i1 = inner(S, env, lo=1)
    env.t1 = tf(S, env, 'a', env.i1[0])
    return [env.t1]


def p_del(S, old, r, args, e):
    return [('the file lost an owner', released(S, e.i1))]


def fresh_inner(S, e, path, per):
    p = S.ptr(e.t1, 'm_inner.px')
    if p.obj is None or p.obj is getattr(e, 'i1', (VPtr(None, 0),))[0].obj:
        return False
    g = S.st.ghost.get(key(S.ex, S.st, p))
    return And(g is not None and Eq(g, path), Eq(S.get(p, 'm_count', cls=SNAME), 1), Iff(Not(Eq(S.get(p, 'm_persist', 8, cls=SNAME), 0)), per), Eq(S.get(p, 'm_recordedSize', cls=SNAME), 0))


def p_free(S, old, r, args, e):
    return [('the file lost an owner', released(S, e.i1)), ('a temporary file without a name yet', fresh_inner(S, e, 0, False))]


def s_set(S, env):
    a = s_one(S, env)
    env.np = S.int('new path', 64, 0, 2 ** 60)
    env.nper = S.int('new persist', 8, 0, 1)
    return a + [strobj(S, 'path', env.np), VBool(Eq(env.nper, 1))]


def p_set(S, old, r, args, e):
    return [('the file lost an owner', released(S, e.i1)), ('the new file', fresh_inner(S, e, e.np, Eq(e.nper, 1)))]


def s_new(S, env):
    base(S, env)
    env.t1 = S.obj('a', 'param', cls=TFN)
    return [env.t1]


def p_new(S, old, r, args, e):
    return [('a temporary file without a name yet', fresh_inner(S, e, 0, False))]


def s_newp(S, env):
    a = s_new(S, env)
    env.np = S.int('new path', 64, 0, 2 ** 60)
    env.nper = S.int('new persist', 8, 0, 1)
    return a + [strobj(S, 'path', env.np), VBool(Eq(env.nper, 1))]


def p_newp(S, old, r, args, e):
    return [('the file', fresh_inner(S, e, e.np, Eq(e.nper, 1)))]


def s_per(S, env):
    a = s_one(S, env)
    env.nper = S.int('new persist', 8, 0, 1)
    return a + [VBool(Eq(env.nper, 1))]


def p_per(S, old, r, args, e):
    return [('persistence is set', Iff(Not(Eq(S.get(e.i1[0], 'm_persist', 8), 0)), Eq(e.nper, 1))), ('nothing else', And(Eq(count(S, e.i1), e.i1[4]), holds(S, e.t1, e.i1)))]


HI = HS + [(r'~temp_file_inner\(', h_idtor)]
HN = [(r'tempname::tpie_name', h_tpie_name)] + HS
HSUB = [(r'get_actual_path', h_actual)] + HS
FNS = [
    FnSpec('gen_temp', r'gen_temp\(', s_gen, p_gen, exc=x_gen, hooks=[(r'create_subdir\(', h_subdir)] + HS, cases=('default directory', 'given directory')),
    FnSpec('create_subdir', r'create_subdir\(', s_sub, p_sub, exc=x_sub, hooks=HSUB),
    FnSpec('tpie_name', r'^tpie::tempname::tpie_name\(', s_name, p_name, hooks=[(r'gen_temp\(', h_gen)] + HS, cases=('file',)),
    FnSpec('tpie_dir_name', r'^tpie::tempname::tpie_dir_name\(', s_name, p_name, hooks=[(r'gen_temp\(', h_gen)] + HS, cases=('dir',)),
    FnSpec('set_default_path', r'^tpie::tempname::set_default_path\(', s_default, p_default, hooks=HS, cases=('no subdirectory', 'subdirectory'), opts={'fs_throws': True}),
    FnSpec('finish_tempfile', r'^tpie::finish_tempfile\(', s_fin, p_fin, hooks=HS, loops=[FIN]),
    FnSpec('~temp_file_inner', r'temp_file_inner::~temp_file_inner\(', s_inner, p_dtor, hooks=[(r'update_recorded_size', h_update)] + HS),
    FnSpec('temp_file_inner::path', r'temp_file_inner::path', s_inner, p_ipath, hooks=HN),
    FnSpec('update_recorded_size', r'temp_file_inner::update_recorded_size', s_update, p_update, hooks=HS),
    FnSpec('temp_file::operator=', r'\bvp_assign\(', s_assign, p_assign, hooks=HI, cases=[(0, 'shared'), (1, 'distinct')]),
    FnSpec('temp_file copy', r'\bvp_copy\(', s_copy, p_copy, hooks=HI),
    FnSpec('~temp_file', r'\bvp_del\(', s_one, p_del, hooks=HI),
    FnSpec('temp_file::free', r'\bvp_free\(', s_one, p_free, hooks=HI),
    FnSpec('temp_file::set_path', r'tpie::temp_file::set_path\(', s_set, p_set, hooks=HI),
    FnSpec('temp_file::temp_file', r'\bvp_new\(', s_new, p_new, hooks=HI),
    FnSpec('temp_file::temp_file(path)', r'\bvp_newp\(', s_newp, p_newp, hooks=HI),
    FnSpec('temp_file::set_persistent', r'\bvp_set_persistent\(', s_per, p_per, hooks=HI),
]
BOUNDED = [('construct_name, get_actual_path and whole histories of names and temporary files in a scratch directory, with a random device that can repeat itself',
            'generated histories of up to 40 operations')]
ASSUME = ['the random part of a name does not repeat (64 random bits)', 'strings, paths and the file system by contract; a file system that other processes change between the check and the use is out of scope',
          'remove() succeeds']
LEVEL = 'proof'
