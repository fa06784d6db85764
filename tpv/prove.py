"""Per-function verification and discharge of the obligations."""
import itertools
import os
import re
import select
import signal
import subprocess
import tempfile
import time
import traceback
import multiprocessing
import threading
import z3
import ir
import sym
from sym import *
from sym import _fresh
from exe import *
from run_fn import Run


class FnSpec:
    """contract of one function.
    fn      regex matched (search) against the demangled name; must pick exactly one defined function
    setup   setup(S, case) -> list of argument values; establishes and assumes the precondition
    post    post(S, old, ret, args, env) -> [(name, formula)] on normal return
    exc     None: an exceptional exit is a violation; 'any': unconstrained; or a function like post
    frame   frame(S, args, env) -> [(VPtr, size, kind)] cells that may change; None = not checked
    """
    def __init__(self, name, fn, setup, post=None, exc=None, frame=None, cases=(None,), loops=(), hooks=(), opts=None,
                 required=True, axioms=(), tu=None, bv=False, doc=''):
        self.__dict__.update(locals())


class Result:
    pass


def axioms_for(texts, extra=()):
    """background axioms, each proved separately in lemmas.py"""
    ax = []
    sums = set()
    um = False
    for t in texts:
        for d in decls(t):
            n = d.name()
            if n.endswith('.sum'):
                sums.add((n, d))
            if n == 'umod':
                um = True
    for n, S in sorted(sums, key=lambda x: x[0]):
        base = z3.Function(n[:-4], I, I)
        a, b, c = z3.Ints('a b c')
        ax.append(z3.ForAll([a, b, c], z3.Implies(z3.And(a <= b, b <= c), S(a, b) + S(b, c) == S(a, c)),
                            patterns=[z3.MultiPattern(S(a, b), S(b, c)), z3.MultiPattern(S(a, b), S(a, c)),
                                      z3.MultiPattern(S(a, c), S(b, c))]))
        ax.append(z3.ForAll([a, b], z3.Implies(a == b, S(a, b) == 0), patterns=[S(a, b)]))
        ax.append(z3.ForAll([a, b], z3.Implies(b == a + 1, S(a, b) == sym.W(base(a))), patterns=[S(a, b)]))
    if um:
        u = z3.Function('umod', I, I, I)
        a, b, n = z3.Ints('a b n')
        ax.append(z3.ForAll([a, b, n], z3.Implies(z3.And(n > 0, 0 <= a, a < b, b - a < n), u(a, n) != u(b, n)),
                            patterns=[z3.MultiPattern(u(a, n), u(b, n))]))
        ax.append(z3.ForAll([a, n], z3.Implies(z3.And(n > 0, 0 <= a), z3.And(0 <= u(a, n), u(a, n) < n)), patterns=[u(a, n)]))
    for f in extra:
        if getattr(f, 'ground', False):
            ax += f(texts)
        else:
            ax += f() if callable(f) else [f]
    return ax


def decls(t, seen=None):
    out = []
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        if not z3.is_expr(x):
            continue
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            st.append(x.body())
        elif z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out.append(x.decl())
            st.extend(x.children())
    return out


CVC5 = 'cvc5'


def cvc5_check(solver, timeout):
    txt = solver.to_smt2()
    txt = '(set-logic ALL)\n' + txt
    f = tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False)
    f.write(txt)
    f.close()
    try:
        r = subprocess.run([CVC5, '--tlimit=%d' % int(timeout * 1000), f.name], capture_output=True, text=True, timeout=timeout + 10)
        return r.stdout.strip().split('\n')[0]
    except subprocess.TimeoutExpired:
        return 'timeout'
    finally:
        os.unlink(f.name)


def model_of(s):
    d = []
    try:
        m = s.model()
        for c in m.decls():
            if c.arity() == 0:
                d.append('%s = %s' % (c.name(), m[c]))
            elif len(d) < 60:
                d.append('%s = %s' % (c.name(), str(m[c])[:200].replace('\n', ' ')))
    except z3.Z3Exception:
        pass
    return d[:80]


def solve(s, t, o):
    rd, wr = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(rd)
            r = s.check()
            out = 'unsat' if r == z3.unsat else 'unknown'
            if r == z3.sat:
                out = 'sat\n' + '\n'.join(model_of(s))
            with os.fdopen(wr, 'w') as f:
                f.write(out)
        finally:
            os._exit(0)
    os.close(wr)
    out, end = b'', time.time() + t + 2
    try:
        while True:
            if not select.select([rd], [], [], max(0, end - time.time()))[0]:
                break
            x = os.read(rd, 65536)
            if not x:
                break
            out += x
    finally:
        os.close(rd)
        try:
            os.kill(pid, signal.SIGKILL)
        except OSError:
            pass
        os.waitpid(pid, 0)
    out = out.decode(errors='replace').split('\n')
    if out[0] == 'unsat':
        return z3.unsat
    if out[0] == 'sat':
        o.model = out[1:]
        return z3.sat
    return z3.unknown


def discharge(o, extra_ax, tmo):
    t0 = time.time()
    goal = z3.BoolVal(False) if o.goal is False else o.goal
    base = [z3.BoolVal(f) if isinstance(f, bool) else f for f in o.facts]
    ax = axioms_for(base + [goal], extra_ax)
    neg = z3.Not(goal)
    o.model = None
    last = None

    def attempt(opts, t, here=False):
        """the solver runs in a process of its own, ended when it does not heed its time limit"""
        s = z3.Solver()
        s.set('timeout', int(t * 1000))
        for k, v in opts.items():
            s.set(k, v)
        s.add(*base)
        s.add(*ax)
        s.add(neg)
        return s, (s.check() if here else solve(s, t, o))
    r = z3.unknown
    be = 'z3'
    s, r = attempt({'smt.mbqi': False, 'auto_config': False}, min(4, tmo), True)
    be = 'z3-ematch'
    if r != z3.unsat:
        r = z3.unknown
    if r == z3.unknown:
        s, r = attempt({}, min(6, tmo))
        be = 'z3'
    if r == z3.unknown:
        c = cvc5_check(s, tmo)
        if c == 'unsat':
            r, be = z3.unsat, 'cvc5'
        elif c == 'sat':
            r, be = z3.sat, 'cvc5'
    if r == z3.unknown:
        s2, r2 = attempt({'random_seed': 7, 'smt.arith.solver': 2}, tmo)
        if r2 != z3.unknown:
            s, r, be = s2, r2, 'z3-seed'
    o.time = time.time() - t0
    o.backend = be
    if r == z3.unsat:
        o.result = 'proved'
    elif r == z3.sat:
        o.result = 'refuted'
    else:
        o.result = 'unknown'
        o.model = ['no answer from the solvers']


def pick_fn(mod, dm, rx):
    r = re.compile(rx)
    c = [f for f in mod.funcs.values() if r.search(dm.get(f.name, f.name))]
    if len(c) > 1:
        # complete/base object constructor twins
        c2 = [f for f in c if not re.search(r'[CD]2E', f.name)]
        if len(c2) == 1:
            return c2[0]
        raise Unsupported('contract %s matches %d functions: %s' % (rx, len(c), [dm[f.name] for f in c][:4]))
    return c[0] if c else None


class Env(dict):
    def __getattr__(self, k):
        try:
            return self[k]
        except KeyError:
            raise AttributeError(k)
    __setattr__ = dict.__setitem__


def verify_once(mod, dm, spec, assignment, tmo, deadline, fast=False):
    """returns (list of obligations, run object, error or None)"""
    fn = pick_fn(mod, dm, spec.fn)
    if fn is None:
        raise Unsupported('function not found: ' + spec.fn)
    allobs = []
    meta = {'cover': [], 'returns': 0, 'throws': 0, 'fn': dm[fn.name], 'assumptions': set(), 'fns': set(), 'offsets': {}}
    runs = []
    for case in spec.cases:
        ex = Run(mod, dm, spec.hooks, spec.loops, spec.opts)
        ex.deadline = deadline
        ex.assignment = assignment
        ex.fname = spec.name
        st = State()
        S = Ctx(ex, st)
        env = Env(case=case)
        S.env = env
        ex.spec_env = env
        args = spec.setup(S, env)
        # precondition satisfiable?
        chk = z3.Solver()
        chk.set('timeout', 5000)
        chk.add(*st.facts())
        sat = chk.check()
        meta['cover'].append((spec.name, str(case), str(sat)))
        if sat == z3.unsat:
            raise Unsupported('vacuous precondition in %s case %s' % (spec.name, case))
        old = st.fork()
        ex.entry = old
        So = Ctx(ex, old)
        rets = [0]
        thr = [0]

        def k(s, kind, v):
            Sx = Ctx(ex, s)
            Sx.env = env
            ex.curline = None
            if kind == 'throw':
                thr[0] += 1
                if spec.exc is None:
                    if ex.opts.get('nothrow_ok'):
                        return
                    ex.oblige(s, 'does not throw', 'post', False)
                    return
                if spec.exc == 'any':
                    return
                fs = spec.exc(Sx, So, v, args, env)
            else:
                rets[0] += 1
                fs = spec.post(Sx, So, v, args, env) if spec.post else []
            for nm, f in fs:
                ex.oblige(s, nm, 'post', f, keep=False)
            if spec.frame is not None:
                check_frame(ex, s, old, spec.frame(Sx, args, env), spec.name)
        try:
            ex.call_function(st, fn, args, k)
        except PathEnd:
            pass
        meta['returns'] += rets[0]
        meta['throws'] += thr[0]
        meta['assumptions'] |= ex.assumptions
        meta['fns'] |= ex.fnlist
        meta['offsets'].update(getattr(ex, 'member_offsets', {}))
        if rets[0] == 0 and not (spec.opts or {}).get('no_return_ok'):
            raise Unsupported('no normal return reached in %s case %s' % (spec.name, case))
        allobs += ex.obls
        runs.append(ex)
    # discharge
    fails = 0
    for o in allobs:
        if o.result is None:
            if fast and fails:
                break
            if time.time() > deadline:
                o.result, o.model = 'unknown', ['time budget']
                fails += 1
                continue
            discharge(o, spec.axioms, tmo)
            if o.result != 'proved':
                fails += 1
    return allobs, meta, runs


def check_frame(ex, s, old, allowed, name):
    """every cell of an object that existed at entry is unchanged, except the allowed ones"""
    ok = set()
    okobj = set()
    for a in allowed:
        if isinstance(a, tuple) and isinstance(a[0], VPtr):
            p, size = a[0], a[1]
            key, idx, cell, conds = ex.resolve(s, p.obj, p.off, size)
            ok.add((p.obj.id, key))
        elif isinstance(a, VPtr):
            okobj.add(a.obj.id)
    for k, v in s.cells.items():
        oid, key = k
        if oid not in old.objs or oid in okobj or k in ok or oid in s.dead:
            continue
        if s.objs[oid].kind == 'global' and s.objs[oid].readonly:
            continue
        ov = old.cells.get(k)
        o = s.objs[oid]
        if ov is v:
            continue
        if isinstance(v, AV):
            if ov is None:
                ov = ex.initial(s, o, key, (0,) * v.dims, ex.cell_of(o, key))
            if ov.name == v.name and ov.ops == v.ops:
                continue
            vs = [z3.Int('fr!%d' % next(sym._fresh)) for _ in range(v.dims)]
            f = Eq(v.read(*vs), ov.read(*vs))
        else:
            cell = ex.cell_of(o, key)
            if ov is None:
                ov = ex.initial(s, o, key, (), cell)
            f = same(ex, s, v, ov)
        ex.oblige(s, 'frame: %s+%s unchanged' % (o.name, '.'.join(map(str, key))), 'frame', f, keep=False)


def same(ex, s, a, b):
    if isinstance(a, VFp) and isinstance(b, VFp):
        return a.e == b.e
    if isinstance(a, VBool):
        a = VInt(If(a.e, 1, 0), 8)
    if isinstance(b, VBool):
        b = VInt(If(b.e, 1, 0), 8)
    if isinstance(a, VInt) and isinstance(b, VInt):
        return Eq(ex.as_u(s, a), ex.as_u(s, b))
    if isinstance(a, VPtr) and isinstance(b, VPtr) and a.obj is b.obj:
        return And(Eq(a.off, b.off), Iff(a.nul, b.nul))
    if isinstance(a, VFn) and isinstance(b, VFn):
        return a.name == b.name
    if isinstance(a, (VPtr, VOpq)) and isinstance(b, (VPtr, VOpq)):
        return Eq(ex.ptr_addr(s, a), ex.ptr_addr(s, b))
    return False


def alternatives(runs, loops, limit=24):
    """other role assignments for the loops that were seen"""
    seen = {}
    for r in runs:
        seen.update(r.loopseen)
    per = []
    for key, info in sorted(seen.items()):
        opts = []
        if info[1] is None:
            for sp in loops:
                opts.append({('spec',) + key: sp})
        else:
            spec, phis = info[1], info[2]
            names = [p for p, k in phis if k in 'usp']
            rs = list(spec.roles)
            for perm in itertools.permutations(names, len(rs)):
                opts.append({key: dict(zip(rs, perm))})
            for sp in loops:
                if sp is not spec:
                    opts.append({('spec',) + key: sp})
        opts = opts[:12]
        if opts:
            per.append(opts)
    n = 0
    # single changes first, then combinations
    for o in per:
        for a in o:
            yield a
            n += 1
            if n >= limit:
                return
    for c in itertools.product(*per):
        a = {}
        for x in c:
            a.update(x)
        yield a
        n += 1
        if n >= limit:
            return


def verify(mod, dm, spec, tmo=20, budget=240):
    """-> picklable dict"""
    t0 = time.time()
    deadline = t0 + budget
    out = {'name': spec.name, 'fn': None, 'status': None, 'obligations': [], 'error': None, 'cover': [], 'time': 0}
    try:
        obs, meta, runs = verify_once(mod, dm, spec, None, tmo, deadline, fast=True)
        bad = [o for o in obs if o.result != 'proved']
        if bad and any(r.loopseen for r in runs):
            out['roles_searched'] = True
            for a in alternatives(runs, spec.loops):
                if time.time() > deadline:
                    break
                try:
                    obs2, meta2, runs2 = verify_once(mod, dm, spec, a, min(tmo, 8), deadline, fast=True)
                except Unsupported:
                    continue
                if all(o.result == 'proved' for o in obs2):
                    obs, meta, runs, bad = obs2, meta2, runs2, []
                    break
        if bad:
            obs, meta, runs = verify_once(mod, dm, spec, None, tmo, max(deadline, time.time() + 60))
            bad = [o for o in obs if o.result != 'proved']
        out['fn'] = meta['fn']
        out['cover'] = meta['cover']
        out['returns'] = meta['returns']
        out['throws'] = meta['throws']
        out['assumptions'] = sorted(meta['assumptions'])
        out['offsets'] = meta['offsets']
        out['inlined'] = sorted(dm.get(f, f) for f in meta['fns'])
        out['status'] = 'proved' if not bad else 'failed'
        for o in obs:
            src = runs[0].srcfn(o.line)[0] + ':' + str(runs[0].srcfn(o.line)[1]) if o.line else None
            out['obligations'].append({'name': o.name, 'kind': o.kind, 'result': o.result, 'backend': o.backend,
                                       'time': round(o.time, 3), 'path': list(o.path)[-6:], 'src': src,
                                       'model': o.model if o.result != 'proved' else None,
                                       'goal': str(o.goal)[:600] if o.result != 'proved' else None})
    except Unsupported as e:
        out['status'] = 'unsupported'
        out['error'] = str(e)
        if os.environ.get('TPV_TRACE'):
            out['error'] += '\n' + traceback.format_exc()
    except RecursionError:
        out['status'] = 'unsupported'
        out['error'] = 'recursion depth'
    except Exception as e:
        out['status'] = 'unsupported'
        out['error'] = 'verifier error: %s: %s' % (type(e).__name__, e)
        if os.environ.get('TPV_TRACE'):
            out['error'] += '\n' + traceback.format_exc()
    out['time'] = round(time.time() - t0, 2)
    return out


def _worker(q, i, mod, dm, spec, tmo, budget):
    r = []

    def go():
        r.append(verify(mod, dm, spec, tmo, budget))
    threading.stack_size(512 * 1024 * 1024)
    t = threading.Thread(target=go)
    t.start()
    t.join()
    q.put((i, r[0] if r else {'name': spec.name, 'status': 'unsupported', 'error': 'worker died', 'obligations': []}))
    q.close()
    q.join_thread()
    os._exit(0)     # no tear-down of the term graph


def verify_all(jobs, nproc=8, tmo=20, budget=240, progress=None):
    """jobs: [(mod, dm, spec)]; forks one process per function"""
    ctx = multiprocessing.get_context('fork')
    q = ctx.Queue()
    res = [None] * len(jobs)
    running = {}
    todo = list(range(len(jobs)))
    done = 0
    while done < len(jobs):
        while todo and len(running) < nproc:
            i = todo.pop(0)
            p = ctx.Process(target=_worker, args=(q, i, jobs[i][0], jobs[i][1], jobs[i][2], tmo, budget))
            p.start()
            running[i] = (p, time.time())
        try:
            i, r = q.get(timeout=1.0)
            res[i] = r
            p = running.pop(i)[0]
            p.join(5)
            if p.is_alive():
                p.kill()
            done += 1
            if progress:
                progress(r)
        except Exception:
            pass
        for i, (p, t) in list(running.items()):
            if (not p.is_alive() and q.empty()) or time.time() - t > budget + 90:
                time.sleep(0.2)
                if not q.empty():
                    continue
                p.kill()
                res[i] = {'name': jobs[i][2].name, 'status': 'unsupported', 'error': 'worker ended without an answer (time or memory)', 'obligations': []}
                running.pop(i)
                done += 1
    return res


class Lemma:
    """a lemma over the contracts: fn() -> list of (name, [facts], goal), each proved on every run"""
    def __init__(self, name, fn):
        self.name, self.fn = name, fn


def prove_lemma(lm, tmo):
    t0 = time.time()
    out = {'name': 'lemma ' + lm.name, 'fn': None, 'status': 'proved', 'obligations': [], 'error': None, 'cover': [], 'time': 0}
    for nm, facts, goal in lm.fn():
        o = Obligation(nm, 'lemma', list(facts), goal, (), None)
        discharge(o, (), tmo)
        if o.result != 'proved':
            out['status'] = 'failed'
        out['obligations'].append({'name': nm, 'kind': 'lemma', 'result': o.result, 'backend': o.backend, 'time': round(o.time, 3), 'path': [],
                                   'src': None, 'model': o.model if o.result != 'proved' else None, 'goal': str(goal)[:600] if o.result != 'proved' else None})
    out['time'] = round(time.time() - t0, 2)
    return out
