"""Instruction semantics, loops, calls and the per-function verification driver."""
import os
import re
import time
import z3
import ir
from sym import *
from sym import _fresh
import exe
import bits
from exe import *


class Frame:
    _n = itertools.count()

    def __init__(self, ex, fn, k):
        self.id = next(Frame._n)
        self.fn = fn
        self.k = k
        self.loops = ex.loopinfo(fn)[0]


class LoopCtx:
    pass


class Run(Executor):
    # ---------------------------------------------------------------- static info
    def loopinfo(self, fn):
        c = self.__dict__.setdefault('_li', {})
        if fn.name not in c:
            ir.parse_body(self.m, fn)
            c[fn.name] = ir.loops(fn)
        return c[fn.name]

    def srcfn(self, dl):
        """demangled name of the function whose source line this debug location names"""
        c = self.__dict__.setdefault('_src', {})
        if dl in c:
            return c[dl]
        r = ('', 0)
        try:
            kind, d = ir.parse_md(self.m.md[dl])
            line = int(d.get('line', 0))
            s = d.get('scope')
            while s is not None:
                kind, d = ir.parse_md(self.m.md[s])
                if kind == 'DISubprogram':
                    r = (d.get('linkageName') or d.get('name', ''), line)
                    break
                s = d.get('scope')
        except (KeyError, TypeError, ValueError):
            pass
        r = (self.demangle(r[0]), r[1])
        c[dl] = r
        return r

    def demangle(self, n):
        if n in self.dm:
            return self.dm[n]
        if not n.startswith('_Z'):
            return n
        import subprocess
        r = subprocess.run(['llvm-cxxfilt-18'], input=n + '\n', capture_output=True, text=True).stdout.strip()
        self.dm[n] = r
        return r

    def loop_origin(self, fn, header):
        b = fn.blocks[header]
        lps = self.loopinfo(fn)[0]
        if header in lps:
            for l in sorted(lps[header][1]):
                t = fn.blocks[l].ins[-1]
                if t.loopmd is not None:
                    _, el = ir.parse_md(self.m.md[t.loopmd])
                    for x in el or []:
                        if x is not None and 'DILocation(' in self.m.md.get(x, ''):
                            o = self.srcfn(x)
                            if o[0]:
                                return o
                if t.line is not None:
                    o = self.srcfn(t.line)
                    if o[0]:
                        return o
        for i in list(b.ins):
            if i.line is not None and i.op != 'phi':
                o = self.srcfn(i.line)
                if o[0]:
                    return o
        for i in b.ins:
            if i.line is not None:
                return self.srcfn(i.line)
        return (self.demangle(fn.name), 0)

    # ---------------------------------------------------------------- running
    def call_function(self, st, fn, args, k):
        """execute a defined function; k(st, kind, value)"""
        ir.parse_body(self.m, fn)
        if st.depth > self.MAXDEPTH:
            raise Unsupported('inlining depth at ' + self.demangle(fn.name))
        fr = Frame(self, fn, k)
        saved = st.env
        st.env = {}
        st.depth += 1
        for (nm, ty, at), a in zip(fn.params, args):
            st.env[nm] = a
        self.fnlist.add(fn.name)
        depth = st.depth

        def kk(s, kind, v):
            s.env = dict(saved)
            s.depth = depth - 1
            k(s, kind, v)
        fr.k = kk
        self.block(fr, st, fn.order[0], None)

    def block(self, fr, st, name, pred):
        self.budget()
        # loop bookkeeping
        for (fid, h), lc in list(st.loops.items()):
            if fid == fr.id and lc.dry and pred in lc.body and name not in lc.body:
                return  # a dry run stops when it leaves the loop
        b = fr.fn.blocks[name]
        if name in fr.loops:
            body, latches = fr.loops[name]
            if pred in body:
                return self.backedge(fr, st, name, pred)
            return self.loop_entry(fr, st, name, pred)
        # phis
        self.phis(st, b, pred)
        self.straight(fr, st, b, 0)

    def phis(self, st, b, pred):
        new = {}
        for i in b.ins:
            if i.op != 'phi':
                break
            for v, p in i.x:
                if p == pred:
                    new[i.res] = self.val(st, v)
                    break
            else:
                raise Unsupported('phi without predecessor')
        st.env.update(new)

    def budget(self):
        self.paths += 1
        if self.paths > self.opts.get('max_blocks', 60000):
            raise Unsupported('path budget exceeded')
        if time.time() > self.deadline:
            raise Unsupported('time budget exceeded')

    def straight(self, fr, st, b, start):
        ins = b.ins
        n = len(ins)
        i = start
        while i < n:
            x = ins[i]
            i += 1
            op = x.op
            if op == 'phi':
                continue
            if x.line is not None:
                self.curline = x.line
            try:
                if op in ('br', 'switch', 'ret', 'unreachable', 'invoke', 'resume'):
                    return self.term(fr, st, b, x)
                if op == 'call':
                    outs = self.call(fr, st, x)
                    if isinstance(outs, tuple) and outs[0] == 'inline':
                        _, fn, args = outs
                        rest = i

                        def k(s, kind, v, x=x, rest=rest):
                            if kind == 'throw':
                                return fr.k(s, 'throw', v)
                            if x.res is not None:
                                s.env[x.res] = v
                            self.straight(fr, s, b, rest)
                        return self.call_function(st, fn, args, k)
                    if len(outs) == 1 and outs[0][0] == 'ret' and outs[0][1] is st:
                        if x.res is not None:
                            st.env[x.res] = outs[0][2]
                        continue
                    for kind, s, v in outs:
                        if kind == 'ret':
                            if x.res is not None:
                                s.env[x.res] = v
                            self.straight(fr, s, b, i)
                        else:
                            fr.k(s, 'throw', v)
                    return
                if op == 'select':
                    c = self.val(st, x.ops[0])
                    a = self.val(st, x.ops[1])
                    d = self.val(st, x.ops[2])
                    if isinstance(a, VInt) and isinstance(d, VInt):
                        st.env[x.res] = VInt(If(c.e, a.e, d.e), a.w)
                        continue
                    if isinstance(a, VBool) and isinstance(d, VBool):
                        st.env[x.res] = VBool(bite(c.e, a.e, d.e))
                        continue
                    if isinstance(a, VFp) and isinstance(d, VFp):
                        st.env[x.res] = VFp(z3.If(ZB(c.e), a.e, d.e))
                        continue
                    if (isinstance(a, VPtr) and isinstance(d, VPtr) and a.obj is d.obj and a.nul is False and d.nul is False
                            and not (is_c(a.off) and is_c(d.off) and a.off != d.off and isinstance(getattr(a.obj, 'layout', None), Struct))):
                        st.env[x.res] = VPtr(a.obj, If(c.e, a.off, d.off))
                        continue
                    for cond, v in ((c.e, a), (Not(c.e), d)):
                        if cond is False:
                            continue
                        s = st.fork()
                        self.assume(s, cond)
                        if not self.light.feasible(s.pc):
                            continue
                        s.env[x.res] = v
                        self.straight(fr, s, b, i)
                    return
                self.step(fr, st, x)
            except PathEnd:
                return
        raise Unsupported('fell off block')

    def goto(self, fr, st, b, target):
        self.block(fr, st, target, b.name)

    def term(self, fr, st, b, x):
        op = x.op
        if op == 'br':
            if not x.ops:
                return self.goto(fr, st, b, x.x[0])
            c = self.val(st, x.ops[0]).e
            if isinstance(c, bool):
                return self.goto(fr, st, b, x.x[0] if c else x.x[1])
            f1 = self.light.feasible(st.pc, c)
            f2 = self.light.feasible(st.pc, Not(c))
            if f1 and f2:
                s = st.fork()
                self.assume(s, c)
                s.path = s.path + (b.name + ':T',)
                self.goto(fr, s, b, x.x[0])
                s = st.fork()
                self.assume(s, Not(c))
                s.path = s.path + (b.name + ':F',)
                self.goto(fr, s, b, x.x[1])
            elif f1:
                self.assume(st, c)
                self.goto(fr, st, b, x.x[0])
            elif f2:
                self.assume(st, Not(c))
                self.goto(fr, st, b, x.x[1])
            return
        if op == 'switch':
            v = self.val(st, x.ops[0])
            d, cs = x.x
            neg = []
            e = self.as_u(st, v) if isinstance(v, VInt) else If(v.e, 1, 0)
            for c, lab in cs:
                cv = c[1] % (1 << c[2][1])
                f = Eq(e, cv)
                neg.append(Not(f))
                if self.light.feasible(st.pc, f):
                    s = st.fork()
                    self.assume(s, f)
                    s.path = s.path + ('%s:%d' % (b.name, cv),)
                    self.goto(fr, s, b, lab)
            f = And(neg)
            if self.light.feasible(st.pc, f):
                self.assume(st, f)
                self.goto(fr, st, b, d)
            return
        if op == 'ret':
            v = self.val(st, x.ops[0]) if x.ops else None
            return fr.k(st, 'ret', v)
        if op == 'unreachable':
            if st.ghost.get('$noreturn'):
                return
            self.oblige(st, 'unreachable', 'safety', False)
            return
        if op == 'resume':
            return fr.k(st, 'throw', st.ghost.get('$exc'))
        if op == 'invoke':
            outs = self.call(fr, st, x)
            if isinstance(outs, tuple) and outs[0] == 'inline':
                _, fn, args = outs

                def k(s, kind, v):
                    if kind == 'throw':
                        s.ghost['$exc'] = v
                        return self.goto(fr, s, b, x.x['unwind'])
                    if x.res is not None:
                        s.env[x.res] = v
                    self.goto(fr, s, b, x.x['normal'])
                return self.call_function(st, fn, args, k)
            for kind, s, v in outs:
                if kind == 'ret':
                    if x.res is not None:
                        s.env[x.res] = v
                    self.goto(fr, s, b, x.x['normal'])
                else:
                    s.ghost['$exc'] = v
                    self.goto(fr, s, b, x.x['unwind'])
            return

    # ---------------------------------------------------------------- loops
    def loop_entry(self, fr, st, name, pred, again=False):
        fn = fr.fn
        body, latches = fr.loops[name]
        b = fn.blocks[name]
        phis = [i for i in b.ins if i.op == 'phi']
        self.phis(st, b, pred)
        init = {i.res: st.env[i.res] for i in phis}
        spec, origin = self.find_spec(fr, name)
        if spec is not None and spec.unroll:
            # executed iteration by iteration; running past the stated count is an error, so nothing is cut off
            self.loopseen[(fn.name, name)] = (origin[0], spec, [])
            lc = LoopCtx()
            lc.__dict__.update(fr=fr, header=name, body=body, spec=spec, origin=origin, dry=False, unroll=0)
            st.loops[(fr.id, name)] = lc
            return self.straight(fr, st, b, 0)
        if spec is not None and spec.peel and not again and spec.peel(self.spec_env):
            lc = LoopCtx()
            lc.__dict__.update(fr=fr, header=name, body=body, spec=spec, origin=origin, dry=False, peeled=True)
            st.loops[(fr.id, name)] = lc
            return self.straight(fr, st, b, 0)
        pinfo = {}
        for i in phis:
            v = init[i.res]
            if isinstance(v, VInt):
                sg = self.phi_signed(fn, body, i)
                iv = self.as_s(st, v) if sg else self.as_u(st, v)
                pinfo[i.res] = ['s' if sg else 'u', iv, None, None]
            elif isinstance(v, VPtr):
                v = init[i.res] = self.concretize(st, v)
                if v.obj is None:
                    pinfo[i.res] = ['n', 0, None, None]
                else:
                    self.need_layout(fn, body, v, i)
                    stride, rem, idx = self.ptr_idx(st, v)
                    pinfo[i.res] = ['p', idx, stride, rem]
            elif isinstance(v, VBool):
                pinfo[i.res] = ['b', v.e, None, None]
            elif isinstance(v, VOpq):
                pinfo[i.res] = ['o', v.e, None, None]
            elif isinstance(v, VFp):
                pinfo[i.res] = ['f', v.e, None, None]
            else:
                raise Unsupported('phi of %r' % v)
        S0 = st.fork()
        known = set(st.objs)
        roles = self.bind_roles(fr, name, spec, origin, phis, pinfo)
        mods = set()
        lc0 = dict(fr=fr, header=name, body=body, spec=spec, origin=origin, phis=phis, pinfo=pinfo, roles=roles, S0=S0, init=init)

        cands = None
        multi = {}
        # ---- inference of the written cells and of the simple invariants
        rounds = 0
        while True:
            rounds += 1
            if rounds > 25:
                raise Unsupported('loop frame inference')
            s = st.fork()
            fresh = self.havoc_loop(s, lc0, mods)
            lc = LoopCtx()
            lc.__dict__.update(lc0)
            lc.dry = True
            lc.fresh = fresh
            lc.cands = cands
            lc.newc = []
            lc.dropped = set()
            lc.steps = {}
            lc.mark0 = next(_fresh)
            lc.multi = {}
            s.loops[(fr.id, name)] = lc
            rec = set()
            s.mark = (s.mark, rec)
            self.assume_inv(s, lc, fresh)
            if cands:
                for c in cands:
                    self.assume(s, c[1](fresh))
            self.dry += 1
            try:
                self.straight(fr, s, b, 0)
            except PathEnd:
                pass
            finally:
                self.dry -= 1
            again = False
            for r, o in lc.multi.items():
                if pinfo[r][0] != 'o':
                    pinfo[r][0] = 'o'
                    pinfo[r][1] = self.ptr_addr(st, init[r])
                    again = True
            new = {k for k in rec if (k[0] == 'g' or k[0] in known)} - mods
            if new:
                mods |= new
                again = True
            if cands is None:
                cands = self.make_cands(st, lc, S0)
                again = True
            elif lc.dropped:
                cands = [c for j, c in enumerate(cands) if j not in lc.dropped]
                again = True
            if not again:
                break
        # ---- the real thing
        lc = LoopCtx()
        lc.__dict__.update(lc0)
        lc.dry = False
        lc.cands = cands
        lc.multi = {}
        vals0 = {r: pinfo[r][1] for r in pinfo}
        Lx = self.mkL(st, lc, vals0, init)
        if spec is not None and spec.inv:
            for nm, f in spec.inv(Lx):
                self.oblige(st, 'loop %s: invariant "%s" on entry' % (spec.name, nm), 'inv', f)
        fresh = self.havoc_loop(st, lc, mods)
        lc.fresh = fresh
        st.loops[(fr.id, name)] = lc
        if mods:
            st.mark = (st.mark, set())  # keep writes visible to outer dry runs
            for k in mods:
                self.note_write(st, k)
        self.assume_inv(st, lc, fresh)
        for c in cands:
            self.assume(st, c[1](fresh))
        if spec is not None and spec.variant:
            lc.variant = spec.variant(self.mkL(st, lc, fresh, {i.res: st.env[i.res] for i in phis}))
        else:
            lc.variant = None
        st.path = st.path + ('loop@' + name,)
        if spec is None:
            self.loopseen[(fr.fn.name, name)] = (origin[0], None)
        self.straight(fr, st, b, 0)

    def need_layout(self, fn, body, v, phi):
        if v.obj.layout is not None:
            return
        names = {phi.res}
        for bn in body:
            for i in fn.blocks[bn].ins:
                if i.op == 'getelementptr' and i.ops[0][0] == 'l' and i.ops[0][1] in names:
                    self.ensure_layout(v.obj, i.x)
                    if v.obj.layout is not None:
                        return

    def ptr_idx(self, st, v):
        """stride, remainder and element index of a pointer into an array object"""
        node = v.obj.layout
        if isinstance(node, Arr):
            s = node.stride
        elif isinstance(node, Struct):
            arrs = [f for f in node.fields if isinstance(f[1], Arr)]
            arrs = [a for a in arrs if poly(v.off)[0] >= a[0]] or arrs
            if not arrs:
                return 1, 0, v.off
            s = arrs[-1][1].stride
            # remainder relative to the field offset is folded into rem
        else:
            return 1, 0, v.off
        p = poly(v.off)
        if any(c % s for c, _ in p[1].values()):
            d = exact_div(norm(v.off), s)
            return (1, 0, v.off) if d is None else (s, 0, d)
        rem = p[0] % s
        return s, rem, unpoly((p[0] // s, {k: (c // s, t) for k, (c, t) in p[1].items()}))

    def phi_signed(self, fn, body, phi):
        names = {phi.res}
        for v, p in phi.x:
            if v[0] == 'l':
                names.add(v[1])
        u = s = 0
        for bn in body:
            for i in fn.blocks[bn].ins:
                if not any(o[0] == 'l' and o[1] in names for o in i.ops):
                    continue
                if i.op == 'icmp':
                    if i.x in ('slt', 'sle', 'sgt', 'sge'):
                        s += 1
                    elif i.x in ('ult', 'ule', 'ugt', 'uge'):
                        u += 1
                elif i.op in ('sext', 'sdiv', 'srem'):
                    s += 1
                elif i.op in ('zext', 'udiv', 'urem'):
                    u += 1
                elif i.op in ('add', 'sub', 'mul') and isinstance(i.x, set) and 'nsw' in i.x:
                    s += 0.5
        return s > u

    def find_spec(self, fr, header):
        origin = self.loop_origin(fr.fn, header)
        key = (fr.fn.name, header)
        if self.assignment is not None and ('spec',) + key in self.assignment:
            return self.assignment[('spec',) + key], origin
        c = [s for s in self.loopspecs if re.search(s.origin, origin[0])]
        if len(c) > 1:
            # a loop with several latches is split in two by the compiler: take the contract that fits its variables
            n = sum(1 for i in fr.fn.blocks[header].ins if i.op == 'phi')
            c = [s for s in c if len(s.roles) <= n] or c
        if len(c) > 1:
            # several loops from the same source function: use the source order
            c2 = [s for s in c if s.nth is not None]
            if c2:
                same = sorted({self.loop_origin(fr.fn, h)[1] for h in fr.loops if self.loop_origin(fr.fn, h)[0] == origin[0]})
                n = same.index(origin[1])
                c3 = [s for s in c2 if s.nth == n]
                c = c3 or [s for s in c if s.nth is None] or c
        return (c[0] if c else None), origin

    def bind_roles(self, fr, name, spec, origin, phis, pinfo):
        if spec is None:
            return {}
        key = (fr.fn.name, name)
        self.loopseen[key] = (origin[0], spec, [(i.res, pinfo[i.res][0]) for i in phis])
        if self.assignment is not None and key in self.assignment:
            return self.assignment[key]
        if os.environ.get('TPV_PHIS'):
            print('loop', origin, [(i.res, pinfo[i.res][0]) for i in phis])
        used = set()
        roles = {}
        for r, hint in spec.roles.items():
            kinds = 'po' if r in spec.ptr_roles else 'us'
            for i in phis:
                if i.res in used or pinfo[i.res][0] not in kinds + 'pn':
                    continue
                if re.fullmatch(hint, re.sub(r'\d+$', '', i.res.split('.')[0])) or re.fullmatch(hint, i.res.split('.')[0]):
                    roles[r] = i.res
                    used.add(i.res)
                    break
        for r in spec.roles:
            if r not in roles:
                for i in phis:
                    if i.res not in used and pinfo[i.res][0] in ('uspno' if r in spec.ptr_roles else 'uspn'):
                        roles[r] = i.res
                        used.add(i.res)
                        break
                else:
                    raise Unsupported('loop in %s: no candidate for role %s' % (origin[0], r))
        return roles

    def mkL(self, st, lc, vals, ptrs):
        x = L(Ctx(self, st), Ctx(self, lc.S0), vals, {r: lc.pinfo[r][1] for r in lc.pinfo})
        x.r = {r: vals[p] for r, p in lc.roles.items()}
        x.i0 = {r: lc.pinfo[p][1] for r, p in lc.roles.items()}
        x.p = {r: ptrs.get(p) for r, p in lc.roles.items()}
        x.p0 = {r: lc.init.get(p) for r, p in lc.roles.items()}
        x.st = st
        x.env = st.env
        x.e = getattr(self, "spec_env", None)
        return x

    def havoc_loop(self, st, lc, mods):
        """fresh values for phis and for the modified cells"""
        lc = lc if isinstance(lc, dict) else lc.__dict__
        fresh = {}
        for i in lc['phis']:
            kind, iv, stride, rem = lc['pinfo'][i.res]
            nm = '%s!%d' % (re.sub(r'\W', '_', i.res), next(_fresh))
            if kind in 'us':
                w = i.ty[1]
                v = z3.Int(nm)
                if kind == 'u':
                    self.assume(st, z3.And(v >= 0, v < 2 ** w))
                else:
                    self.assume(st, z3.And(v >= -2 ** (w - 1), v < 2 ** (w - 1)))
                fresh[i.res] = v
                st.env[i.res] = VInt(v, w)
            elif kind == 'p':
                v = z3.Int(nm)
                fresh[i.res] = v
                st.env[i.res] = VPtr(lc['init'][i.res].obj, norm(v * stride + rem), lc['init'][i.res].nul)
            elif kind == 'b':
                v = z3.Bool(nm)
                fresh[i.res] = v
                st.env[i.res] = VBool(v)
            elif kind == 'f':
                v = z3.Const(nm, FP)
                fresh[i.res] = v
                st.env[i.res] = VFp(v)
            elif kind == 'n':
                fresh[i.res] = 0
                st.env[i.res] = VPtr(None, 0)
            else:
                v = z3.Int(nm)
                fresh[i.res] = v
                st.env[i.res] = VOpq(v)
        for k in sorted(mods, key=str):
            if k[0] == 'g' and k[1] not in st.ghost:
                continue   # set first inside the loop
            if k[0] == 'g':
                g = st.ghost[k[1]]
                if isinstance(g, AV):
                    st.ghost[k[1]] = AV('%s!%d' % (k[1], next(_fresh)), g.dims, g.sort, (), g.w)
                elif z3.is_expr(g) and z3.is_bool(g):
                    st.ghost[k[1]] = z3.Bool('%s!%d' % (k[1], next(_fresh)))
                else:
                    st.ghost[k[1]] = z3.Int('%s!%d' % (k[1], next(_fresh)))
                continue
            o = st.objs[k[0]]
            key, cell, dims = k[1], self.cell_of(o, k[1]), len(k[1]) - 1
            old = st.cells.get(k)
            nm = '%s.%s!%d' % (o.name, '_'.join(map(str, k[1])), next(_fresh))
            if dims:
                st.cells[k] = AV(nm, dims, FP if cell.kind == 'f' else I, (), cell.size * 8)
            else:
                if isinstance(old, VPtr) and cell.kind == 'p' and old.obj is not None:
                    if lc['spec'] is not None and lc['spec'].fixed_ptrs:
                        lc.setdefault('fixed', {})[k] = old
                        continue
                    # a pointer cell: keep the object, forget the offset (checked at the back edge)
                    stride, rem, idx = self.ptr_idx(st, old)
                    st.cells[k] = VPtr(old.obj, norm(z3.Int(nm) * stride + rem))
                    lc.setdefault('ptrcells', {})[k] = old.obj
                else:
                    st.cells[k] = self.fresh_val(st, nm, cell)
        return fresh

    def cell_of(self, obj, key):
        node = obj.layout
        for lvl, off in enumerate(key):
            if lvl > 0:
                node = node.el
            while True:
                if isinstance(node, Struct):
                    for fo, f in node.fields:
                        if fo <= off < fo + self.nsize(f):
                            node = f
                            off -= fo
                            break
                    else:
                        raise Unsupported('cell_of')
                    continue
                if isinstance(node, Dyn):
                    node = node.cells[off]
                break
        return node

    def assume_inv(self, st, lc, fresh):
        if lc.spec is not None and lc.spec.inv:
            ptrs = {i.res: st.env[i.res] for i in lc.phis}
            for nm, f in lc.spec.inv(self.mkL(st, lc, fresh, ptrs)):
                self.assume(st, f)

    def newphis(self, st, lc, pred):
        """phi values along a back edge, in the representation of the loop"""
        vals, ptrs = {}, {}
        for i in lc.phis:
            for v, p in i.x:
                if p == pred:
                    break
            nv = self.val(st, v)
            kind, iv, stride, rem = lc.pinfo[i.res]
            if kind in 'us':
                vals[i.res] = self.as_u(st, nv) if kind == 'u' else self.as_s(st, nv)
            elif kind == 'p':
                nv = self.concretize(st, nv)
                if not isinstance(nv, VPtr) or nv.obj is not lc.init[i.res].obj or not same_nul(nv.nul, lc.init[i.res].nul):
                    lc.multi[i.res] = nv
                    vals[i.res] = 0
                    continue
                d = padd(poly(nv.off), (rem, {}), -1)
                d = exact_div(unpoly(d), stride)
                if d is None:
                    raise Unsupported('pointer stride in loop')
                vals[i.res] = d
                ptrs[i.res] = nv
            elif kind == 'b':
                vals[i.res] = nv.e
            elif kind == 'f':
                vals[i.res] = nv.e
            elif kind == 'n':
                if not (isinstance(nv, VPtr) and nv.obj is None):
                    lc.multi[i.res] = nv
                vals[i.res] = 0
            else:
                vals[i.res] = self.ptr_addr(st, nv)
                ptrs[i.res] = nv
        return vals, ptrs

    def backedge(self, fr, st, name, pred):
        lc = st.loops[(fr.id, name)]
        if hasattr(lc, 'peeled'):
            del st.loops[(fr.id, name)]
            return self.loop_entry(fr, st, name, pred, True)
        if hasattr(lc, 'unroll'):
            n = LoopCtx()
            n.__dict__.update(lc.__dict__)
            n.unroll += 1
            if n.unroll > lc.spec.unroll:
                raise Unsupported('loop in %s runs more than %d times' % (lc.origin[0], lc.spec.unroll))
            st.loops[(fr.id, name)] = n
            b = fr.fn.blocks[name]
            self.phis(st, b, pred)
            return self.straight(fr, st, b, 0)
        vals, ptrs = self.newphis(st, lc, pred)
        for k, o in getattr(lc, 'ptrcells', {}).items():
            c = st.cells.get(k)
            if not (isinstance(c, VPtr) and c.obj is o and c.nul is False):
                raise Unsupported('pointer cell changes object in a loop')
        for k, o in getattr(lc, 'fixed', {}).items():
            c = st.cells.get(k)
            if not (isinstance(c, VPtr) and c.obj is o.obj and c.nul is o.nul and Eq(c.off, o.off) is True):
                raise Unsupported('pointer cell changes in a loop')
        dd = st.dead - lc.S0.dead
        if any(o in lc.S0.objs for o in dd):
            raise Unsupported('free of an outer object in a loop')
        if lc.dry:
            if not lc.multi:
                for r, v in vals.items():
                    if lc.pinfo[r][0] in 'usp':
                        d = pconst_diff(v, lc.fresh[r])
                        lc.steps.setdefault(r, set()).add(d)
                if lc.cands:
                    for j, c in enumerate(lc.cands):
                        if j not in lc.dropped and not self.light.prove(st.pc, c[1](vals)):
                            lc.dropped.add(j)
            return
        if lc.multi:
            raise Unsupported('pointer phi changes object')
        ptr2 = dict(lc.init)
        ptr2.update(ptrs)
        Lx = self.mkL(st, lc, vals, ptr2)
        # values of other phis read through env
        if lc.spec is not None and lc.spec.inv:
            for nm, f in lc.spec.inv(Lx):
                self.oblige(st, 'loop %s: invariant "%s" preserved' % (lc.spec.name, nm), 'inv', f, keep=False)
        for c in lc.cands or []:
            self.oblige(st, 'loop in %s: bound %s' % (lc.origin[0].split('(')[0], c[0]), 'auto-inv', c[1](vals), keep=False)
        if lc.variant is not None:
            v2 = lc.spec.variant(Lx)
            self.oblige(st, 'loop %s: terminates' % lc.spec.name, 'variant', And(le(0, lc.variant), lt(v2, lc.variant)), keep=False)

    def make_cands(self, st, lc, S0):
        out = []
        names = [i.res for i in lc.phis if lc.pinfo[i.res][0] in 'usp']

        def add(nm, f, vals0):
            try:
                g = f(vals0)
            except Exception:
                return
            if self.light.prove(st.pc, g):
                out.append((nm, f))
        v0 = {r: lc.pinfo[r][1] for r in lc.pinfo}
        for r in names:
            i0 = v0[r]
            add('%s>=init' % r, lambda v, r=r, i0=i0: le(i0, v[r]), v0)
            add('%s<=init' % r, lambda v, r=r, i0=i0: le(v[r], i0), v0)
        const = {r: list(s)[0] for r, s in lc.steps.items() if len(s) == 1 and None not in s and list(s)[0]}
        rs = sorted(const)
        for a in range(len(rs)):
            for b in range(a + 1, len(rs)):
                p, q = rs[a], rs[b]
                add('%s~%s' % (p, q), lambda v, p=p, q=q: Eq((v[p] - v0[p]) * const[q], (v[q] - v0[q]) * const[p]), v0)
        # comparisons met in the body
        fr_ids = {lc.fresh[r].get_id(): r for r in names if z3.is_expr(lc.fresh[r])}
        for (a, b_) in lc.newc:
            d = padd(poly(a), poly(b_), -1)
            ids = [k for k in d[1] if k in fr_ids]
            if not ids:
                continue
            if any(fresh_after(t, lc.mark0) for k, (c, t) in d[1].items() if k not in fr_ids):
                continue
            e = unpoly(d)
            subs = [(lc.fresh[r], r) for r in names if z3.is_expr(lc.fresh[r])]

            def mk(rel, e=e, subs=subs):
                def f(v):
                    x = z3.substitute(e, *[(fv, Z(v[r])) for fv, r in subs])
                    return {'<=': x <= 0, '<': x < 0, '>=': x >= 0, '>': x > 0}[rel]
                return f
            for rel in ('<=', '<', '>=', '>'):
                add('%s%s0' % (str(e)[:60], rel), mk(rel), v0)
        # dedupe
        seen = {}
        for nm, f in out:
            seen.setdefault(nm, f)
        return list(seen.items())

    # ---------------------------------------------------------------- instructions
    def step(self, fr, st, x):
        op = x.op
        env = st.env
        if op in ir.BIN:
            env[x.res] = self.binop(st, x)
        elif op == 'icmp':
            env[x.res] = VBool(self.icmp(st, x.x, self.val(st, x.ops[0]), self.val(st, x.ops[1]), fr))
        elif op == 'load':
            env[x.res] = self.load(st, self.val(st, x.ops[0]), x.ty)
        elif op == 'store':
            self.store(st, self.val(st, x.ops[1]), self.val(st, x.ops[0]), x.ops[0][2])
        elif op == 'getelementptr':
            env[x.res] = self.gep(st, x.x, [self.val(st, o) for o in x.ops], x.ops)
        elif op == 'alloca':
            ty, cnt = x.x
            n = 1
            if cnt is not None:
                n = self.val(st, cnt).e
                if not is_c(n):
                    raise Unsupported('variable alloca')
            o = Obj('%s_%d' % (x.res, next(_fresh)), 'alloca', lt_of(self.m, ty) if n == 1 else None, self.m.sizeof(ty) * n)
            st.objs[o.id] = o
            env[x.res] = VPtr(o, 0)
        elif op in ir.CAST:
            env[x.res] = self.cast(st, op, self.val(st, x.ops[0]), x.ty)
        elif op == 'freeze':
            env[x.res] = self.val(st, x.ops[0])
        elif op == 'extractvalue':
            v = self.val(st, x.ops[0])
            for i in x.x:
                v = v.v[i]
            env[x.res] = v
        elif op == 'insertvalue':
            a = self.val(st, x.ops[0])
            b = self.val(st, x.ops[1])
            env[x.res] = self.insert(a, b, x.x)
        elif op == 'landingpad':
            self.landingpad(st, x)
        elif op == 'fcmp':
            a, b = self.val(st, x.ops[0]), self.val(st, x.ops[1])
            env[x.res] = VBool(z3.Function('fcmp_' + x.x, FP, FP, z3.BoolSort())(a.e, b.e))
        elif op == 'fneg':
            env[x.res] = VFp(z3.Function('fneg', FP, FP)(self.val(st, x.ops[0]).e))
        elif op == 'atomicrmw':
            p = self.val(st, x.ops[0])
            v = self.val(st, x.ops[1])
            old = self.load(st, p, x.ty)
            env[x.res] = old
            if x.x == 'add':
                n = VInt(old.e + v.e, v.w)
            elif x.x == 'sub':
                n = VInt(old.e - v.e, v.w)
            elif x.x == 'xchg':
                n = v
            else:
                raise Unsupported('atomicrmw ' + x.x)
            self.store(st, p, n, x.ty)
        elif op == 'fence':
            pass
        elif op == 'unsupported':
            raise Unsupported('instruction: ' + x.x)
        else:
            raise Unsupported('instruction ' + op)

    def insert(self, a, b, idx):
        if isinstance(a, VUndef):
            raise Unsupported('insert undef')
        v = list(a.v)
        if len(idx) == 1:
            v[idx[0]] = b
        else:
            v[idx[0]] = self.insert(v[idx[0]], b, idx[1:])
        return VAgg(v)

    def binop(self, st, x):
        op = x.op
        a = self.val(st, x.ops[0])
        b = self.val(st, x.ops[1])
        if isinstance(a, VFp):
            return VFp(z3.Function(op, FP, FP, FP)(a.e, b.e))
        if isinstance(a, VBool) or isinstance(b, VBool):
            ae, be = a.e, b.e
            if op == 'and':
                return VBool(And(ae, be))
            if op == 'or':
                return VBool(Or(ae, be))
            if op in ('xor', 'add', 'sub'):
                return VBool(Not(Iff(ae, be)) if not isinstance(be, bool) else (Not(ae) if be else ae))
            raise Unsupported('bool ' + op)
        w = a.w
        fl = x.x
        ae, be = a.e, b.e
        nsw = 'nsw' in fl and self.opts['nsw'] and op in ('add', 'sub', 'mul')
        if nsw:
            ae, be = self.as_s(st, a), self.as_s(st, b)
        if op == 'add':
            e = ae + be
        elif op == 'sub':
            e = ae - be
        elif op == 'mul':
            if is_c(ae) or is_c(be):
                if not nsw:
                    # keep the representative that stays in range
                    ae, be = self.as_u(st, a), self.as_u(st, b)
                    if is_c(ae) and ae >= 1 << (w - 1):
                        ae -= 1 << w
                    if is_c(be) and be >= 1 << (w - 1):
                        be -= 1 << w
                e = ae * be
            else:
                ae, be = self.as_u(st, a), self.as_u(st, b)
                e = self.mulfn(st, ae, be)
        elif op in ('udiv', 'urem'):
            ae, be = self.as_u(st, a), self.as_u(st, b)
            self.oblige(st, 'divisor non-zero', 'safety', Ne(be, 0))
            q, r = self.divmod(st, ae, be)
            e = q if op == 'udiv' else r
        elif op in ('sdiv', 'srem'):
            ae, be = self.as_s(st, a), self.as_s(st, b)
            self.oblige(st, 'divisor non-zero', 'safety', Ne(be, 0))
            if is_c(be):
                if op == 'sdiv' and 'exact' in fl:
                    p = poly(ae)
                    if be > 0 and p[0] % be == 0 and all(c % be == 0 for c, _ in p[1].values()):
                        return VInt(unpoly((p[0] // be, {k: (c // be, t) for k, (c, t) in p[1].items()})), w)
                if be <= 0:
                    raise Unsupported('sdiv by %d' % be)
                q, r = self.divmod(st, ae, be) if self.light.prove(st.pc, le(0, ae)) else (None, None)
                if q is None:
                    if is_c(ae):
                        q = abs(ae) // be * (1 if ae >= 0 else -1)
                    else:
                        q = z3.If(ae >= 0, ae / be, -((-ae) / be))
                    r = ae - q * be
            else:
                if not (self.light.prove(st.pc, le(0, ae)) and self.light.prove(st.pc, lt(0, be))):
                    raise Unsupported('symbolic sdiv')
                q, r = self.divmod(st, ae, be)
            e = q if op == 'sdiv' else r
        elif op == 'shl':
            if not is_c(be):
                be = self.as_u(st, b)
            if not is_c(be):
                e = self.bitop('shl', st, a, b)
            elif not nsw and bits.slices(self.as_u(st, a), w) is not None:
                e = bits.build(bits.clip(bits.shift(bits.slices(self.as_u(st, a), w), be), 0, w))
            else:
                e = self.as_u(st, a) * (1 << be) if not nsw else ae * (1 << be)
        elif op in ('lshr', 'ashr'):
            if not is_c(be):
                be = self.as_u(st, b)
            if is_c(be) and op == 'lshr':
                ae = self.as_u(st, a)
                e = ae >> be if is_c(ae) else self.divmod(st, ae, 1 << be)[0]
            elif is_c(be):
                ae = self.as_s(st, a)
                e = ae >> be if is_c(ae) else ae / (1 << be)
            else:
                e = self.bitop(op, st, a, b)
        elif op == 'and':
            ae, be = self.as_u(st, a), self.as_u(st, b)
            if is_c(ae):
                ae, be = be, ae
            if is_c(ae) and is_c(be):
                e = ae & be
            elif is_c(be) and bits.band(ae, be, w) is not None:
                e = bits.band(ae, be, w)
            elif is_c(be) and (be & (be + 1)) == 0:
                e = self.divmod(st, ae, be + 1)[1]
            elif is_c(be) and (((1 << w) - 1 - be) & ((1 << w) - be)) == 0:
                e = ae - self.divmod(st, ae, (1 << w) - be)[1]
            else:
                e = self.bitop('and', st, a, b)
        elif op == 'or':
            ae, be = self.as_u(st, a), self.as_u(st, b)
            if is_c(ae) and is_c(be):
                e = ae | be
            elif is_c(be) and be == 0:
                e = ae
            elif 'disjoint' in fl:
                e = ae + be
            else:
                # x*2^k | y with y < 2^k
                e = bits.bor(ae, be, w)
                for p, q in ((ae, be), (be, ae)) if e is None else ():
                    if z3.is_expr(p):
                        pp = poly(p)
                        cs = [c for c, _ in pp[1].values()] + ([pp[0]] if pp[0] else [])
                        g = 0
                        for c in cs:
                            g = math.gcd(g, c)
                        g = g & -g
                        if g > 1 and self.light.prove(st.pc, And(le(0, q), lt(q, g))):
                            e = p + q
                            break
                if e is None:
                    e = self.bitop('or', st, a, b)
        elif op == 'xor':
            ae, be = self.as_u(st, a), self.as_u(st, b)
            if is_c(ae) and is_c(be):
                e = ae ^ be
            elif is_c(be) and be == (1 << w) - 1:
                e = (1 << w) - 1 - ae
            elif bits.bor(ae, be, w) is not None:
                e = bits.bor(ae, be, w)
            else:
                e = self.bitop('xor', st, a, b)
        else:
            raise Unsupported(op)
        if nsw and not is_c(e):
            H = 1 << (w - 1)
            self.oblige(st, 'no signed overflow', 'overflow', And(le(-H, e), lt(e, H)))
        if z3.is_expr(e):
            e = norm(e)
        return VInt(e, w)

    def bitop(self, nm, st, a, b):
        f = z3.Function('bit_%s_%d' % (nm, a.w), I, I, I)
        e = f(Z(self.as_u(st, a)), Z(self.as_u(st, b)))
        self.assume(st, z3.And(e >= 0, e < 2 ** a.w))
        return e

    def mulfn(self, st, a, b):
        """product of two symbolic values: sums and case distinctions are multiplied out,
        what remains are sorted products of atoms under an uninterpreted function"""
        e = a * b
        if self.opts.get('nonlinear') or is_c(a) or is_c(b):
            return e
        for x, y in ((a, b), (b, a)):
            p = poly(x)
            if len(p[1]) == 1:
                (c, t), = p[1].values()
                if z3.is_app_of(t, z3.Z3_OP_ITE):
                    k, u, v = t.children()
                    u, v = norm(u), norm(v)
                    return If(k, self.mulfn(st, u * c + p[0], y), self.mulfn(st, v * c + p[0], y))
        f = z3.Function('mul', I, I, I)

        def factors(t):
            return factors(t.arg(0)) + factors(t.arg(1)) if z3.is_app(t) and t.decl().eq(f) else [t]

        pa, pb = poly(a), poly(b)
        if len(pa[1]) * len(pb[1]) > 16:
            return f(Z(a), Z(b))
        r = pa[0] * pb[0]
        for c, t in pa[1].values():
            r = r + t * (c * pb[0])
        for c, t in pb[1].values():
            r = r + t * (c * pa[0])
        for c, t in pa[1].values():
            for d, u in pb[1].values():
                fs = sorted(factors(t) + factors(u), key=str)
                m = fs[0]
                for x in fs[1:]:
                    n = f(m, x)
                    self.assume(st, z3.Implies(z3.And(m >= 0, x >= 0), n >= 0))
                    m = n
                r = r + m * (c * d)
        return r if is_c(r) else norm(r)

    def divmod(self, st, a, b):
        if is_c(a) and is_c(b) and b:
            return a // b, a % b
        if is_c(b):
            if b == 1:
                return a, 0
            if b & (b - 1) == 0 and b < (1 << 64):
                sl = bits.slices(a, 64)
                if sl is not None:
                    n = b.bit_length() - 1
                    return bits.build(bits.shift(sl, -n)), bits.build(bits.clip(sl, 0, n))
            p = poly(a)
            if p[0] % b == 0 and all(c % b == 0 for c, _ in p[1].values()):
                return unpoly((p[0] // b, {k: (c // b, t) for k, (c, t) in p[1].items()})), 0
            # the linear part that divides exactly can be taken out
            di = {k: (c // b, t) for k, (c, t) in p[1].items() if c % b == 0}
            re_ = {k: (c % b, t) for k, (c, t) in p[1].items() if c % b}
            rest = unpoly((p[0] % b, re_))
            lin = unpoly((p[0] // b, di))
            # c = (c//b)*b + c%b also for the non-dividing coefficients
            lin = lin + sum([t * (c // b) for k, (c, t) in p[1].items() if c % b and c // b], 0) if any(
                c % b and c // b for c, _ in p[1].values()) else lin
            if is_c(rest):
                return norm(lin + rest // b) if z3.is_expr(lin) else lin + rest // b, rest % b
            return norm(lin + rest / b), rest % b
        q = z3.Function('udiv', I, I, I)(Z(a), Z(b))
        r = z3.Function('umod', I, I, I)(Z(a), Z(b))
        # facts about division by a non-zero, non-negative divisor (lemma "euclid" in lemmas.py)
        pos = Z(b) > 0
        self.assume(st, z3.Implies(pos, z3.And(q >= 0, r >= 0, r < Z(b), q <= Z(a), r <= Z(a))))
        self.assume(st, z3.Implies(z3.And(pos, Z(a) < Z(b)), z3.And(r == Z(a), q == 0)))
        if self.opts.get('wrap'):
            # an index that wraps once (lemma "circular indices")
            self.assume(st, z3.Implies(z3.And(pos, Z(b) <= Z(a), Z(a) < 2 * Z(b)), z3.And(r == Z(a) - Z(b), q == 1)))
        if self.opts.get('euclid'):
            # a = q*b + r (lemma "products")
            self.assume(st, z3.Implies(pos, Z(a) == Z(self.mulfn(st, q, b)) + r))
        return q, r

    def icmp(self, st, pred, a, b, fr=None):
        a0, b0 = a, b
        if isinstance(a, (VPtr, VOpq, VFn)) or isinstance(b, (VPtr, VOpq, VFn)):
            return self.pcmp(st, pred, a, b, fr)
        if isinstance(a, VBool):
            e = Iff(a.e, b.e)
            if pred == 'eq':
                return e
            if pred == 'ne':
                return Not(e)
            raise Unsupported('icmp i1 ' + pred)
        if pred in ('eq', 'ne'):
            p = padd(poly(a.e), poly(b.e), -1)
            if not p[1]:
                r = p[0] % (1 << a.w) == 0
                return r if pred == 'eq' else not r
            d = None
            M = 1 << a.w
            e = unpoly(p)
            if self.light.prove(st.pc, z3.And(e > -M, e < M)):
                r = Eq(a.e, b.e)
            else:
                r = Eq(self.as_u(st, a), self.as_u(st, b))
            self.seen_cmp(st, a.e, b.e, fr)
            return r if pred == 'eq' else Not(r)
        if pred[0] == 'u':
            x, y = self.as_u(st, a), self.as_u(st, b)
        else:
            x, y = self.as_s(st, a), self.as_s(st, b)
        self.seen_cmp(st, x, y, fr)
        return self.rel(pred[1:], x, y)

    def rel(self, r, x, y):
        if r == 'lt':
            return lt(x, y)
        if r == 'le':
            return le(x, y)
        if r == 'gt':
            return lt(y, x)
        return le(y, x)

    def seen_cmp(self, st, x, y, fr):
        if self.dry:
            for lc in st.loops.values():
                if lc.dry:
                    lc.newc.append((x, y))

    def pcmp(self, st, pred, a, b, fr):
        a = self.concretize(st, a)
        b = self.concretize(st, b)
        if isinstance(a, VFn) or isinstance(b, VFn):
            if isinstance(a, VPtr) and a.obj is None or isinstance(b, VPtr) and b.obj is None:
                return pred != 'eq'
            if isinstance(a, VFn) and isinstance(b, VFn):
                return (a.name == b.name) == (pred == 'eq')
            raise Unsupported('function pointer comparison')
        if isinstance(a, VPtr) and isinstance(b, VPtr):
            an = a.obj is None and is_c(a.off) and a.off == 0
            bn = b.obj is None and is_c(b.off) and b.off == 0
            if an and bn:
                return {'eq': True, 'ne': False, 'ult': False, 'ugt': False, 'ule': True, 'uge': True}[pred]
            if pred in ('eq', 'ne') and (an or bn):
                o = b if an else a
                e = o.nul if o.obj is not None else Eq(o.off, 0)
                return e if pred == 'eq' else Not(e)
            if a.obj is b.obj and a.obj is not None:
                self.seen_cmp(st, a.off, b.off, fr)
                both = None
                if a.nul is not False or b.nul is not False:
                    if a.nul is not b.nul and not (z3.is_expr(a.nul) and z3.is_expr(b.nul) and a.nul.eq(b.nul)):
                        x, y = self.ptr_addr(st, a), self.ptr_addr(st, b)
                        return {'eq': Eq(x, y), 'ne': Ne(x, y), 'ult': lt(x, y), 'ule': le(x, y), 'ugt': lt(y, x), 'uge': le(y, x)}[pred]
                # same object: compare offsets (divided by the stride when it is common)
                x, y = a.off, b.off
                d = padd(poly(x), poly(y), -1)
                g = d[0]
                for c, _ in d[1].values():
                    g = math.gcd(g, c)
                g = abs(g) or 1
                z = unpoly((d[0] // g, {k: (c // g, t) for k, (c, t) in d[1].items()}))
                return {'eq': Eq(z, 0), 'ne': Ne(z, 0), 'ult': lt(z, 0), 'ule': le(z, 0), 'ugt': lt(0, z), 'uge': le(0, z),
                        'slt': lt(z, 0), 'sgt': lt(0, z), 'sle': le(z, 0), 'sge': le(0, z)}[pred]
            if a.obj is not None and b.obj is not None and pred in ('eq', 'ne'):
                if a.obj.id in st.dead or b.obj.id in st.dead:
                    raise Unsupported('comparison with freed object')
                e = False
                if a.nul is not False and b.nul is not False:
                    e = And(a.nul, b.nul)
                return e if pred == 'eq' else Not(e)
        x, y = self.ptr_addr(st, a), self.ptr_addr(st, b)
        return {'eq': Eq(x, y), 'ne': Ne(x, y), 'ult': lt(x, y), 'ule': le(x, y), 'ugt': lt(y, x), 'uge': le(y, x)}[pred]

    # ---------------------------------------------------------------- exceptions
    def typeid(self, name):
        t = self.__dict__.setdefault('_tids', {})
        return t.setdefault(name, len(t) + 1)

    def bases(self, ti):
        """all base type-infos of a thrown type, or None if unknown"""
        res = set()
        todo = [ti]
        while todo:
            x = todo.pop()
            if x in res:
                continue
            res.add(x)
            txt = self.m.globals.get(x)
            if txt is None or 'constant' not in txt or '{' not in txt:
                if x in KNOWN_BASES:
                    todo += KNOWN_BASES[x]
                    continue
                return None
            for r in re.findall(r'@"?(_ZTI[\w.]+)', txt):
                todo.append(r)
        return res

    def landingpad(self, st, x):
        cl, cleanup = x.x
        exc = st.ghost.get('$exc')
        sel = VInt(0, 32)
        for kind, v in cl:
            if kind == 'catch':
                if v[0] == 'null':
                    sel = VInt(self.typeid('*'), 32)
                    break
                bs = self.bases(exc) if exc else None
                if bs is None and exc != v[1]:
                    if exc is None:
                        raise Unsupported('catch of unknown exception')
                    raise Unsupported('exception hierarchy of ' + exc)
                if exc == v[1] or v[1] in bs:
                    sel = VInt(self.typeid(v[1]), 32)
                    break
            else:
                sel = VInt(-1, 32)
        o = self.new_object(st, 'exc', None, 'exc')
        st.env[x.res] = VAgg([VPtr(o, 0), sel])

    # ---------------------------------------------------------------- calls
    def call(self, fr, st, x):
        c = x.x['callee']
        args = [self.val(st, a) if a[0] != 'md' else None for a in x.ops]
        if c[0] == 'g':
            name = c[1]
        else:
            f = self.val(st, c)
            if not isinstance(f, VFn):
                raise Unsupported('indirect call')
            name = f.name
        # aliases (e.g. complete-object constructors)
        if name not in self.m.funcs and name in self.m.globals:
            mm = re.search(r'alias .*, ptr @("[^"]*"|[\w.$]+)', self.m.globals[name])
            if mm:
                name = ir.unq(mm.group(1))
        if name.startswith('llvm.'):
            return [('ret', st, self.intrinsic(st, name, args, x))]
        dn = self.demangle(name)
        for rx, h in self.hooks:
            if rx.search(dn):
                r = h(self, st, x, args, dn)
                if r is NotImplemented:
                    continue
                if isinstance(r, list):
                    return r
                return [('ret', st, r)]
        r = self.library(st, name, dn, args, x)
        if r is not NotImplemented:
            return r if isinstance(r, list) else [('ret', st, r)]
        if name in self.m.funcs:
            # byval arguments are copied
            fn = self.m.funcs[name]
            args2 = []
            for (pn, pt, at), a in zip(fn.params, args):
                mm = re.search(r'byval', at)
                if mm and isinstance(a, VPtr):
                    o = Obj('byval%d' % next(_fresh), 'alloca', a.obj.layout, a.obj.size)
                    if not (is_c(a.off) and a.off == 0):
                        raise Unsupported('byval')
                    st.objs[o.id] = o
                    self.memcpy(st, VPtr(o, 0), a, a.obj.size, False)
                    a = VPtr(o, 0)
                args2.append(a)
            return ('inline', fn, args2)
        raise Unsupported('call of %s, which has neither a body nor a contract' % dn)

    def intrinsic(self, st, name, args, x):
        if name.startswith(('llvm.lifetime', 'llvm.assume', 'llvm.experimental.noalias', 'llvm.dbg', 'llvm.stackrestore',
                            'llvm.invariant')):
            return None
        if name.startswith('llvm.memcpy') or name.startswith('llvm.memmove'):
            n = self.as_u(st, args[2])
            self.memcpy(st, args[0], args[1], n, 'memmove' in name)
            return None
        if name.startswith('llvm.memset'):
            self.memset(st, args[0], args[1], self.as_u(st, args[2]))
            return None
        if name.startswith('llvm.expect'):
            return args[0]
        mm = re.match(r'llvm\.(ceil|floor|trunc|round|sqrt|fabs)\.f(32|64)$', name)
        if mm:
            return VFp(z3.Function(mm.group(0), FP, FP)(args[0].e))
        mm = re.match(r'llvm\.(u|s)(add|sub|mul)\.with\.overflow\.i(\d+)', name)
        if mm:
            w = int(mm.group(3))
            if mm.group(1) == 'u':
                a, b = self.as_u(st, args[0]), self.as_u(st, args[1])
                lo, hi = 0, 1 << w
            else:
                a, b = self.as_s(st, args[0]), self.as_s(st, args[1])
                lo, hi = -(1 << (w - 1)), 1 << (w - 1)
            k = mm.group(2)
            if k == 'mul' and not (is_c(a) or is_c(b)):
                e = self.mulfn(st, a, b)
            else:
                e = a + b if k == 'add' else a - b if k == 'sub' else a * b
            return VAgg([VInt(e, w), VBool(Not(And(le(lo, e), lt(e, hi))))])
        mm = re.match(r'llvm\.(umax|umin|smax|smin)\.i(\d+)', name)
        if mm:
            f = self.as_u if mm.group(1)[0] == 'u' else self.as_s
            a, b = f(st, args[0]), f(st, args[1])
            c = le(a, b)
            return VInt(If(c, b, a) if mm.group(1).endswith('max') else If(c, a, b), int(mm.group(2)))
        mm = re.match(r'llvm\.abs\.i(\d+)', name)
        if mm:
            a = self.as_s(st, args[0])
            return VInt(If(le(0, a), a, -a), int(mm.group(1)))
        if name.startswith('llvm.eh.typeid.for'):
            return VInt(self.typeid(args[0].obj.gname), 32)
        if name.startswith('llvm.stacksave'):
            return VPtr(None, 0)
        if name.startswith('llvm.trap'):
            self.oblige(st, 'trap', 'safety', False)
            raise PathEnd()
        raise Unsupported('intrinsic ' + name)

    def alloc(self, st, size, name='heap'):
        while z3.is_expr(size) and z3.is_app_of(size, z3.Z3_OP_ITE):
            c, a, b = size.children()
            if self.light.prove(st.pc, c):
                size = a
            elif self.light.prove(st.pc, z3.Not(c)):
                size = b
            else:
                break
        if z3.is_expr(size):
            size = norm(size)
        o = self.new_object(st, name, size)
        return VPtr(o, 0)

    def free(self, st, p, what):
        p = self.concretize(st, p)
        if isinstance(p, VOpq):
            raise Unsupported('free of unknown pointer')
        if p.obj is None:
            return
        if p.nul is not False:
            s2 = self.light.prove(st.pc, p.nul)
            if s2:
                return
            if not self.light.prove(st.pc, Not(p.nul)):
                raise Unsupported('free of maybe-null pointer')
        if p.obj.id in st.dead:
            self.oblige(st, 'double-free', 'safety', False)
            raise PathEnd()
        self.oblige(st, 'free-of-allocation-start', 'safety', And(p.obj.kind == 'heap', Eq(p.off, 0)))
        st.dead = st.dead | {p.obj.id}
        for m in self._marks(st):
            m.add(('dead', p.obj.id))

    def _marks(self, st):
        m = st.mark
        while m is not None:
            yield m[1]
            m = m[0]

    def throw(self, st, ti):
        return ('throw', st, ti)

    def library(self, st, name, dn, args, x):
        if name in ('_Znwm', '_Znam', '_ZnwmRKSt9nothrow_t', '_ZnamRKSt9nothrow_t', 'malloc', '_ZnwmSt11align_val_t'):
            n = self.as_u(st, args[0])
            outs = []
            if self.opts['alloc_may_fail']:
                s = st.fork()
                s.path = s.path + ('bad_alloc',)
                outs.append(('throw', s, '_ZTISt9bad_alloc'))
            else:
                self.assumptions.add('operator new does not fail')
            outs.append(('ret', st, self.alloc(st, n)))
            return outs if len(outs) > 1 else outs[0][2]
        if name in ('_ZdlPv', '_ZdaPv', '_ZdlPvm', '_ZdaPvm', 'free'):
            self.free(st, args[0], name)
            return None
        if name == '__cxa_allocate_exception':
            o = self.new_object(st, 'excobj', None, 'exc')
            return VPtr(o, 0)
        if name == '__cxa_free_exception':
            return None
        if name == '__cxa_throw':
            ti = args[1].obj.gname
            return [('throw', st, ti)]
        if name == '__cxa_rethrow':
            return [('throw', st, st.ghost.get('$exc'))]
        if name == '__cxa_begin_catch':
            return args[0]
        if name == '__cxa_end_catch':
            return None
        if name in ('_ZSt9terminatev', '__cxa_call_unexpected', '__clang_call_terminate', 'abort', '__cxa_pure_virtual',
                    '__cxa_bad_cast'):
            self.oblige(st, 'no call of ' + dn, 'safety', False)
            return []
        if name == '__cxa_atexit':
            return VInt(0, 32)
        if name == 'memcmp':
            raise Unsupported('memcmp')
        # construction of exception objects and log messages has no effect on the verified state
        if re.match(r'(std::(runtime_error|logic_error|invalid_argument|length_error|out_of_range|bad_alloc|exception|bad_cast)|tpie::(\w*exception|\w+_error))::~?\w+\(', dn):
            return None
        return NotImplemented


KNOWN_BASES = {
    '_ZTISt9bad_alloc': ['_ZTISt9exception'], '_ZTISt13runtime_error': ['_ZTISt9exception'],
    '_ZTISt11logic_error': ['_ZTISt9exception'], '_ZTISt16invalid_argument': ['_ZTISt11logic_error'],
    '_ZTISt12length_error': ['_ZTISt11logic_error'], '_ZTISt12out_of_range': ['_ZTISt11logic_error'],
    '_ZTISt9exception': [], '_ZTISt20bad_array_new_length': ['_ZTISt9bad_alloc'], '_ZTISt8bad_cast': ['_ZTISt9exception'],
    '_ZTVN10__cxxabiv117__class_type_infoE': [], '_ZTVN10__cxxabiv120__si_class_type_infoE': [],
}


def same_nul(a, b):
    return a is b or (z3.is_expr(a) and z3.is_expr(b) and a.eq(b))


def bite(c, a, b):
    if isinstance(c, bool):
        return a if c else b
    if a is True:
        return Or(c, b)
    if a is False:
        return And(Not(c), b)
    if b is True:
        return Or(Not(c), a)
    if b is False:
        return And(c, a)
    return z3.If(c, a, b)


def fresh_after(t, mark):
    """does term t mention a constant created after `mark`?"""
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x):
            n = x.decl().name()
            mm = re.search(r'!(\d+)(?:\D|$)', n)
            if mm and int(mm.group(1)) > mark:
                return True
            mm = re.search(r'!(\d+)$', n)
            st.extend(x.children())
    return False

