"""Mechanical extraction: /repo's current sources -> LLVM IR that the verifier reads.

What the extraction keeps: every function body exactly as clang compiles it.
What it does: callees without a contract are inlined by LLVM's always-inline
pass, allocas are promoted (sroa), common loads folded (early-cse), the CFG is
simplified.  What it drops: debug intrinsics, alignment, aliasing metadata."""
import os
import re
import subprocess
import hashlib
import ir

REPO = os.environ.get('TPV_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = os.environ.get('TPV_OUT', os.path.join(VERIF, 'build'))
CLANG = 'clang++-18'
OPT = 'opt-18'
FLAGS = ['-std=gnu++17', '-DNDEBUG', '-D_FILE_OFFSET_BITS=64', '-D_LARGEFILE_SOURCE']


class BuildError(Exception):
    pass


def includes():
    """the generated headers come from /repo/_build when present, otherwise from the copies in /verif/gen"""
    b = os.path.join(REPO, '_build')
    r = ['-I' + REPO]
    if os.path.exists(os.path.join(b, 'tpie', 'config.h')):
        r.append('-I' + b)
    else:
        r.append('-I' + os.path.join(VERIF, 'gen'))
    return r


def sh(cmd, **kw):
    return subprocess.run(cmd, capture_output=True, text=True, **kw)


def build_ir(tu, keep, tag, extra=()):
    """compile /verif/tu/<tu>.cpp; functions whose demangled name matches one of the
    regexes `keep` stay, everything else is inlined into its callers"""
    os.makedirs(OUT, exist_ok=True)
    src = os.path.join(VERIF, 'tu', tu + '.cpp')
    raw = os.path.join(OUT, tag + '.raw.ll')
    cmd = [CLANG] + FLAGS + list(extra) + includes() + ['-O1', '-Xclang', '-disable-llvm-passes', '-fno-discard-value-names', '-g', '-fstandalone-debug',
                                           '-fno-strict-aliasing', '-S', '-emit-llvm', '-w', src, '-o', raw]
    r = sh(cmd)
    if r.returncode:
        raise BuildError('clang failed on %s:\n%s' % (src, r.stderr[-3000:]))
    text = open(raw).read()
    names = re.findall(r'^(?:define|declare) [^@]*@("[^"]*"|[\w.$]+)\(', text, re.M)
    names = [ir.unq(n) for n in names]
    dm = dict(zip(names, sh(['llvm-cxxfilt-18'], input='\n'.join(names) + '\n').stdout.split('\n')))
    krx = [re.compile(k) for k in keep]
    out = []
    forced = dict(re.findall(r'^attributes #(\d+) = \{([^}]*\balwaysinline\b[^}]*)\}', text, re.M))
    noforce = set()
    for l in text.split('\n'):
        if l.startswith('define '):
            m = re.search(r'@("[^"]*"|[\w.$]+)\(', l)
            n = ir.unq(m.group(1))
            d = dm.get(n, n)
            if any(k.search(d) for k in krx):
                l = re.sub(r'^define (linkonce_odr|internal|available_externally) ', 'define weak_odr ', l)
                g = re.search(r'\) (?:local_)?(?:unnamed_addr )?#(\d+)', l)
                if g and g.group(1) in forced:
                    # forced inlining would hide a function that has a contract
                    noforce.add(g.group(1))
                    l = l[:g.start(1)] + '9' + g.group(1).rjust(5, '0') + l[g.end(1):]
            else:
                l = re.sub(r'\) ((?:local_)?(?:unnamed_addr )?)#', lambda mm: ') ' + mm.group(1) + 'alwaysinline #', l, count=1)
        elif l.startswith('attributes'):
            l = l.replace(' noinline ', ' ')
        out.append(l)
    for g in sorted(noforce):
        out.append('attributes #9%s = {%s}' % (g.rjust(5, '0'), re.sub(r'\balwaysinline\b', '', forced[g])))
    mid = os.path.join(OUT, tag + '.mid.ll')
    open(mid, 'w').write('\n'.join(out))
    fin = os.path.join(OUT, tag + '.ll')
    r = sh([OPT, '-S', '-passes=always-inline,function(sroa,early-cse,simplifycfg,loop-simplify)', mid, '-o', fin])
    if r.returncode:
        raise BuildError('opt failed: ' + r.stderr[-2000:])
    t = open(fin).read()
    m = ir.parse_module(t)
    names = list(m.funcs) + list(m.decls)
    dm.update(dict(zip(names, sh(['llvm-cxxfilt-18'], input='\n'.join(names) + '\n').stdout.split('\n'))))
    for f in (raw, mid):
        os.unlink(f)
    return m, dm, fin
