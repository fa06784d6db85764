"""Concrete drivers: build the library from /repo's current sources and run
the property's driver (search for a failing input, bounded stand-ins)."""
import concurrent.futures
import fcntl
import glob
import hashlib
import os
import re
import shutil
import subprocess
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor
import build

CXX = 'clang++-18'
FLAGS = ['-std=gnu++17', '-O1', '-g1', '-DNDEBUG', '-D_FILE_OFFSET_BITS=64', '-D_LARGEFILE_SOURCE', '-w',
         '-fsanitize=address', '-fno-omit-frame-pointer', '-D_GLIBCXX_ASSERTIONS']
LIBS = ['-lsnappy', '-llz4', '-lzstd', '-lpthread']


def tree_hash(extra=''):
    h = hashlib.sha256(extra.encode())
    for r, ds, fs in sorted(os.walk(os.path.join(build.REPO, 'tpie'))):
        ds.sort()
        for f in sorted(fs):
            if f.endswith(('.h', '.cpp', '.inl')):
                p = os.path.join(r, f)
                h.update(p.encode())
                h.update(open(p, 'rb').read())
    return h.hexdigest()[:16]


def sources():
    srcs = [s for s in glob.glob(os.path.join(build.REPO, 'tpie', '**', '*.cpp'), recursive=True) if '/deadcode/' not in s]
    g = os.path.join(build.REPO, '_build', 'tpie', 'sysinfo.cpp')
    srcs.append(g if os.path.exists(g) else os.path.join(build.VERIF, 'gen', 'tpie', 'sysinfo.cpp'))
    return sorted(srcs)


def build_lib(flags=FLAGS):
    key = tree_hash(' '.join(flags))
    os.makedirs(build.OUT, exist_ok=True)
    lib = os.path.join(build.OUT, 'libtpie-%s.a' % key)
    with open(os.path.join(build.OUT, 'lib.lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(lib):
            return lib
        for old in glob.glob(os.path.join(build.OUT, 'libtpie-*.a')):
            if time.time() - os.path.getmtime(old) > 3600:
                os.unlink(old)
        d = tempfile.mkdtemp(prefix='tpvlib')
        try:
            def one(s):
                o = os.path.join(d, hashlib.md5(s.encode()).hexdigest() + '.o')
                r = subprocess.run([CXX] + flags + build.includes() + ['-c', s, '-o', o], capture_output=True, text=True)
                if r.returncode:
                    raise build.BuildError('compiling %s:\n%s' % (s, r.stderr[-3000:]))
                return o
            with ThreadPoolExecutor(8) as ex:
                objs = list(ex.map(one, sources()))
            tmp = lib + '.tmp'
            if os.path.exists(tmp):
                os.unlink(tmp)
            subprocess.run(['ar', 'rcs', tmp] + objs, check=True)
            os.rename(tmp, lib)
        finally:
            shutil.rmtree(d)
    return lib


WORKERS = 4


class HRun:
    pass


def run(name, seed, secs, known=(), case=None, scenario=None, flags=FLAGS, nolib=False):
    """-> HRun with .ok, .fails [(line, trace)], .known, .samples, counts"""
    src = os.path.join(build.VERIF, 'harness', name + '.cpp')
    lib = [] if nolib else [build_lib(flags)]
    link = re.findall(r'^// LINK: (.*)$', open(src).read(), re.M)
    exe = os.path.join(build.OUT, 'h_' + name + '_%d' % os.getpid())
    r = subprocess.run([CXX] + flags + ['-I' + os.path.dirname(src)] + build.includes() + [src, '-o', exe] + lib + LIBS + sum([l.split() for l in link], []), capture_output=True, text=True)
    if r.returncode:
        raise build.BuildError('compiling driver %s:\n%s' % (src, r.stderr[-4000:]))
    h = HRun()
    base = [exe, '--secs', str(secs)]
    for k in known:
        base += ['--known', k]
    if case is not None:
        base += ['--case', str(case)]
    if scenario:
        base += ['--only', scenario]
    # independent seeds side by side
    seeds = [seed + 1000 * i for i in range(1 if case is not None else WORKERS)]
    h.fails, h.known, h.samples, h.scen = [], [], [], {}
    h.cases = h.nontrivial = h.distinct = 0
    try:
        with concurrent.futures.ThreadPoolExecutor(len(seeds)) as ex:
            outs = list(ex.map(lambda sd: one_run(base + ['--seed', str(sd)], secs), seeds))
    finally:
        os.unlink(exe)
    h.cmd = ' '.join(base + ['--seed', str(seed)])
    h.rc = max(rc for _, _, rc in outs)
    h.out, h.err = '\n'.join(o for o, _, _ in outs), ''.join(e for _, e, rc in outs if rc) or outs[0][1]
    lines = h.out.split('\n')
    for i, l in enumerate(lines):
        tr = lines[i + 1][6:] if i + 1 < len(lines) and lines[i + 1].startswith('TRACE') else ''
        if l.startswith('FAIL '):
            h.fails.append((l, tr))
        elif l.startswith('KNOWN '):
            h.known.append((l, tr))
        elif l.startswith('SAMPLE '):
            h.samples.append(l[7:])
        elif l.startswith('SCENARIO '):
            a = l.split()
            h.scen[a[1]] = h.scen.get(a[1], 0) + int(a[2].split('=')[1])
        elif l.startswith('DONE '):
            m = re.match(r'DONE cases=(\d+) nontrivial=(\d+) distinct=(\d+)', l)
            c, n, d = map(int, m.groups())
            h.cases, h.nontrivial, h.distinct = h.cases + c, h.nontrivial + n, h.distinct + d
    h.done = sum(l.startswith('DONE ') for l in lines) == len(seeds)
    return h


def one_run(cmd, secs):
    tmp = tempfile.mkdtemp(prefix='tpvh')
    try:
        env = dict(os.environ, TMPDIR=tmp, TMP=tmp, TEMP=tmp, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:allocator_may_return_null=1')
        try:
            p = subprocess.run(cmd, capture_output=True, text=True, timeout=secs + 180, cwd=tmp, env=env, errors='replace')
            return p.stdout, p.stderr, p.returncode
        except subprocess.TimeoutExpired as e:
            return (e.stdout or b'').decode(errors='replace'), 'driver timed out', 2
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
