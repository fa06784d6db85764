"""python3-vt check.py <property> [quick|thorough] [only-function]

Extracts the functions under contract from /repo's current tree, generates and
discharges every obligation, runs the bounded stand-ins, and reports."""
import importlib
import json
import os
import re
import sys
import time
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(VERIF, 'props'))
import build
import prove
import harness
import ir


def known_findings(pid):
    """(sig, text) of the findings listed for this property"""
    out = []
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'KNOWN-FINDING: property=(\S+) sig=(\S+) (.*)', l)
            if m and m.group(1) == pid:
                out.append((m.group(2), m.group(3)))
    return out


def main():
    t0 = time.time()
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    only = sys.argv[3] if len(sys.argv) > 3 else None
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    mod = importlib.import_module(pid)
    tmo = 20 if tier == 'quick' else 60
    budget = 240 if tier == 'quick' else 1500
    undecided = []     # (what, why): no proof on this tree for a reason other than a failed obligation
    results = []
    lemmas = []
    mods = {}
    keep = {}
    fns = list(getattr(mod, 'FNS', []))
    deftu = getattr(mod, 'TU', None)
    for f in fns:
        keep.setdefault(f.tu or deftu, []).append(f.fn)
    ext = {}
    for tu in keep:
        try:
            mods[tu] = build.build_ir(tu, keep[tu] + list(getattr(mod, 'KEEP', [])), '%s_%s' % (pid, tu))
        except (build.BuildError, ir.IRError, prove.Unsupported) as e:
            undecided.append(('extraction of ' + tu, str(e)[-600:]))
        except Exception as e:
            undecided.append(('extraction of ' + tu, '%s: %s' % (type(e).__name__, str(e)[-600:])))
    t_ext = time.time() - t0
    jobs = []
    for f in fns:
        tu = f.tu or deftu
        if tu in mods and (not only or only == '-' or only in f.name):
            jobs.append((mods[tu][0], mods[tu][1], f))

    def pr(r):
        nob = len(r['obligations'])
        print('%-56s %-11s %4d obligations %6.1fs %s' % (r['name'], r['status'], nob, r['time'], r['error'] or ''))
        for o in r['obligations']:
            if o['result'] != 'proved':
                print('    %s: %s [%s] %s %s' % (o['result'], o['name'], o['kind'], o['src'], o['path']))
                if os.environ.get('TPV_MODEL'):
                    print('       goal', o['goal'])
                    print('       ', o['model'])
        sys.stdout.flush()
        if os.environ.get('TPV_SLOW'):
            for o in sorted(r['obligations'], key=lambda o: -o['time'])[:8]:
                print('      %6.2fs %s %s %s %s' % (o['time'], o['backend'], o['name'], o['src'], o['path']))

    if not only or only in ('lemmas', '-'):
        for lm in getattr(mod, 'LEMMAS', []):
            r = prove.prove_lemma(lm, tmo)
            lemmas.append(r)
            pr(r)
    results = prove.verify_all(jobs, progress=pr, tmo=tmo, budget=budget)
    allres = lemmas + results
    failed = []
    for r in allres:
        if r['status'] == 'unsupported':
            undecided.append((r['name'], r['error']))
        for o in r['obligations']:
            if o['result'] != 'proved':
                failed.append((r, o))
    if only:
        for w, y in undecided:
            print('UNDECIDED', w, y)
        return 0
    # ---- concrete side
    kf = known_findings(pid)
    hname = getattr(mod, 'HARNESS', None)
    runs = []
    herr = None
    bounded = list(getattr(mod, 'BOUNDED', []))
    if hname and (bounded or failed or undecided or tier == 'thorough'):
        secs = getattr(mod, 'STANDIN_SECS', 10)
        if tier == 'thorough':
            secs = getattr(mod, 'THOROUGH_SECS', 300)
        elif failed or undecided:
            secs = getattr(mod, 'SEARCH_SECS', 60)
        try:
            h = harness.run(hname, seed, secs, [s for s, t in kf], scenario=','.join(getattr(mod, 'SCENARIOS', [])) or None)
            runs.append(h)
            if not h.done and not h.fails:
                herr = 'driver did not finish: rc=%s %s' % (h.rc, h.err[-1500:])
        except build.BuildError as e:
            herr = str(e)[-3000:]
    fails = [x for h in runs for x in h.fails]
    # ---- verdict
    os.makedirs(os.path.join(VERIF, 'replay'), exist_ok=True)
    rc = 0
    lines = []
    kfob = {s for s, t in kf}
    newfailed = []
    for r, o in failed:
        sig = 'obligation:%s:%s' % (r['name'], o['name'].replace(' ', '_'))
        if sig not in kfob:
            newfailed.append((r, o))
    for s, t in kf:
        lines.append('KNOWN-FINDING: property=%s %s (%s)' % (pid, t, s))
    if fails or newfailed:
        rc = 1
        rp = os.path.join(VERIF, 'replay', '%s.json' % pid)
        rec = {'property': pid, 'tier': tier, 'seed': seed,
               'failed_obligations': [{'function': r['fn'] or r['name'], 'contract': r['name'], 'obligation': o['name'], 'kind': o['kind'],
                                       'result': o['result'], 'back_end': o['backend'], 'at': o['src'], 'path': o['path'],
                                       'goal': o['goal'], 'verifier_output': o['model']} for r, o in newfailed],
               'failing_input': None}
        if fails:
            l, tr = fails[0]
            m = re.match(r'FAIL scenario=(\S+) case=(\d+) seed=(\d+) (.*)', l)
            rec['failing_input'] = {'driver': 'harness/%s.cpp' % hname, 'scenario': m.group(1), 'case': int(m.group(2)), 'seed': int(m.group(3)),
                                    'failure': m.group(4), 'operations': tr[-20000:], 'stderr': runs[0].err[-4000:],
                                    'replay_cmd': 'python3-vt /verif/tpv/replay.py %s' % rp}
        json.dump(rec, open(rp, 'w'), indent=1)
        for r, o in newfailed[:12]:
            lines.append('FAILED obligation "%s" of %s (%s, at %s)' % (o['name'], r['name'], o['result'], o['src']))
        if fails:
            lines.append('FAILING INPUT %s' % fails[0][0])
            lines.append('VIOLATION property=%s replay=%s' % (pid, rp))
        else:
            lines.append('VIOLATION property=%s replay=%s no-failing-input-found' % (pid, rp))
    for w, y in undecided:
        lines.append('NOT PROVED ON THIS TREE: %s: %s' % (w, y))
    if herr:
        lines.append('DRIVER: ' + herr)
    if rc == 0 and undecided and (herr or not hname):
        # nothing was explored in place of the lost proof
        rc = 2 if not (results or runs) else 0
    # ---- evidence
    obl = [o for r in allres for o in r['obligations']]
    be = {}
    for o in obl:
        if o['result'] == 'proved':
            be[o['backend'] or 'simplifier'] = be.get(o['backend'] or 'simplifier', 0) + 1
    ass = set(getattr(mod, 'ASSUME', []))
    for r in results:
        ass |= set(r.get('assumptions', []))
    for _, _, f in jobs:
        for h in f.hooks:
            d = (h[1].__doc__ or '').strip()
            if d:
                ass.add('callee contract used: ' + d.split('\n')[0])
    ass |= set(COMMON)
    cov = {
        'obligations': len(obl), 'discharged': sum(o['result'] == 'proved' for o in obl),
        'checker_cmd': 'python3-vt /verif/tpv/check.py %s %s' % (pid, tier),
        'trusted_base': TRUSTED,
        'functions_under_contract': [{'contract': r['name'], 'function': r.get('fn'), 'status': r['status'], 'obligations': len(r['obligations']),
                                      'returns_checked': r.get('returns'), 'throws_checked': r.get('throws'), 'seconds': r['time'],
                                      'precondition_satisfiable': [c[2] for c in r.get('cover', [])]} for r in results],
        'lemmas': [{'lemma': r['name'], 'status': r['status']} for r in lemmas],
        'back_ends': be,
        'solver_seconds': round(sum(o['time'] for o in obl), 2),
        'extraction_seconds': round(t_ext, 2),
        'bounded_not_proved': [{'what': w, 'bound': b} for w, b in bounded],
        'not_proved_on_this_tree': [{'what': w, 'why': y} for w, y in undecided],
    }
    if runs:
        h = runs[0]
        cov['bounded_runs'] = {'driver': 'harness/%s.cpp' % hname, 'cases': h.cases, 'distinct_nontrivial': h.distinct, 'per_scenario': h.scen,
                               'samples': h.samples[:6], 'known': [k for k, _ in h.known][:5]}
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': getattr(mod, 'LEVEL', 'proof'), 'coverage': cov,
          'assumptions': sorted(ass), 'wall_s': round(time.time() - t0, 2), 'violations': len(newfailed) + len(fails)}
    if ev['level'] == 'exploration':
        cov.update({'evaluations': sum(h.cases for h in runs), 'distinct_nontrivial': sum(h.distinct for h in runs),
                    'rule': getattr(mod, 'RULE', ''), 'samples': [s for h in runs for s in h.samples][:10]})
    if ev['level'] == 'other':
        cov['explanation'] = getattr(mod, 'RULE', '')
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w'), indent=1)
    print('%s: %d/%d obligations discharged over %d functions and %d lemmas, back ends %s, %.1fs solver, %.1fs in all%s' % (
        pid, cov['discharged'], len(obl), len(results), len(lemmas), be, cov['solver_seconds'], time.time() - t0,
        '' if not runs else '; bounded: %d cases' % runs[0].cases))
    for l in lines:
        print(l)
    sys.stdout.flush()
    return rc


TRUSTED = ['clang 18 front end and its sroa/early-cse/simplifycfg/loop-simplify/always-inline passes (C++ -> LLVM IR of the real functions)',
           'tpv/ (the verification-condition generator of this framework)', 'z3 and cvc5']
COMMON = ['extraction: every function is compiled by clang from /repo on this run; callees without a contract are inlined; debug intrinsics, alignment and aliasing metadata are dropped',
          'machine integers are exact (values modulo 2^width); allocation sizes are below 2^63 and objects do not overlap',
          'templates are verified at the instantiations in tu/*.cpp, with an uninterpreted 64-bit element and, where ordered, an arbitrary strict weak order',
          'sequential semantics: no other thread touches the objects during a call']

if __name__ == '__main__':
    try:
        rc = main()
    except SystemExit:
        raise
    except Exception:
        import traceback
        traceback.print_exc()
        rc = 3
    sys.exit(rc)
