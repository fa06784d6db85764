# development aid: run one spec (optionally one case) in this process with a stack dump
import sys, importlib, faulthandler, time, os
sys.path.insert(0, os.path.join(os.path.dirname(__file__), '..', 'props'))
import build, prove
mod = importlib.import_module(sys.argv[1])
name, secs = sys.argv[2], int(sys.argv[3])
case = int(sys.argv[4]) if len(sys.argv) > 4 else None
fns = [f for f in mod.FNS if f.name == name]
f = fns[0]
tu = f.tu or mod.TU
m = build.build_ir(tu, [x.fn for x in mod.FNS if (x.tu or mod.TU) == tu] + list(mod.KEEP), '%s_%s' % (sys.argv[1], tu))
faulthandler.dump_traceback_later(secs, exit=True)
cases = f.cases if case is None else [f.cases[case]]
for c in cases:
    f.cases = [c]
    t = time.time()
    r = prove.verify(m[0], m[1], f, 20, 1000)
    bad = [o for o in r['obligations'] if o['result'] != 'proved']
    print(c, r['status'], len(r['obligations']), round(time.time() - t, 1), r['error'] or '', flush=True)
    for o in bad[:6]:
        print('    ', o['result'], o['name'], o['src'], o['path'])
