"""replay.py <replay.json>: runs the recorded failing case against /repo's current tree"""
import json
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import harness
r = json.load(open(sys.argv[1]))
for o in r['failed_obligations']:
    print('failed obligation:', o['contract'], '/', o['obligation'], o['result'], o['at'])
f = r['failing_input']
if f:
    h = harness.run(os.path.basename(f['driver'])[:-4], f['seed'], 30, case=f['case'], scenario=f['scenario'])
    print(h.out)
    print(h.err[-3000:])
    sys.exit(1 if h.fails else 0)
print('no failing input recorded')
