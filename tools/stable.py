"""python tools/stable.py OUT.json : exits 0 if every stable test of /opt/vp/BASELINE.json passed"""
import json, sys
base = json.load(open('/opt/vp/BASELINE.json'))
out = json.load(open(sys.argv[1]))
def passed(d):
    for k in ('passed', 'stable', 'tests'):
        if k in d and isinstance(d[k], list): return set(d[k])
    return {k for k, v in (d.get('results') or d).items() if v in ('passed', 'pass', True)}
miss = sorted(passed(base) - passed(out))
print(len(passed(base)), 'stable;', len(miss), 'missing')
for m in miss[:40]: print('  ', m)
sys.exit(bool(miss))
