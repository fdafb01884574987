"""compare a test.sh output with the baseline"""
import json, sys
a = json.load(open(sys.argv[1])); b = json.load(open('/opt/vp/BASELINE.json'))
st = set(b['stable']); p = set(a['passed'])
print('stable', len(st), 'missing', sorted(st - p)[:20])
