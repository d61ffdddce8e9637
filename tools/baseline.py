'''Compare an OUT.json of /opt/vp/test.sh with the stable baseline.'''
import json, sys
b = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
o = json.load(open(sys.argv[1]))
miss = sorted(b - set(o['passed']))
print(len(o['passed']), 'passed; stable tests not passing:', miss[:20])
sys.exit(bool(miss))
