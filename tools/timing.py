"""Time of each configuration of a property: timing.py PROP [tier] [budget] [substring]"""
import sys
sys.path.insert(0, '/verif')
import checks
from symion import driver
prop = sys.argv[1]
tier = sys.argv[2] if len(sys.argv) > 2 else 'quick'
bud = float(sys.argv[3]) if len(sys.argv) > 3 else 60
sub = sys.argv[4] if len(sys.argv) > 4 else ''
for s in checks.CHECKS[prop]['specs']:
    for p in (s.quick if tier == 'quick' else s.thorough):
        if sub in s.func + str(p):
            r = driver.explore([(s.module, s.func, p)], tier, bud, witness_rate=0)
            print('%6.1f %7d %3d %s %s %s %s' % (r.wall, r.stats[0].as_dict()['paths'], r.stats[0].as_dict()['aborted'], 'LEFT' if r.left[0] else '', s.func, p,
                  set(f[1] for f in r.failures) or ''), flush=True)
