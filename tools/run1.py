import sys,time
sys.path.insert(0,'/verif')
from symion import driver
mod,func=sys.argv[1].split(':')
params=eval(sys.argv[2]) if len(sys.argv)>2 else {}
bud=float(sys.argv[3]) if len(sys.argv)>3 else 60
r=driver.explore([(mod,func,params)],'quick',bud, witness_rate=float(sys.argv[4]) if len(sys.argv)>4 else 0.2)
import json
print(json.dumps(r.stats[0].as_dict()), 'left',r.left,'wall %.2f'%r.wall, 'reached', r.reached[0])
seen={}
for f in r.failures:
    seen.setdefault(f[1],[]).append(f)
items=[]
for k,v in seen.items():
    print(k,len(v))
    for f in v[:4]: items.append(f)
for e in r.errors[:3]: print(e)
res=driver.replay_batch([dict(module=mod,harness=func,params=params,inputs=f[2]) for f in items])
for f,x in zip(items,res): print(f, x)
w=r.witnesses
res=driver.replay_batch([dict(module=mod,harness=func,params=params,inputs=x[1]) for x in w])
import collections
c=collections.Counter()
shown=0
for (si,inp,obs),x in zip(w,res):
    ok=x['outcome']=='ok'
    m = obs is None or ok and [list(o) for o in obs]==[list(o) for o in x['obs']]
    c[(x['outcome'],m)]+=1
    if not m and shown<3: print('MISMATCH',inp,obs,x); shown+=1
print(c)
