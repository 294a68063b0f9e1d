"""Where slow queries come from: slowq.py mod:func dict(...) [seconds] [threshold]"""
import sys, traceback, time
sys.path.insert(0,'/verif')
from symion import loader; loader.install()
import importlib
from symion.engine import ENGINE as E, Stats, Engine
from symion import symh, driver
mod,func=sys.argv[1].split(':')
params=eval(sys.argv[2]) if len(sys.argv)>2 else {}
budget=float(sys.argv[3]) if len(sys.argv)>3 else 30
thr=float(sys.argv[4]) if len(sys.argv)>4 else 0.5
orig=Engine._check
import collections
where=collections.Counter()
def chk(self,*a):
    t=time.time(); r=orig(self,*a); d=time.time()-t
    if d>thr:
        fr=[f for f in traceback.extract_stack() if '/repo/' in f.filename or '/harness/' in f.filename or 'pypy' in f.filename]
        key=' < '.join('%s:%d'%(f.filename.split('/')[-1],f.lineno) for f in fr[::-1][:4])+' | '+fr[-1].line
        if key not in where: sys.stderr.write('%.1f %s %s %s\n'%(d,r,key,str(a)[:300]))
        where[key]+=d
    return r
Engine._check=chk
m=importlib.import_module('harness.'+mod)
driver._worker_init()
g=driver.StateGuard()
E.stats=Stats(); E.reached=set(); E.deadline=None
stack=[[]]; n=0
t0=time.time()
while stack and time.time()-t0<budget:
    n+=1
    E.begin(stack.pop())
    g.restore()
    try:
        getattr(m,func)(symh.SymHarness('quick'),**params)
    except BaseException as e:
        pass
    for k,d in E.alternatives: stack.append(E.trace[:k]+[d])
    E.end()
print(n,'paths'); 
for k,v in where.most_common(10): print('%.1f'%v,k)
