"""Run one symbolic path and print the traceback: dbg.py mod:func dict(...)"""
import sys, traceback
sys.path.insert(0,'/verif')
from symion import loader; loader.install()
import importlib
from symion.engine import ENGINE as E, Stats
from symion import symh, driver
mod,func=sys.argv[1].split(':')
params=eval(sys.argv[2]) if len(sys.argv)>2 else {}
m=importlib.import_module('harness.'+mod)
driver._worker_init()
g=driver.StateGuard()
E.stats=Stats(); E.reached=set(); E.deadline=None
stack=[[]]; n=0
maxn=int(sys.argv[3]) if len(sys.argv)>3 else 5
while stack and n<maxn:
    n+=1
    E.begin(stack.pop())
    g.restore()
    try:
        getattr(m,func)(symh.SymHarness('quick'),**params)
        print('PATH ok', E.failures)
    except BaseException as e:
        print('PATH', type(e), e, E.failures and E.failures[0][0], E.dead)
        traceback.print_exc(limit=-8)
    for k,d in E.alternatives: stack.append(E.trace[:k]+[d])
    E.end()
