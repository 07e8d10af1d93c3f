import sys,time; sys.path.insert(0,'/verif'); sys.setrecursionlimit(30000)
from vlib import facts, compare, terms as X
F=facts.load()
Cm=compare.Comparer(F,F)
t=time.time()
import collections
c=collections.Counter()
for fk,f in F.fns.items():
    t0=time.time()
    r=Cm.compare(f,f); c[r.verdict]+=1
    if r.verdict!='same': print(r.verdict,f['q'],r.why,len(r.ref),r.order)
    if time.time()-t0>1: print('slow',f['q'],time.time()-t0)
print(c,time.time()-t)
