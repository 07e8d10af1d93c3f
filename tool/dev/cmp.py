import sys,time; sys.path.insert(0,'/verif'); sys.setrecursionlimit(30000)
from vlib import facts,compare,norm,terms as X
D=sys.argv[1]; verbose=len(sys.argv)>2
A=facts.load('/repo'); B=facts.load(D)
ea={u[0]:len(u[2]) for u in A.units}
for u in B.units:
    if len(u[2])>ea[u[0]]: print('ERR',u[0],[e for e in u[2]][:3])
cm=compare.Comparer(A,B)
seen=set()
for fk,f in A.fns.items():
    if not A.rel(f['file']).startswith('src/'): continue
    g=B.fns.get(fk)
    if g is None: print('gone',f['q'][:80]); continue
    if not cm.changed(fk): continue
    r=cm.compare(f,g)
    key=(A.rel(f['file']),f['l'])
    if r.verdict=='same':
        if verbose: print('same',f['q'][-50:],r.why)
        continue
    if key in seen: continue
    seen.add(key)
    print('**',r.verdict,f['q'][:90],key,r.why,'order' if r.order else '')
    for t,l in (('-',r.ref),('+',r.cur)):
        for x in l[:6]: print('   ',t,x.l,norm.show_line(x)[:300],x.seq if r.order else '')
