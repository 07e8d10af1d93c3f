import sys; sys.path.insert(0,'/verif/vlib')
import facts,time
F=facts.load()
have=set()
for fk,f in F.fns.items():
    have.add((f['file'],f['l']))
out=sorted({(p[1].replace('/repo/src/',''),p[2],p[0].split('::')[-1]) for p in F.pats if (p[1],p[2]) not in have})
last=None
for f,l,n in out:
    if f!=last: print(); print(f,end=': ')
    print(n+'@'+str(l),end=' ')
    last=f
