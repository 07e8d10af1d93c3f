"""eldbg.py DIR NAME: why no elementary edit"""
import sys; sys.path.insert(0,'/verif'); sys.setrecursionlimit(30000)
from vlib import ref, facts as FX, elem as EL
import traceback
R=ref.load(); C=FX.load(sys.argv[1])
for k,f in R.fns.items():
    if f['n']==sys.argv[2] and k in C.fns:
        g=C.fns[k]; d=EL.Diff(R,C)
        for x,y in zip(f.get('params') or [],g.get('params') or []):
            if 'id' in x and 'id' in y: d.m[x['id']]=y['id']; d.inv[y['id']]=x['id']
        try: d.go(f.get('inits') or [],g.get('inits') or []); d.go(f['body'],g['body'])
        except EL.Structural: 
            tb=sys.exc_info()[2]
            while tb.tb_next: tb=tb.tb_next
            l=tb.tb_frame.f_locals
            print('structural', str(l.get('a'))[:400]); print('   ', str(l.get('b'))[:400])
        print([(o[0],str(o[1])[:200],str(o[2])[:200]) for o in d.out][:4])
        break
