import sys,os; sys.path.insert(0,'/verif'); sys.setrecursionlimit(30000)
from vlib import facts, norm, terms as X
F=facts.load()
def small(fn):
    b=fn.get('body')
    if not b or b['k']!='seq': return False
    n=sum(1 for _ in facts.walk(b))
    if any(x.get('k') in('for','while','do','rfor','try') for x in facts.walk(b)): return False
    return n<=60
if __name__=="__main__":
    q=sys.argv[1]; mx=int(sys.argv[2]) if len(sys.argv)>2 else 1
    c=0
    for k,f in sorted(F.fns.items()):
        if q in f['q']:
            c+=1
            if c>mx: break
            print('==',f['q'],F.rel(f['file']),f['l'],[ (p['n'],F.ty(p)) for p in f['params']], f.get('targs'))
            N=norm.Norm(F,small)
            nf=N.run(f)
            for l in nf.lines: print('  %d: %s   #%s'%(l.l,norm.show_line(l),l.seq))
