import sys,json; sys.path.insert(0,'/verif')
from vlib import facts
A=facts.load('/repo'); B=facts.load('/tmp/w/rf')
for fk,f in A.fns.items():
    if f['q']=='PsimagLite::operatorPlus' and fk in B.fns and facts.irhash(A,f)!=facts.irhash(B,B.fns[fk]):
        def show(F,o):
            def g(o):
                if isinstance(o,dict): return {k:(F.types[v] if k in('t','at','et','ret') and isinstance(v,int) and v>=0 else g(v)) for k,v in o.items() if k not in facts.SKIP and k!='id'}
                if isinstance(o,list): return [g(x) for x in o]
                return o
            return json.dumps(g(o),indent=0,sort_keys=True).split('\n')
        import difflib
        print('\n'.join(list(difflib.unified_diff(show(A,f['body']),show(B,B.fns[fk]['body']),lineterm='',n=6))[:50])); break
