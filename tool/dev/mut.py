"""IR mutation: for random library functions apply one mutation, compare."""
import sys,time,random,copy,collections; sys.path.insert(0,'/verif'); sys.setrecursionlimit(30000)
from vlib import facts, compare, norm, terms as X
F=facts.load()
random.seed(int(sys.argv[1])); NM=int(sys.argv[2]); show=sys.argv[3] if len(sys.argv)>3 else 'same'
lib=[f for f in F.fns.values() if F.rel(f['file']).startswith('src/') and f.get('body') and compare.nsize(f)>8]
def sites(fn):
    out=[]
    def go(o,parent,key,inassert):
        if isinstance(o,dict):
            if o.get('k') in('cond','expr','if') and '__assert_fail' in str(o): return
            out.append((o,parent,key))
            for k,v in list(o.items()):
                if isinstance(v,(dict,list)): go(v,o,k,inassert)
        elif isinstance(o,list):
            for i,v in enumerate(o):
                if isinstance(v,(dict,list)): go(v,o,i,inassert)
    go(fn['body'],None,None,False)
    return out
CMP={'<':'<=','<=':'<','>':'>=','>=':'>','==':'!=','!=':'=='}
AR={'+':'-','-':'+','*':'+','/':'*','%':'/','&&':'||','||':'&&','+=':'-=','-=':'+='}
def mutate(fn):
    ss=sites(fn); random.shuffle(ss)
    for o,p,k in ss:
        kind=o.get('k')
        ty=F.ty(o) if not isinstance(o.get('t'),dict) else ''
        if 'ostream' in ty or 'cerr' in str(o)[:400]: continue
        if kind=='bin' and o.get('op') in CMP: a=o['op']; o['op']=CMP[a]; return 'cmp %s->%s l%s'%(a,o['op'],o['l'])
        if kind=='bin' and o.get('op') in AR: a=o['op']; o['op']=AR[a]; return 'arith %s->%s l%s'%(a,o['op'],o['l'])
        if kind=='asg' and o.get('op') in AR: a=o['op']; o['op']=AR[a]; return 'asg %s->%s l%s'%(a,o['op'],o['l'])
        if kind=='int': a=o['v']; o['v']=int(a)+1; return 'int %s+1 l%s'%(a,o['l'])
        if kind=='ref' and o.get('dk') in ('p','l') and False: pass
        if kind=='call' and len([x for x in o.get('a',[]) if x])>=2 and F.ty(o['a'][0])==F.ty(o['a'][1]) and o['a'][0]!=o['a'][1]:
            o['a'][0],o['a'][1]=o['a'][1],o['a'][0]; return 'swap args %s l%s'%(o.get('n'),o['l'])
        if kind=='un' and o.get('op')=='!':
            if p is not None: 
                e=o['e'] if 'e' in o else o.get('a'); 
                if isinstance(e,dict): p[k]=e; return 'drop ! l%s'%o['l']
        if kind in('expr','throw','if','ret') and isinstance(p,list) and random.random()<.5:
            if kind=='ret' : continue
            l=o['l']; p[k]={'k':'nop','l':l}; return 'drop %s l%s'%(kind,l)
        if kind=='call' and o.get('n')=='conj' and p is not None: p[k]=o['a'][0]; return 'drop conj l%s'%o['l']
    return None
cnt=collections.Counter(); t=time.time()
for _ in range(NM):
    f=random.choice(lib); g=copy.deepcopy(f); g.pop('_sz',None); g.pop('_lf',None)
    d=mutate(g)
    if not d: cnt['nomut']+=1; continue
    C=copy.copy(F); C.fns=dict(F.fns); C.fns[f['fk']]=g
    cm=compare.Comparer(F,C)
    r=cm.compare(f,g)
    cnt[r.verdict+(' order' if r.order else '')]+=1
    cnt['nl%d'%min(9,(len(r.ref)+len(r.cur)))]+= (r.verdict=='different')
    if r.verdict in show: print(r.verdict[:4],"|",d,'|',f['q'][-70:],F.rel(f["file"]),f["l"],r.why[:40])
print(cnt,time.time()-t)
