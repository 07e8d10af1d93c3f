import sys,os,shutil,subprocess; sys.path.insert(0,'/verif'); sys.setrecursionlimit(30000)
ns={}; exec(open(sys.argv[1]).read(),ns)
D=sys.argv[2] if len(sys.argv)>2 else '/tmp/w/rf'; subprocess.run(['rm','-rf',D]); os.makedirs(D)
for x in ('src','examples','loki'): shutil.copytree('/repo/'+x,D+'/'+x)
for f,o,n in ns['R']:
    p=D+'/src/'+f; s=open(p).read()
    if s.count(o)<1: print('NOT FOUND',f,o[:60]); continue
    open(p,"w").write(s.replace(o,n,1 if ns.get("ONCE") else -1))
