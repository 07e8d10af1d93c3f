import sys,re
for f in sys.argv[1:]:
    s=open(f,errors='replace').read()
    s=re.sub(r'/\*.*?\*/',lambda m:'\n'*m.group(0).count('\n'),s,flags=re.S)
    print("=====",f)
    for i,l in enumerate(s.split('\n'),1):
        if not l.strip() or l.strip().startswith('// **'): continue
        print(i,l.replace('\t',' '))
