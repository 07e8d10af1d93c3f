"""python3 tool/dev/nf2.py DIR FUNC: the normal forms of a function, reference and scratch copy"""
import sys; sys.path.insert(0, '/verif'); sys.setrecursionlimit(30000)
from vlib import facts, ref, norm, compare as CP
R = ref.load(); C = facts.load(sys.argv[1])
cm = CP.Comparer(R, C)
n = 0
for k, f in sorted(R.fns.items()):
    if sys.argv[2] in f['q'] and k in C.fns and cm.changed(k):
        n += 1
        if n > 1: break
        for F, T in ((R, 'ref'), (C, 'cur')):
            print('==', T)
            name, pol = cm.policies()[0]
            for l in norm.Norm(F, pol, 60000).run(F.fns[k]).lines:
                print('  %d: %s #%s' % (l.l, norm.show_line(l), l.seq))
