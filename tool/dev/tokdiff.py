"""tokdiff.py DIR NAMESUBSTR [LINE]: token-level difference of the lines that changed"""
import sys, re, difflib; sys.path.insert(0, '/verif'); sys.setrecursionlimit(30000)
import threading; threading.stack_size(512*1024*1024)
def go():
    from vlib import facts, ref, compare as CP, norm as NM
    R = ref.load(); C = facts.load(sys.argv[1])
    cm = CP.Comparer(R, C)
    for fk, f in C.fns.items():
        if sys.argv[2] not in f['q'] and sys.argv[2] not in fk: continue
        if len(sys.argv) > 3 and False: continue
        g = R.fns.get(fk)
        if g is None or not cm.changed(fk): continue
        r = cm.compare(g, f)
        if len(sys.argv) > 3 and sys.argv[3] not in (str(f['l']), str(g['l'])): continue
        print(f['q'], C.rel(f['file']), f['l'], r.verdict, r.why, 'order' if r.order else '')
        if r.verdict == 'same': continue
        for p in CP.explain(r):
            a, b = [NM.show_line(x) if x else '' for x in p[1:3]]
            A = re.findall(r"\w+|\W", a); B = re.findall(r"\w+|\W", b)
            print('--', p[0], len(a), len(b))
            for t, i1, i2, j1, j2 in difflib.SequenceMatcher(None, A, B, autojunk=False).get_opcodes():
                if t != 'equal':
                    print('   ', t, '[', ''.join(A[max(0, i1-14):i2+5])[-700:], '] => [', ''.join(B[max(0, j1-14):j2+5])[-700:], ']')
t = threading.Thread(target=go); t.start(); t.join()
