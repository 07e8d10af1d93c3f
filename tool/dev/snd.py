"""snd.py FILE.cpp: functions X1 and X2 of FILE differ in meaning (or are the same when named X1 and Xe): what does the comparison say?"""
import sys, os, tempfile, shutil; sys.path.insert(0, '/verif'); sys.setrecursionlimit(30000)
import threading; threading.stack_size(512 * 1024 * 1024)
def main():
    from vlib import facts as FX, compare as CP
    d = tempfile.mkdtemp(); os.makedirs(d + '/src'); shutil.copy(sys.argv[1], d + '/src/snd.cpp')
    FX.ensure_tool()
    FX.units = lambda repo: [('snd', d + '/src/snd.cpp', [])]
    F = FX.load(d)
    print('errors', F.units[0][2][:2], len(F.fns))
    by = {f['n']: f for f in F.fns.values()}
    cm = CP.Comparer(F, F)
    cm.changed = lambda fk: True
    bad = 0
    for n in sorted(by):
        if n[-1] == '1':
            for m in sorted(by):
                if m[:-1] == n[:-1] and m != n:
                    r = cm.compare(by[n], by[m])
                    want = m[-1] == 'e'
                    v = r.verdict
                    c = ''
                    if v == 'different' and not r.order: c = CP.certain(r)
                    flag = 'UNSOUND' if (v == 'same') != want and v == 'same' else 'FALSE' if want and c == 'all' else ''
                    if flag: bad += 1
                    print(n, m, v, c, r.why[:60], flag)
    print('bad', bad); shutil.rmtree(d)
t = threading.Thread(target=main); t.start(); t.join()
