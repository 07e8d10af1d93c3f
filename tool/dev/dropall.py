"""dropall.py [KINDS]: removes each statement in turn and lists those whose removal the
comparison does not see (audit of what the normal form ignores)"""
import sys, copy, time; sys.path.insert(0, '/verif'); sys.setrecursionlimit(30000)
import threading; threading.stack_size(512 * 1024 * 1024)
from vlib import facts, compare
from multiprocessing import Process, Queue
kinds = set((sys.argv[1] if len(sys.argv) > 1 else "expr,throw,if,ret,delete").split(","))
def sites(fn):
    out = []
    def go(o):
        if isinstance(o, dict):
            for k, v in o.items():
                if isinstance(v, list) and k in ("b", "s", "body", "a"):
                    for i, x in enumerate(v):
                        if isinstance(x, dict) and x.get("k") in kinds: out.append((v, i))
                if isinstance(v, (dict, list)): go(v)
        elif isinstance(o, list):
            for x in o: go(x)
    go(fn.get("body"))
    return out
def work(n, N):
    F = facts.load()
    seen = {}; out = []
    fl = sorted((f for f in F.fns.values() if F.rel(f['file']).startswith('src/') and f.get('body')), key=lambda f: (f['file'], f['l'], f['fk']))
    for j, f in enumerate(fl):
        if hash_(f['file'] + str(f['l'])) % N != n: continue
        g = copy.deepcopy(f); g.pop('_sz', None); g.pop('_lf', None)
        for v, i in sites(g):
            o = v[i]; key = (f['file'], o.get('l'), o['k'], i)
            if seen.get(key, (0, 0))[1] or seen.get(key, (0, 0))[0] > 6 or '__assert_fail' in str(o): continue
            v[i] = {'k': 'nop', 'l': o.get('l')}
            g.pop('_sz', None); g.pop('_lf', None)
            C = copy.copy(F); C.fns = dict(F.fns); C.fns[f['fk']] = g
            try:
                r = compare.Comparer(F, C).compare(f, g)
                a, b, c = seen.get(key, (0, 0, None))
                seen[key] = (a + 1, b + (r.verdict == 'different'), (r.verdict, F.rel(f['file']), o.get('l'), o['k'], f['q'].split('<')[0][-40:]))
            except Exception as ex: print('ERR', f['q'][:60], ex, flush=True)
            v[i] = o
    for a, b, c in seen.values():
        if not b: print(*c, flush=True)
def hash_(s):
    h = 0
    for c in s: h = (h * 31 + ord(c)) & 0xffffffff
    return h
if __name__ == "__main__":
    N = 7
    def run(n):
        t = threading.Thread(target=work, args=(n, N)); t.start(); t.join()
    ps = [Process(target=run, args=(n,)) for n in range(N)]
    [p.start() for p in ps]; [p.join() for p in ps]
