"""mutall.py: applies every elementary mutation of every library function to the IR and lists
those the comparison does not see (audit of what the normal form identifies)"""
import sys, copy; sys.path.insert(0, '/verif'); sys.setrecursionlimit(30000)
import threading; threading.stack_size(512 * 1024 * 1024)
from vlib import facts, compare
from multiprocessing import Process
CMP = {'<': '<=', '<=': '<', '>': '>=', '>=': '>', '==': '!=', '!=': '=='}
AR = {'+': '-', '-': '+', '*': '+', '/': '*', '%': '/', '&&': '||', '||': '&&', '&': '|', '|': '&', '<<': '>>', '>>': '<<', '^': '&'}
AS = {'+=': '-=', '-=': '+=', '*=': '/=', '/=': '*=', '|=': '&=', '&=': '|='}

def sites(fn, F):
    out = []
    def go(o, p, k):
        if isinstance(o, dict):
            if o.get('k') in ('cond', 'expr', 'if') and '__assert_fail' in str(o): return
            if o.get('k') == 'throw': return
            kind = o.get('k')
            if kind == 'bin' and o.get('op') in CMP: out.append((o, 'op', CMP[o['op']], None))
            elif kind == 'bin' and o.get('op') in AR: out.append((o, 'op', AR[o['op']], None))
            elif kind == 'asg' and o.get('op') in AS: out.append((o, 'op', AS[o['op']], None))
            elif kind == 'int' and 'v' in o: out.append((o, 'v', int(o['v']) + 1, None))
            elif kind == 'flt' and 'v' in o: out.append((o, 'v', '7.5' if isinstance(o['v'], str) else 7.5, None))
            elif kind == 'brk' and p is not None: out.append((o, 'k', 'cnt', None))
            elif kind == 'cnt' and p is not None: out.append((o, 'k', 'brk', None))
            elif kind == 'un' and o.get('op') == '!' and p is not None: out.append((p, k, o['a'], o['l']))
            elif kind == 'un' and o.get('op') == '-' and p is not None: out.append((p, k, o['a'], o['l']))
            elif kind == 'inc' and o.get('op') in ('++', '--'): out.append((o, 'op', '--' if o['op'] == '++' else '++', None))
            elif kind == 'str' and o.get('v'): out.append((o, 'v', o['v'] + 'X', None))
            if kind == 'call':
                if o.get('n') in ('conj', 'real', 'imag') and p is not None and len(o.get('a', [])) == 1: out.append((p, k, o['a'][0], o['l']))
                a = [x for x in o.get('a', []) if x]
                if len(a) >= 2:
                    for j in range(len(a) - 1):
                        if F.ty(a[j]) == F.ty(a[j + 1]) and a[j] != a[j + 1] and 'str' not in (a[j].get('k'), a[j + 1].get('k')):
                            b = list(o['a']); b[j], b[j + 1] = b[j + 1], b[j]; out.append((o, 'a', b, None))
            for kk, v in o.items():
                if isinstance(v, (dict, list)): go(v, o, kk)
        elif isinstance(o, list):
            for i, v in enumerate(o):
                if isinstance(v, (dict, list)): go(v, o, i)
    go(fn.get('body'), None, None)
    return out

def hash_(s):
    h = 0
    for c in s: h = (h * 31 + ord(c)) & 0xffffffff
    return h

def work(n, N):
    F = facts.load(); seen = {}
    fl = sorted((f for f in F.fns.values() if F.rel(f['file']).startswith('src/') and f.get('body')), key=lambda f: (f['file'], f['l'], f['fk']))
    for f in fl:
        if hash_(f['file'] + str(f['l'])) % N != n: continue
        g = copy.deepcopy(f); ss = sites(g, F)
        for idx, (o, key, val, l) in enumerate(ss):
            kk = (f['file'], o.get('l') if isinstance(o, dict) else l, key if isinstance(key, str) else '.', o.get('k') if isinstance(o, dict) else '.', str(o.get(key))[:12] if isinstance(o, dict) and isinstance(key, str) and not isinstance(o.get(key), (dict, list)) else '')
            a, b, c = seen.get(kk, (0, 0, None))
            if b or a > 5: continue
            old = o[key]; o[key] = val
            g.pop('_sz', None); g.pop('_lf', None)
            C = copy.copy(F); C.fns = dict(F.fns); C.fns[f['fk']] = g
            try:
                v = compare.Comparer(F, C).compare(f, g).verdict
            except Exception as ex:
                v = 'ERR ' + str(ex)[:50]
            o[key] = old
            seen[kk] = (a + 1, b + (v == 'different'), (v, F.rel(f['file']), kk[1], kk[3] + ':' + kk[4].replace(' ', '_'), f['q'].split('<')[0][-40:]))
    for a, b, c in seen.values():
        if not b: print(*c, flush=True)
    print('total', len(seen), 'seen', sum(1 for x in seen.values() if x[1]), flush=True)

if __name__ == "__main__":
    N = 7
    def run(n):
        t = threading.Thread(target=work, args=(n, N)); t.start(); t.join()
    ps = [Process(target=run, args=(n,)) for n in range(N)]
    [p.start() for p in ps]; [p.join() for p in ps]
