"""python3 tool/dev/bugsweep.py CORPUS: applies every edit of CORPUS (B = [(prop, file, old, new)]) to one scratch
copy and lists, per edit, which properties would report it (one edit per function, please)"""
import sys, os, shutil, subprocess; sys.path.insert(0, '/verif'); sys.setrecursionlimit(30000)
import threading; threading.stack_size(512 * 1024 * 1024)
from vlib import facts, ref, delta, runner
from rules import scope
ns = {}; exec(open(sys.argv[1]).read(), ns)
ONLY = int(sys.argv[2]) if len(sys.argv) > 2 else None
D = os.environ.get('BSD', '/tmp/w/bs') + ('' if ONLY is None else '_%d' % ONLY); subprocess.run(['rm', '-rf', D]); os.makedirs(D)
for x in ('src', 'examples', 'loki'): shutil.copytree('/repo/' + x, D + '/' + x)
B = list(enumerate(ns['B']))
if ONLY is not None: B = [B[ONLY]]
ALONE = []
def main():
    marks = []
    for ix, (pr, f, o, n) in B:
        p = D + '/src/' + f; s = open(p).read()
        c = s.count(o)
        if c != 1: print('COUNT', c, f, o[:60].replace('\n', '|')); continue
        i = s.find(o); ctx0 = s[max(0, i - 150):i]; open(p, 'w').write(s.replace(o, n)); marks.append((ix, pr, f, o, n, ctx0))
    R = ref.load(); C = facts.load(D)
    for u in C.units:
        if u[2]:
            r = [x for x in R.units if x[0] == u[0]] if hasattr(R, 'units') else []
            if not r or len(r[0][2]) != len(u[2]): print('ERRORS', u[0], str(u[2])[:300])
    DL = delta.compute(R, C)
    class X: pass
    hits = {}
    for pr in sorted(scope.MODEB):
        ctx = runner.Ctx.__new__(runner.Ctx); ctx.prop = pr; ctx.tier = 'quick'; ctx.C = C; ctx.R = R; ctx._D = DL; ctx._ndebug = None
        ctx.counts = {}; ctx.notes = []; ctx.undecided = []
        for fi in runner.mode_b(ctx): hits.setdefault((fi.file, fi.line), set()).add(pr)
    import importlib, json
    from rules import common
    K = {(k['property'], k['instance']) for k in json.load(open('/verif/known_findings.json'))['findings']}
    absf = []
    for pr in sorted(os.path.basename(x)[:-3].upper() for x in __import__('glob').glob('/verif/rules/p[0-9][0-9].py')):
        mod = importlib.import_module('rules.' + pr.lower())
        ctx = runner.Ctx.__new__(runner.Ctx); ctx.prop = pr; ctx.tier = 'quick'; ctx.C = C; ctx.R = R; ctx._D = DL; ctx._ndebug = None
        ctx.counts = {}; ctx.notes = []; ctx.undecided = []
        for nm, fn in mod.RULES:
            try:
                for fi in fn(ctx): absf.append((pr, fi.rule, fi.file, fi.line))
            except Exception as e: print('RULE', pr, nm, str(e)[:100])
    for ix, pr, f, o, n, c0 in marks:
        s = open(D + '/src/' + f).read(); k = s.find(c0 + n); cp = 0
        if k < 0: c0 = c0[-40:]; k = s.find(c0 + n)
        k += len(c0)
        while cp < min(len(o), len(n)) and o[cp] == n[cp]: cp += 1
        line = s[:k + cp].count('\n') + 1
        cand = [(g['l'], g) for g in C.fns.values() if C.rel(g['file']) == 'src/' + f and g['l'] <= line and not g.get('lambda')]
        if not cand: print('NOFN', pr, f, line); continue
        best = max(c[0] for c in cand)
        its = [it for it in DL['items'] if it['file'] == 'src/' + f and it.get('cl') == best]
        hs = hits.get(('src/' + f, best), set())
        allh = set().union(*hits.values()) if hits else set()
        ends = min([c[0] for c in [(g['l'], g) for g in C.fns.values() if C.rel(g['file']) == 'src/' + f and not g.get('lambda')] if c[0] > line] or [10**9])
        for a in absf:
            if a[2] == 'src/' + f and best <= a[3] < ends: hs = hs | {a[0]}
        st = 'ok  ' if pr in hs else 'MISS'
        if st == 'MISS' and ONLY is None and pr not in hs: ALONE.append(ix); continue
        print(st, ix, pr, f, line, sorted(hs), sorted(set(it['verdict'] + ('' if it['verdict'] == 'different' else ':' + str(it.get('why', ''))[:40]) for it in its)) if st == 'MISS' else '')
t = threading.Thread(target=main); t.start(); t.join()

if ONLY is None:
    from concurrent.futures import ThreadPoolExecutor
    def one(i):
        o = subprocess.run([sys.executable, __file__, sys.argv[1], str(i)], capture_output=True, text=True).stdout
        subprocess.run(['rm', '-rf', '/tmp/w/bs_%d' % i])
        return o
    with ThreadPoolExecutor(4) as ex:
        for o in ex.map(one, ALONE): print(o, end='')
