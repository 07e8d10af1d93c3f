"""run the absolute rules of one property on the current tree, or on a scratch copy: rules.py P01 [REPO]"""
import sys, os; sys.path.insert(0, '/verif'); sys.setrecursionlimit(30000)
import importlib
from vlib import facts as FX, ref as RF
class Ctx(object):
    def __init__(s, repo=None):
        s.C = FX.load(repo) if repo else FX.load(); s.R = RF.load(); s.counts = {}; s.undecided = []; s.notes = []; s.tier = "quick"
    def count(s, n, k=1): s.counts[n] = s.counts.get(n, 0) + k
    def floor(s, n, k):
        if s.counts.get(n, 0) < k: print("FLOOR", n, s.counts.get(n, 0), k)
    @property
    def ndebug(s): return FX.load(ndebug=True)
m = importlib.import_module("rules." + sys.argv[1].lower())
c = Ctx(sys.argv[2] if len(sys.argv) > 2 else None)
for n, fn in m.RULES:
    r = fn(c); seen = set()
    for f in r:
        if f.key() in seen: continue
        seen.add(f.key()); print(f.show()[:int(os.environ.get("W", "220"))])
    print("==", n, len(seen), c.counts)
print("undecided", len(c.undecided), [u[:150] for u in c.undecided[:10]])
